"""C11: material grids.  Specification: spec/MatGrid.tla."""
import os
import re
import vf
import h5

F = 16384
LIB = """
(define NX 1) (define NY 1) (define NZ 1)
(define (q x) (if (< (abs x) 60000) (inexact->exact (round (* 16384 x))) 999999999))
(define (gp i j k) (vector3 (if (= NX 1) 0 (- (/ i NX) 1/2)) (if (= NY 1) 0 (- (/ j NY) 1/2)) (if (= NZ 1) 0 (- (/ k NZ) 1/2))))
(define (dump)
  (get-epsilon)
  (let loop ((l (- (* NX NY NZ) 1)) (acc '()))
    (if (< l 0) acc
      (loop (- l 1) (cons (q (rscalar-field-get-point cur-field (gp (quotient l (* NY NZ)) (modulo (quotient l NZ) NY) (modulo l NZ)))) acc)))))
(define (arr g) (object-property-value g 'matgrid))
(define (setg! g v ny nz) (array-index-map! (arr g) (lambda (x y z) (exact->inexact (/ (vector-ref v (+ (* (+ (* x ny) y) nz) z)) 16)))))
(define (flat l) (if (pair? l) (append (flat (car l)) (flat (cdr l))) (if (null? l) '() (list l))))
(define (vals g) (map q (flat (array->list (arr g)))))
(define (mg kind lo hi nx ny nz v)
  (make material-grid (material-grid-kind kind) (epsilon-min lo) (epsilon-max hi) (size nx ny nz)
    (matgrid-init (lambda (x y z) (define (i t m) (inexact->exact (round (* (+ t 0.5) m))))
       (exact->inexact (/ (vector-ref v (+ (* (+ (* (i x nx) ny) (i y ny)) nz) (i z nz))) 16))))))
"""


def sym(f):
    return [f[i] if i <= len(f) - 1 - i else f[len(f) - 1 - i] for i in range(len(f))]


def vec(v):
    return "(vector %s)" % " ".join(map(str, v))


def mirrored(N, f):
    """symmetric under the reflection of each axis"""
    k = [min(i, n - 1 - i) for n in N for i in range(n)]
    a, b, c = k[:N[0]], k[N[0]:N[0] + N[1]], k[N[0] + N[1]:]
    return [f[(x * N[1] + y) * N[2] + z] for x in a for y in b for z in c]


def prepare(r):
    # the edges of the cell are points of their own, mirrored on the opposite edges: the default needs each reflection
    m = [mirrored if r["default"]["t"] == "grid" and r["default"]["g"] == i + 1 else lambda N, f: sym(f) for i in range(3)]
    if r["sym"]:
        for i, g in enumerate(r["grids"]):
            g["data"] = m[i](g["N"], g["data"])
            r["second"][i] = m[i](g["N"], r["second"][i])


def ctl(r):
    n, fl = r["n"], r["flat"]
    s = LIB + "(set! geometry-lattice (make lattice %s (size 1 %s %s)))\n(set! resolution (vector3 %d %d %d))\n(set! mesh-size 1)\n" % (
        "" if r["basis"] == 1 else "(basis1 1 0 0) (basis2 0.3 1 0)" if r["d"] == 2 else "(basis1 1 0 0) (basis2 0.2 1 0) (basis3 0.1 0.3 1)" if r["d"] == 3 else "",
        "no-size" if fl[1] else 1, "no-size" if fl[2] else 1, *n)
    for v, x in zip(("NX", "NY", "NZ"), n):
        s += "(set! %s %d)\n" % (v, x)
    for i, g in enumerate(r["grids"]):
        s += "(define g%d (mg %d %d %d %d %d %d %s))\n" % (i + 1, g["kind"], g["lo"], g["hi"], *g["N"], vec(g["data"]))
    m = lambda m: {"grid": "g%d" % m["g"], "self": "nothing", "med": "(make dielectric (epsilon %d))" % m["e"]}[m["t"]]
    s += "(set! default-material %s)\n(set! geometry (list\n" % m(r["default"])
    for o in r["objs"]:
        c, z = [], []
        for j in range(3):
            lo, hi = o["lo"][j], o["hi"][j]
            c.append("0" if fl[j] else "(- %d/%d 1/2)" % (lo + hi, 16 * n[j]))
            z.append("1" if fl[j] else "%d/%d" % (hi - lo, 8 * n[j]))
        s += "  (make block (center %s) (size %s) (material %s))\n" % (" ".join(c), " ".join(z), m(o["m"]))
    return s + "))\n(set! num-bands 4)(set! tolerance 1e-9)\n"


def used(r):
    q = []
    for m in [o["m"] for o in r["objs"]] + [r["default"]]:
        if m["t"] == "grid" and m["g"] not in q:
            q.append(m["g"])
    return q


def struct(r, data=None):
    gs = [dict(g, data=data[i]) if data else g for i, g in enumerate(r["grids"])]
    return dict(n=r["n"], flat=r["flat"], grids=gs, default=r["default"], objs=r["objs"])


K = {1: ["0.31 0 0", "0.13 0 0", "0.42 0 0"], 2: ["0.31 0.17 0", "0.12 0.4 0", "0.42 0.23 0"], 3: ["0.31 0.17 0.23", "0.12 0.4 0.07", "0.23 0.42 0.3"]}


def q(x):
    return int(round(F * x)) if abs(x) < 60000 else 999999999


def numbers(line):
    return [float(x) for x in re.findall(r",\s*([^,\s]+)", line)]


def session(r):
    cfg, np = r["build"], 2 if "mpi" in r["build"] else 1
    out = []
    bad = lambda run, s: [dict(fail=(run.out[-300:] if not run.timed_out else "no end"), _s=s)]
    if r["mode"] == "s":
        nn, mm = r["N"], r["M"]
        s = LIB + "(define g1 (mg 0 1 2 %d %d %d %s))\n(define g2 (mg 0 1 2 %d %d %d (make-vector %d 3)))\n(define g3 (mg 0 1 2 %d %d %d (make-vector %d 5)))\n" % (
            *nn, vec(r["data"]), *nn, len(r["data"]), *mm, mm[0] * mm[1] * mm[2])
        s += '(save-material-grid g1 "mat.h5")\n(load-material-grid! g2 "mat.h5" (vector3 1 1 1))\n(load-material-grid! g3 "mat.h5" (vector3 %d %d %d))\n' % tuple(r["per"])
        s += '(randomize-material-grid! g1 %d/16)\n(emit "s" (vals g2) (vals g3) (vals g1))\n' % r["noise"]
        run = vf.run_mpb(cfg, s, np=np, timeout=120)
        x = run.one("s")
        if not x:
            return bad(run, s)
        d = h5.read(os.path.join(run.dir, "mat.h5"))["data"]["data"]
        return [dict(kind="s", N=nn, M=mm, per=r["per"], data=r["data"], noise=r["noise"], fdims=list(d[0]), file=[int(round(16 * v)) if abs(v * 16 - round(16 * v)) < 1e-6 else -1 for v in d[1]],
                     again=x[0], other=x[1], rnd=x[2], _s=s, _d="files in the %s build" % cfg)]
    prepare(r)
    s0 = ctl(r)
    d0 = "%d-D, %s build" % (r["d"], cfg)
    u = used(r)
    if r["mode"] == "e":
        s = s0 + '(init-params NO-PARITY true)\n(emit "e1" (dump))\n'
        if cfg == "complex" and u:
            s += '(print-material-grids-deps-du)\n'
        path = "t-epsilon.h5"
        if u and np == 1:
            s += '(output-epsilon)\n'
        elif u:
            # files written in parallel have their first dimensions exchanged
            x = s0 + '(init-params NO-PARITY true)\n(output-epsilon)\n'
            run = vf.run_mpb("complex", x)
            if run.rc:
                return bad(run, x)
            path = os.path.join(run.dir, path)
        for i in range(3):
            s += "(setg! g%d %s %d %d)\n" % (i + 1, vec(r["second"][i]), r["grids"][i]["N"][1], r["grids"][i]["N"][2])
        s += '(init-params NO-PARITY true)\n(emit "e2" (dump))\n'
        # matching must find the data of the file again
        convex = u and all(r["grids"][g - 1]["kind"] == 2 for g in u)
        if u and (convex or r["band"] == 1):
            s += '(material-grids-match-epsilon-file! "%s" 1e-4)\n(emit "m" (dump) (append %s))\n' % (path, " ".join("(vals g%d)" % g for g in u))
        run = vf.run_mpb(cfg, s, np=np, timeout=200)
        e1, e2 = run.one("e1"), run.one("e2")
        if run.rc or not e1 or not e2:
            return bad(run, s)
        out.append(dict(kind="e", s=struct(r), eps=e1[0], _s=s, _d=d0))
        out.append(dict(kind="e", s=struct(r, r["second"]), eps=e2[0], _s=s, _d=d0 + ", second data"))
        dep = [numbers(ln)[2:] for ln in run.out.splitlines() if ln.startswith("depsdu:,")]
        if dep:
            out.append(dict(kind="d", s=struct(r), d=[[q(x) for x in v] for v in dep], _s=s, _d=d0))
        m = run.one("m")
        if m:
            out.append(dict(kind="m", want=e1[0], before=e2[0], after=m[0], data=m[1], convex=bool(convex), _s=s, _d=d0 + ", matching"))
        return out
    if not u:
        return []
    total = sum(len(r["grids"][g - 1]["data"]) for g in u)
    iu = r["iu"] % total
    if r["sym"]:
        # in a symmetric structure a datum and its mirror image change together: only without inversion symmetry of the build
        if cfg in ("inv", "invmpi"):
            cfg = "mpi" if np > 1 else "complex"
    s = s0 + "(init-params NO-PARITY true)\n(define k (vector3 %s))\n" % K[r["d"]][r["k"] - 1]
    s += "(define a (material-grids-approx-gradient k %d %d 0.002))\n(define b (material-grids-approx-gradient k %d %d -0.002))\n" % (r["band"], iu, r["band"], iu)
    s += '(solve-kpoint k)\n(if (mpi-is-master?) (newline))(force-output)\n(print-material-grids-gradient %d)\n(if (mpi-is-master?) (newline))\n(emit "g" a b freqs)\n' % r["band"]
    run = vf.run_mpb(cfg, s, np=np, timeout=200)
    g = run.one("g")
    an = [float(x) for x in re.findall(r"vs\. analytic (\S+)", run.out)]
    al = re.findall(r"(?m)^(?:GRAD)*((?:, [-+.\w]+)+) *$", run.out)
    if run.rc or not g or len(an) != 2 or not al:
        return bad(run, s)
    al = numbers(al[-1])
    fr = g[2]
    b = r["band"] - 1
    if min([abs(fr[b] - x) for i, x in enumerate(fr) if i != b]) < 0.01:
        return []
    z = lambda x: int(round(1e6 * x)) if abs(x) < 1000 else 999999999
    return [dict(kind="g", an=[z(x) for x in an], fd=[z(g[0]), z(g[1])], all=z(al[iu]) if len(al) == total else 999999999, _s=s, _d=d0 + ", gradient")]


def check(c):
    vf.need("complex", "inv", "herm", "mpi", "invmpi")
    vf.tlc_model(c, "MatGridMC", "MatGridMC" if vf.TIER == "quick" else "MatGridMCt")
    g = vf.tlc("MatGridGen", workers=1, simulate=c.n(20, 160), depth=10, seed=vf.SEED, timeout=800)
    jobs = [r for p in g.json_lines() for r in p["log"]]
    if len(jobs) < 50:
        raise vf.HarnessError("generator: " + g.out[-2000:])
    recs, kinds = [], {}
    for i, q in enumerate(vf.pmap(session, jobs)):
        for r in q:
            if "fail" in r:
                c.violate("a session with material grids fails: %s" % r["fail"], script=r["_s"])
                continue
            recs.append(r)
            k = {"e": "epsilon", "d": "derivatives of epsilon", "g": "derivatives of frequencies", "s": "files", "m": "matched"}[r["kind"]]
            kinds[k] = kinds.get(k, 0) + 1
        if q and i % 40 == 0 and "_s" in q[0]:
            c.sample(q[0]["_s"][:3000])
    c.extra.update(cases=kinds)
    _, bad, _ = c.validate("MatGridTrace", [{k: v for k, v in r.items() if k[0] != "_"} for r in recs], timeout=800, workers=8)
    for x in bad[:20]:
        r = recs[x["line"] - 1]
        c.violate("%s: %s" % (r["_d"], x["why"]), script=r["_s"])
