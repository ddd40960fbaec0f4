"""C10: the discretised structure is the described geometry.  Specification: spec/Structure.tla, Geometry.tla."""
import math, os, random
import vf, fieldlab, problems, h5

LIB = """
(define ASYM #f)
(define (pcode p)
  (let ((i (ixn (vector3-x p) (list-ref SZ 0) NX)) (j (ixn (vector3-y p) (list-ref SZ 1) NY))
        (k (ixn (vector3-z p) (list-ref SZ 2) NZ)))
   (let ((a (lin i j k)) (b (lin (modulo (- i) NX) (modulo (- j) NY) (modulo (- k) NZ))))
    (if ASYM a (min a b)))))
(define code-fn (make material-function (material-func (lambda (p) (make dielectric (epsilon (pcode p)))))))
(define code-fn2 (make material-function (material-func (lambda (p) code-fn))))
(define (tens p) (let ((m (get-epsilon-inverse-tensor-point p)))
  (apply append (map (lambda (ij) (cx (matrix3x3-ref m (car ij) (cdr ij)))) '((0 . 0) (1 . 1) (2 . 2) (0 . 1) (0 . 2) (1 . 2))))))
"""


def num(x, h):
    return "(/ %d %d)" % (x, 8 * h)


def obj(o, h, name):
    """lengths are eighths of a step 1/h"""
    m = "(material %s)" % name
    c = "(center %s)" % " ".join(num(x, h) for x in o["c"])
    rad = lambda r: repr(math.sqrt(r + .5) / (8 * h))
    t, hh = o["t"], o["h"]
    if t in ("block", "ell"):
        s = "(size %s)" % " ".join("infinity" if x == 0 else num(2 * x, h) for x in hh)
        return "(make %s %s %s %s)" % ("block" if t == "block" else "ellipsoid", c, s, m)
    if t == "dia":
        s = "(size (/ %s (sqrt 2)) (/ %s (sqrt 2)) %s)" % (num(2 * hh[0], h), num(2 * hh[1], h), "infinity" if hh[2] == 0 else num(2 * hh[2], h))
        return "(make block %s (e1 1 1 0) (e2 -1 1 0) %s %s)" % (c, s, m)
    if t == "sphere":
        return "(make sphere %s (radius %s) %s)" % (c, rad(o["r"]), m)
    ax = "(axis %s)" % " ".join("1" if i == o["ax"] - 1 else "0" for i in range(3))
    ha = hh[o["ax"] - 1]
    ht = "(height %s)" % ("infinity" if ha == 0 else num(2 * ha, h))
    if t == "cyl":
        return "(make cylinder %s %s %s (radius %s) %s)" % (c, ax, ht, rad(o["r"]), m)
    return "(make cone %s %s %s (radius %s) (radius2 %s) %s)" % (c, ax, ht, num(o["r"], h), num(o["r2"], h), m)


def mirror(o):
    return dict(o, c=[-x for x in o["c"]], r=o["r2"] if o["t"] == "cone" else o["r"], r2=o["r"] if o["t"] == "cone" else o["r2"])


def adapt(s, cfg):
    """the structure as the configuration can have it"""
    s = dict(s)
    if cfg.startswith("inv"):
        s["objs"] = [x for o in s["objs"] for x in (o, mirror(o))]
        s["per"] = True         # the cell's lower boundary alone belongs to it
    s["mats"] = [dict(e=e["e"][:3] + [x if i % 2 == 0 or (cfg == "herm" and s["cm"]) else 0 for i, x in enumerate(e["e"][3:])], u=e["u"]) for e in s["mats"]]
    s["mats"][3] = dict(e=[1, 1, 1] + [0] * 6, u=[1, 1, 1])
    n = s["fd"][0] * s["fd"][1] * s["fd"][2]
    rng = random.Random(s["fs"])

    def values():
        v = [rng.randint(1, 20) for _ in range(n)]
        if cfg.startswith("inv"):      # the same from either end in each direction, as the edges are
            a, b, e = s["fd"]
            f = lambda i, m: min(i, m - 1 - i)
            v = [v[(f(i // (b * e), a) * b + f(i // e % b, b)) * e + f(i % e, e)] for i in range(n)]
        return v
    s["file"] = values()
    s["asym"] = not cfg.startswith("inv")
    return s


def material(m):
    e, u = m["e"], m["u"]
    eps = "(epsilon %d)" % e[0] if e[0] == e[1] == e[2] and not any(e[3:]) else None
    mu = "(mu %d)" % u[0] if u[0] == u[1] == u[2] else None
    if eps and mu:
        return "(make dielectric %s%s)" % (eps, "" if u[0] == 1 else " " + mu)
    s = "(epsilon-diag %d %d %d)" % tuple(e[:3])
    if any(e[3:]):
        s += " (epsilon-offdiag %s)" % " ".join("%d%+di" % (e[i], e[i + 1]) if e[i + 1] else str(e[i]) for i in (3, 5, 7))
    return "(make medium-anisotropic %s (mu-diag %d %d %d))" % (s, *u)


def script(log):
    out = [fieldlab.LIB, LIB, "(set! num-bands 1)"]
    for n, s in enumerate(log):
        d, h = s["d"], s["h"]
        last = max(i for i in range(3) if d[i] > 1)
        size = ["no-size" if i > last else "(/ %d %d)" % (d[i], h) for i in range(3)]
        out.append("(set! geometry-lattice (make lattice (size %s)%s)) (set! resolution %d) (set! NX %d) (set! NY %d) (set! NZ %d)"
                   % (" ".join(size), " (basis1 1 0 0) (basis2 0.5 (sqrt 0.75) 0)" if s["sk"] else "", h, *d))
        out.append("(set! SZ (list %s)) (set! ASYM %s) (set! mesh-size %d) (set! ensure-periodicity %s)"
                   % (" ".join("1" if x == "no-size" else x for x in size), "#t" if s["asym"] else "#f", s["mesh"], "#t" if s["per"] else "#f"))
        for i, m in enumerate(s["mats"][:3]):
            out.append("(define m%d %s)" % (i + 1, material(m)))
        fn = "code-fn" if n % 2 else "code-fn2"
        out.append("(set! default-material %s)" % dict(mat="m1", file="m1", fn=fn, fnc="(make material-function (material-func (lambda (p) m1)))")[s["dm"]])
        out.append('(set! epsilon-input-file "%s")' % ("f%d.h5" % n if s["dm"] == "file" else ""))
        out.append("(set! geometry (list %s))" % " ".join(obj(o, h, {0: "nothing", 4: fn}.get(o["m"], "m%d" % o["m"])) for o in s["objs"]))
        mu = any(m["u"] != [1, 1, 1] for m in s["mats"][:3])
        out.append('(emit "start" %d) (init-params NO-PARITY %s) (get-epsilon) (emit "e" %d (dump cur-field "r"))' % (n, "#t" if n % 3 else "#f", n))
        out.append('(emit "b" %d (all-points tens))' % n)
        if mu:
            out.append('(get-mu) (emit "u" %d (dump cur-field "r"))' % n)
    return "\n".join(out)


def files(log, d):
    r = {}
    for n, s in enumerate(log):
        if s["dm"] == "file":
            p = os.path.join(d, "f.h5")
            dims = s["fd"]
            while len(dims) > 1 and dims[-1] == 1:
                dims = dims[:-1]
            h5.write(p, {"data": (dims, [float(x) for x in s["file"]])})
            r["f%d.h5" % n] = open(p, "rb").read()
    return r


def check(c):
    vf.need("complex", "inv", "herm", "mpi", "invmpi")
    vf.tlc_model(c, "StructureMC", "StructureMCq" if c.quick else "StructureMC")
    jobs = []
    for big, herm, num in (("1d", 0, 16), ("2d", 0, 32), ("3d", 0, 10), ("2d", 1, 10), ("3d", 2, 5)):
        g = vf.tlc("StructureGen", env=dict(BIG=big, HERM=str(herm)), simulate=c.n(num, 150), depth=8, seed=vf.SEED, workers=1)
        for i, cs in enumerate(g.json_lines()):
            cfg = ["complex", "herm", "inv", "mpi", "invmpi"][i % 5]
            if herm == 1:
                cfg = "herm"
            if big == "1d":
                cfg = {"invmpi": "inv", "mpi": "herm"}.get(cfg, cfg)
            jobs.append((cfg, c.rng.choice([2, 3]) if "mpi" in cfg else 1, [adapt(s, cfg) for s in cs["log"]]))
    if len(jobs) < 40:
        raise vf.HarnessError("only %d sessions" % len(jobs))
    txt = [script(j[2]) for j in jobs]
    tmp = vf.scratch()
    fls = [files(j[2], tmp) for j in jobs]
    runs = vf.pmap(lambda i: vf.run_mpb(jobs[i][0], txt[i], np=jobs[i][1], files=fls[i]), range(len(jobs)))
    recs, where, kinds = [], [], {}
    for i, (j, run) in enumerate(zip(jobs, runs)):
        e, b, u = ({v[0]: v[1] for v in run.get(t)} for t in "ebu")
        for n, s in enumerate(j[2]):
            mu = any(m["u"] != [1, 1, 1] for m in s["mats"][:3])
            if run.rc != 0 or n not in b or (mu and n not in u):
                c.violate("%s: the session ended at structure %d" % (j[0], n), script=txt[i], log=run.out[-1000:])
                break
            B = [[problems.qi(x[k], 8192) for k in (0, 2, 4, 6, 7, 8, 9, 10, 11)] for x in b[n]]
            r = {k: s[k] for k in ("d", "sk", "mesh", "per", "dm", "objs", "mats", "fd", "file", "asym")}
            r.update(half=j[0].startswith("inv"), loose=1, b=B, e=[problems.qi(x[0], 1024) for x in e[n]], u=[problems.qi(x[0], 1024) for x in u[n]] if mu else [])
            recs.append(r)
            where.append(i)
            k = "%s mesh %d" % (s["dm"], s["mesh"])
            kinds[k] = kinds.get(k, 0) + 1
        if i % 20 == 0:
            c.sample(dict(config=j[0], structure={k: v for k, v in j[2][0].items() if k != "file"}))
    c.extra["structures"] = kinds
    _, bad, _ = c.validate("StructureTrace", recs, timeout=800, workers=8)
    for x in bad[:20]:
        i, r = where[x["line"] - 1], recs[x["line"] - 1]
        p = x["point"] - 1
        c.violate("%s, grid %s, mesh %d, grid point %d: %s; inverse tensor %s / 8192" % (jobs[i][0], r["d"], r["mesh"], p, x["why"], r["b"][p]),
                  script=txt[i], structure={k: v for k, v in r.items() if k not in "beu"}, eps=r["e"][p])
