"""C19: symmetry eigenvalues.  Specification: spec/Symmetry.tla."""
import random
import vf

LIB = """
(define (r5 x) (inexact->exact (round (* 512 x))))
(define (zz z) (list (r5 (real-part z)) (r5 (imag-part z))))
(define NX 1) (define NY 1) (define NZ 1) (define SX 1) (define SY 1) (define SZ 1)
(define (gp i j k) (vector3 (if (= NX 1) 0 (* SX (- (/ i NX) 1/2))) (if (= NY 1) 0 (* SY (- (/ j NY) 1/2))) (if (= NZ 1) 0 (* SZ (- (/ k NZ) 1/2)))))
(define (dump)
  (let loop ((l (- (* NX NY NZ) 1)) (acc '()))
    (if (< l 0) acc
      (loop (- l 1) (cons (let ((v (get-bloch-field-point (gp (quotient l (* NY NZ)) (modulo (quotient l NZ) NY) (modulo l NZ)))))
          (list (zz (vector3-x v)) (zz (vector3-y v)) (zz (vector3-z v)))) acc)))))
(define (dump1)
  (let loop ((l (- (* NX NY NZ) 1)) (acc '()))
    (if (< l 0) acc
      (loop (- l 1) (cons (rscalar-field-get-point cur-field (gp (quotient l (* NY NZ)) (modulo (quotient l NZ) NY) (modulo l NZ))) acc)))))
(define (v4 z s) (list (inexact->exact (round (* s 4096 (real-part z)))) (inexact->exact (round (* s 4096 (imag-part z))))))
(define (zero? z) (< (magnitude z) 1e-300))
"""
A5 = {1: [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 2: [[5, 3, 0], [0, 4, 0], [0, 0, 5]], 3: [[3, 0, 0], [4, 5, 0], [0, 0, 5]]}


def mat(W):
    return "(matrix3x3 %s)" % " ".join("(vector3 %d %d %d)" % (W[0][j], W[1][j], W[2][j]) for j in range(3))


def field(r, rng):
    A, N, sz = A5[r["A"]], r["N"], r["sz"]
    dim = 2 if N[2] == 1 else 3
    s = LIB + "(set! geometry-lattice (make lattice %s (size %d %d %s)))\n" % (
        " ".join("(basis%d %d %d %d)" % (j + 1, A[0][j], A[1][j], A[2][j]) for j in range(3)), sz[0], sz[1], "no-size" if dim == 2 else sz[2])
    s += "(set! resolution (vector3 %d/%d %d/%d %d/%d))\n" % (N[0], sz[0], N[1], sz[1], N[2], sz[2])
    for v, x in zip(("NX", "NY", "NZ", "SX", "SY", "SZ"), N + sz):
        s += "(set! %s %d)\n" % (v, x)
    objs = []
    for _ in range(3):
        m = "(epsilon-diag %.2f %.2f %.2f) (epsilon-offdiag %.2f %.2f %.2f)" % tuple([rng.uniform(2, 8) for _ in range(3)] + [rng.uniform(-.8, .8) for _ in range(3)])
        if r["mu"]:
            m += " (mu-diag %.2f %.2f %.2f)" % ((rng.uniform(1, 4),) * 3)
        objs.append("(make block (center %.3f %.3f %.3f) (size %.2f %.2f %.2f) (material (make medium-anisotropic %s)))" % (
            tuple(rng.uniform(-.5, .5) for _ in range(3)) + tuple(rng.uniform(.3, 1) for _ in range(3)) + (m,)))
    s += "(set! geometry (list %s))\n(set! k-points (list (vector3 %d/12 %d/12 %d/12)))\n" % ("\n".join(objs), *r["k"])
    # with mesh-size 1 the permeability of a point is that of one material
    s += "(set! num-bands 2)(set! tolerance 0.1)%s\n(run)\n" % ("(set! mesh-size 1)" if r["mu"] and r["c"] == "b" else "")
    w = [0 if N[j] == 1 else "%d/%d" % (r["w"][j] * sz[j], N[j]) for j in range(3)]
    op = "%s (vector3 %s)" % (mat(r["W"]), " ".join(map(str, w)))
    vol = 1.0
    for j in range(3):
        vol *= sz[j] if N[j] > 1 else 1
    det = (A[0][0] * A[1][1] - A[0][1] * A[1][0]) * A[2][2]
    vol *= det / (125 if r["A"] > 1 else 1)
    sc = N[0] * N[1] * N[2] / vol
    s += "(get-%sfield %d)\n(define D (dump))\n(define v (transformed-overlap %s))\n(define D2 (dump))\n" % (r["c"], r["band"], op)
    s += "(define w1 (zero? (transformed-overlap (matrix3x3 (vector3 2 0 0) (vector3 0 1 0) (vector3 0 0 1)) (vector3 0 0 0))))\n"
    s += ("(get-efield-from-dfield)\n(define F (dump))\n" if r["c"] == "d" else "(get-mu)\n(define F (dump1))(get-hfield %d)\n" % r["band"])
    s += "(define w2 (zero? (transformed-overlap %s)))\n" % op
    s += '(emit "f" (v4 v %.12g) (equal? D D2) (list w1 w2) D F)\n' % sc
    return s, dim


LAT = {"sq": "(basis1 1 0 0) (basis2 0 1 0)", "rect": "(basis1 1 0 0) (basis2 0 1 0) (basis-size 1 5/4 3/2)",
       "hex": "(basis1 (/ (sqrt 3) 2) 1/2 0) (basis2 (/ (sqrt 3) 2) -1/2 0)", "rhomb": "(basis1 1 0.3 0) (basis2 0.1 1 0)"}
NB = 7


def group(r):
    d = r["d"]
    s = LIB + "(set! geometry-lattice (make lattice %s (basis3 0 0 1) (size 1 1 %s)))\n(set! resolution %d)\n" % (LAT[r["lat"]], "no-size" if d == 2 else "1", 24 if d == 2 else 12)
    objs = []
    for i, o in enumerate(r["objs"]):
        m = "(make dielectric (epsilon %.3f)%s)" % (o["e"] if d == 2 else 1 + o["e"] / 3, " (mu 2)" if r["mu"] and i == 0 else "")
        for c in o["at"]:
            at = "(center %d/24 %d/24 %d/24)" % tuple(c)
            objs.append(("(make cylinder %s (radius %.4f) (height infinity) (material %s))" if d == 2 else "(make sphere %s (radius %.4f) (material %s))") % (at, (o["r"] * (1 if d == 2 else 1.4) + .3137) / 24, m))
    s += "(set! geometry (list %s))\n(set! k-points (list (vector3 %d/12 %d/12 %d/12)))\n(set! num-bands %d)(set! tolerance 1e-9)\n(%s)\n" % (
        "\n".join(objs), *r["k"], NB, {"te": "run-te", "tm": "run-tm", "all": "run"}[r["pol"]])
    s += '(emit "freqs" freqs)\n'
    ops = ["%s (vector3 %d/24 %d/24 %d/24)" % (mat(o["W"]), *o["w"]) for o in r["ops"]]
    s += "(define (V z) (v4 z 1))\n"
    s += '(define ops (list %s))\n' % " ".join("(list %s)" % o for o in ops)
    s += '(define vs (map (lambda (o) (map V (compute-symmetries (car o) (cadr o)))) ops))\n(emit "v" vs)\n'
    # band by band, from D
    s += '(define vd (map (lambda (b) (get-dfield b) (map (lambda (o) (V (transformed-overlap (car o) (cadr o)))) ops)) (arith-sequence 1 1 num-bands)))\n(emit "vd" vd)\n'
    s += '(emit "one" (map (lambda (b) (V (compute-symmetry b (car (list-ref ops %d)) (cadr (list-ref ops %d))))) (arith-sequence 1 1 num-bands)) (list-ref vs %d))\n' % ((len(ops) - 1,) * 3)
    return s


def sets(fr):
    out, lo = [], 1
    for b in range(2, len(fr) + 1):
        if fr[b - 1] - fr[b - 2] > 3e-2 * fr[b - 1]:
            out.append([lo, b - 1])
            lo = b
    return [q for q in out if fr[q[0] - 1] > 1e-3]


def check(c):
    vf.need("complex", "herm")
    vf.tlc_model(c, "SymmetryMC", "SymmetryMCq" if vf.TIER == "quick" else "SymmetryMC")
    g = vf.tlc("SymmetryGen", workers=1, simulate=c.n(36, 260), depth=10, seed=vf.SEED, timeout=800)
    jobs = [r for p in g.json_lines() for r in p["log"]]
    if len(jobs) < 50:
        raise vf.HarnessError("generator: " + g.out[-2000:])

    def one(i):
        r = jobs[i]
        rng = random.Random("%d-%d" % (vf.SEED, i))
        cfg = "herm" if i % 3 == 2 else "complex"
        src = field(r, rng)[0] if r["kind"] == "f" else group(r)
        for _ in range(2):
            run = vf.run_mpb(cfg, src, timeout=300)
            if run.rc != -9:
                break
        if r["kind"] == "f":
            x = run.one("f")
            if not x:
                return dict(fail=run.out[-400:], script=src)
            v, same, wrong, D, F = x
            if r["c"] == "b":
                F = [[[round(y / m) for y in z] for z in d] for d, m in zip(D, F)]
            return dict(r, A=A5[r["A"]], v=v, same=same, wrong=wrong, D=D, F=F, _s=src)
        fr, v, vd, one1 = run.one("freqs"), run.one("v"), run.one("vd"), run.one("one")
        if not one1:
            return dict(fail=run.out[-400:], script=src)
        fr, v, vd = fr[0], v[0], vd[0]
        q = sets(fr)
        return dict(kind="g", k=r["k"], ops=r["ops"], sets=q, v=v, vd=[[vd[b][o] for b in range(len(fr))] for o in range(len(v))],
                    one=one1[0] == one1[1], _s=src, _d="%dd %s %s, %d operations" % (r["d"], r["lat"], r["pol"], len(r["ops"]) - 2), _f=fr)
    recs, kinds, nset, deg = [], {}, 0, 0
    for i, r in enumerate(vf.pmap(one, range(len(jobs)))):
        if "fail" in r:
            c.violate("symmetry values could not be computed: %s" % r["fail"], script=r["script"])
            continue
        if r["kind"] == "g" and not r["sets"]:
            continue
        recs.append(r)
        k = r.get("_d") or "fields"
        kinds[k] = kinds.get(k, 0) + 1
        for q in r.get("sets", ()):
            nset += 1
            deg += q[1] > q[0]
        if i % 40 == 0:
            c.sample(r["_s"][:3000])
    c.extra.update(structures=kinds, sets_of_bands=nset, degenerate_sets=deg)
    _, bad, _ = c.validate("SymmetryTrace", [{k: v for k, v in r.items() if k[0] != "_"} for r in recs], timeout=800, workers=8)
    for x in bad[:20]:
        r = recs[x["line"] - 1]
        c.violate("%s: %s" % (r.get("_d", "a field with the operation %s on the grid %s" % (r.get("W"), r.get("N"))), x["why"]), script=r["_s"], freqs=r.get("_f"), sets=r.get("sets"))
