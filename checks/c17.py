"""C17: k-point and grid helpers on random lattices, judged exactly by KPoints.tla."""
import math
from fractions import Fraction as F
import vf
from c22 import inv3

S = 10000


def lat(rng):
    """(Scheme text, lattice record): integer lattice vectors, possibly with directions of no size"""
    dims = rng.choice([1, 2, 2, 3, 3, 3])
    while True:
        v = [[0] * 3 for _ in range(3)]
        kind = rng.choice(["cubic", "std", "std", "any", "any"])
        for i in range(3):
            v[i][i] = 1
        if kind == "std" and dims == 3:
            v = rng.choice([[[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[1, 1, 0], [1, -1, 0], [0, 0, 2]]])
        elif kind == "any" or kind == "std":
            for i in range(dims):
                for j in range(dims):
                    v[i][j] = rng.randint(-2, 2) if i != j else rng.randint(1, 4)
        det = (v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0])
               + v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]))
        if det:
            break
    hexa = dims > 1 and rng.random() < .25
    sz = [rng.choice([1, 1, 2, 3]) if i < dims else 1 for i in range(3)]
    g = [[F(sum(v[i][t] * v[j][t] for t in range(3))) for j in range(3)] for i in range(3)]
    b = " ".join("(basis%d %d %d %d)" % (i + 1, *v[i]) for i in range(3))
    bs = " ".join("(sqrt %d)" % sum(x * x for x in v[i]) for i in range(3))
    if hexa:
        b, bs = "(basis1 (/ (sqrt 3) 2) 0.5) (basis2 (/ (sqrt 3) 2) -0.5)", "1 1 1"
        g = [[F(1), F(1, 2), F(0)], [F(1, 2), F(1), F(0)], [F(0), F(0), F(1)]]
        sz[1] = sz[0]
    g = [[g[i][j] * sz[i] * sz[j] for j in range(3)] for i in range(3)]
    r = inv3(g)
    den = math.lcm(*[x.denominator for y in r for x in y])
    M = [[int(x * den) for x in y] for y in r]
    gg = math.gcd(*[x for y in M for x in y])
    M = [[x // gg for x in y] for y in M]
    txt = "(set! geometry-lattice (make lattice (basis-size %s) (size %s) %s))" % (
        bs, " ".join(str(sz[i]) if i < dims else "no-size" for i in range(3)), b)
    return txt, dict(M=M, mask=[1 if i < dims else 0 for i in range(3)]), max(max(y) for y in M)


def check(c):
    vf.need("complex")
    vf.tlc_model(c, "KPointsMC")
    rng = c.rng
    jobs = []
    for _ in range(c.n(60, 700)):
        s, plan = ["(define (vl v) (list (vector3-x v) (vector3-y v) (vector3-z v)))"], []
        for _ in range(rng.choice([2, 3])):
            t, L, big = lat(rng)
            if big > 120:
                continue
            s.append(t)
            for _ in range(12):
                K = rng.choice([1, 2, 3, 4, 6, 5, 12])
                k = [rng.randint(-3 * K, 3 * K) if rng.random() < .8 else rng.choice([0, K, K // 2]) for _ in range(3)]
                if rng.random() < .6:
                    k = [x if L["mask"][i] else 0 for i, x in enumerate(k)]
                s.append('(let* ((k (vector3 %s)) (r (first-brillouin-zone k))) (emit "fbz" (vl r) (vl (first-brillouin-zone r))))'
                         % " ".join(rng.choice(["%r" % (x / K), "(/ %d. %d)" % (x, K)]) for x in k))
                plan.append(dict(ev="fbz", L=L, K=K, k=k))
            for _ in range(3):
                K, n = rng.choice([2, 3, 4, 6]), rng.choice([0, 1, 2, 3, 4, 5, 7])
                cs = []
                for _ in range(rng.choice([2, 2, 3, 4, 5])):
                    q = [rng.randint(-K, K) if L["mask"][i] or rng.random() < .1 else 0 for i in range(3)]
                    cs.append(q if rng.random() < .9 or not cs else list(cs[-1]))
                if all(q == cs[0] for q in cs):
                    continue
                s.append('(emit "interp" (map vl (kinterpolate-uniform %d (list %s))))' % (n, " ".join("(vector3 %s)" % " ".join("(/ %d %d)" % (x, K) for x in q) for q in cs)))
                plan.append(dict(ev="interp", L=L, K=K, S=S, n=n, cs=cs))
        for _ in range(15):
            n = rng.choice([rng.randint(1, 60), rng.randint(1, 2500)])
            s.append('(emit "smooth" (next-factor2357 %d))' % n)
            plan.append(dict(ev="smooth", n=n))
        for _ in range(2):
            dims = rng.choice([1, 2, 3])
            sz = [rng.choice([F(1), F(3, 2), F(1, 4), F(2), F(5)]) if i < dims else None for i in range(3)]
            res = [F(rng.randint(1, 40)) if rng.random() < .9 else F(1, 8) for _ in range(3)]
            iso = rng.random() < .5
            if iso:
                res = [res[0]] * 3
            num = [res[i] * sz[i] if sz[i] else F(0) for i in range(3)]
            s.append('(set! grid-size false) (set! geometry-lattice (make lattice (size %s))) (set! resolution %s)'
                     % (" ".join("%g" % float(x) if x else "no-size" for x in sz), "%g" % float(res[0]) if iso else "(vector3 %g %g %g)" % tuple(map(float, res))))
            s.append('(define g1 (get-grid-size)) (optimize-grid-size!) (define g2 (get-grid-size)) (optimize-grid-size!) (emit "grid" (vl g1) (vl g2) (vl (get-grid-size)))')
            plan.append(dict(ev="grid", num=[max(x.numerator, 0) for x in num], den=[x.denominator for x in num]))
        jobs.append(("\n".join(s), plan))
    recs, txt = [], []
    for (s, plan), r in zip(jobs, vf.pmap(lambda j: vf.run_mpb("complex", j[0]), jobs)):
        obs = [(t, v) for t, v in r.obs if t in ("fbz", "interp", "smooth", "grid")]
        if r.rc or [t for t, _ in obs] != [p["ev"] for p in plan]:
            c.violate("the helper functions fail: exit status %s" % r.rc, script=s, log=r.out[-1500:])
            continue
        for p, (t, v) in zip(plan, obs):
            e = dict(p)
            I = lambda x, K: round(x * K) if abs(x * K - round(x * K)) < 1e-6 else 10 ** 6
            if t == "fbz":
                e.update(r=[I(x, p["K"]) for x in v[0]], r2=[I(x, p["K"]) for x in v[1]])
            elif t == "interp":
                e.update(out=[[round(x * S) for x in q] for q in v[0]])
            elif t == "smooth":
                e.update(r=int(v[0]))
            else:
                e.update(g=[int(x) for x in v[0]], o=[int(x) for x in v[1]], p=[int(x) for x in v[2]])
            recs.append(e)
            txt.append(s)
    r, bad, _ = c.validate("KPointsTrace", recs)
    if not bad and not r.ok:
        raise vf.HarnessError(r.out[-2000:])
    for b in bad[:6]:
        c.violate("%s: %s" % (recs[b["line"] - 1]["ev"], b["why"]), event=recs[b["line"] - 1], script=txt[b["line"] - 1])
    c.extra["answers"] = {t: sum(e["ev"] == t for e in recs) for t in ("fbz", "interp", "smooth", "grid")}
    c.sample(recs[0])
    c.sample(next(e for e in recs if e["ev"] == "interp"))
