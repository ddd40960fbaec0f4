"""C22: spectra of homogeneous media against EmptyLattice.tla, and equivalent descriptions of random crystals against each other."""
import math
import re
from fractions import Fraction as F
import vf, problems

q = problems.qi
PARS = [0, 1, 2, 4, 8, 5, 6, 9, 10]


def inv3(m):
    a, b, c = m
    det = a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
    co = lambda i, j: [[m[r][s] for s in range(3) if s != j] for r in range(3) if r != i]
    return [[(-1) ** (i + j) * (co(j, i)[0][0] * co(j, i)[1][1] - co(j, i)[0][1] * co(j, i)[1][0]) / det for j in range(3)] for i in range(3)]


def lattice(rng, dims):
    """(text, rational Gram matrix of the lattice vectors, y mirror, z mirror)"""
    sz = [F(rng.choice(["1", "1", "2", "1/2", "3/2"])) if i < dims else F(1) for i in range(3)]
    kind = rng.choice(["ortho", "ortho", "tri", "obl", "fcc", "bcc"] if dims == 3 else ["ortho", "tri", "obl"] if dims == 2 else ["ortho"])
    base = [[F(int(i == j)) for j in range(3)] for i in range(3)]
    txt, ym, zm = "", True, True
    if kind == "tri":
        base[0][1] = base[1][0] = F(1, 2)
        txt = " (basis1 (/ (sqrt 3) 2) 0.5) (basis2 0 1)" if rng.random() < .3 else " (basis1 (/ (sqrt 3) 2) 0.5) (basis2 (/ (sqrt 3) 2) -0.5)"
        if rng.random() < .5:
            txt = " (basis1 1 0) (basis2 0.5 (/ (sqrt 3) 2))"
        sz[1] = sz[0]
        ym = False
    elif kind == "obl":
        base[0][1] = base[1][0] = F(3, 5)
        txt = " (basis1 1 0) (basis2 0.6 0.8)"
        ym = False
    elif kind == "fcc":
        base = [[F(1, 2) if i == j else F(1, 4) for j in range(3)] for i in range(3)]
        txt = " (basis-size (sqrt 0.5) (sqrt 0.5) (sqrt 0.5)) (basis1 0 1 1) (basis2 1 0 1) (basis3 1 1 0)"
        sz, ym, zm = [F(1)] * 3, False, False
    elif kind == "bcc":
        base = [[F(3, 4) if i == j else F(-1, 4) for j in range(3)] for i in range(3)]
        txt = " (basis-size (/ (sqrt 3) 2) (/ (sqrt 3) 2) (/ (sqrt 3) 2)) (basis1 -1 1 1) (basis2 1 -1 1) (basis3 1 1 -1)"
        sz, ym, zm = [F(1)] * 3, False, False
    gram = [[base[i][j] * sz[i] * sz[j] for j in range(3)] for i in range(3)]
    return "(set! geometry-lattice (make lattice (size %s)%s))" % (
        " ".join("%.10g" % float(sz[i]) if i < dims else "no-size" for i in range(3)), txt), gram, sz, ym, zm


def empty(rng, i):
    dims = rng.choice([1, 2, 2, 3])
    lat, gram, sz, ym, zm = lattice(rng, dims)
    rec = inv3(gram)
    S = 1
    for row in rec:
        for x in row:
            S = S * x.denominator // math.gcd(S, x.denominator)
    M = [[int(x * S) for x in row] for row in rec]
    while True:
        n = [rng.choice([8, 11, 16, 25]) if dims == 1 else rng.choice([3, 4, 5, 6, 7, 8, 9]) if dims == 2 else rng.choice([2, 3, 4, 5]) if j < dims else 1 for j in range(3)]
        n = [n[j] if j < dims else 1 for j in range(3)]
        if n[0] * n[1] * n[2] <= 130:
            break
    aniso = dims == 1 and rng.random() < .4
    K = rng.choice([4, 5, 6])
    e1, e2, m1, m2 = [F(rng.choice(["1", "2", "9/4", "12"])), F(rng.choice(["3", "5", "3/2"])), F(rng.choice(["1", "1", "1", "2", "3/2"])), F(1)]
    mu = m1 != 1
    if aniso:       # H along z sees epsilon yy and mu zz, H along y the other way round
        mu = False
        mat = "(make medium-anisotropic (epsilon-diag 7 %s %s))" % (e1, e2)
        wm, wn = 1 / e1, 1 / e2
    else:
        mat = "(make medium (epsilon %s)%s)" % (e1, " (mu %s)" % m1 if mu else "")
        wm = wn = 1 / (e1 * m1)
    unit = wm.denominator * wn.denominator // math.gcd(wm.denominator, wn.denominator)
    em, en = int(wm * unit), int(wn * unit)
    g = math.gcd(em, en)
    em, en, unit = em // g, en // g, F(unit, g)
    s = ['(set! dimensions 3) %s (set! default-material %s) (set! geometry (list)) (set! tolerance 1e-10) (set! resolution (vector3 %s))'
         % (lat, mat, " ".join(repr(n[j] / float(sz[j])) if j < dims else "1" for j in range(3)))]
    if rng.random() < .3:      # the same medium described by an object, seamlessly
        s.append("(set! geometry (list (make %s (center 0.1 0 0) %s (material %s))))" % (
            ("sphere", "(radius 0.3)", mat) if rng.random() < .5 else ("block", "(size 0.4 0.3 0.5)", mat)))
    plan = []
    for _ in range(4):
        k = [rng.randint(-K // 2 - 1, K // 2 + 1) if j < dims else 0 for j in range(3)]
        if rng.random() < .15:
            k = [rng.choice([0, K]) if j < dims else 0 for j in range(3)]
        if aniso or (dims < 3 and rng.random() < .15 and not aniso):
            k = k if aniso else [k[0], k[1], rng.randint(1, K)]      # out of the plane
        ps = [x for x in PARS if (ym or x < 4) and (zm or x in (0, 4, 8)) and not (dims == 1 and x in (5, 10))]
        par = rng.choice(ps)
        if par & 3:
            k[2] = 0
        if par & 12:
            k[1] = 0
        if any(k) and all(x % K == 0 for x in k):      # modes at zero frequency are set up only for k = 0, and solved badly otherwise
            k[0] += 1
        N = n[0] * n[1] * n[2]
        nb = rng.randint(1, max(1, min(10, N // (4 if par == 0 else 8 if par in (1, 2, 4, 8) else 16))))
        L = dict(n=n, M=M, K=K, k=k, par=par, em=em, en=en)
        f2 = float(1 / (unit * S * L["K"] ** 2))
        bs = rng.choice([0, -11, 1, 2, 3, -4])
        s.append('(set! num-bands %d) (set! eigensolver-block-size %d) (set! simple-preconditioner? %s) (init-params %d true)'
                 '(solve-kpoint (vector3 %r %r %r)) (emit "f" freqs)' % (nb, bs, rng.choice(["true", "false", "false"]), par, *[x / K for x in k]))
        plan.append((L, f2, nb))
    return "\n".join(s), plan


# ------------------------------------------------------------------ equivalent crystals
class Crystal:
    """Objects in an orthogonal cell; every transformation gives an equivalent description."""
    def __init__(self, size, n, objs, bg, k, ext):
        self.size, self.n, self.objs, self.bg, self.k, self.ext = size, n, objs, bg, k, ext

    def text(self, lat=None):
        o = []
        for kind, c, w, ax, m in self.objs:
            C = "(center %s)" % " ".join("%.12g" % x for x in c)
            M = "(material %s)" % med(m)
            if kind == "sphere":
                o.append("(make sphere %s (radius %.12g) %s)" % (C, w[0], M))
            elif kind == "block":
                o.append("(make block %s (size %s) %s)" % (C, " ".join("%.12g" % x for x in w), M))
            elif kind == "ell":
                o.append("(make ellipsoid %s (size %s) %s)" % (C, " ".join("%.12g" % x for x in w), M))
            else:
                o.append("(make cylinder %s (radius %.12g) (height %.12g) (axis %s) %s)" % (C, w[0], w[1], " ".join("1" if i == ax else "0" for i in range(3)), M))
        return ("(set! geometry-lattice (make lattice (size %s))) (set! resolution (vector3 %s)) (set! default-material %s) (set! geometry (list %s))"
                % (" ".join("%.12g" % s if e else "no-size" for s, e in zip(self.size, self.ext)),
                   " ".join(repr(n / s) for n, s in zip(self.n, self.size)), med(self.bg), " ".join(o)))

    def copy(self, **kw):
        d = dict(size=list(self.size), n=list(self.n), objs=[(a, list(b), list(c_), d_, e) for a, b, c_, d_, e in self.objs], bg=self.bg, k=list(self.k), ext=list(self.ext))
        d.update(kw)
        return Crystal(**d)


def med(m):
    e, mu = m
    t = lambda x: " ".join("%.12g" % y for y in x)
    return "(make medium-anisotropic (epsilon-diag %s) (mu-diag %s))" % (t(e), t(mu)) if e != (e[0],) * 3 or mu != (mu[0],) * 3 \
        else "(make medium (epsilon %.12g)%s)" % (e[0], " (mu %.12g)" % mu[0] if mu[0] != 1 else "")


def crystal(rng, dims, mu, inv, odd=False):
    ext = [True] * dims + [False] * (3 - dims)
    size = [rng.choice([1, 1, 1.25, .8]) if e else 1 for e in ext]
    pool = {1: [14, 17, 21], 2: [6, 7, 8, 9, 11], 3: [4, 5, 6]}[dims]
    if odd:
        pool = [x for x in pool if x % 2]
    n = [rng.choice(pool) if e else 1 for e in ext]
    objs = []

    def m():
        e = (round(rng.uniform(2, 10), 2),) * 3
        if rng.random() < .25:
            e = tuple(round(rng.uniform(2, 9), 2) for _ in range(3))
        u = (1,) * 3
        if mu and rng.random() < .7:
            u = (round(rng.uniform(1.2, 2.5), 2),) * 3
        return e, u
    for _ in range(rng.choice([1, 2])):
        c = [0, 0, 0] if inv else [round(rng.uniform(-.3, .3) * s, 3) if e else 0 for s, e in zip(size, ext)]
        kind = rng.choice(["sphere", "block", "block", "ell", "cyl"])
        w = [round(rng.uniform(.25, .7) * s, 3) for s in size]
        if kind in ("block", "ell"):
            w = [x if e else 1 for x, e in zip(w, ext)]
        ax = 2
        if kind == "sphere":
            w = [min(x for x, e in zip(w, ext) if e) / 2]
        if kind == "cyl":
            ax = rng.choice([0, 1, 2])
            w = [min(w) / 2, w[ax] if ext[ax] else 1]
        if dims < 3 and kind == "ell":
            kind = "block"
        objs.append((kind, c, w, ax, m()))
    k = [round(rng.uniform(.12, .45), 3) * rng.choice([1, -1]) if e else 0 for e in ext]
    return Crystal(size, n, objs, m() if rng.random() < .3 else ((1,) * 3, (1,) * 3), k, ext)


def shifted(c, s):
    """by grid steps"""
    d = [s[i] * c.size[i] / c.n[i] for i in range(3)]
    wrap = lambda x, L: x - L * math.floor(x / L + .5)     # libctl repeats objects only into the neighbouring cells
    return c.copy(objs=[(a, [wrap(x + y, L) for x, y, L in zip(b, d, c.size)], w, ax, m) for a, b, w, ax, m in c.objs])


def turned(c, p, sg):
    pm = lambda v: [v[p[i]] for i in range(3)]
    ps = lambda v: [sg[p[i]] * v[p[i]] for i in range(3)]
    mm = lambda m: (tuple(pm(m[0])), tuple(pm(m[1])))
    return Crystal(pm(c.size), pm(c.n), [(a, ps(b), pm(w) if a in ("block", "ell") else w, p.index(ax), mm(m)) for a, b, w, ax, m in c.objs],
                   mm(c.bg), ps(c.k), pm(c.ext))


def relation(rng, i, cfg):
    """(kind, first problem, equivalent problems, num, den, tf, ta): descriptions as (text, k, bands, parity)"""
    dims = rng.choice([1, 2, 2, 3])
    inv = cfg == "inv"
    kind = rng.choice(["shift", "turn", "swap", "reverse", "umklapp", "index", "length", "double", "double", "turn"])
    mu = kind == "swap" or rng.random() < .15
    c = crystal(rng, dims, mu, inv, odd=kind == "reverse")
    nb = 6 if c.n[0] * c.n[1] * c.n[2] > 30 else 4
    tf, num, den, par = (15000 if mu else 40), 1, 1, "NO-PARITY"
    if not mu and any(o[0] != "block" for o in c.objs):        # fractions of pixels within curved objects are found by sampling
        tf = 1500
    if kind == "shift":
        s = [rng.randint(0, n) if e else 0 for n, e in zip(c.n, c.ext)]
        if inv:
            if any(n % 2 for n, e in zip(c.n, c.ext) if e):
                return None
            s = [rng.choice([0, n // 2]) if e else 0 for n, e in zip(c.n, c.ext)]
        ot = [shifted(c, s)]
    elif kind == "turn":
        p = rng.sample(range(3), 3)
        sg = [rng.choice([1, -1]) if n % 2 else 1 for n in c.n]
        ot = [turned(c, p, sg)]
        if ot[0].ext != c.ext:      # interfaces are averaged in another way if the crystal does not lie in the xy plane
            tf = max(tf, 50000)
    elif kind == "swap":
        ot = [c.copy(objs=[(a, b, w, ax, (m[1], m[0])) for a, b, w, ax, m in c.objs], bg=(c.bg[1], c.bg[0]))]
    elif kind == "reverse":
        ot = [c.copy(k=[-x for x in c.k])]
    elif kind == "umklapp":
        c = crystal(rng, min(dims, 2), False, inv)
        c.n = [n * (3 if dims == 1 else 2) if e else 1 for n, e in zip(c.n, c.ext)]
        lim = lambda e: tuple(1 + (x - 1) / 4 for x in e)
        c.objs = [(a, b, w, ax, (lim(m[0]), m[1])) for a, b, w, ax, m in c.objs]
        c.bg = (lim(c.bg[0]), c.bg[1])
        c.k = [x / 2 for x in c.k]
        ot = [c.copy(k=[x + (rng.choice([-1, 0, 1]) if e else 0) for x, e in zip(c.k, c.ext)])]
        tf, nb = 10000, 4
    elif kind == "index":
        num, den = rng.choice([(2, 1), (3, 2), (1, 2), (5, 4)])
        f = (num / den) ** 2
        ot = [c.copy(objs=[(a, b, w, ax, (tuple(x * f for x in m[0]), m[1])) for a, b, w, ax, m in c.objs], bg=(tuple(x * f for x in c.bg[0]), c.bg[1]))]
    elif kind == "length":
        num, den = rng.choice([(2, 1), (3, 2), (1, 2)])
        f = num / den
        ot = [Crystal([s * f if e else s for s, e in zip(c.size, c.ext)], list(c.n),
                      [(a, [x * f for x in b], [x * f for x in w], ax, m) for a, b, w, ax, m in c.objs], c.bg, list(c.k), list(c.ext))]
    else:
        ax = rng.choice([j for j in range(3) if c.ext[j]])
        if c.n[0] * c.n[1] * c.n[2] > 130:
            return None
        n = c.n[ax]
        d = c.copy()
        d.size[ax] *= 2
        d.n[ax] *= 2
        # images half a period to the left and right of the centre, where the grid points lie in the same way
        d.objs = []
        for a, b, w, x, m in c.objs:
            for s in (-.5, .5):
                b2 = list(b)
                b2[ax] += s * c.size[ax]
                d.objs.append((a, b2, w, x, m))
        kb = list(c.k)
        kb[ax] += .5 if n % 2 else -.5
        b = c.copy(k=kb)
        d.k[ax] *= 2
        return kind, (d, nb), [(c, nb), (b, nb)], 1, 1, tf, 30, par
    return kind, (c, nb), [(x, nb) for x in ot], num, den, tf, 30, par


def solve_text(c, nb, par, rng):
    return ('%s (set! num-bands %d) (set! tolerance 1e-11) (set! eigensolver-block-size %d) (init-params %s true) (solve-kpoint (vector3 %r %r %r)) (emit "f" freqs)'
            % (c.text(), nb, rng.choice([0, -11, 2]), par, *c.k))


def check(c):
    vf.need("complex", "inv", "herm")
    vf.tlc_model(c, "EmptyLatticeMC", "EmptyLatticeMC")
    rng = c.rng
    jobs = []
    for i in range(c.n(60, 600)):
        txt, plan = empty(rng, i)
        jobs.append((rng.choice(["complex", "inv", "herm"]), "homogeneous medium %d" % i, txt, plan, None))
    ne = len(jobs)
    for i in range(c.n(110, 1100)):
        cfg = rng.choice(["complex", "complex", "inv", "herm"])
        r = relation(rng, i, cfg)
        if r is None:
            continue
        kind, (a, nb), ot, num, den, tf, ta, par = r
        txt = "\n".join(solve_text(x, n_, par, rng) for x, n_ in [(a, nb)] + ot)
        jobs.append((cfg, "%s %d" % (kind, i), txt, (kind, num, den, tf, ta), len(ot)))
    rs = vf.pmap(lambda j: vf.run_mpb(j[0], j[2], timeout=300), jobs)
    recs, ctx, skip, kinds = [], [], 0, {}
    for (cfg, what, txt, plan, no), r in zip(jobs, rs):
        f = problems.run_failure(r)
        if f == "skip":
            skip += 1
            continue
        fs = [v[0] for v in r.get("f")]
        if f or len(fs) != (len(plan) if no is None else no + 1):
            c.violate("%s build, %s: %s" % (cfg, what, f or "results are missing"), script=txt, log=r.out[-1500:])
            continue
        if no is None:
            for (L, f2, nb), fr in zip(plan, fs):
                lv = []
                for x in fr:
                    y = x * x / f2 if not isinstance(x, str) else -1
                    lv.append(round(y) if abs(y - round(y)) < .02 + 1e-4 * y else -1)
                if len(fr) != nb:
                    lv.append(-2)
                recs.append(dict(ev="empty", L=L, lv=sorted(lv)))
                if any(x > y + 1e-5 for x, y in zip(fr, fr[1:])):
                    recs[-1]["lv"] = lv
                ctx.append(("%s build, %s" % (cfg, what), txt))
        else:
            kind, num, den, tf, ta = plan
            kinds[kind] = kinds.get(kind, 0) + 1
            recs.append(dict(ev="same", kind=kind, f=[q(x, problems.FT) for x in fs[0]], parts=[[q(x, problems.FT) for x in y] for y in fs[1:]], num=num, den=den, tf=tf, ta=ta))
            ctx.append(("%s build, %s" % (cfg, what), txt))
    if skip > 2 + len(jobs) // 20:
        c.violate("the solver does not converge in %d of %d runs" % (skip, len(jobs)))
    r, bad, _ = c.validate("SpectrumTrace", recs)
    if not bad and not r.ok:
        raise vf.HarnessError(r.out[-2000:])
    # the solver sometimes stops early when bands do not couple: solve again, band by band and to a finer tolerance
    again = []
    if 0 < len(bad) <= 3 + len(jobs) // 50:
        retry = []
        for b in bad:
            e, (what, txt) = recs[b["line"] - 1], ctx[b["line"] - 1]
            t = re.sub(r"eigensolver-block-size -?[0-9]+", "eigensolver-block-size 1", txt).replace("tolerance 1e-11", "tolerance 1e-13")
            retry.append((b, what.split(" ")[0], t))
        rs2 = vf.pmap(lambda j: vf.run_mpb(j[1], j[2], timeout=300), [x for x in retry if recs[x[0]["line"] - 1]["ev"] == "same"])
        rs2 = iter(rs2)
        recs2, left = [], []
        for b, cfg, t in retry:
            e = recs[b["line"] - 1]
            if e["ev"] != "same":
                left.append(b)
                continue
            r2 = next(rs2)
            fs = [v[0] for v in r2.get("f")]
            if problems.run_failure(r2) or len(fs) != 1 + len(e["parts"]):
                left.append(b)
                continue
            recs2.append((b, dict(e, f=[q(x, problems.FT) for x in fs[0]], parts=[[q(x, problems.FT) for x in y] for y in fs[1:]])))
        if recs2:
            r3, bad3, _ = c.validate("SpectrumTrace", [e for _, e in recs2])
            if not bad3 and not r3.ok:
                raise vf.HarnessError(r3.out[-2000:])
            left += [recs2[x["line"] - 1][0] for x in bad3]
            again = recs2
        bad = left
    for b in bad:
        if len(c.viol) < 8:
            c.violate("%s: %s" % (ctx[b["line"] - 1][0], b["why"]), event=recs[b["line"] - 1], script=ctx[b["line"] - 1][1])
    c.extra.update(homogeneous=ne, relations=kinds, spectra=sum(e["ev"] == "empty" for e in recs), not_converged=skip, solved_again=len(again))
    c.sample(next(e for e in recs if e["ev"] == "empty"))
    c.sample(next(e for e in recs if e["ev"] == "same"))
