"""Random physical problems and the observation of a solution."""
import math, random
import vf

OBS = """
(define (obs-num x) (if (or (nan? x) (inf? x)) 1e6 x))
(define (vl v) (list (vector3-x v) (vector3-y v) (vector3-z v)))
(define (reim z) (list (exact->inexact (real-part z)) (exact->inexact (imag-part z))))
(define (cl v) (append (reim (vector3-x v)) (reim (vector3-y v)) (reim (vector3-z v))))
(define (red3 v) (+ (vector3-x v) (* 2 (vector3-y v)) (* 3 (vector3-z v))))
(define (phase-free f pts)      ; products of field values that do not depend on the phase of the band
  (let* ((vs (map f pts)) (c (conj (apply + (map red3 vs)))))
    (apply append (map (lambda (v) (cl (vector3-scale c v))) vs))))
(define (conj z) (make-rectangular (real-part z) (- (imag-part z))))
(define (band-obs b pts mu?)
  (get-dfield b)
  (let* ((d (append (phase-free get-bloch-field-point pts) (phase-free get-field-point pts)))
         (en (begin (get-dfield b) (compute-field-energy)))
         (ep (map get-energy-point pts))
         (ed (list (compute-energy-in-dielectric 1.5 1e10)))
         (ei (list (compute-energy-integral (lambda (u eps r) (* u (+ 1 (vector3-x r) (* 2 (vector3-y r)) (* 3 (vector3-z r))))))))
         (h (begin (get-hfield b) (phase-free get-bloch-field-point pts)))
         (hi (let ((z (compute-field-integral (lambda (F eps r) (+ (magnitude (vector3-x F)) (* 2 (magnitude (vector3-z F)))))))) (reim z)))
         (bn (begin (get-bfield b) (compute-field-energy)))
         (e (begin (get-efield b) (phase-free get-bloch-field-point pts))))
    (append d (enl en) ep ed ei h hi (enl bn) e)))
(define (enl l) (if (null? l) '() (list (car l) (+ (list-ref l 1) (list-ref l 2)) (+ (list-ref l 3) (list-ref l 4)) (+ (list-ref l 5) (list-ref l 6)))))
(define (velocities) (map vl (compute-group-velocities)))
(define (eps-obs pts)
  (apply append (map (lambda (p) (let ((t (get-epsilon-inverse-tensor-point p)))
     (cons (get-epsilon-point p) (append (cl (vector3-x t)) (cl (vector3-y t)) (cl (vector3-z t)))))) pts)))
(define (observe id pts vel?)
  (let* ((v (if vel? (velocities) (map (lambda (f) '()) freqs)))
         (bs (let loop ((b 1) (acc '()))
               (if (> b (length freqs)) (reverse acc)
                   (loop (+ b 1) (cons (append (list-ref v (- b 1)) (band-obs b pts #f)) acc))))))
    (emit "obs" id freqs bs (eps-obs pts))))
"""

FT, BT, SEP = 1e6, 1e4, 10000     # scales of frequencies and band quantities; separation 1e-2


class Problem:
    """A structure (Scheme text without solver parameters), k points and what is allowed."""
    def __init__(self, pid, dims, txt, ks, pars, mu, pts, n):
        self.pid, self.dims, self.txt, self.ks, self.pars, self.mu, self.pts, self.n = pid, dims, txt, ks, pars, mu, pts, n


def mat(rng, kind=None, aniso=False, mu=False, herm=False):
    if aniso and rng.random() < .6:
        d = [round(rng.uniform(3, 9), 2) for _ in range(3)]
        o = [round(rng.uniform(-.8, .8), 2) for _ in range(3)]
        oi = [round(rng.uniform(-.5, .5), 2) for _ in range(3)] if herm else None
        off = " ".join("%g%s" % (o[i], "%+gi" % oi[i] if oi else "") for i in range(3))
        s = "(make medium-anisotropic (epsilon-diag %g %g %g) (epsilon-offdiag %s)" % (*d, off)
        if mu and rng.random() < .7:
            s += " (mu-diag %g %g %g)" % tuple(round(rng.uniform(1.2, 3), 2) for _ in range(3))
        return s + ")"
    s = "(make medium (epsilon %g)" % round(rng.choice([2.2, 4.4, 8.9, 12.3]) + rng.random(), 2)
    if mu:
        s += " (mu-prop %g)" % round(rng.uniform(1.2, 3), 2)
    return (s + ")").replace("mu-prop", "mu")


def geometry(rng, dims, size, inv=True, ysym=False, zsym=False, aniso=False, mu=False, herm=False):
    objs = []
    z0 = 0
    for _ in range(rng.choice([1, 1, 2])):
        m = mat(rng, aniso=aniso, mu=mu, herm=herm)
        c = [0.0, 0.0, 0.0]
        if not inv:
            c = [round(rng.uniform(-.4, .4) * size[0], 3), 0 if ysym or dims < 2 else round(rng.uniform(-.4, .4) * size[1], 3),
                 0 if zsym or dims < 3 else round(rng.uniform(-.4, .4) * size[2], 3)]
        k = rng.choice(["block", "cyl", "sphere", "pair", "ell"] if dims > 1 else ["block", "pair1"])
        w = [round(rng.uniform(.23, .77) * s, 3) for s in size]
        C = "(center %g %g %g)" % tuple(c)
        if k == "block":
            e = "" if ysym or dims < 2 or rng.random() < .5 else " (e1 1 %g 0) (e2 %g 1 0)" % (round(rng.uniform(-.3, .3), 2), round(rng.uniform(-.3, .3), 2))
            objs.append("(make block %s (size %g %s %s)%s (material %s))" % (C, w[0], "infinity" if dims < 2 else "%g" % w[1],
                        "infinity" if dims < 3 else "%g" % w[2], e, m))
        elif k == "cyl":
            objs.append("(make cylinder %s (radius %g) (height %s) (material %s))" % (C, min(w[:2]) / 2, "infinity" if dims < 3 else "%g" % w[2], m))
        elif k == "sphere":
            objs.append("(make sphere %s (radius %g) (material %s))" % (C, min(w[:dims]) / 2, m))
        elif k == "ell":
            objs.append("(make ellipsoid %s (size %g %g %g) (material %s))" % (C, w[0], w[1], w[2] if dims > 2 else 1, m))
        elif k == "pair1":
            x = round(rng.uniform(.1, .3) * size[0], 3)
            for s in (x, -x) if inv else (x,):
                objs.append("(make block (center %g 0 0) (size %g infinity infinity) (material %s))" % (s, w[0] / 3, m))
        else:
            x = [round(rng.uniform(.12, .3) * size[0], 3), 0 if ysym else round(rng.uniform(-.3, .3) * size[1], 3),
                 0 if zsym or dims < 3 else round(rng.uniform(-.3, .3) * size[2], 3)]
            rad = round(rng.uniform(.05, .1), 3)       # the two do not overlap: averaging would not be symmetric there
            for s in (1, -1) if inv else (1,):
                objs.append("(make %s (center %g %g %g) (radius %g)%s (material %s))" % (
                    "sphere" if dims > 2 else "cylinder", s * x[0], s * x[1], s * x[2], rad,
                    "" if dims > 2 else " (height infinity)", m))
    return "(list %s)" % " ".join(objs)


def make(rng, pid, dims=None, inv=True, ysym=None, mu=None, aniso=None, herm=False, maxpts=260, nk=2, zero_k=.15, npts=3, like=None):
    if like:      # another structure in the same cell, on the same grid
        dims, inv, ysym, herm, maxpts = like.dims, like.inv, like.ysym, like.herm, 10 ** 6
    dims = dims or rng.choice([1, 2, 2, 3])
    mu = rng.random() < .3 if mu is None else mu
    aniso = rng.random() < .35 if aniso is None else aniso
    ysym = rng.random() < .4 if ysym is None else ysym
    if ysym:
        aniso = False
    size = [rng.choice([1, 1, 1.5]) if i < dims else 1 for i in range(3)]
    skew = dims > 1 and not ysym and rng.random() < .35
    while True:
        n = [rng.choice([12, 16, 21, 30]) if dims == 1 else rng.choice([6, 7, 8, 9, 10, 12, 15]) if dims == 2 else rng.choice([3, 4, 5, 6, 7])
             if i < dims else 1 for i in range(3)]
        if ysym:                 # mirror symmetry is exact only without a Nyquist component along the mirrored axis
            n[1] |= 1
        if dims == 3:
            n[2] |= 1
        n = [n[i] if i < dims else 1 for i in range(3)]
        if like:
            size, n = like.size, like.n
        if n[0] * n[1] * n[2] <= maxpts:
            break
    lat = "(set! geometry-lattice (make lattice (size %s)%s))" % (
        " ".join("%g" % size[i] if i < dims else "no-size" for i in range(3)),
        " (basis1 1 0 0) (basis2 %g %g 0)" % ((.5, .75 ** .5) if rng.random() < .6 else (.3, .9)) if skew else "")
    if like:
        lat = like.lat
    res = "(set! resolution (vector3 %s))" % " ".join(repr(n[i] / size[i]) for i in range(3))
    zsym = dims < 3 or rng.random() < .5
    if dims < 3:   # te/tm needs no coupling of xy and z
        an = aniso
    geo = geometry(rng, dims, size, inv, ysym, zsym, aniso and dims == 3 and not zsym or (aniso and dims < 3), mu, herm)
    dm = "(make medium (epsilon %g))" % rng.choice([1, 1, 1.7])
    txt = "%s %s (set! dimensions %d) (set! default-material %s) (set! geometry %s)" % (lat, res, 3, dm, geo)
    ks = []
    for _ in range(nk):
        if rng.random() < zero_k:
            ks.append((0, 0, 0))
        else:
            k = [round(rng.uniform(-.5, .5), 3) if i < dims else 0 for i in range(3)]
            if rng.random() < .2:
                k = [rng.choice([0, .5]) if i < dims else 0 for i in range(3)]
            ks.append(tuple(k))
    pars = ["NO-PARITY"]
    if dims < 3 and "anisotropic" not in geo or (dims == 3 and zsym and "anisotropic" not in geo):
        pars += ["EVEN-Z", "ODD-Z"]
    if ysym:
        pars += ["EVEN-Y", "ODD-Y"]
    pts = ["(vector3 %s)" % " ".join("%.3f" % (rng.uniform(-.9, .9) * size[i]) if i < dims else "0" for i in range(3)) for _ in range(npts)]
    p = Problem(pid, dims, txt, ks, pars, mu, "(list %s)" % " ".join(pts), n)
    p.size, p.lat, p.inv, p.ysym, p.herm = size, lat, inv, ysym, herm
    return p


def kfor(p, par, k):
    """the k point made compatible with the parity"""
    k = list(k)
    if "-Z" in par:
        k[2] = 0
    if "-Y" in par:
        k[1] = 0
    if 0 < math.sqrt(sum(x * x for x in k)) < .12:      # there the solver is badly conditioned, above all with mu
        k[0] = .2
    return tuple(k)


def solve(p, par, k, nb, opts="", reset="true", vel=True, tag=None, tol=1e-11):
    """Scheme text that solves one problem at one k point and observes it."""
    k = kfor(p, par, k)
    return ('%s (set! num-bands %d) (set! tolerance %g) (set! target-freq 0) (set! eigensolver-block-size -11) (set! eigensolver-nwork 3) '
            '(set! eigensolver-davidson? false) %s (init-params %s %s) (solve-kpoint (vector3 %g %g %g)) (observe "%s" %s %s)'
            % (p.txt, nb, tol, opts, par, reset, *k, tag or pname(p, par, k), p.pts, "#t" if vel else "#f"))


def pname(p, par, k):
    return "%s/%s/%s" % (p.pid, par, ",".join("%g" % x for x in kfor(p, par, k)))


def qi(x, s):
    if isinstance(x, str) or x is None or not math.isfinite(x) or abs(x * s) > 2e9:
        return 2000000000
    return round(x * s)


def records(run, tf=30, tb=60, sep=SEP, xtol=None):
    out = []
    for v in run.get("obs"):
        pid, f, b, x = v
        out.append(dict(ev="obs", p=pid, f=[qi(y, FT) for y in f], b=[[qi(y, BT) for y in z] for z in b],
                        x=[qi(y, BT) for y in x], tf=tf, tb=tb, sep=sep))
    return out


def judge(c, recs, label, ctx=None):
    """TLC decides whether all observations of each problem agree."""
    r, bad, path = c.validate("ResultsTrace", recs)
    if not r.ok and not bad:
        raise vf.HarnessError(r.out[-2000:])
    seen = {}
    for i, e in enumerate(recs):
        seen.setdefault(e["p"], i)
    for b in bad[:6]:
        i = b["line"] - 1
        e, f = recs[i], recs[seen[recs[i]["p"]]]
        c.violate("%s: problem %s (%s): %s: %s" % (label, e["p"], (ctx or {}).get(i, ""), b["why"], diff(f, e)),
                  first=f, second=e, context=(ctx or {}).get(i))
    return bad


def diff(o, q):
    m = ["frequency %d: %d vs %d" % (i + 1, a, b) for i, (a, b) in enumerate(zip(o["f"], q["f"])) if abs(a - b) > q["tf"]]
    iso = lambda f, i, s: f[i] > s // 2 and i + 1 < len(f) and f[i + 1] - f[i] > s and (i == 0 or f[i] - f[i - 1] > s)
    for i, (u, v) in enumerate(zip(o["b"], q["b"])):
        if not (iso(o["f"], i, q["sep"]) and iso(q["f"], i, q["sep"])):
            continue
        d = [(j, x, y) for j, (x, y) in enumerate(zip(u, v)) if abs(x - y) > q["tb"]]
        if d:
            m.append("band %d quantity %d: %d vs %d" % (i + 1, *d[0]))
    d = [(j, x, y) for j, (x, y) in enumerate(zip(o["x"], q["x"])) if abs(x - y) > q["tb"]]
    if d:
        m.append("structure value %d: %d vs %d" % d[0])
    return "; ".join(m[:4])


def run_failure(r):
    """None if the run is fine, "skip" if the solver gave up (allowed), else what went wrong"""
    if r.rc == 0 and not r.timed_out:
        return None
    if "failure to converge" in r.out or "too many emergency restarts" in r.out:
        return "skip"
    return "exit status %s%s: %s" % (r.rc, " (timed out)" if r.timed_out else "", r.out[-300:])


def compare(c, plan, num, label, gen=None, variants=None, timeout=200):
    """Solve random problems in several settings; all must agree.

    plan: [(name, cfg, np, opts)] settings; gen(rng, i) -> Problem."""
    rng = c.rng
    jobs = []
    for i in range(num):
        p = gen(rng, "p%d" % i)
        body = [(par, k, rng.choice([2, 3, 4, 5])) for par in rng.sample(p.pars, min(2, len(p.pars))) for k in p.ks]
        for name, cfg, np, opts in plan:
            jobs.append((i, name, cfg, np, OBS + "\n".join(solve(p, par, k, nb, opts=opts) for par, k, nb in body)))
    wide = max(np for _, _, np, _ in plan)
    rs = vf.pmap(lambda j: vf.run_mpb(j[2], j[4], np=j[3], timeout=timeout), jobs, workers=8 if wide < 2 else max(2, 8 // wide))
    recs, ctx, skipped = [], {}, 0
    for j, r in zip(jobs, rs):
        f = run_failure(r)
        if f == "skip":
            skipped += 1
            if skipped > 2 + len(jobs) // 20:
                c.violate("%s: the solver does not converge in %d of %d runs" % (label, skipped, len(jobs)), script=j[4], log=r.out[-800:])
                break
            continue
        if f:
            c.violate("%s: %s (%s, %d processes): %s" % (label, j[1], j[2], j[3], f), script=j[4], log=r.out[-1500:])
            continue
        for e in records(r):
            ctx[len(recs)] = "%s (%s, %d processes)" % (j[1], j[2], j[3])
            recs.append(e)
    c.extra[label] = dict(problems=num, settings=[x[0] for x in plan], observations=len(recs), not_converged=skipped)
    if recs:
        c.sample(dict(problem=jobs[0][4][len(OBS):][:700], observation={k: v for k, v in recs[0].items() if k in ("p", "f")}))
        judge(c, recs, label, ctx)
        if not c.viol:
            selftest(c, recs)


def selftest(c, recs):
    """an altered frequency must be rejected"""
    import copy
    e = copy.deepcopy(recs[0])
    e["f"][0] += 200 if len(e["f"]) == 1 or e["f"][1] > e["f"][0] + 200 else -200
    st = c.states, c.transitions, c.traces
    _, bad, _ = c.validate("ResultsTrace", [recs[0], e])
    c.states, c.transitions, c.traces = st
    if not bad:
        raise vf.HarnessError("self-test: an altered frequency is accepted")
