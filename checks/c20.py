"""C20: group velocities.  Generated sessions of questions and disturbances; TLC compares every answer with finite differences."""
import math
import vf, problems

PRE = """
(define (grad-k c) (cartesian->reciprocal (vector3 (list-ref c 0) (list-ref c 1) (list-ref c 2))))
(define (fs) (map (lambda (x) (if neg (if (> x 0) (sqrt x) 0) x)) freqs))
(define neg #f)
"""
UNIT = [(1, 0, 0), (0, 1, 0), (0, 0, 1)]


def script(rng, p, par, k, nb, bs, ops, neg, inv):
    k = problems.kfor(p, par, k)
    s = [PRE, p.txt, '(set! num-bands %d) (set! tolerance 1e-12) (set! eigensolver-block-size %d) (set! negative-epsilon-ok? %s) (set! neg %s)'
         % (nb, bs, "true" if neg else "false", "true" if neg else "false"),
         "(init-params %s true) (define kp (vector3 %g %g %g))" % ((par,) + k),
         '(solve-kpoint kp)']
    n = 3 if p.mu else 1            # slow convergence with mu
    again = '(solve-kpoint kp)' * (n - 1)
    s.append(again + '(emit "base" (fs))')
    fixed = []
    if "-Z" in par:
        fixed.append(2)
    if "-Y" in par:
        fixed.append(1)
    for i in fixed:
        s.append('(emit "fix0" %d)' % (i + 1))
    for i in range(3):
        if i not in fixed and any(k):
            s.append('(define d (grad-k (list %g %g %g))) %s (define up (fs)) %s (emit "fd" %d up (fs))'
                     % (UNIT[i] + ('(solve-kpoint (vector3+ kp (vector3-scale 2e-4 d)))' * n, '(solve-kpoint (vector3- kp (vector3-scale 2e-4 d)))' * n, i + 1)))
    s.append('(solve-kpoint kp)')
    for o in ops:
        b = (o["b"] - 1) % nb + 1
        n = math.sqrt(sum(x * x for x in o["u"]))
        u = [x / n for x in o["u"]]
        us = "(list %s)" % " ".join(map(repr, u))
        ln = rng.choice([1, 1, .3, 7])
        if o["op"] == "vecs":
            s.append('(emit "vecs" (map vl (compute-group-velocities)))')
        elif o["op"] == "comp":
            s.append('(emit "comp" %s (compute-group-velocity-component (vector3-scale %g (grad-k %s))))' % (us, ln, us))
        elif o["op"] == "one":
            s.append('(emit "one" %d (vl (compute-1-group-velocity %d)))' % (b, b))
        elif o["op"] == "onec":
            s.append('(emit "onec" %d %s (compute-1-group-velocity-component (vector3-scale %g (grad-k %s)) %d))' % (b, us, ln, us, b))
        elif o["op"] == "recip":
            s.append('(emit "recip" %d (map (lambda (i) (vl (reciprocal->cartesian (vector3 (if (= i 0) 1 0) (if (= i 1) 1 0) (if (= i 2) 1 0))))) (list 0 1 2))'
                     ' (vl (compute-1-group-velocity-reciprocal %d)))' % (b, b))
        elif o["op"] == "turn":
            s.append('(scale-eigenvector %d %s)' % (b, "-1" if inv else "(make-polar 1 %g)" % (o["u"][0] * 1.1)))
        elif o["op"] == "fix":
            s.append('(get-%sfield %d) (fix-field-phase)' % (rng.choice("dhe"), b))
        elif o["op"] == "fetch":
            s.append('(get-%sfield %d) (get-epsilon)' % (rng.choice("dhbe"), b))
        else:
            s.append('(get-%sfield %d) (compute-field-energy)' % (rng.choice("dh"), b))
    return problems.OBS + "\n".join(s)


def q(x, s):
    return problems.qi(x, s)


def check(c):
    vf.need("complex", "inv", "herm")
    vf.tlc_model(c, "Velocity", "VelocityMC")
    num = c.n(90, 900)
    g = vf.tlc("VelocityGen", simulate=num, depth=60, workers=1)
    sess = g.json_lines()
    if len(sess) < num // 2:
        raise vf.HarnessError("generation failed: " + g.out[-2000:])
    rng, jobs = c.rng, []
    for i, ops in enumerate(sess):
        cfg = rng.choice(["complex", "complex", "inv", "herm"])
        p = problems.make(rng, "p%d" % i, herm=cfg == "herm", zero_k=.1, inv=cfg == "inv" or rng.random() < .5, mu=rng.random() < .25)
        nb = rng.choice([2, 3, 4, 5])
        bs = rng.choice([-11, -11, 1, 2, 3])
        neg = not p.mu and rng.random() < .15
        jobs.append((cfg, p, script(rng, p, rng.choice(p.pars), rng.choice(p.ks), nb, bs, ops, neg, cfg == "inv")))
    rs = vf.pmap(lambda j: vf.run_mpb(j[0], j[2], timeout=300), jobs)
    recs, ctx, skip, iso = [], [], 0, 0
    for (cfg, p, txt), r in zip(jobs, rs):
        f = problems.run_failure(r)
        if f == "skip":
            skip += 1
            continue
        if f:
            c.violate("%s build, %s: %s" % (cfg, p.pid, f), script=txt, log=r.out[-1500:])
            continue
        for tag, v in r.obs:
            e = None
            if tag == "base":
                fr = [q(x, 1e8) for x in v[0]]
                e = dict(ev="base", f=fr, sep=3000000, tol=100 if p.mu else 40)
                iso += sum(1 for b in range(len(fr) - 1) if fr[b] > 3e6 and fr[b + 1] - fr[b] > 3e6 and (b == 0 or fr[b] - fr[b - 1] > 3e6))
            elif tag == "fd":
                e = dict(ev="fd", i=v[0], up=[q(x, 1e8) for x in v[1]], dn=[q(x, 1e8) for x in v[2]])
            elif tag == "fix0":
                e = dict(ev="fix0", i=v[0])
            elif tag == "vecs":
                e = dict(ev="vecs", v=[[q(x, 1e4) for x in y] for y in v[0]])
            elif tag == "comp":
                e = dict(ev="comp", u=[q(x, 1e3) for x in v[0]], v=[q(x, 1e4) for x in v[1]])
            elif tag == "one":
                e = dict(ev="one", b=v[0], v=[q(x, 1e4) for x in v[1]])
            elif tag == "onec":
                e = dict(ev="onec", b=v[0], u=[q(x, 1e3) for x in v[1]], v=q(v[2], 1e4))
            elif tag == "recip":
                e = dict(ev="recip", b=v[0], g=[[q(x, 1e3) for x in y] for y in v[1]], v=[q(x, 1e4) for x in v[2]])
            if e:
                recs.append(e)
                ctx.append(("%s build, %s%s" % (cfg, p.pid, " with mu" if p.mu else ""), txt))
    if skip > 2 + len(jobs) // 20:
        c.violate("the solver does not converge in %d of %d runs" % (skip, len(jobs)))
    r, bad, _ = c.validate("VelocityTrace", recs)
    if not bad and not r.ok:
        raise vf.HarnessError(r.out[-2000:])
    for b in bad[:8]:
        c.violate("%s: %s" % (ctx[b["line"] - 1][0], b["why"]), event=recs[b["line"] - 1], script=ctx[b["line"] - 1][1])
    if iso < num // 2:
        raise vf.HarnessError("too few isolated bands")
    c.extra.update(sessions=len(jobs), isolated_bands=iso, not_converged=skip)
    c.sample(dict(session=sess[0][:5]))
    c.sample(recs[0])
