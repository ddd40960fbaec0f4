"""C05: mirror symmetries.  Generated sessions of requests against Parity.tla; complementary restrictions of random problems merge to the whole spectrum."""
import re
import vf, problems

PRE = """
(define (sgn v sy sz f) (vector3 (* f (vector3-x v)) (* f sy (vector3-y v)) (* f sz (vector3-z v))))
; deviation of the current field from being even / odd; an axial field gets another sign
(define (dev pts sy sz axial)
  (let* ((vs (map (lambda (p) (cl (get-bloch-field-point p))) pts))
         (ws (map (lambda (p) (cl (sgn (get-bloch-field-point (vector3 (vector3-x p) (* sy (vector3-y p)) (* sz (vector3-z p)))) sy sz (if axial -1 1)))) pts))
         (m (apply max (map (lambda (v) (apply max (map magnitude v))) (append vs ws)))))
    (map (lambda (s) (/ (apply max (map (lambda (v w) (apply max (map (lambda (x y) (magnitude (- x (* s y)))) v w))) vs ws)) m)) (list 1 -1))))
(define (devs f pts sy sz axial) (map (lambda (b) (if (and (not axial) (< (list-ref freqs (- b 1)) 0.01)) '() (begin (f b) (dev pts sy sz axial)))) (iota (length freqs) 1)))
(define (modes p pts)
  (let* ((zp (compute-zparities)) (yp (compute-yparities)))
    (emit "modes" p freqs zp yp (devs get-efield pts 1 -1 #f) (devs get-efield pts -1 1 #f)
          (devs get-hfield pts 1 -1 #t) (devs get-hfield pts -1 1 #t) (compute-zparities) (compute-yparities))))
"""
NAMES = {0: "run", 1: "run-zeven", 2: "run-zodd", 4: "run-yeven", 8: "run-yodd", 5: "run-yeven-zeven", 6: "run-yeven-zodd", 9: "run-yodd-zeven", 10: "run-yodd-zodd"}
FLAT = {1: "run-te", 2: "run-tm", 5: "run-te-yeven", 6: "run-tm-yeven", 9: "run-te-yodd", 10: "run-tm-yodd"}
q = problems.qi


def par_of(p):
    return {0: "NO-PARITY", 1: "EVEN-Z", 2: "ODD-Z", 4: "EVEN-Y", 8: "ODD-Y", -1: "PREV-PARITY"}.get(p, str(p))


def symmetric(rng, pid, dims=None, mu=None, herm=False, inv=True):
    for _ in range(200):
        p = problems.make(rng, pid, dims=dims, ysym=True, mu=mu, herm=herm, inv=inv, aniso=False, zero_k=0)
        if "EVEN-Z" in p.pars and "EVEN-Y" in p.pars:
            return p
    raise vf.HarnessError("no symmetric problem")


def kvec(p, y, z, rng):
    k = [round(rng.choice([-1, 1]) * rng.uniform(.15, .45), 3), 0, 0]
    if rng.random() < .25 and not (y or z):
        k[0] = rng.choice([0, .5])
    if y:
        k[1] = round(rng.choice([-1, 1]) * rng.uniform(.1, .4), 3)
    if z:
        k[2] = round(rng.choice([-1, 1]) * rng.uniform(.1, .4), 3)
    return k


def session(rng, p, ops):
    s = [problems.OBS, p.txt, '(set! num-bands %d) (set! tolerance 1e-9)' % rng.choice([2, 3, 4])]
    for o in ops:
        if o["op"] == "init":
            s.append('(emit "op") (init-params %s true) (emit "init" (get-kpoint-index))' % par_of(o["p"]))
        elif o["op"] == "set":
            s.append('(emit "op") (set-parity %s) (emit "set" (get-kpoint-index)) (randomize-fields)' % par_of(o["p"]))
        else:
            o["k"] = kvec(p, o["y"], o["z"], rng)
            s.append('(emit "op") (set! freqs (list)) (set! parity "") (solve-kpoint (vector3 %g %g %g))'
                     '(emit "solve" (get-kpoint-index) parity freqs (if (null? freqs) (list) (compute-zparities)) (if (null? freqs) (list) (compute-yparities)))' % tuple(o["k"]))
    s.append('(emit "over")')
    return "\n".join(s)


def record(r, ops, flat):
    """events of a session; the op after which nothing follows was refused"""
    ev, it, said, lab = [dict(ev="start")], iter(ops), "?", "?"
    pending, over = None, False
    for line in r.out.splitlines():
        m = re.match(r"Solving for band polarization: (\w*)\.$", line)
        if m:
            said = m[1]
        m = re.match(r"(\w*)freqs:, \d+", line)
        if m:
            lab = m[1]
        if not line.startswith("@@"):
            continue
        tag, _, js = line[2:].partition(" ")
        v = vf.json.loads(js) if js else []
        if tag == "over":
            over = True
        elif tag == "op":
            pending, said, lab = next(it), "?", "?"
        else:
            o, pending = pending, None
            e = dict(ev=tag, ok=1, flat=flat, i=v[0])
            if tag == "solve":
                e.update(y=o["y"], z=o["z"], lab=lab, out=v[1], zp=[q(x, 1e4) for x in v[3]], yp=[q(x, 1e4) for x in v[4]], tp=20)
            else:
                e.update(p=o["p"], said=said)
            ev.append(e)
    if pending:
        o = pending
        ev.append(dict(ev=o["op"], ok=0, flat=flat, i=-1, said="", lab="", out="", zp=[], yp=[], tp=0, **{x: o[x] for x in ("p", "y", "z") if x in o}))
    return ev, over


def pieces(p, rng):
    """requests to solve, in any order, each with the number of bands"""
    n = p.n[0] * p.n[1] * p.n[2]
    top = min(8, n // 2)
    ps = [0, 1, 2, 4, 8] + ([5, 6, 9, 10] if p.dims > 1 else [6, 9])
    rng.shuffle(ps)
    return [(x, top if x == 0 else max(3, top * 2 // 3) if x in (1, 2, 4, 8) else max(2, top // 2)) for x in ps]


def spectra(rng, p, k):
    flat = p.n[2] == 1
    s = [problems.OBS, PRE, p.txt, '(set! tolerance 1e-11) (set! eigensolver-block-size %d)' % rng.choice([-11, -11, -2, 3]),
         '(define kp (vector3 %g %g %g)) (define pts %s)' % (*k, p.pts)]
    seen = None
    for x, nb in pieces(p, rng):
        way = rng.choice(["init", "run", "runp", "set"])
        name = rng.choice([NAMES[x]] + ([FLAT[x]] * 2 if flat and x in FLAT else []))
        if way == "set" and seen:
            s.append('(set-parity %s) (randomize-fields) (solve-kpoint kp) (modes %d pts)' % (par_of(x), x))
            continue
        s.append('(set! num-bands %d)' % nb)
        if way in ("init", "set"):
            s.append('(init-params %s true) (solve-kpoint kp) (modes %d pts)' % (par_of(x), x))
            seen = True
        else:
            s.append('(set! k-points (list kp)) (%s (lambda () (modes %d pts)))' % ("run-parity %s true" % par_of(x) if way == "runp" else name, x))
            seen = True
    return "\n".join(s)


PARTS = [(0, (1, 2)), (0, (4, 8)), (0, (5, 6, 9, 10)), (1, (5, 9)), (2, (6, 10)), (4, (5, 6)), (8, (9, 10))]


def spectra_events(r, p):
    out, f, par = [], {}, {}
    tf = lambda x: 40 if not p.mu else max([40] + [q(y, problems.FT) // 100 for y in x])
    for v in r.get("modes"):
        x, fr, zp, yp, ez, ey, hz, hy, zp2, yp2 = v
        iso = [int(i + 1 < len(fr) and fr[i + 1] - fr[i] > .01 and (i == 0 or fr[i] - fr[i - 1] > .01)) for i in range(len(fr))]
        d = lambda l: [[q(y, 1e4) for y in z] for z in l]
        t = 600 if p.mu else 150
        out.append(dict(ev="modes", p=x, zp=[q(y, 1e4) for y in zp], yp=[q(y, 1e4) for y in yp], ez=d(ez), ey=d(ey), hz=d(hz), hy=d(hy), iso=iso,
                        hasz=1, hasy=1, tp=t // 3, tm=t))
        if x in f:
            raise vf.HarnessError("twice")
        f[x], par[x] = [q(y, problems.FT) for y in fr], out[-1]
    for whole, parts in PARTS:
        ps = [x for x in parts if x in f or p.dims > 1 or x not in (5, 10)]
        if whole in f:
            out.append(dict(ev="merge", f=f[whole], parts=[f.get(x, []) for x in ps], tf=tf(f[whole]), v=[],
                            sg=[1 if x in (1, 4) else -1 for x in ps]))
            if parts in ((1, 2), (4, 8)) and not p.mu:
                out[-1]["v"] = par[whole]["zp" if parts == (1, 2) else "yp"]
    return out


def check(c):
    vf.need("complex", "inv", "herm")
    vf.tlc_model(c, "ParityMC", "ParityMC")
    num = c.n(100, 1000)
    g = vf.tlc("ParityGen", simulate=num, depth=40, workers=1)
    sess = g.json_lines()
    if len(sess) < num // 2:
        raise vf.HarnessError("generation failed: " + g.out[-2000:])
    rng = c.rng
    jobs = []
    for i, ops in enumerate(sess):
        p = symmetric(rng, "s%d" % i, dims=rng.choice([2, 2, 3]), mu=False)
        jobs.append((rng.choice(["complex", "complex", "inv"]), p, session(rng, p, ops), ops))
    ns = len(jobs)
    for i in range(c.n(120, 1200)):
        cfg = rng.choice(["complex", "complex", "inv", "herm"])
        p = symmetric(rng, "p%d" % i, dims=rng.choice([1, 2, 2, 3]), mu=rng.random() < .2, herm=cfg == "herm", inv=cfg == "inv" or rng.random() < .5)
        jobs.append((cfg, p, spectra(rng, p, kvec(p, 0, 0, rng)), None))
    rs = vf.pmap(lambda j: vf.run_mpb(j[0], j[2], timeout=300), jobs)
    recs, ctx, skip, refused = [], [], 0, 0
    for (cfg, p, txt, ops), r in zip(jobs, rs):
        f = problems.run_failure(r)
        if f == "skip":
            skip += 1
            continue
        if ops is None:
            if f:
                c.violate("%s build, %s: %s" % (cfg, p.pid, f), script=txt, log=r.out[-1500:])
                continue
            ev = spectra_events(r, p)
        else:
            ev, over = record(r, ops, int(p.n[2] == 1))
            if r.timed_out or r.rc < 0 or (not over and (r.rc == 0 or ev[-1]["ev"] == "start" or ev[-1]["ok"])):
                c.violate("%s build, session %s: %s" % (cfg, p.pid, f or "ends early"), script=txt, log=r.out[-1500:])
                continue
            refused += not over
        recs += ev
        ctx += [("%s build, %s" % (cfg, p.pid), txt)] * len(ev)
    if skip > 2 + len(jobs) // 20:
        c.violate("the solver does not converge in %d of %d runs" % (skip, len(jobs)))
    r, bad, _ = c.validate("ParityTrace", recs)
    if not bad and not r.ok:
        raise vf.HarnessError(r.out[-2000:])
    for b in bad:
        if len(c.viol) < 8:
            c.violate("%s: %s" % (ctx[b["line"] - 1][0], b["why"]), event=recs[b["line"] - 1], script=ctx[b["line"] - 1][1])
    c.extra.update(sessions=ns, refused=refused, problems=len(jobs) - ns, restrictions=sum(e["ev"] == "modes" for e in recs),
                   merges=sum(e["ev"] == "merge" for e in recs), not_converged=skip)
    c.sample(next(e for e in recs if e["ev"] == "modes"))
    c.sample(dict(session=sess[0]))
