"""C09: energies in regions and integrals over the cell.  Specification: spec/Energy.tla, Geometry.tla."""
import json, math
import vf, fieldlab, problems

LIB = """
(define ASYM #f) (define POW #f)
(define (pcode p)
  (let ((i (ixn (vector3-x p) (list-ref SZ 0) NX)) (j (ixn (vector3-y p) (list-ref SZ 1) NY))
        (k (ixn (vector3-z p) (list-ref SZ 2) NZ)))
   (let ((a (lin i j k)) (b (lin (modulo (- i) NX) (modulo (- j) NY) (modulo (- k) NZ))))
    (let ((c (if ASYM a (min a b)))) (if POW (expt 2 (modulo c 5)) c)))))
(define (w1 r) (rnd (wgt r)))
(define (vred F) (+ (vector3-x F) (* 2 (vector3-y F)) (* 3 (vector3-z F))))
(define AA 1) (define BB 0)
(define rho #f) (define vf #f)
(define DIEL (make dielectric (epsilon 7)))
"""
EPS = {"lin": lambda c: c, "pow": lambda c: 2 ** (c % 5)}


def num(x, h):
    return "(/ %d %d)" % (x, 4 * h)


def vec3(v, h):
    return " ".join(num(x, h) for x in v)


def obj(o, d, h):
    """lengths are quarters of a step 1/h"""
    m = "(material nothing)" if o["m"] == "nothing" else "(material DIEL)"
    c = "(center %s)" % vec3(o["c"], h)
    rad = lambda r: repr(math.sqrt(r + .5) / (4 * h))
    t = o["t"]
    if t in ("block", "ell"):
        s = "(size %s)" % " ".join("infinity" if x == 0 else num(2 * x, h) for x in o["h"])
        return "(make %s %s %s %s)" % ("block" if t == "block" else "ellipsoid", c, s, m)
    if t == "sphere":
        return "(make sphere %s (radius %s) %s)" % (c, rad(o["r"]), m)
    ax = "(axis %s)" % " ".join("1" if i == o["ax"] - 1 else "0" for i in range(3))
    hh = o["h"][o["ax"] - 1]
    ht = "(height %s)" % ("infinity" if hh == 0 else num(2 * hh, h))
    if t == "cyl":
        return "(make cylinder %s %s %s (radius %s) %s)" % (c, ax, ht, rad(o["r"]), m)
    return "(make cone %s %s %s (radius %s) (radius2 %s) %s)" % (c, ax, ht, num(o["r"], h), num(o["r2"], h), m)


def band(s, q):
    # the constant modes at k = 0 have no energy in D
    return 1 + q["a"] % 3 if any(s["k"]) else 3


def script(cs, half):
    s, d = cs["s"], cs["s"]["d"]
    h = s["h"]
    last = max(i for i in range(3) if d[i] > 1)
    size = ["no-size" if i > last else "(/ %d %d)" % (d[i], h) for i in range(3)]
    out = [fieldlab.LIB, LIB,
           "(set! geometry-lattice (make lattice (size %s)%s)) (set! resolution %d) (set! NX %d) (set! NY %d) (set! NZ %d)"
           % (" ".join(size), " (basis1 1 0 0) (basis2 0.5 (sqrt 0.75) 0)" if s["sk"] else "", h, *d),
           "(set! SZ (list %s))" % " ".join("1" if x == "no-size" else x for x in size),
           "(set! ASYM %s) (set! POW %s)" % ("#f" if half else "#t", "#t" if s["eps"] == "pow" else "#f"),
           ("(set! force-mu? true) " if s["mu"] else "") + "(set! default-material (make material-function (material-func (lambda (p) (make dielectric (epsilon (pcode p)) (mu %s))))))"
           % ("(+ 1 (/ (pcode p) 100))" if s["mu"] else "1"),
           "(set! num-bands 3) (set! tolerance 1e-3) (init-params NO-PARITY true)",
           "(solve-kpoint (vector3 %s)) " % " ".join("%g" % (x / 4) for x in s["k"]),
           "(get-epsilon) (define eps0 (field-copy cur-field))",
           "(get-dfield 1) (set! vf (cvector-field-make cur-field)) (set! rho (rscalar-field-make cur-field)) (field-map! rho (lambda (e v) e) eps0 vf)"]
    n = 0
    for q in cs["log"]:
        tag = '"r" %d' % n
        t = q.get("t")
        if t == "H" and s["mu"]:     # refused with a permeability
            t = q["t"] = "B"
        if q["q"] == "load":
            if t == "u":
                out.append("(let ((f (field-copy rho))) (field-map! f (lambda (e) (md (+ (* %d e e) (* %d e) 1))) rho) (field-load f))" % (q["a"], q["b"]))
            elif t in "vc":
                # the last band, a field of integers made from the dielectric constant and the weights
                out.append('(field-map! vf (lambda (e) (vector3 (make-rectangular (md (* e %d)) (md (* e e))) (make-rectangular (md (+ e %d)) (md (* 3 e))) '
                           '(make-rectangular (md (* 7 e)) (md (+ 5 (* %d e)))))) rho)' % (q["a"], q["b"], q["b"]))
                out.append('(field-load vf)' if t == "c" else '(let ((g (field-copy vf))) (cvector-field-nonbloch! g) (field-load g))')
            elif t in "DHB":
                b = band(s, q)
                out.append('(get-%sfield %d) (emit "raw" %d (dump cur-field "v")) (emit "en" %d (compute-field-energy) (compute-energy-integral (lambda (u e r) u)))' % (t.lower(), b, n, n))
            elif t == "R":
                out.append('(get-tot-pwr %d) (emit "en" %d #f (compute-energy-integral (lambda (u e r) u)))' % (band(s, q), n))
            else:
                out.append("(get-%sfield %d)" % (t, band(s, q)))
            ty = "r" if t in "uDHBR" else "v"
            out.append('(emit "d" %d (dump cur-field "%s"))' % (n, ty) if t in "uv" or ty == "v" else '(emit "d" %d (all-points (lambda (p) (flat (get-energy-point p)))))' % n)
        elif q["q"] == "objs":
            out.append("(emit %s (compute-energy-in-objects %s))" % (tag, " ".join(obj(o, d, h) for o in q["objs"])))
        elif q["q"] == "range":
            out.append("(emit %s (compute-energy-in-dielectric %g %g))" % (tag, q["lo"] / 2, q["hi"] / 2))
        elif q["q"] == "int":
            a, b, c, e = q["f"]
            out.append("(emit %s (compute-energy-integral (lambda (u eps r) (+ (* %d u) (* %d u (w1 r)) (* %d u (rnd eps)) %d))))" % (tag, a, b, c, e))
        elif q["q"] == "vint":
            a, b = q["f"]
            out.append("(emit %s (cx (compute-field-integral (lambda (F eps r) (* (vred F) (+ (* %d (w1 r)) (* %d (rnd eps))))))))" % (tag, a, b))
        n += 1
    return "\n".join(out)


def trace(cs, run, half):
    s, d = cs["s"], cs["s"]["d"]
    N = d[0] * d[1] * d[2]
    vol = 1
    for i in range(3):
        if d[i] > 1:
            vol *= d[i] / s["h"]
    vol *= math.sqrt(.75) if s["sk"] else 1
    code = []
    for i in range(d[0]):
        for j in range(d[1]):
            for k in range(d[2]):
                a = (i * d[1] + j) * d[2] + k + 1
                b = ((-i % d[0]) * d[1] + (-j % d[1])) * d[2] + (-k % d[2]) + 1
                code.append(EPS[s["eps"]](min(a, b) if half else a))
    recs = [dict(ev="grid", d=d, sk=int(s["sk"]), eps=code)]
    R = {v[0]: v[1] for v in run.get("r")}
    D = {v[0]: v[1] for v in run.get("d")}
    RAW = {v[0]: v[1] for v in run.get("raw")}
    EN = {v[0]: v[1:] for v in run.get("en")}
    Q = 1
    for n, q in enumerate(cs["log"]):
        if n not in R and n not in D:
            return recs, n
        if q["q"] == "load":
            t = q["t"]
            exact = t in "uvc"
            u = [x[0] if t in "uDHBR" else x for x in D[n]]
            Q = 1 if exact else 4000 if t in "DHBR" else 100
            if t in "dhbe":      # scale to about 100
                m = max(abs(y) for x in u for y in x) or 1
                Q = 1000 / m
            elif t in "DHBR":
                Q = 3000 * vol
            f = dict(ev="load", t=t, s=1 if exact else 0, tol=0 if exact else 1, k=s["k"] if t != "v" else [0, 0, 0])
            if t in "uDHBR":
                # eps and constants are integrated on the same scale
                f["s"] = 1 if exact else int(round(Q)) or 1
                if not exact:
                    Q = f["s"]
                f["u"] = [fieldlab.q(x, Q, .51 if not exact else 1e-6) for x in u]
            else:
                f["u"] = [[fieldlab.q(y, Q, .51 if not exact else 1e-6) for y in x] for x in u]
            recs.append(f)
            if n in EN:
                fe, tot = EN[n]
                recs.append(dict(ev="unit", n=2 if t == "R" else 1, total=problems.qi(fe[0] if fe else tot, 1e6), int=problems.qi(tot, 1e6),
                                 fr=[problems.qi(x, 1e6) for x in fe[1:]] if fe else []))
            if n in RAW:
                m = max(abs(y) for x in RAW[n] for y in x) or 1
                recs.append(dict(ev="frac", t=t, mu=s["mu"], fr=[problems.qi(x, 1e3) for x in EN[n][0][1:]], F=[[problems.qi(y, 300 / m) for y in x] for x in RAW[n]]))
            continue
        v = R[n]
        r = {k: x for k, x in q.items() if k != "q"}
        r["ev"] = q["q"]
        if q["q"] == "vint":
            r["v"] = [fieldlab.q(x * N / vol, Q * (100 if f["tol"] == 0 else 10), .51) for x in v]
        else:
            r["v"] = fieldlab.q(v * N / vol, Q, .51 if Q != 1 else 1e-3)
        recs.append(r)
    return recs, None


def check(c):
    vf.need("complex", "inv", "herm", "mpi", "invmpi")
    vf.tlc_model(c, "EnergyMC", "EnergyMCq" if c.quick else "EnergyMC")
    jobs = []
    for big in ("1d", "2d", "3d"):
        g = vf.tlc("EnergyGen", env=dict(BIG=big), simulate=c.n(60, 700) if big != "1d" else c.n(20, 150), depth=15, seed=vf.SEED, workers=1)
        for i, cs in enumerate(g.json_lines()):
            cfg = ["complex", "inv", "mpi", "invmpi", "herm"][i % 5]
            if big == "1d":
                cfg = cfg.replace("mpi", "") if cfg == "invmpi" else cfg.replace("mpi", "complex")
            jobs.append((cfg, c.rng.choice([2, 3]) if "mpi" in cfg else 1, cs))
    if len(jobs) < 40:
        raise vf.HarnessError("only %d cases" % len(jobs))
    txt = [script(j[2], j[0].startswith("inv")) for j in jobs]
    runs = vf.pmap(lambda i: vf.run_mpb(jobs[i][0], txt[i], np=jobs[i][1]), range(len(jobs)))
    recs, where, kinds = [], [], {}
    for i, (j, run) in enumerate(zip(jobs, runs)):
        ev, stop = trace(j[2], run, j[0].startswith("inv"))
        if run.rc != 0 or stop is not None:
            c.violate("%s: the session ended at query %s" % (j[0], stop), script=txt[i], log=run.out[-1000:])
        for e in ev:
            kinds[e["ev"]] = kinds.get(e["ev"], 0) + 1
        where += [i] * len(ev)
        recs += ev
        if i % 30 == 0:
            c.sample(dict(config=j[0], structure=j[2]["s"], queries=j[2]["log"][:5]))
    c.extra["queries"] = kinds
    _, bad, _ = c.validate("EnergyTrace", recs, timeout=800)
    for b in bad[:20]:
        i, e = where[b["line"] - 1], recs[b["line"] - 1]
        c.violate("%s, grid %s: %s" % (jobs[i][0], jobs[i][2]["s"]["d"], json.dumps({k: v for k, v in e.items() if k != "u"})[:500] + ": " + str(b.get("why"))),
                  script=txt[i], structure=jobs[i][2]["s"])
