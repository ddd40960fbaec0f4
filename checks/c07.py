"""C07: eigenvectors.  Sessions generated from Eigen.tla are replayed; after each call all overlaps of all copies are compared."""
import vf

SETUP = """
(set! geometry-lattice (make lattice (size 1 1 no-size) (basis1 1 0 0) (basis2 .3 1 0)))
(set! resolution (vector3 6 5 1)) (set! tolerance 1e-12) (set! mesh-size 2)
(set! num-bands %(nb)d) (set! eigensolver-block-size %(bs)d)
(set! default-material (make medium (epsilon 1.5)))
(set! geometry (list (make block (center 0) (size .5 .31 infinity) (e1 1 .4 0) (material (make medium (epsilon 7) %(mu)s)))))
(define EV-0 #f) (define EV-a #f) (define EV-b #f)
(define (mat U) (let ((n (sqmatrix-size U))) (map (lambda (i) (map (lambda (j) (let ((z (sqmatrix-ref U i j)))
   (list (exact->inexact (real-part z)) (exact->inexact (imag-part z))))) (iota n))) (iota n))))
(define (see n x ev p) (do ((b 1 (+ b 1))) ((> (+ b p -1) num-bands)) (emit "U" n x b (mat (dot-eigenvectors ev b)))))
(init-params NO-PARITY true)
"""
K = {1: "(vector3 .31 .17 .23)", 2: "(vector3 -.12 .41 .09)"}


def call(a, cfg, first):
    o, b, x, f = a["o"], a["b"], a["x"], a["f"]
    if o == "solve":
        return "(randomize-fields) (solve-kpoint %s)" % K[a["i"]] + (" (set! EV-0 (get-eigenvectors 1 num-bands))" if first else "")
    if o == "scale":
        n = a["n"] % 4 if not cfg.startswith("inv") else a["n"] % 2 * 2
        a["n"] = n
        return "(scale-eigenvector %d %s)" % (b, ["%d", "(make-rectangular 0 %d)", "-%d", "(make-rectangular 0 -%d)"][n] % a["i"])
    return {"rand": "(randomize-fields)", "get": "(set! EV-%s (get-eigenvectors %d %d))" % (x, b, a["i"]),
            "set": "(set-eigenvectors EV-%s %d)" % (x, b), "write": '(output-eigenvectors EV-%s "%s.h5")' % (x, f),
            "read": '(set! EV-%s (input-eigenvectors "%s.h5" SIZE-%s))' % (x, f, f),
            "save": '(save-eigenvectors "%s.h5")' % f, "load": '(load-eigenvectors "%s.h5")' % f,
            "fix": "(fix-%sfield-phase %d)" % (f, b), "align": "(fix-phase-consistency EV-%s %d)" % (x, b)}[o]


def script(cfg, sess):
    h = sess[0]
    s = [SETUP % dict(h, mu="(mu 1.8)" if h["mu"] else "")]
    size = {"0": 0, "a": 0, "b": 0}
    fsize = {}
    first = True
    for n, a in enumerate(sess[1:]):
        o = a["o"]
        t = call(a, cfg, first)
        if o == "solve":
            size["0"], first = h["nb"], False
        if o == "get":
            size[a["x"]] = a["i"]
        if o == "read":
            t = t.replace("SIZE-" + a["f"], str(fsize[a["f"]]))
            size[a["x"]] = fsize[a["f"]]
        if o == "write":
            fsize[a["f"]] = size[a["x"]]
        if o == "save":
            fsize[a["f"]] = h["nb"]
        s.append(t)
        for x in "0ab":
            if size[x]:
                s.append('(see %d "%s" EV-%s %d)' % (n, x, x, size[x]))
        s.append('(emit "done" %d)' % n)
    return "\n".join(s)


def q(x):
    return int(round(max(-9e4, min(9e4, float(x))) * 1e4)) if x == x and not isinstance(x, str) else 10**9


def trace(sess, r):
    ev = [dict(ev="start", nb=sess[0]["nb"], mu=sess[0]["mu"])]
    done = {v[0] for v in r.get("done")}
    for n, a in enumerate(sess[1:]):
        obs = [dict(x=v[1], b=v[2], re=[[q(z[0]) for z in row] for row in v[3]], im=[[q(z[1]) for z in row] for row in v[3]])
               for v in r.get("U") if v[0] == n]
        ev.append(dict(ev="op", a=a, ok=int(n in done), obs=obs if n in done else []))
        if n not in done:
            break
    return ev


FOREIGN = SETUP + '(solve-kpoint (vector3 .31 .17 .23)) (set! EV-0 (get-eigenvectors 1 num-bands)) %(act)s (emit "F" (mat (dot-eigenvectors EV-0 1)))'


def check(c):
    vf.need("complex", "inv", "herm", "mpi", "invmpi")
    vf.tlc_model(c, "EigenMC", "EigenMCq" if c.quick else "EigenMC")
    g = vf.tlc("EigenGen", simulate=c.n(64, 900), depth=400, seed=vf.SEED, workers=1)
    sess = g.json_lines()
    if len(sess) < 20:
        raise vf.HarnessError("generation failed: " + g.out[-2000:])
    cfgs = ["complex", "inv", "complex", "mpi", "herm", "complex", "inv", "invmpi"]
    jobs = [(cfgs[i % 8], s, 1 + (i // 8) % 3) for i, s in enumerate(sess)]
    txt = [script(cfg, s) for cfg, s, _ in jobs]
    runs = vf.pmap(lambda i: vf.run_mpb(jobs[i][0], txt[i], np=jobs[i][2]), range(len(jobs)))
    recs, where = [], []
    for i, (cfg, s, np) in enumerate(jobs):
        ev = trace(s, runs[i])
        recs += ev
        where += [(i, n) for n in range(len(ev))]
        if i < 6:
            c.sample("%s nb=%d mu=%d block %d: %s" % (cfg, s[0]["nb"], s[0]["mu"], s[0]["bs"], " ".join(a["o"] for a in s[1:12])))
    c.extra["overlaps"] = sum(len(o["re"]) ** 2 for e in recs if e["ev"] == "op" for o in e["obs"])
    # eigenvectors saved by one process and read by others
    pairs = [("complex", 1, "herm", 1), ("mpi", 1, "mpi", 3), ("mpi", 2, "mpi", 3), ("mpi", 3, "mpi", 2), ("inv", 1, "inv", 1), ("invmpi", 2, "invmpi", 3)]
    pairs = [p + (mu, nb) for p in pairs for mu, nb in ((0, 3), (1, 4))]

    def cross(p):
        c1, n1, c2, n2, mu, nb = p
        par = dict(nb=nb, bs=0, mu="(mu 1.8)" if mu else "")
        a = vf.run_mpb(c1, FOREIGN % dict(par, act='(save-eigenvectors "x.h5") (output-eigenvectors EV-0 "y.h5")'), np=n1)
        try:
            data = {f: open(a.dir + "/" + f, "rb").read() for f in ("x.h5", "y.h5")}
        except OSError:
            return None
        return [vf.run_mpb(c2, FOREIGN % dict(par, act=t), np=n2, files=data).one("F")
                for t in ('(load-eigenvectors "x.h5")', '(set-eigenvectors (input-eigenvectors "y.h5" num-bands) 1)', '(load-eigenvectors "y.h5")')]
    for p, res in zip(pairs, vf.pmap(cross, pairs)):
        for v in res or [None]:
            if v is None:
                c.violate("eigenvectors saved by %s (%d processes) cannot be loaded by %s (%d processes)" % p[:4])
                continue
            recs.append(dict(ev="foreign", re=[[q(z[0]) for z in row] for row in v[0]], im=[[q(z[1]) for z in row] for row in v[0]]))
            where.append(("saved by %s -np %d, loaded by %s -np %d" % p[:4], 0))
    _, bad, _ = c.validate("EigenTrace", recs)
    for b in bad:
        i, n = where[b["line"] - 1]
        if isinstance(i, str):
            c.violate("%s: %s" % (i, b["why"]))
        else:
            c.violate("%s, session %d call %d (%s): %s" % (jobs[i][0] + (" np=%d" % jobs[i][2] if "mpi" in jobs[i][0] else ""), i, n, jobs[i][1][n]["o"] if n else "", b["why"]),
                      calls=jobs[i][1][:n + 1], script=txt[i], out=runs[i].out[-1500:])
