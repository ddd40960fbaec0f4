"""C01: sessions generated from Access.tla are replayed call by call; after each call the current field is probed."""
import re
import vf

SETUP = """
(setvbuf (current-output-port) 'line)
(set! geometry-lattice (make lattice (size 1 1 no-size) (basis1 1 0 0) (basis2 .3 1 0)))
(set! resolution %d)
(set! tolerance 1e-12) (set! mesh-size 2)
(define (setup bands mu?)
  (set! num-bands bands)
  (set! default-material (make medium (epsilon 1.5)))
  (set! geometry (list
    (if mu? (make block (center 0) (size .5 .31 infinity) (e1 1 .4 0) (material (make medium (epsilon 7) (mu 1.8))))
            (make block (center 0) (size .5 .31 infinity) (e1 1 .4 0) (material (make medium (epsilon 7))))))))
(define P (vector3 (/ -1 6) (/ 1 6) 0))
(define EV #f) (define F-a #f) (define F-b #f)
(define I3 (matrix3x3 (vector3 1 0 0) (vector3 0 1 0) (vector3 0 0 1)))
(define (vals v) (list (magnitude (vector3-x v)) (magnitude (vector3-y v)) (magnitude (vector3-z v))))
(define (h5s)
  (let ((dir (opendir ".")))
    (let loop ((e (readdir dir)) (acc '()))
      (if (eof-object? e) (begin (closedir dir) acc)
          (loop (readdir dir)
                (if (and (> (string-length e) 3) (string=? (substring e (- (string-length e) 3)) ".h5") (not (string=? e "ev.h5")))
                    (cons e acc) acc))))))
(define (files) (if (mpi-is-master?) (let ((l (h5s))) (map delete-file l) l) '()))
(define (probe k)
  (cond ((string=? k "-") (let ((z (integrate-probe)))
           (list (abs (real-part z)) (abs (imag-part z)) (abs (compute-energy-in-dielectric -1e9 1e9)))))
        ((string=? k "C") (list (magnitude (get-bloch-cscalar-point P))))
        ((member k '("n" "m")) (list (rscalar-field-get-point cur-field P)))
        ((member k '("D" "H" "B" "R")) (list (abs (get-energy-point P))))
        (else (vals (get-bloch-field-point P)))))
(define (integrate-probe) (compute-field-integral (lambda (F eps r) (if (number? F) F (magnitude (vector3-x F))))))
"""
K = {1: "(vector3 .31 .17 .23)", 2: "(vector3 -.12 .41 .09)"}
CALL = {
    "init": lambda a: "(setup %d %s) (init-params NO-PARITY %s)" % (a["b"], "#t" if a["m"] else "#f", "#f" if a["i"] else "#t"),
    "solve": lambda a: "(randomize-fields) (solve-kpoint %s)" % K[a["i"]],
    "setidx": lambda a: "(set-kpoint-index %d)" % a["i"],
    "rand": lambda a: "(randomize-fields)",
    "efromd": lambda a: "(get-efield-from-dfield)", "geteps": lambda a: "(get-epsilon)", "getmu": lambda a: "(get-mu)",
    "phase": lambda a: "(fix-field-phase)", "energy": lambda a: "(compute-field-energy)",
    "div": lambda a: "(compute-field-divergence)", "out": lambda a: "(output-field)",
    "overlap": lambda a: "(transformed-overlap I3 (vector3 0 0 0))",
    "indiel": lambda a: "(compute-energy-in-dielectric 1 100)",
    "inobj": lambda a: "(compute-energy-in-objects (make sphere (center 0) (radius .3)))",
    "eint": lambda a: "(compute-energy-integral (lambda (u e r) u))",
    "fint": lambda a: "(compute-field-integral (lambda (F e r) 1))",
    "penergy": lambda a: "(get-energy-point P)", "pfield": lambda a: "(get-field-point P)", "pscalar": lambda a: "(get-cscalar-point P)",
    "peps": lambda a: "(get-epsilon-point P)", "zpar": lambda a: "(compute-zparities)", "ypar": lambda a: "(compute-yparities)",
    "dom": lambda a: "(get-dominant-planewave %d)" % a["b"],
    "store": lambda a: "(set! F-%s (field-copy cur-field))" % a["x"], "load": lambda a: "(field-load F-%s)" % a["x"],
    "geteig": lambda a: "(set! EV (get-eigenvectors %d %d))" % (a["b"], a["i"]),
    "seteig": lambda a: "(set-eigenvectors EV %d)" % a["b"], "doteig": lambda a: "(dot-eigenvectors EV %d)" % a["b"],
    "saveig": lambda a: '(save-eigenvectors "ev.h5")', "loadeig": lambda a: '(load-eigenvectors "ev.h5")',
    "gv": lambda a: "(compute-group-velocity-component (vector3 1 0 0))",
    "gv1": lambda a: "(compute-1-group-velocity-component (vector3 1 0 0) %d)" % a["b"],
    "oeps": lambda a: "(output-epsilon)", "omu": lambda a: "(output-mu)",
    "sym": lambda a: "(compute-symmetry %d I3 (vector3 0 0 0))" % a["b"],
    "poyn": lambda a: "(get-poynting %d)" % a["b"], "totp": lambda a: "(get-tot-pwr %d)" % a["b"],
    "charge": lambda a: "(get-charge-density %d)" % a["b"],
}
for _o, _n in dict(getd="get-dfield", geth="get-hfield", getb="get-bfield", gete="get-efield", fixh="fix-hfield-phase", fixb="fix-bfield-phase",
                   fixd="fix-dfield-phase", fixe="fix-efield-phase", oh="output-hfield", oe="output-efield", odpwr="output-dpwr", ohpwr="output-hpwr").items():
    CALL[_o] = (lambda n: lambda a: "(%s %d)" % (n, a["b"]))(_n)
REFUSAL = re.compile(r"must be called|must have 1 <=|be loaded|B, not H|curfield must refer|must be loaded|valid symmetry")
N = {"complex": 6, "inv": 6, "herm": 6, "mpi": 6, "invmpi": 6}


def adapt(cfg, sess):
    """calls that are documented as not implemented in a build are left out there"""
    res = []
    for e in sess:
        a = e["a"]
        if cfg in ("inv", "mpi", "invmpi"):
            if a["o"] == "overlap":
                continue
            if a["o"] == "sym":
                e = dict(e, a=dict(a, o="getb"))
                if e["out"] == "warn" and e["k"] in ("d", "b"):
                    pass
        res.append(e)
    return res


def script(cfg, sess, rng):
    s = [SETUP % 6]
    for n, e in enumerate(sess):
        a = e["a"]
        if a["o"] == "scale":
            t = rng.choice(["-2", "2"] + ([] if cfg.startswith("inv") else ["(make-rectangular 1.2 -1.6)", "(make-rectangular 0 2)"]))
            txt = "(scale-eigenvector %d %s)" % (a["b"], t)
        else:
            txt = CALL[a["o"]](a)
        s.append('(emit "do" %d) %s (emit "done" %d (files)) (emit "probe" %d (probe "%s"))' % (n, txt, n, n, e["k"]))
    return "\n".join(s)


def q(x):
    return int(round(min(abs(float(x)), 2e4) * 1e4)) if x == x and not isinstance(x, str) else 2 * 10**8


def trace(cfg, sess, r):
    """events of one run"""
    warn = {}
    cur = None
    mpi = cfg.endswith("mpi")
    for line in r.out.splitlines():
        m = re.match(r"@@(do|done|probe) \[(\d+)", line)
        if m:
            cur = (m[1], int(m[2]))
        elif REFUSAL.search(line):
            warn[cur] = warn.get(cur, 0) + 1
    done = {v[0]: v[1] for v in r.get("done")}
    probe = {v[0]: v[1] for v in r.get("probe")}
    started = {v[0] for v in r.get("do")}
    ev = [dict(ev="start")]
    for n, e in enumerate(sess):
        if n not in started:
            break
        ok = n in done and n in probe
        f = [x[2:] if x.startswith("t-") else "?" + x for x in done.get(n, [])]
        ev.append(dict(ev="op", a=e["a"], done=int(n in done), rc=-9 if r.timed_out else 0 if n in done else r.rc, k=e["k"],
                       w=-1 if mpi else warn.get(("do", n), 0), file=(re.split(r"[.]", f[0])[0] if len(f) == 1 else ",".join(f)),
                       v=[q(x) for x in probe[n]] if ok else [], pw=-1 if mpi else warn.get(("done", n), 0)))
        if n in done and n not in probe:      # died while the field was being looked at
            ev[-1].update(done=0, rc=r.rc)
            break
        if n not in done:
            break
    return ev


def check(c):
    vf.need("complex", "inv", "herm", "mpi", "invmpi")
    vf.tlc_model(c, "AccessMC", "AccessMCq" if c.quick else "AccessMC")
    g = vf.tlc("AccessGen", simulate=c.n(110, 1500), depth=400, seed=vf.SEED, workers=1)
    sess = g.json_lines()
    if len(sess) < 40:
        raise vf.HarnessError("generation failed: " + g.out[-2000:])
    cfgs = ["complex", "complex", "inv", "herm", "mpi", "complex", "inv", "invmpi"]
    jobs = [(cfgs[i % 8], adapt(cfgs[i % 8], s), 1 + (i // 8) % 3) for i, s in enumerate(sess)]
    txt = [script(cfg, s, c.rng) for cfg, s, _ in jobs]
    runs = vf.pmap(lambda i: vf.run_mpb(jobs[i][0], txt[i], np=jobs[i][2]), range(len(jobs)))
    by, where = {}, {}
    for i, (cfg, s, np) in enumerate(jobs):
        key = "inv" if cfg.startswith("inv") else "complex"
        ev = trace(cfg, s, runs[i])
        if len(ev) == 1:
            c.violate("%s: a session does not even start (status %s)" % (cfg, runs[i].rc), out=runs[i].out[-800:], script=txt[i])
            continue
        l = by.setdefault(key, [])
        where.setdefault(key, []).extend([(i, n) for n in range(len(ev))])
        l.extend(ev)
        if len(ev) > 12:
            c.sample("%s np=%d: %s" % (cfg, np, " ".join("%s>%s" % (e["a"]["o"], e["k"]) for e in ev[1:13])))
    calls = {}
    for key, l in by.items():
        _, bad, _ = c.validate("AccessTrace", l)
        for b in bad:
            i, n = where[key][b["line"] - 1]
            c.violate("%s, session %d call %d: %s" % (jobs[i][0] + (" np=%d" % jobs[i][2] if "mpi" in jobs[i][0] else ""), i, n, b["why"]),
                      calls=[e["a"] for e in jobs[i][1][:n]], script=txt[i], out=runs[i].out[-1500:])
        for e in l:
            if e["ev"] == "op":
                calls[e["a"]["o"]] = calls.get(e["a"]["o"], 0) + 1
    c.extra["calls"] = calls
    c.extra["sessions"] = len(jobs)
