"""Replays behaviours of spec/Fields.tla in the real program and records what it does."""
import glob, json, math, os
import vf, h5

PS, RAW = 5000, 1000
LIB = """
(define (rnd x) (inexact->exact (round x)))
(define (md x) (modulo (rnd x) 97))
(define (red v) (if (number? v) v (+ (vector3-x v) (* 2 (vector3-y v)) (* 3 (vector3-z v)))))
(define (fsum c vs) (let loop ((j 1) (s c) (l vs)) (if (null? l) s (loop (+ j 1) (+ s (* j (red (car l)))) (cdr l)))))
(define (fn t c)
  (lambda vs (let* ((s (fsum c vs)) (re (real-part s)) (im (imag-part s)))
    (cond ((string=? t "r") (md (+ re (* 3 im))))
          ((string=? t "c") (make-rectangular (md (+ re (* 2 im))) (md (+ (- im re) 5))))
          (else (vector3 (make-rectangular (md (+ re im)) (md (- im re)))
                         (make-rectangular (md (+ (* 2 re) im)) (md (+ (- (* 2 im) re) 1)))
                         (make-rectangular (md (+ (* 3 re) im)) (md (+ (- (* 3 im) re) 2)))))))))
(define (cx z) (list (exact->inexact (real-part z)) (exact->inexact (imag-part z))))
(define (flat v) (if (number? v) (if (real? v) (list (exact->inexact v)) (cx v))
   (append (cx (vector3-x v)) (cx (vector3-y v)) (cx (vector3-z v)))))
(define (flatc v) (if (number? v) (cx v) (flat v)))
(define NX 1) (define NY 1) (define NZ 1)
(define (size3) (map (lambda (s) (if (= s no-size) 1 s)) (vector->list (object-property-value geometry-lattice 'size))))
(define SZ '(1 1 1))
(define (gp i j k) (vector3 (if (= NX 1) 0 (* (list-ref SZ 0) (- (/ i NX) 1/2)))
                            (if (= NY 1) 0 (* (list-ref SZ 1) (- (/ j NY) 1/2)))
                            (if (= NZ 1) 0 (* (list-ref SZ 2) (- (/ k NZ) 1/2)))))
(define (ixn x s n) (if (= n 1) 0 (modulo (rnd (+ (* (/ x s) n) (/ n 2))) n)))
(define (lin i j k) (+ (* (+ (* i NY) j) NZ) k 1))
(define (code-of p)
  (let ((i (ixn (vector3-x p) (list-ref SZ 0) NX)) (j (ixn (vector3-y p) (list-ref SZ 1) NY))
        (k (ixn (vector3-z p) (list-ref SZ 2) NZ)))
    (min (lin i j k) (lin (modulo (- i) NX) (modulo (- j) NY) (modulo (- k) NZ)))))
(define (ix1 x s n) (if (= n 1) 0 (* (+ (/ x s) .5) n)))
(define (wgt r) (+ 1 (ix1 (vector3-x r) (list-ref SZ 0) NX) (* 2 (ix1 (vector3-y r) (list-ref SZ 1) NY))
                     (* 3 (ix1 (vector3-z r) (list-ref SZ 2) NZ))))
(define (all-points f)
  (let loop ((l (- (* NX NY NZ) 1)) (acc '()))
    (if (< l 0) acc
        (loop (- l 1) (cons (f (gp (quotient l (* NY NZ)) (modulo (quotient l NZ) NY) (modulo l NZ))) acc)))))
(define (geti f t bl)   ; reader of stored field f of type t
  (cond ((string=? t "r") (lambda (p) (flat (rscalar-field-get-point f p))))
        ((string=? t "c") (lambda (p) (cx (cscalar-field-get-point f p))))
        ((= bl 1) (lambda (p) (flat (cvector-field-get-point-bloch f p))))
        (else (lambda (p) (flat (cvector-field-get-point f p))))))
(define (dump f t)
  (if (string=? t "c")
      (let ((tmp (cvector-field-make f)))
        (field-map! tmp (lambda (z) (vector3 z 0 0)) f)
        (all-points (lambda (p) (cx (vector3-x (cvector-field-get-point-bloch tmp p))))))
      (all-points (geti f t 1))))
(define SCRATCH 0)
(define (stash) (set! SCRATCH (+ SCRATCH 1))
  (if (mpi-is-master?)
    (let ((d (string-append "out" (number->string SCRATCH))))
      (mkdir d)
      (let ((dir (opendir ".")))
        (do ((e (readdir dir) (readdir dir))) ((eof-object? e) (closedir dir))
          (if (and (> (string-length e) 3) (string=? (substring e (- (string-length e) 3)) ".h5"))
              (rename-file e (string-append d "/" e))))))))
(set! num-bands 1) (set! tolerance 0.5) (set! mesh-size 1)
(set! default-material (make material-function (epsilon-func (lambda (p) (code-of p)))))
"""


def lattice(n, skew, sizes):
    """Scheme text for a lattice of grid n; returns (text, sizes, volume)."""
    s, last = [], max([i for i in range(3) if n[i] > 1] or [0])
    for i in range(3):
        s.append("no-size" if n[i] == 1 and i > last else str(1 if n[i] == 1 else sizes[i]))
    sz = [1 if n[i] == 1 else sizes[i] for i in range(3)]
    b = "(basis1 1 0 0) (basis2 0.5 (sqrt 0.75) 0) (basis3 0 0 1)" if skew and n[0] > 1 and n[1] > 1 else ""
    vol = sz[0] * sz[1] * sz[2] * (math.sqrt(.75) if b else 1)
    res = "(vector3 %s)" % " ".join(repr(n[i] / sz[i]) for i in range(3))
    txt = ("(set! geometry-lattice (make lattice (size %s) %s)) (set! resolution %s) "
           "(set! SZ '(%s)) (set! NX %d) (set! NY %d) (set! NZ %d)"
           % (" ".join(s), b, res, " ".join(map(str, sz)), *n))
    return txt, sz, vol


def ref(x):
    return "cur-field" if x == "cur" else "fld-" + x


def script(beh, rng, final_dump=True):
    """Scheme text replaying one behaviour, and the plan to read the observations."""
    out, plan = [LIB], []
    n = sz = vol = None
    typ, scl = {}, {}
    for x in "abc":
        out.append("(define fld-%s #f)" % x)

    def tget(x):
        return typ.get(x, "r")

    def op(ev, text):
        plan.append(dict(ev, _sz=sz, _vol=vol, _n=n, _s=scl.get(ev.get("x"), 1)))
        out.append('(emit "do" %d) %s (emit "done" %d)' % (len(plan) - 1, text, len(plan) - 1))

    def dump(x):
        if x in typ:
            d = typd[x]
            if d == n:
                op(dict(ev="dump", x=x, t=typ[x], s=scl.get(x, 1)), '(emit "v" (dump %s "%s"))' % (ref(x), typ[x]))
    typd = {}
    for e in beh:
        ev = e["ev"]
        if ev == "init":
            n = e["n"]
            txt, sz, vol = lattice(n, rng.random() < .5, [rng.choice([1, 2, 4]) for _ in range(3)])
            typ.pop("cur", None)
            op(e, txt + " (init-params NO-PARITY true) (solve-kpoint (vector3 %s))" % " ".join("%g" % (q / 4) for q in e["k"]))
        elif ev == "eps":
            op(e, "(get-epsilon)")
            typ["cur"], typd["cur"], scl["cur"] = "r", n, 1
        elif ev == "getf":
            op(e, '(get-%sfield 1) (emit "v" (dump cur-field "v"))' % e["c"])
            typ["cur"], typd["cur"], scl["cur"] = "v", n, RAW
        elif ev == "efromd":
            op(e, '(get-efield-from-dfield) (emit "v" (dump cur-field "v"))')
        elif ev == "energy":
            op(e, '(compute-field-energy) (emit "v" (dump cur-field "r"))')
            typ["cur"] = "r"
        elif ev == "make":
            op(e, "(set! fld-%s (%s %s))" % (e["x"], {"r": "rscalar-field-make", "v": "cvector-field-make"}[e["t"]], ref(e["src"])))
            typ[e["x"]], typd[e["x"]], scl[e["x"]] = e["t"], typd.get(e["src"]), 1
        elif ev == "copy":
            op(e, "(set! fld-%s (field-copy %s))" % (e["x"], ref(e["src"])))
            typ[e["x"]], typd[e["x"]], scl[e["x"]] = tget(e["src"]), typd.get(e["src"]), scl.get(e["src"], 1)
        elif ev == "scalar":
            op(e, '(get-charge-density 1) (set! fld-%s (field-copy cur-field)) (field-map! cur-field (fn "c" 7)) '
                  '(field-map! fld-%s (fn "c" 7))' % (e["x"], e["x"]))
            typ[e["x"]] = typ["cur"] = "c"
            typd[e["x"]] = typd["cur"] = n
            scl[e["x"]] = scl["cur"] = 1
        elif ev == "map":
            op(e, '(field-map! %s (fn "%s" %d) %s)' % (ref(e["x"]), tget(e["x"]), e["c"], " ".join(map(ref, e["srcs"]))))
            scl[e["x"]] = 1
        elif ev == "set":
            op(e, "(field-set! %s %s)" % (ref(e["x"]), ref(e["src"])))
            scl[e["x"]] = scl.get(e["src"], 1)
        elif ev == "load":
            op(e, "(field-load %s)" % ref(e["src"]))
            typ["cur"], typd["cur"], scl["cur"] = tget(e["src"]), typd.get(e["src"]), scl.get(e["src"], 1)
        elif ev == "nonbloch":
            op(e, "(cvector-field-nonbloch! %s)" % ref(e["x"]))
        elif ev == "pt":
            if typd.get(e["x"]) != n:
                continue          # positions refer to the present lattice
            p = " ".join(repr(e["p"][i] / (8 * n[i]) * sz[i]) for i in range(3))
            rd = None
            if e["x"] == "cur" and rng.random() < .7:
                if e["t"] == "v":
                    rd = "(lambda (p) (flat (%s p)))" % ("get-bloch-field-point" if e["bloch"] else "get-field-point")
                elif e["t"] == "c":
                    rd = "(lambda (p) (cx (%s p)))" % ("get-bloch-cscalar-point" if e["bloch"] else "get-cscalar-point")
                elif e["ch"] in "RDHB":
                    rd = "(lambda (p) (flat (get-energy-point p)))"
            if not rd and e["t"] == "c" and e["bloch"]:
                rd = "(lambda (p) (cx (get-bloch-cscalar-point p)))"
            op(e, '(emit "v" (%s (vector3 %s)))' % (rd or '(geti %s "%s" %d)' % (ref(e["x"]), tget(e["x"]), e["bloch"]), p))
        elif ev == "ept":
            p = " ".join(repr(e["p"][i] / (8 * n[i]) * sz[i]) for i in range(3))
            op(e, '(let ((t (get-epsilon-inverse-tensor-point (vector3 %s)))) (emit "v" (cons (get-epsilon-point (vector3 %s)) '
                  '(append (flat (vector3-x t)) (flat (vector3-y t)) (flat (vector3-z t))))))' % (p, p))
        elif ev == "int":
            if typd.get(e["srcs"][0]) != n:
                continue
            op(e, '(emit "v" (cx (integrate-fields (lambda (r . vs) (* (wgt r) (fsum 1 vs))) %s)))' % " ".join(map(ref, e["srcs"])))
        elif ev == "conform":
            op(e, '(emit "v" (fields-conform? %s))' % " ".join(map(ref, e["srcs"])))
        elif ev == "write":
            plan_s = scl.get("cur", 1)
            op(dict(e, _fs=plan_s), "(%s) (stash)" % ["output-field", "output-field-x", "output-field-y", "output-field-z"][e["comp"] + 1])
            typ.pop("cur", None)
        if rng.random() < .25 and e.get("ok", 1):
            dump(rng.choice("abc"))
        if rng.random() < .15 and e.get("ok", 1):
            dump("cur")
    if final_dump and beh and beh[-1].get("ok", 1):
        for x in ["a", "b", "c", "cur"]:
            dump(x)
    return "\n".join(out), plan


def flatten(w):
    return [y for x in w for y in (flatten(x) if isinstance(x, list) else [x])]


def q(x, s, eps):
    """integer nearest to x*s, or an impossible value if x is not that close to one"""
    if not isinstance(x, (int, float)) or not math.isfinite(x) or abs(x * s) > 2e9:
        return -2000000001
    r = round(x * s)
    return r if abs(r - x * s) <= eps else -2000000002


DS = {"x.r": 1, "x.i": 2, "y.r": 3, "y.i": 4, "z.r": 5, "z.i": 6, "c.r": 1, "c.i": 2, "data": 1}


def untranspose(dims, vals, mpi):
    dims = list(dims) + [1] * (3 - len(dims))
    if not mpi:
        return dims, vals
    ny, nx, nz = dims
    return [nx, ny, nz], [vals[(j * nx + i) * nz + k] for i in range(nx) for j in range(ny) for k in range(nz)]


def trace(run, plan, half, mpi):
    """The recorded session as events of FieldsTrace."""
    out = [dict(ev="start", half=int(half))]
    vals, done, started, cur = {}, set(), set(), None
    for tag, v in run.obs:
        if tag == "do":
            cur = v[0]
            started.add(cur)
        elif tag == "done":
            done.add(v[0])
        elif tag == "v":
            vals[cur] = v[0]
    clean = run.rc in (0, 1) and not run.timed_out
    nout = 0
    for i, e in enumerate(plan):
        if i not in started:
            break
        ev = {k: v for k, v in e.items() if k[0] != "_"}
        ok = 1 if i in done else 0 if clean and run.rc == 1 else -1
        ev["ok"] = ok
        if ok == 1:
            n, sz, vol = e["_n"], e["_sz"], e["_vol"]
            if e["ev"] == "pt":
                ev["v"] = [q(x, 16 * PS * e["_s"], 1) for x in vals[i]]
            elif e["ev"] == "ept":
                w = vals[i]
                ten = flatten(w[1:])
                ev.update(eps=q(w[0], 1000, .51), inv=q(ten[0], 512e6, .51), inv2=q(ten[8], 512e6, .51),
                          inv3=q(ten[16], 512e6, .51),
                          off=q(sum(abs(x) for j, x in enumerate(ten) if j not in (0, 8, 16)), 1e6, .51))
            elif e["ev"] == "dump":
                ev["v"] = [[q(x, e["s"], 1e-5 if e["s"] == 1 else 1) for x in v] for v in vals[i]]
            elif e["ev"] in ("getf", "efromd", "energy"):
                ev["v"] = [[q(x, RAW, 1) for x in v] for v in vals[i]]
            elif e["ev"] == "int":
                ev["v"] = [q(x * n[0] * n[1] * n[2] / vol, 1, 1e-4) for x in vals[i]]
            elif e["ev"] == "conform":
                ev["r"] = int(vals[i])
            elif e["ev"] == "write":
                nout += 1
                ev.update(read_file("%s/out%d" % (run.dir, nout), mpi, e["_fs"]))
        out.append(ev)
        if ok != 1:
            break
    return out


def read_file(d, mpi, scale):
    fs = glob.glob(d + "/*.h5")
    if len(fs) != 1:
        return dict(base="(%d files)" % len(fs), v=[], dims=[], dsets=[], kv=[])
    f = h5.read(fs[0])
    base = os.path.basename(fs[0])[:-3]
    base = base.split("-", 1)[1] if "-" in base else base
    base = base.split(".k")[0]
    dn, dims, vs = [], None, []
    for name, (dm, v) in sorted(f["data"].items(), key=lambda t: DS.get(t[0], 99)):
        if name in DS:
            dn.append(DS[name])
            dims, v = untranspose(dm, v, mpi)
            vs.append([q(x, PS * scale, 1) for x in v])
    kv = f["attr"].get("Bloch wavevector")
    if kv is None:
        kv = f["data"].get("Bloch wavevector", (None, None))[1]
    kv = [q(x, 4, 1e-6) for x in kv] if kv else []
    if mpi and kv:
        kv = [kv[1], kv[0], kv[2]]
    return dict(base=base, dims=dims or [], dsets=dn, v=vs, kv=kv)


def generate(c, big, half, num, nomx=False, focus="mix"):
    r = vf.tlc("FieldsGen", env=dict(BIG=big, FOCUS=focus, HALF="1" if half else "0"), simulate=2 * num, depth=25, workers=1,
               seed=vf.SEED * 10 + len(big) + ord(big[0]) + (7 if half else 0))
    b = r.json_lines()
    if not b:
        raise vf.HarnessError("no behaviours: " + r.out[-2000:])
    b = [json.loads(x) for x in sorted({json.dumps(x) for x in b})]
    c.rng.shuffle(b)
    if nomx:
        b = [x for x in b if all(e["ev"] != "init" or e["n"][0] > 1 for e in x)]
    full = [x for x in b if len(x) > 8]
    ref_ = [x for x in b if len(x) <= 8]
    return full[:num] + ref_[:num // 4]


def replay(c, cfg, behs, np=1):
    half, mpi = cfg.startswith("inv"), cfg.endswith("mpi")
    jobs = [script(b, c.rng) for b in behs]
    runs = vf.pmap(lambda j: vf.run_mpb(cfg, j[0], np=np), jobs, workers=8 if np < 2 else max(1, 8 // np))
    return [(trace(r, j[1], half, mpi), j[0], r) for j, r in zip(jobs, runs)]


def judge(c, sessions, label):
    """Let TLC accept or reject each recorded session; every rejected one is reported once."""
    todo = list(sessions)
    rounds = 0
    while todo and rounds < 4:
        recs = [e for t, _, _ in todo for e in t]
        r, bad, _ = c.validate("FieldsTrace", recs, timeout=800)
        if not bad:
            return
        line, pos = bad[0]["line"], 0
        for i, (t, s, run) in enumerate(todo):
            if pos + len(t) >= line:
                e = t[line - pos - 1] if line - pos - 1 < len(t) else t[-1]
                c.violate("%s: event %d of a session (%s) is not what the specification allows: %s"
                          % (label, line - pos, "".join(x["ev"] + " " for x in t[:line - pos]), json.dumps(e)[:400]),
                          script=s, trace=t[:line - pos], log=run.out[-600:])
                todo = todo[i + 1:]
                break
            pos += len(t)
        rounds += 1


def sweep(c, plan):
    """plan: [(cfg, dims, sessions, processes, focus)]"""
    ops = {}
    for cfg, big, num, np, focus in plan:
        behs = generate(c, big, cfg.startswith("inv"), num, np > 1, focus)
        ses = replay(c, cfg, behs, np)
        for t, _, _ in ses:
            for e in t:
                k = e["ev"] + ("" if e.get("ok", 1) == 1 else "(refused)")
                ops[k] = ops.get(k, 0) + 1
        if ses:
            c.sample(dict(config=cfg, processes=np, events=[{k: v for k, v in e.items() if k != "v"} for e in ses[0][0][:12]]))
        judge(c, ses, "%s, %s, %d process(es)" % (cfg, big, np))
        if focus == plan[0][4] and cfg == plan[0][0] and big == plan[0][1] and not c.viol:
            selftest(c, ses)
    c.extra["operations_replayed"] = ops
    c.extra["configurations"] = sorted({"%s/%dp" % (x[0], x[3]) for x in plan})


def selftest(c, ses):
    """A trace with one altered observation must be rejected."""
    import copy
    for kind in ("dump", "pt", "write"):
        for t, _, _ in ses:
            k = [i for i, e in enumerate(t) if e["ev"] == kind and e.get("v")]
            if k:
                t2 = copy.deepcopy(t[:k[0] + 1])
                v = t2[-1]["v"]
                while isinstance(v[-1], list):
                    v = v[-1]
                v[-1] += 600000 if kind != "dump" else 3
                st, tr, tc = c.states, c.transitions, c.traces
                _, bad, _ = c.validate("FieldsTrace", t2)
                c.states, c.transitions, c.traces = st, tr, tc
                if not bad:
                    raise vf.HarnessError("self-test: an altered %s is accepted" % kind)
                break
