"""C21: dense matrices.  Specification: spec/Algebra.tla."""
import json, os
import vf

FIELDS = dict(
    ecopy="x y", eslice="x y ix iy p", eresize="x p keep fill", eaxpby="a b x y", eaxpbys="a b x y s i j dag", exeys="x y s dag",
    expays="a x y s dag", extx="u x", exty="u x y", extyslice="u x y ix iy p", extyslice2="u x y ix iy q iu", extysub="u i j x y",
    extydiag="x y", extydiagre="x y", extxdiag="x", trxty="x y", mxpaydiag="a x y d", mxpaydiagre="a x y d", mxdpyd="x y d d2",
    retrad="s d", dtrace="d", dtracere="d", qtrace="x", qtrab="x y", qcopy="x y", qresize="x p keep fill", qupper="x y", qsym="x y",
    qaebc="x y dy s ds", qapabc="a x y dy s ds", qapab="a x y", qaapbb="a b x y", inv="pd w m", eig="w m", geig="w m b", evals="m", sqrt="m")


def text(o, cut):
    def mat(m):
        return "%d %d " % (len(m), len(m[0])) + " ".join("%d %d" % (z[0], z[1]) for r in m for z in r)
    if o["op"] == "start":
        N = len(o["E"][0])
        return "start %d %d " % (N, cut % (N + 1)) + " ".join(str(len(m[0])) for m in o["E"]) + " " + " ".join(str(len(m)) for m in o["Q"]) \
            + "\n" + "\n".join(mat(m) for m in o["E"] + o["Q"])
    w = [o["op"]]
    for f in FIELDS[o["op"]].split():
        v = o[f]
        if isinstance(v, int):
            w.append(str(v))
        elif isinstance(v[0][0], int):
            w.append("%d " % len(v) + " ".join("%d %d" % tuple(z) for z in v))
        else:
            w.append(mat(v))
    return " ".join(w)


def driver(cfg):
    """harness/algebra.c with the libraries of this build"""
    b = vf._built[cfg]
    exe = b + "/verif-algebra-%d" % os.getpid()
    args, cc, lib, inc, _ = vf.CONFIGS[cfg]
    cmd = [cc, "-O1", "-w", "-I" + b, "-I" + b + "/src/util", "-I" + vf.REPO + "/src/util", "-I" + vf.REPO + "/src/matrices", "-I" + inc,
           vf.VERIF + "/harness/algebra.c", b + "/src/matrices/.libs/libmatrices.a", b + "/src/util/.libs/libutil.a", "-o", exe,
           "-L" + lib, "-lhdf5", "-llapack", "-lblas", "-lm"]
    r = vf.run_cmd(cmd, vf.scratch(), 120)
    if r.rc:
        raise vf.HarnessError("cannot build the driver of %s: %s" % (cfg, r.out[-1500:]))
    return exe


HEAD = """
(define q (vector #f #f #f #f))
(define (qq x) (vector-ref q x))
(define (z->l v) (list (exact-or (real-part v)) (exact-or (imag-part v))))
(define (exact-or x) (if (= x (round x)) (inexact->exact (round x)) 1999999999))
(define (dump-m m) (map (lambda (i) (map (lambda (j) (z->l (sqmatrix-ref m i j))) (arith-sequence 0 1 (sqmatrix-size m)))) (arith-sequence 0 1 (sqmatrix-size m))))
(define (rnd x) (inexact->exact (round (min 9e8 (max -9e8 (* 64 x))))))
(define (sums es) (map (lambda (k) (let ((t (apply + (map (lambda (e) (expt e (+ k 1))) es)))) (list (rnd (real-part t)) (rnd (imag-part t))))) (arith-sequence 0 1 (length es))))
(define (after r s) (emit "x" (map dump-m (cdr (vector->list q))) r s))
(define (fill-from x rows) (vector-set! q x (sqmatrix-diagm (map (lambda (r) 1) rows)))
  (let ((i 0)) (for-each (lambda (r) (let ((j 0)) (for-each (lambda (v) (sqmatrix-set (qq x) i j v) (set! j (+ j 1))) r)) (set! i (+ i 1))) rows)))
"""


def scripts(c, cfg, progs, recs):
    """the functions of the script level"""
    def z(v):
        return "(make-rectangular %d %d)" % tuple(v)
    src, ops = HEAD, []
    for p in progs:
        for o in p:
            k, x = o["op"], o.get("x")
            r, s = "'()", "'()"
            if k == "start":
                for i, m in enumerate(o["Q"]):
                    src += "(fill-from %d (list %s))\n" % (i + 1, " ".join("(list %s)" % " ".join(map(z, row)) for row in m))
            elif k == "smult":
                src += "(vector-set! q %d (sqmatrix-mult (qq %d) (qq %d)))\n" % (x, o["y"], o["s"])
            elif k == "sdiagm":
                src += "(vector-set! q %d (sqmatrix-diagm (list %s)))\n" % (x, " ".join(map(z, o["d"])))
            elif k == "sset":
                src += "(sqmatrix-set (qq %d) %d %d %s)\n" % (x, o["i"] - 1, o["j"] - 1, z(o["v"]))
            elif k == "ssize":
                r = "(list (z->l (sqmatrix-size (qq %d))))" % x
            elif k == "sdiag":
                r = "(map z->l (sqmatrix-diag (qq %d)))" % x
            else:
                s = "(sums (sqmatrix-eigvals (qq %d)))" % x
            src += "(after %s %s)\n" % (r, s)
            ops.append(o)
    run = vf.run_mpb(cfg, src, timeout=300)
    out = run.get("x")
    if len(out) != len(ops):
        o = ops[min(len(out), len(ops) - 1)]
        c.violate("%s build: the script stops at %s: %s" % (cfg, o["op"], run.out[-300:]), op=o)
    before = None
    for o, (qs, r, s) in zip(ops, out):
        if o["op"] == "start":
            if qs != o["Q"]:
                c.violate("%s build: sqmatrix-diagm and sqmatrix-set do not make this matrix" % cfg, want=o["Q"], got=qs)
        else:
            recs.append(dict(o=o, b=dict(E=[[[[0, 0]]]] * 3, Q=before), a=dict(E=[[[[0, 0]]]] * 3, Q=qs, r=r, S=s, ok=True), _cfg=cfg + " script"))
        before = qs


def check(c):
    vf.need("complex", "inv", "mpi")
    vf.tlc_model(c, "AlgebraMC", "AlgebraMC" if vf.TIER == "quick" else "AlgebraMCt", timeout=800)
    n = c.n(50, 700)

    def gen(t):
        i, real, script = t
        return vf.tlc("AlgebraGen", env=dict(REAL=real, SCRIPT=script), workers=1, simulate=n, depth=140, seed=vf.SEED * 101 + i, timeout=800)
    G = vf.pmap(gen, [(1, "0", "0"), (2, "0", "0"), (3, "1", "0"), (4, "1", "0"), (5, "0", "0"), (6, "0", "1"), (7, "1", "1")])
    progs = {}
    for cfg, gs in (("complex", G[:2]), ("inv", G[2:4]), ("mpi", G[4:5])):
        progs[cfg] = [p["prog"] for g in gs for p in g.json_lines()]
        if len(progs[cfg]) < n // 2:
            raise vf.HarnessError("generator: " + gs[0].out[-2000:])
    recs, ops = [], {}

    def batch(t):
        cfg, k, ps = t
        d = os.path.join(vf.scratch(), "alg-%s-%d" % (cfg, k))
        os.makedirs(d)
        with open(d + "/in", "w") as f:
            for i, p in enumerate(ps):
                for o in p:
                    f.write(text(o, vf.SEED + i) + "\n")
        cmd = [exes[cfg], d + "/in"]
        if cfg == "mpi":
            cmd = ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(2 + k % 2)] + cmd
        r = None
        for _ in range(3):
            r = vf.run_cmd(cmd, d, 300)
            if r.rc == 0 or cfg != "mpi" or "CHECK failure" in r.out or "** On entry" in r.out:
                break
        out = []
        for line in r.out.splitlines():
            if line.startswith("{"):
                try:
                    out.append(json.loads(line))
                except ValueError:
                    break
        i = 0
        for p in ps:
            before = None
            for o in p:
                if i >= len(out):
                    return out, (o, r)
                a = out[i]
                i += 1
                x = a.get("x", a)
                if before is not None:
                    recs.append(dict(o=o, b=dict(E=before["E"], Q=before["Q"]), a=a, _cfg=cfg))
                elif x["E"] != o["E"] or x["Q"] != o["Q"] or not x["ok"]:
                    c.violate("%s: creating matrices and filling them does not give these contents" % cfg, op=o, got=x)
                before = x
        return out, None
    exes = {cfg: driver(cfg) for cfg in progs}
    jobs = []
    for cfg, ps in progs.items():
        k = max(1, (len(ps) + 24) // 25)
        jobs += [(cfg, i, ps[i::k]) for i in range(k)]
    for (cfg, i, ps), (out, fail) in zip(jobs, vf.pmap(batch, jobs)):
        if fail:
            o, r = fail
            c.violate("%s build: the run of matrix operations stops at %s: %s" % (cfg, o["op"], r.out[-300:].replace("\n", " ") if not r.out.endswith("}\n") else "exit %s" % r.rc), op=o)
    for e in exes.values():
        os.unlink(e)
    for cfg, g in (("complex", G[5]), ("inv", G[6])):
        scripts(c, cfg, [p["prog"] for p in g.json_lines()], recs)
    for r in recs:
        k = r["o"]["op"]
        ops[k] = ops.get(k, 0) + 1
    c.extra["operations"] = ops
    c.sample(recs[0]["o"])
    c.sample(recs[-1]["o"])
    _, bad, _ = c.validate("AlgebraTrace", [{k: v for k, v in r.items() if k[0] != "_"} for r in recs], timeout=800, workers=8)
    for x in bad[:20]:
        r = recs[x["line"] - 1]
        c.violate("%s build: %s" % (r["_cfg"], x["why"]), op=r["o"], before=r["b"], after=r["a"])
