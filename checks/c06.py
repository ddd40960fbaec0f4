"""C06: blocks of bands.  Random problems are solved in many divisions; TLC checks them against Blocks.tla and Results.tla."""
import re
import vf, problems

CODE = {"NO-PARITY": "no", "EVEN-Z": "ze", "ODD-Z": "zo", "EVEN-Y": "ye", "ODD-Y": "yo"}
EXTRA = """
(define (gram n) (let ((S (dot-eigenvectors (get-eigenvectors 1 n) 1)))
  (map (lambda (i) (map (lambda (j) (reim (sqmatrix-ref S i j))) (iota n))) (iota n))))
(define (flatness b pts) (get-bfield b)
  (let* ((vs (map (lambda (p) (cl (get-bloch-field-point p))) (cons (vector3 0 0 0) pts))) (v0 (car vs)))
    (/ (apply max (map (lambda (v) (apply max (map (lambda (x y) (magnitude (- x y))) v v0))) vs))
       (apply max (map magnitude v0)))))
"""


def code(par):
    m = re.findall(r"(?:EVEN|ODD)-[YZ]", par)
    return "".join(CODE[x] for x in m) if m else "no"


def pieces(c, p, rng):
    """(par, k, reference number of bands, variants) of one problem"""
    pars = list(p.pars)
    if "EVEN-Z" in pars and "EVEN-Y" in pars:
        pars += ["(+ ODD-Z EVEN-Y)", "(+ EVEN-Z ODD-Y)"]
        if p.dims > 1:          # in one dimension no mode has these
            pars += ["(+ EVEN-Z EVEN-Y)", "(+ ODD-Z ODD-Y)"]
    out = []
    for par in rng.sample(pars, min(2, len(pars))):
        for k in p.ks[:2]:
            top = 8 if p.n[0] * p.n[1] * p.n[2] > 30 else 4
            if code(par) != "no":
                top = top // 2 + 1
            if p.n[0] * p.n[1] * p.n[2] < 30:
                top = min(top, 4)
            vs = []
            for _ in range(3):
                nb = rng.randint(1, top)
                bs = rng.choice([1, 2, 3, 4, -1, -2, -3, -5, 0, nb, nb + 3])
                o = rng.choice(["(set! eigensolver-nwork 2)", "(set! eigensolver-nwork 4)", "(set! simple-preconditioner? true)", "", ""])
                vs.append((nb, bs, o, 0))
            if not p.mu and rng.random() < .5 and top >= 4 and any(problems.kfor(p, par, k)):
                t = round(rng.uniform(.1, .5), 3)
                for bs in rng.sample([1, 2, 3, -2, 0], 2):
                    vs.append((rng.randint(1, min(3, top - 1)), bs, "(set! target-freq %g)" % t, t))
            out.append((par, k, top, vs))
    return out


def text(p, par, k, nb, bs, o, name):
    k = problems.kfor(p, par, k)
    z = 0 if any(k) else 1
    return ('%s (set! simple-preconditioner? false) (set! num-bands %d) (set! tolerance 1e-11) (set! target-freq 0) (set! eigensolver-block-size %d) '
            '(set! eigensolver-nwork 3) (set! eigensolver-davidson? false) %s (init-params %s true) (emit "go") (solve-kpoint (vector3 %g %g %g))'
            ' (emit "done" %d freqs (gram %d) (map (lambda (b) (flatness b %s)) (iota %s 1))) (observe "%s" %s #t)'
            % (p.txt, nb, bs, o, par, *k, z, nb, p.pts, "(if (or (= target-freq 0)) (min %d %d) 0)" % (nb, const(code(par)) if z else 0), name, p.pts))


def const(cd):
    return 2 if cd == "no" else 1 if cd in ("ze", "zo", "ye", "yo", "zeyo", "zoye") else 0


def check(c):
    vf.need("complex", "inv", "herm")
    vf.tlc_model(c, "BlocksMC", "BlocksMC")
    rng = c.rng
    jobs = []
    for i in range(c.n(90, 700)):
        cfg = rng.choice(["complex", "complex", "inv", "herm"])
        p = problems.make(rng, "p%d" % i, herm=cfg == "herm", zero_k=.4, inv=cfg == "inv" or rng.random() < .5)
        body, plan = [], []
        for j, (par, k, top, vs) in enumerate(pieces(c, p, rng)):
            name = "%s/%s/%s" % (p.pid, code(par), ",".join("%g" % x for x in problems.kfor(p, par, k)))
            for nb, bs, o, t in [(top, 0, "", 0)] + vs:
                body.append(text(p, par, k, nb, bs, o, name))
                plan.append((par, k, nb, bs, o, t))
        jobs.append((cfg, p, problems.OBS + EXTRA + "\n".join(body), plan))
    rs = vf.pmap(lambda j: vf.run_mpb(j[0], j[2], timeout=300), jobs)
    recs, ctx, skip, tgs = [], [], 0, 0
    for (cfg, p, txt, plan), r in zip(jobs, rs):
        f = problems.run_failure(r)
        if f == "skip":
            skip += 1
            continue
        if f:
            c.violate("%s build, %s: %s" % (cfg, p.pid, f), script=txt, log=r.out[-1500:])
            continue
        it, cur, bl = iter(plan), None, []
        for line in r.out.splitlines():
            m = re.match(r"Solving for bands (\d+) to (\d+)\.\.\.", line)
            if m:
                bl.append(dict(lo=int(m[1]), hi=int(m[2])))
            if not line.startswith("@@"):
                continue
            tag, _, js = line[2:].partition(" ")
            v = vf.json.loads(js) if js else []
            if tag == "go":
                cur, bl = next(it), []
            par, k, nb, bs, o, t = cur or [None] * 6
            what = "%s build, %s %s k=%s num-bands %s block size %s %s" % (cfg, p.pid, par, k, nb, bs, o)
            if tag == "done":
                z, fr, gram, flat = v
                recs.append(dict(ev="solve", nb=nb, bs=bs, z=z, par=code(par), tg=round(t * 1e4), bl=bl, raw=[problems.qi(x, problems.FT) for x in fr],
                                 exact=sum(x == 0 for x in fr), gram=[[round(1e4 * abs(complex(*x))) for x in y] for y in gram],
                                 flat=[problems.qi(x, 1e4) for x in flat], mu=int(p.mu), tb=20))
                ctx.append((what, txt))
            elif tag == "obs":
                pid, f, b, x = v
                q = problems.qi
                o_ = sorted(range(len(f)), key=lambda i: q(f[i], 1e8)) if t else range(len(f))
                e = dict(ev="obs", p=pid, f=[q(f[i], problems.FT) for i in o_], b=[[q(y, problems.BT) for y in b[i]] for i in o_],
                         x=[q(y, problems.BT) for y in x], tf=100 if t else 30, tb=60, sep=problems.SEP, tg=round(t * 1e4))
                if p.mu:
                    e["tb"] = max([60] + [abs(y) // 15 for z in e["b"] for y in z])
                    e["tf"] = max([30] + [y // 100 for y in e["f"]])
                    e["sep"] = max(e["sep"], 3 * e["tf"])
                tgs += bool(t)
                recs.append(e)
                ctx.append((what, txt))
    if skip > 2 + len(jobs) // 20:
        c.violate("the solver does not converge in %d of %d runs" % (skip, len(jobs)))
    r, bad, _ = c.validate("BlocksTrace", recs)
    if not bad and not r.ok:
        raise vf.HarnessError(r.out[-2000:])
    known = {}
    for b in bad:
        e = recs[b["line"] - 1]
        d = ""
        if e["ev"] == "obs":
            d = problems.diff(next(x for x in recs if x["ev"] == "obs" and x["p"] == e["p"]), e)
        if b["why"].startswith("constant modes are not normalised"):
            known.setdefault(b["why"], []).append(ctx[b["line"] - 1][0])
            continue
        if len(c.viol) < 8:
            c.violate("%s: %s %s" % (ctx[b["line"] - 1][0], b["why"], d), event=e, script=ctx[b["line"] - 1][1])
    for w, l in known.items():
        c.violate(w, where=l)
    c.extra.update(problems=len(jobs), solutions=sum(e["ev"] == "solve" for e in recs), targeted=tgs, not_converged=skip)
    c.sample({k: v for k, v in recs[0].items() if k != "x"})
    c.sample(dict(script=jobs[0][2][len(problems.OBS) + len(EXTRA):][:900]))
