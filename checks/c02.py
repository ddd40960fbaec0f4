"""C02: history independence.  Sessions generated from Session.tla are replayed; every result must be that of a fresh run."""
import re
import vf, problems
from problems import OBS

NOISE = {
    "fields": "(get-dfield 1) (get-efield-from-dfield) (get-bfield 1) (get-hfield (min 2 (length freqs))) (compute-field-energy)",
    "scale": "(scale-eigenvector 1 (make-rectangular -.7 1.9))",
    "swap": "(if (> (length freqs) 1) (let ((a (get-eigenvectors 1 1)) (b (get-eigenvectors 2 1))) (set-eigenvectors a 2) (set-eigenvectors b 1)))",
    "files": "(output-epsilon) (output-hfield 1) (output-dpwr 1) (output-efield-x 1)",
    "eigfile": '(save-eigenvectors "ev.h5") (load-eigenvectors "ev.h5")',
    "phase": "(fix-hfield-phase 1) (fix-dfield-phase (length freqs))",
    "velocity": "(compute-group-velocities) (compute-1-group-velocity 1) (compute-group-velocity-component (vector3 1 .3 0)) (compute-zparities) (compute-yparities)",
    "epsilon": "(get-epsilon) (compute-field-energy) (get-epsilon-point (vector3 .1 .2 0))",
    "index": "(set-kpoint-index %d)",
    "random": "(randomize-fields)",
    "stored": "(get-dfield 1) (define keep (field-copy cur-field)) (get-hfield 1) (field-load keep) (compute-field-energy) (cvector-field-nonbloch! keep)",
    "inputs": "(set! geometry '()) (set! default-material (make medium (epsilon 3))) (set! num-bands num-bands) (set! tolerance .1) (set! target-freq .3)",
    "none": "",
}
DIRTY = ("scale", "swap", "random", "index")
EXTRA = {1: "", 2: "(set! simple-preconditioner? true)", 3: "(set! mesh-size 3)", 4: "(set! k-points (list (vector3 .1 0 0)))",
         5: '(set! filename-prefix "x-")', 6: "(set! force-mu? true)"}
RESET = '(set! simple-preconditioner? false) (set! mesh-size 3) (set! filename-prefix "t-") (set! force-mu? false) '
PAR = {"NO-PARITY": "no", "EVEN-Z": "ze", "ODD-Z": "zo", "EVEN-Y": "ye", "ODD-Y": "yo"}


def generic(p, par, k):
    """no symmetry is left at k: then whatever fields a solution starts from, all modes are reached"""
    used = [abs(x) for x in k[:p.dims]]
    if min(used) < .03 or len(set(used)) < p.dims or max(used) > .46 or p.ysym:
        return False
    return par == "NO-PARITY" if p.dims == 3 else par.endswith("Z")


class Pool:
    """concrete problems for the abstract grids, variants and permeabilities of a session"""
    def __init__(self, rng, sid):
        self.rng, self.sid, self.p = rng, sid, {}
        self.base = {g: problems.make(rng, "%s.%d" % (sid, g), inv=rng.random() < .5, mu=False, zero_k=0) for g in (1, 2)}

    def get(self, g, v, mu):
        key = (g, v, mu)
        if key not in self.p:
            self.p[key] = problems.make(self.rng, "%s.%d%d%d" % (self.sid, g, v, mu), like=self.base[g], mu=mu, zero_k=0)
        return self.p[key]


def concrete(rng, sess, sid):
    """Scheme text and bookkeeping of one session; returns (text, plan, references)"""
    pool, plan, refs = Pool(rng, sid), [], {}
    s = [OBS]
    last = None          # parity of the fields in memory, if they may be reused
    cur = None
    bad = True
    for n, e in enumerate(sess):
        if e["ev"] == "init":
            i = e["inp"]
            p = pool.get(i["g"], e["v"], i["mu"])
            par = p.pars[{"no": 0, "ze": 1, "zeye": 2}[i["par"]] % len(p.pars)]
            cur = (p, par, i, e["extra"])
            bad = not (e["keep"] and last == (par, i["g"]))   # start from random fields
            s.append('%s %s (set! num-bands %d) (set! tolerance 1e-11) (set! target-freq 0) (set! eigensolver-block-size %d) (set! eigensolver-nwork %d) %s'
                     '(init-params %s %s) (emit "init" %d)' % (p.txt, RESET, i["nb"], i["bs"], i["nw"], EXTRA[e["extra"]], par, "true" if bad else "false", n))
            plan.append(("init", n, dict(i, par=PAR[par], flat=p.dims < 3)))
            fresh = bad
        else:
            p, par, i, ex = cur
            k = (0, 0, 0) if e["zero"] else problems.kfor(p, par, p.ks[e["k"] - 1])
            if not fresh and not generic(p, par, k):
                s.append("(randomize-fields)")
            ref = "%s/%s/%s" % (p.pid, par, ",".join("%g" % x for x in k)) + ("/mu" if ex == 6 else "")
            refs[ref] = (p, par, k, EXTRA[6] if ex == 6 else "", max(min(i["nb"] + 7, max(i["nb"] + 1, p.n[0] * p.n[1] * p.n[2] // 3)), refs.get(ref, (0,) * 5)[4]))
            s.append('(emit "solve" %d) (solve-kpoint (vector3 %g %g %g)) (emit "solved" %d (length freqs))' % (n, *k, n))
            s.append('(emit "kept" %d) (observe "%s" %s #t)' % (int(not fresh and generic(p, par, k)), ref, p.pts))
            x = rng.randrange(0, 5)
            nz = NOISE[e["noise"]]
            s.append(nz % x if e["noise"] == "index" else nz)
            plan.append(("solve", n, dict(z=int(not any(k)), want="", ref=ref)))
            if e["noise"] == "index":
                s.append('(emit "index" %d)' % x)
                plan.append(("index", n, x))
            fresh = False
            last = (par, i["g"]) if e["noise"] not in ("random",) and generic(p, par, k) else None
            if e["noise"] == "inputs":      # changed inputs take effect at the next initialisation only
                s.append("(set! tolerance 1e-11) (set! target-freq 0)")
    return "\n".join(s), plan, refs


def trace(r, plan):
    """the events of one run of a session"""
    ev = [dict(ev="start")]
    it = iter(plan)
    lines = r.out.splitlines()
    cur, blocks, head, fl = None, [], 0, None
    pid, kept = None, 0
    for line in lines:
        m = re.match(r"Solving for bands (\d+) to (\d+)\.\.\.", line)
        if m:
            blocks.append(dict(lo=int(m[1]), hi=int(m[2])))
        m = re.match(r"(\w*)freqs:, (k index|\d+)", line)
        if m and m[2] == "k index":
            head += 1
        elif m:
            fl = (m[1], int(m[2]), len(line.split(",")) - 6)
        if line.startswith("@@"):
            tag, _, js = line[2:].partition(" ")
            v = vf.json.loads(js)
            if tag == "init":
                _, _, cur = next(it)
                ev.append(dict(ev="init", inp=cur))
            elif tag == "index":
                next(it)
                ev.append(dict(ev="index", i=v[0]))
            elif tag == "solve":
                blocks, head, fl = [], 0, None
                _, _, pl = next(it)
            elif tag == "solved":
                ev.append(dict(ev="solve", bl=blocks, z=pl["z"], head=head, idx=fl[1] if fl else -1,
                               nf=v[1] if fl and v[1] == fl[2] else -1, par=fl[0] if fl else "?", want=prefix(cur)))
            elif tag == "kept":
                kept = v[0]
            elif tag == "obs":
                pid, f, b, x = v
                q = problems.qi
                ev.append(dict(ev="obs", p=pid, f=[q(y, problems.FT) for y in f], b=[[q(y, problems.BT) for y in z] for z in b],
                               x=[q(y, problems.BT) for y in x], tf=30, tb=60, sep=problems.SEP, kept=kept))
                if cur["mu"] or pid.endswith("/mu"):     # slower convergence, hence less exact
                    ev[-1]["tb"] = max([60] + [abs(y) // 15 for z in ev[-1]["b"] for y in z])
                    ev[-1]["tf"] = max([30] + [y // 100 for y in ev[-1]["f"]])
                    ev[-1]["sep"] = max(ev[-1]["sep"], 3 * ev[-1]["tf"])
    return ev, next(it, None) is None


PREF2 = {"no": "", "ze": "te", "zo": "tm", "ye": "yeven", "yo": "yodd"}


def prefix(i):
    s = PREF2[i["par"]]
    return s if i.get("flat", True) else s.replace("te", "zeven").replace("tm", "zodd")


def check(c):
    vf.need("complex", "inv")
    vf.tlc_model(c, "Session", "Session" if not c.quick else "SessionQ")
    g = vf.tlc("SessionGen", simulate=c.n(36, 400), depth=200, seed=vf.SEED, workers=1)
    sess = g.json_lines()
    if len(sess) < 10:
        raise vf.HarnessError("generation failed: " + g.out[-2000:])
    jobs = []
    for i, s in enumerate(sess):
        txt, plan, refs = concrete(c.rng, s, "s%d" % i)
        jobs.append((txt, plan, refs))
    # one fresh process per result
    ref = [(i, name, x) for i, (_, _, refs) in enumerate(jobs) for name, x in refs.items()]

    def fresh(t):
        _, name, (p, par, k, ex, nb) = t
        return vf.run_mpb("complex", OBS + p.txt + RESET + ex + ' (set! num-bands %d) (set! tolerance 1e-11) (init-params %s true)'
                          ' (solve-kpoint (vector3 %g %g %g)) (observe "%s" %s #t)' % (nb, par, *k, name, p.pts))
    rr = vf.pmap(fresh, ref)
    recs, skip = {}, 0
    for (i, name, _), r in zip(ref, rr):
        f = problems.run_failure(r)
        if f == "skip":
            skip += 1
        elif f:
            c.violate("a fresh run fails: %s" % f, log=r.out[-800:])
        else:
            recs.setdefault(i, []).extend(dict(e, kept=0) for e in problems.records(r))
    rs = vf.pmap(lambda j: vf.run_mpb("complex", j[0], timeout=300), jobs)
    all_, where = [], []
    for i, (j, r) in enumerate(zip(jobs, rs)):
        f = problems.run_failure(r)
        if f == "skip":
            skip += 1
            continue
        if f:
            c.violate("session %d: %s" % (i, f), script=j[0], log=r.out[-1500:])
            continue
        ev, complete = trace(r, j[1])
        if not complete:
            c.violate("session %d: events are missing" % i, script=j[0], log=r.out[-1500:])
            continue
        for e in recs.get(i, []) + ev:
            if e["ev"] == "init":
                e = dict(e, inp={k: v for k, v in e["inp"].items()})
            where.append(i)
            all_.append(e)
    if skip > 2 + len(ref) // 20:
        c.violate("the solver does not converge in %d runs" % skip)
    r, bad, _ = c.validate("SessionTrace", all_)
    for b in bad[:6]:
        n = b["line"] - 1
        e = all_[n]
        d = ""
        if e["ev"] == "obs":
            first = next(x for x in all_ if x["ev"] == "obs" and x["p"] == e["p"])
            d = problems.diff(first, e)
        c.violate("session %d: %s: %s %s" % (where[n], b["why"], e.get("p", ""), d), event=e, script=jobs[where[n]][0])
    if not bad and not r.ok:
        raise vf.HarnessError(r.out[-2000:])
    c.extra.update(sessions=len(sess), fresh_runs=len(ref), events=len(all_), not_converged=skip)
    c.sample(dict(session=sess[0][:6]))
    c.sample(dict(script=jobs[0][0][len(OBS):][:900]))
