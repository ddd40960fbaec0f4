"""C04: band ranges and gaps.  Specification: spec/Bands.tla."""
import random, re
import vf

GEN_PRE = """
(define br '())
(define (obs-ranges br)
  (map (lambda (r) (list (caar r) (let ((k (cdar r))) (if (vector? k) (vector3-x k) k))
                         (cadr r) (let ((k (cddr r))) (if (vector? k) (vector3-x k) k)))) br))
"""


def to_trace(r, tol):
    """Turn the observations of one synthetic session into trace lines."""
    out, gaplines = [], []
    for line in r.out.splitlines():
        if line.startswith("Gap from band"):
            gaplines.append(int(line.split()[3]))
        elif line.startswith("@@"):
            tag, _, js = line[2:].partition(" ")
            v = vf.json.loads(js)
            if tag == "start":
                out.append(dict(ev="start"))
            elif tag == "k":
                out.append(dict(ev="k", k=v[0], f=v[1]))
            elif tag == "ranges":
                out.append(dict(ev="ranges", br=[dict(lo=q(x[0]), klo=int(x[1]), hi=q(x[2]), khi=int(x[3]))
                                                 for x in v[0]]))
            elif tag == "gaps":
                g = [dict(lo=q(x[1]), hi=q(x[2]), p=round(x[0] * 1000)) for x in v[0]]
                for i, x in enumerate(g):
                    x["b"] = gaplines[i] if i < len(gaplines) else -1
                if len(gaplines) != len(g):
                    g.append(dict(lo=0, hi=0, p=0, b=-1))
                out.append(dict(ev="gaps", g=g, s=1000, tol=tol))
                gaplines = []
            elif tag == "retrieve":
                ok = bool(v[1][0])
                out.append(dict(ev="retrieve", b=v[0], ok=int(ok),
                                v=round(v[1][1] * 1000) if ok else 0, s=1000, tol=tol))
    return out


def q(x):
    return round(x) if abs(x) < 1e9 else (10 ** 9 if x > 0 else -10 ** 9)


def real_runs(c):
    """Whole runs: the same specification with the frequencies the solver reports."""
    rng = c.rng
    scripts = []
    for i in range(c.n(14, 60)):
        runs = []
        two_d = rng.random() < 0.5
        s = ["(set! geometry-lattice (make lattice (size 1 %s no-size)))" % ("1" if two_d else "no-size"),
             "(set! resolution %d)" % (8 if two_d else 16), "(set! tolerance 1e-6)",
             "(set! geometry (list (make block (center 0 0 0) (size %.2f %s infinity) "
             "(material (make dielectric (epsilon %d))))))"
             % (rng.uniform(.2, .7), "infinity" if rng.random() < .5 else ".5", rng.choice([2, 9, 13])),
             GEN_PRE]
        for _ in range(rng.choice([1, 2, 3])):
            nk = rng.choice([0, 1, 2, 3, 5])
            ks = [(round(rng.uniform(-.5, .5), 2), round(rng.uniform(-.5, .5), 2) if two_d else 0) for _ in range(nk)]
            if nk > 2 and rng.random() < .3:
                ks[-1] = ks[0]
            nb = rng.choice([1, 2, 3, 4, 5])
            fn = rng.choice(["run", "run-te", "run-tm"]) if two_d else "run"
            s += ["(set! num-bands %d)" % nb,
                  "(set! k-points (list %s))" % " ".join("(vector3 %g %g 0)" % k for k in ks),
                  '(emit "runstart" %d)' % nk, "(%s)" % fn, '(emit "all" all-freqs)',
                  '(emit "ranges" (map (lambda (r) (list (caar r) (cdar r) (cadr r) (cddr r))) band-range-data))',
                  '(emit "gaps" gap-list)']
            s += ['(emit "retrieve" %d (attempt (lambda () (retrieve-gap %d))))' % (b, b) for b in range(1, 6)]
            runs.append(ks)
        scripts.append(("\n".join(s), runs))
    out = []
    for (s, runs), r in zip(scripts, vf.pmap(lambda t: vf.run_mpb("complex", t[0]), scripts)):
        if r.rc != 0:
            c.violate("a band-structure run fails: %s" % r.out[-300:], script=s)
            continue
        t, skip = real_trace(r, runs)
        if not skip:
            out.append(t)
    return out


def real_trace(r, runs):
    Q = 1e5
    out, gaplines, bandlines, ri, skip = [], [], [], -1, False
    for line in r.out.splitlines():
        if line.startswith("Gap from band"):
            gaplines.append(int(line.split()[3]))
        elif re.match(r"Band \d+ range", line):
            m = re.match(r"Band (\d+) range: (\S+) at (#\(.*?\)) to (\S+) at (#\(.*?\))$", line)
            bandlines.append((int(m[1]), m[2], m[3], m[4], m[5]) if m else None)
        elif line.startswith("@@"):
            tag, _, js = line[2:].partition(" ")
            v = vf.json.loads(js)
            if tag == "runstart":
                ri += 1
                nk = v[0]
                out.append(dict(ev="start"))
                gaplines, bandlines = [], []
            elif tag == "all":
                for i, f in enumerate(v[0]):
                    out.append(dict(ev="k", k=kid(runs[ri], runs[ri][i]), f=[round(x * Q) for x in f]))
                if len(v[0]) != len(runs[ri]):
                    out.append(dict(ev="nogaps", n=-1))
                allf = v[0]
                nb = max([len(f) for f in allf] or [0])
                for b in range(nb - 1):   # quantisation must not merge different edges
                    d = min(f[b + 1] for f in allf) - max(f[b] for f in allf)
                    skip |= abs(d) < 3e-5
            elif tag == "ranges":
                br = [dict(lo=round(x[0] * Q), klo=kid(runs[ri], x[1]), hi=round(x[2] * Q), khi=kid(runs[ri], x[3]))
                      for x in v[0]]
                out.append(dict(ev="ranges", br=br))
                if len(runs[ri]) > 1:     # the printed table says the same
                    pr = []
                    for bl in bandlines:
                        if bl:
                            pr.append(dict(lo=round(float(bl[1]) * Q), klo=kid(runs[ri], vec(bl[2])),
                                           hi=round(float(bl[3]) * Q), khi=kid(runs[ri], vec(bl[4]))))
                    out.append(dict(ev="ranges", br=pr if [b[0] for b in bandlines if b] == list(range(1, len(br) + 1)) else []))
                else:
                    out.append(dict(ev="nogaps", n=len(bandlines)))
            elif tag == "gaps":
                g = [dict(lo=round(x[1] * Q), hi=round(x[2] * Q), p=round(x[0] * SR)) for x in v[0]]
                for i, x in enumerate(g):
                    x["b"] = gaplines[i] if i < len(gaplines) else -1
                if len(runs[ri]) <= 1:
                    out.append(dict(ev="nogaps", n=len(g) + len(gaplines)))
                else:
                    out.append(dict(ev="gaps", g=g, s=SR, tol=TOLR) if len(g) == len(gaplines)
                               else dict(ev="nogaps", n=-1))
            elif tag == "retrieve":
                ok = bool(v[1][0])
                out.append(dict(ev="retrieve", b=v[0], ok=int(ok), v=round(v[1][1] * SR) if ok else 0, s=SR, tol=TOLR))
    return out, skip


TOLR, SR = 2, 10


def vec(s):
    return [float(x) for x in s[2:-1].split()]


def kid(ks, k):
    """index (1-based) of a k point among those of the run; equal points share the first index"""
    if not isinstance(k, (list, tuple)):
        return -1
    for i, p in enumerate(ks):
        if abs(p[0] - k[0]) + abs(p[1] - k[1]) < 1e-9:
            return i + 1
    return -2


def check(c):
    vf.need("complex")
    vf.tlc_model(c, "Bands")
    g = vf.tlc("BandsGen", simulate=c.n(150, 1500), depth=12, seed=vf.SEED)
    beh = g.json_lines()
    if len(beh) < 20:
        raise vf.HarnessError("generation failed: " + g.out[-2000:])
    c.extra["behaviours_generated"] = len(beh)
    scripts = []
    for i in range(0, len(beh), 12):
        s = [GEN_PRE]
        for b in beh[i:i + 12]:
            for e in [dict(ev="start")] + b:
                if e["ev"] == "start":
                    s.append("(set! br '()) (emit \"start\")")
                    continue
                f = " ".join(str(x + 1) for x in e["f"])
                s.append('(set! br (update-band-range-data br (list %s) (vector3 %d 0 0)))' % (f, e["k"]))
                s.append('(emit "k" %d (list %s)) (emit "ranges" (obs-ranges br))' % (e["k"], f))
                s.append('(emit "gaps" (output-gaps br)) (set! band-range-data br)')
                for b_ in range(1, 7):
                    s.append('(emit "retrieve" %d (attempt (lambda () (retrieve-gap %d))))' % (b_, b_))
        scripts.append("\n".join(s))
    traces = []
    for s, r in zip(scripts, vf.pmap(lambda s: vf.run_mpb("complex", s), scripts)):
        if r.rc != 0:
            c.violate("band range functions fail: " + r.out[-300:], script=s)
        else:
            traces.append((to_trace(r, 2), s))
    for t in real_runs(c):
        # real frequencies are quantised to 1e-5: sizes need 32-bit care
        traces.append((t, "real run"))
    recs = [e for t, _ in traces for e in t]
    r, bad, path = c.validate("BandsTrace", recs)
    if bad or not r.ok:
        n = bad[0]["line"] if bad else 0
        ctx = recs[max(0, n - 3):n + 1]
        c.violate("band ranges/gaps: the observation on line %d is not what the specification allows: %s"
                  % (n, vf.json.dumps(ctx[-2:])), trace=ctx, tlc=r.out[-1500:])
    c.sample(dict(kind="synthetic", trace=traces[0][0][:4]))
    c.sample(dict(kind="real", trace=traces[-1][0][:4]))
    c.extra["events"] = len(recs)
