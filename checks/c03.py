"""C03: sessions of runs generated by RunLoopGen.tla, replayed in the real program; lines, calls and files against RunLoop.tla."""
import glob, json, math, os, re
import vf, h5, problems

LIB = """
(setvbuf (current-output-port) 'line)
(define (vl v) (list (vector3-x v) (vector3-y v) (vector3-z v)))
(define (rec id) (lambda (b) (emit "call" id b (get-kpoint-index) (vl current-k) parity)))
(define (thk id) (lambda () (emit "call" id 0 (get-kpoint-index) (vl current-k) parity)))
(define mags (lambda (b get) (get b)
  (let ((v (get-field-point PP))) (list (magnitude (vector3-x v)) (magnitude (vector3-y v)) (magnitude (vector3-z v))))))
(define (probe)
  (emit "call" 0 0 (get-kpoint-index) (vl current-k) parity)
  (emit "quiet" 1)
  (let loop ((b 1) (acc '()))
    (if (> b num-bands) (emit "probe" (reverse acc))
      (let* ((d (mags b get-dfield)) (h (mags b get-hfield)) (bf (mags b get-bfield)) (e (mags b get-efield))
             (dp (begin (get-dfield b) (compute-field-energy) (get-energy-point PP)))
             (bp (begin (get-bfield b) (compute-field-energy) (get-energy-point PP))))
        (loop (+ b 1) (cons (list d h bf e dp bp) acc))))))
(define real-randomize randomize-fields)
(set! randomize-fields (lambda () (emit "rand") (real-randomize)))
(define (finish) (emit "end" (get-kpoint-index) all-freqs))
"""
PT = {0: "", 1: "te", 2: "tm", 4: "yeven", 8: "yodd", 5: "teyeven", 6: "tmyeven", 9: "teyodd", 10: "tmyodd"}
PT3 = {0: "", 1: "zeven", 2: "zodd", 4: "yeven", 8: "yodd", 5: "zevenyeven", 6: "zoddyeven", 9: "zevenyodd", 10: "zoddyodd"}
RUNS = {0: ["run"], 1: ["run-zeven", "run-te", "run-even"], 2: ["run-zodd", "run-tm", "run-odd"], 4: ["run-yeven"], 8: ["run-yodd"],
        5: ["run-yeven-zeven", "run-te-yeven"], 6: ["run-yeven-zodd", "run-tm-yeven"], 9: ["run-yodd-zeven", "run-te-yodd"], 10: ["run-yodd-zodd", "run-tm-yodd"]}
PRE = [("\"\"", None), ("false", ""), ("\"ab-\"", "ab-"), ("\"q.\"", "q.")]
KS = {1: (0, 0, 0), 2: (.3, 0, 0), 3: (.5, 0, 0), 4: (.21, .17, 0), 5: (.4, -.33, 0)}
once = lambda f: f["t"] in ("thunk", "rand", "kd")
V = lambda k: "(vector3 %g %g %g)" % tuple(k)


def fn(f):
    t = f["t"]
    if t == "band":
        return "(rec %d)" % f["id"]
    if t == "thunk":
        return "probe" if f["id"] == 0 else "(thk %d)" % f["id"]
    if t == "rand":
        return "randomize-fields"
    if t == "kd":
        return {"velocity": "display-group-velocities", "zparity": "display-zparities", "yparity": "display-yparities"}[f["name"]]
    if t == "tot":
        return "output-tot-pwr"
    if t == "out":
        if f["c"] == "v":
            return "output-poynting" + (f["comp"] and "-" + f["comp"])
        if f["c"] == "C":
            return "output-charge-density"
        if f["pw"]:
            return "output-dpwr" if f["c"] == "d" else "output-bpwr"
        return "output-%sfield%s" % (f["c"], f["comp"] and "-" + f["comp"])
    if t == "comb":
        return "(combine-band-functions %s)" % " ".join(map(fn, f["fs"]))
    if t == "at":
        return "(output-at-kpoint %s %s)" % (V(KS[f["k"]]), " ".join(map(fn, f["fs"])))
    return "(output-dpwr-in-objects %s %s obj)" % (fn(f["fs"][0]), "0" if f["on"] else "1e9")


class Session:
    def __init__(self, rng, beh):
        self.dims = rng.choice([1, 2, 2, 3])
        self.name = rng.choice(["t", "t", "bands", "a.b"])
        self.n = [rng.choice([12, 15]), 1, 1] if self.dims == 1 else [rng.choice([5, 6, 7]), rng.choice([5, 6]), 1] if self.dims == 2 else [4, 5, rng.choice([3, 4])]
        self.mu = rng.random() < .25
        n = self.n
        sz = [1, rng.choice([1, 1.25]), 1]
        self.pt = PT3 if self.dims == 3 else PT
        pp = [sz[i] * (1 / n[i] - .5) if n[i] > 1 else 0 for i in range(3)]
        self.ix = ((1 % n[0]) * n[1] + (1 % n[1])) * n[2] + 1 % n[2]
        s = [LIB, "(define PP %s)" % V(pp),
             "(set! geometry-lattice (make lattice (size %s)))" % " ".join("%g" % sz[i] if n[i] > 1 else "no-size" for i in range(3)),
             "(set! resolution (vector3 %r %r %r))" % tuple(n[i] / sz[i] for i in range(3)),
             "(define obj (make block (center 0) (size %g %g %g) (material (make medium (epsilon %g)%s)))) (set! geometry (list obj))"
             % (rng.choice([.4, .55]), rng.choice([.5, .8]), rng.choice([.45, 2]), rng.choice([4, 9]), " (mu 1.5)" if self.mu else "")]
        self.steps = []
        nb, par = 0, 0
        pre = self.name + "-"
        for a in beh:
            fit = lambda k: (k if not par & 12 else {4: 2, 5: 1}.get(k, k))
            if a["a"] == "run":
                par, nb = a["par"], a["nb"]
                if self.dims == 1 and par in (5, 10):        # no modes at all
                    par -= 4 if par == 5 else 8
                txt, pre = PRE[a["pre"]]
                pre = self.name + "-" if pre is None else pre
                r = dict(p=self.pt[par], ks=[fit(k) for k in a["ks"]], nb=nb, pre=pre, fs=[dict(t="thunk", id=0)] + a["fs"], num=a["num"], ix=a["ix"],
                         rand=a["rand"], mu=int(self.mu))
                call = "(%s %s)" % (rng.choice(RUNS[par]) if a["how"] == 1 else "run-parity %d %s" % (par, "true" if a["how"] == 2 else "false"), " ".join(map(fn, r["fs"])))
                s.append('(set! filename-prefix %s) (set! num-bands %d) (set! k-split-num %d) (set! k-split-index %d) (set! randomize-fields? %s) (set! k-points (list %s))'
                         % (txt, nb, a["num"], a["ix"], "true" if a["rand"] else "false", " ".join(V(KS[k]) for k in r["ks"])))
                st, act = dict(ev="run", r=r), call
            elif a["a"] == "set":
                st, act = dict(ev="set", n=a["n"]), "(set-kpoint-index %d)" % a["n"]
            elif a["a"] == "solve":
                k = fit(a["k"])
                st, act = dict(ev="dsolve", k=k), "(set! current-k %s) (solve-kpoint current-k)" % V(KS[k])
            else:
                b = 0 if once(a["f"]) else (a["b"] - 1) % nb + 1
                st, act = dict(ev="dcall", f=a["f"], b=b, pre=pre), "(%s %s)" % (fn(a["f"]), b or "")
            s.append('(emit "step" %d) %s (finish)' % (len(self.steps), act))
            self.steps.append(st)
        self.text = "\n".join(s)

    def kid(self, k):
        for i, v in KS.items():
            if max(abs(a - b) for a, b in zip(k, v)) < 1e-6:
                return i
        return -1

    def trace(self, r):
        out, quiet = [dict(ev="session")], False
        cur = None
        F = lambda x: round(min(x, 1000) * 1e6) if isinstance(x, (int, float)) else -1
        pl = {v: None for v in self.pt.values()}
        rx = "|".join(sorted(pl, key=len, reverse=True))
        for line in r.out.splitlines():
            if line.startswith("@@"):
                tag, _, js = line[2:].partition(" ")
                v = json.loads(js)
                if tag == "step":
                    cur = self.steps[v[0]]
                    out.append(cur)
                elif tag == "quiet":
                    quiet = True
                elif tag == "probe":
                    quiet = False
                    m = lambda x: [round(min(y, 1e5) * 1e4) for y in x]
                    out.append(dict(ev="probe", m=[dict(d=m(b[0]), h=m(b[1]), b=m(b[2]), e=m(b[3]), dp=m([b[4]])[0], bp=m([b[5]])[0]) for b in v[0]]))
                elif tag == "call":
                    out.append(dict(ev="call", id=v[0], b=v[1], idx=v[2], k=self.kid(v[3]), p=v[4]))
                elif tag == "rand":
                    out.append(dict(ev="rand"))
                elif tag == "end":
                    out.append(dict(ev="end", idx=v[0], all=[[F(x) for x in y] for y in v[1]]))
                continue
            if quiet:
                continue
            m = re.match(r"(%s)freqs:, k index, k1, k2, k3, kmag/2pi(.*)$" % rx, line)
            if m:
                n = m[2].count(",")
                out.append(dict(ev="head", p=m[1], n=n if m[2] == "".join(", %sband %d" % (m[1] and m[1] + " ", i + 1) for i in range(n)) else -1))
                continue
            m = re.match(r"(%s)freqs:, (\d+), (.*)$" % rx, line)
            if m:
                x = [float(y) for y in m[3].split(",")]
                ok = abs(x[3] - math.sqrt(sum(y * y / (self.sz2(i)) for i, y in enumerate(x[:3])))) < 1e-5 * (1 + x[3])
                out.append(dict(ev="solve", p=m[1], idx=int(m[2]) if ok else -1, k=self.kid(x[:3]), f=[F(y) for y in x[4:]], run=int(cur["ev"] == "run")))
                continue
            m = re.match(r"Outputting (?:fields to |complex scalar field to )?(\S+?)\.\.\.$", line)
            if m:
                out.append(dict(ev="eps" if re.search(r"(epsilon|mu)$", m[1]) else "file", name=m[1] + ".h5"))
                continue
            m = re.match(r"([DB])-energy-components:, (\d+), (\d+), ", line)
            if m:
                out.append(dict(ev="energy", c=m[1].lower(), idx=int(m[2]), b=int(m[3])))
                continue
            m = re.match(r"dpwr:, (\d+), (\S+), ", line)
            if m:
                out.append(dict(ev="dpwr", b=int(m[1]), f=F(float(m[2]))))
                continue
            m = re.match(r"(%s)(velocity|zparity|yparity):, (\d+)((?:, .*)?)$" % rx, line)
            if m:
                out.append(dict(ev="kd", p=m[1], name=m[2], idx=int(m[3]), n=len(re.findall(r", #?[-(0-9.]", m[4]))))
        names = []
        N = self.n[0] * self.n[1] * self.n[2]
        for f in sorted(glob.glob(os.path.join(r.dir, "*.h5"))):
            name = os.path.basename(f)
            names.append(name)
            d = h5.read(f)
            k = d["data"].pop("Bloch wavevector", None)
            d["data"].pop("lattice vectors", None)
            desc = d["attr"].get("description", "")
            m = re.match(r"(\w) field(| energy density), kpoint (\d+), band (\d+), freq=(\S+)$", str(desc))
            dims = {math.prod(x[0]) for x in d["data"].values()}
            e = dict(ev="content", name=name, idx=0, b=0, c="?", pw=0, f=0, k=-1, n=dims.pop() if len(dims) == 1 else -1, points=N, sets=len(d["data"]), m=[0, 0, 0])
            if m:
                pw = int(bool(m[2]))
                e.update(idx=int(m[3]), b=int(m[4]), c=m[1].lower() if pw else m[1], pw=pw, f=F(float(m[5])))
                if k:
                    k = list(k[1])
                    e["k"] = 0 if m[1] == "v" and not any(k) else self.kid(k)
                val = lambda n: d["data"].get(n, ((0,), [0] * N))[1][self.ix]
                try:
                    if pw:
                        e["m"] = [round(abs(val("data")) * 1e4)]
                    else:
                        e["m"] = [round(math.hypot(val(c + ".r"), val(c + ".i")) * 1e4) for c in "xyz"]
                except IndexError:
                    pass
            out.append(e)
        out.append(dict(ev="files", names=names or [""]) if names else dict(ev="files", names=[]))
        return out

    def sz2(self, i):
        m = re.search(r"\(size (\S+) (\S+) (\S+)\)\)\)", self.text)
        return 1 if m[i + 1] == "no-size" else float(m[i + 1]) ** 2


def check(c):
    vf.need("complex", "inv", "herm")
    vf.tlc_model(c, "RunLoopMC", "RunLoopMCq" if c.quick else "RunLoopMC")
    g = vf.tlc("RunLoopGen", workers=1, simulate=c.n(120, 1200), depth=10, seed=vf.SEED)
    beh = g.json_lines()
    if len(beh) < 50:
        raise vf.HarnessError("generation failed: " + g.out[-2000:])
    rng = c.rng
    # and one with more than a hundred k points
    beh.append([dict(a="run", par=1, ks=[rng.randint(1, 5) for _ in range(103)], nb=1, pre=2, fs=[dict(t="out", c="d", comp="z", pw=0, pre=""), dict(t="band", id=1)], num=1, ix=0, rand=0, how=1)])
    jobs = [(rng.choice(["complex", "complex", "inv", "herm"]), Session(rng, b)) for b in beh]
    rs = vf.pmap(lambda j: vf.run_mpb(j[0], j[1].text, timeout=300, name=j[1].name + ".ctl"), jobs)
    recs, at, skip, kinds = [], [], 0, {}
    for (cfg, s), r in zip(jobs, rs):
        f = problems.run_failure(r)
        if f == "skip":
            skip += 1
            continue
        if f:
            c.violate("%s build: %s" % (cfg, f), script=s.text, log=r.out[-1500:])
            continue
        t = s.trace(r)
        for e in t:
            kinds[e["ev"]] = kinds.get(e["ev"], 0) + 1
        at += [(len(recs), cfg, s)] * len(t)
        recs += t
    if skip > 2 + len(jobs) // 10:
        c.violate("the solver does not converge in %d of %d sessions" % (skip, len(jobs)))
    r, bad, _ = c.validate("RunLoopTrace", recs)
    if not bad and not r.ok:
        raise vf.HarnessError(r.out[-2000:])
    seen = set()
    for b in bad:
        o, cfg, s = at[b["line"] - 1]
        if o in seen or len(c.viol) >= 6:
            continue
        seen.add(o)
        e = recs[b["line"] - 1]
        c.violate("%s build: %s: %s" % (cfg, e["ev"], b["why"]), event=e, script=s.text)
    c.extra.update(sessions=len(jobs) - skip, not_converged=skip, events=kinds)
    c.sample(next(e for e in recs if e["ev"] == "run"))
    c.sample(next((e for e in recs if e["ev"] == "content"), {}))
