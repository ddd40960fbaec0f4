"""C18: searches for wave vectors on random crystals; every evaluation and result against FindKTrace.tla."""
import json, math, re
import vf, problems

LIB = """
(setvbuf (current-output-port) 'line)
(define (vl v) (list (vector3-x v) (vector3-y v) (vector3-z v)))
(define (rec id) (lambda (b) (emit "call" id b (vl current-k))))
(define (thk id) (lambda () (emit "call" id 0 (vl current-k))))
"""
V = lambda v: "(vector3 %r %r %r)" % tuple(v)
PAR = {"NO-PARITY": "", "EVEN-Y": "yeven", "ODD-Y": "yodd", "TE": "te", "TM": "tm"}


def crystal(rng):
    """crystal, line through its k space along which all bands rise, number of searches"""
    dims = rng.choice([1, 2, 2, 2, 3])
    sz = [rng.choice([1, 1, 1.3]), rng.choice([1, .8]) if dims > 1 else 0, rng.choice([1, .7]) if dims > 2 else 0]
    par = rng.choice(["NO-PARITY", "NO-PARITY", "EVEN-Y", "ODD-Y"]) if dims == 2 else "NO-PARITY"
    hexa = dims == 2 and par == "NO-PARITY" and rng.random() < .3
    res = {1: 24, 2: 11, 3: 6}[dims]     # odd along y: mirror symmetry is exact
    sy = 0 if "-Y" in par else 1
    objs = []
    for _ in range(2):
        c = [rng.uniform(-.3, .3) * (sz[i] or 1) for i in range(3)]
        if not sy:
            c[1] = 0
        a = rng.uniform(.1, .35)
        e = rng.choice([2, 3, 5, 1.5])
        objs.append("(make block (center %g %g %g) (size %g %g %g) (material (make dielectric (epsilon %g))))" % (c[0], c[1], c[2] if dims > 2 else 0, a, a * 1.3, a * .8 if dims > 2 else 9, e))
    lat = "(make lattice (size %s)%s)" % (" ".join("%g" % x if x else "no-size" for x in sz),
                                          " (basis1 (/ (sqrt 3) 2) 0.5) (basis2 (/ (sqrt 3) 2) -0.5)" if hexa else "")
    A = [[sz[0] or 1, 0, 0], [0, sz[1] or 1, 0], [0, 0, sz[2] or 1]]
    if hexa:
        h = math.sqrt(3) / 2
        A = [[h * A[0][0], .5 * A[0][0], 0], [h * A[1][1], -.5 * A[1][1], 0], [0, 0, 1]]
    # direction: out of the plane, mixed, or along x for the first band
    kind = rng.choice(["z", "z", "z", "mix", "x"]) if dims < 3 else "x"
    if dims == 1:
        kind = rng.choice(["z", "y", "x"])
    orig = [0, 0, 0]
    if kind == "x":
        d, b1, b2, lo, hi = [1, 0, 0], 1, 1, .12, .36
        if dims < 3:        # polarisations are decoupled
            par = rng.choice(["TE", "TM"])
    else:
        d = {"z": [0, 0, 1], "y": [0, 1, 0], "mix": [0, 0, 1]}[kind]
        b1 = rng.choice([1, 1, 2, 3])
        b2 = b1 + rng.choice([0, 1, 2, 3, 4])
        lo, hi = .2, 3.1
        if kind == "mix":
            orig = [rng.uniform(-.3, .3), 0 if not sy else rng.uniform(-.3, .3), 0]
        if dims == 1:
            par = rng.choice({"z": ["EVEN-Y", "ODD-Y"], "y": ["TE", "TM"], "mix": ["EVEN-Y", "ODD-Y"]}[kind])
    ln = rng.choice([1, 2.5, .3])
    d = [x * ln for x in d]
    txt = "(set! geometry-lattice %s) (set! geometry (list %s)) (set! resolution %d) (set! default-material (make dielectric (epsilon %g)))" % (lat, " ".join(objs), res, rng.choice([1, 1, 2]))
    # reciprocal components of the unit vector: products with the lattice vectors (direction given in reciprocal components)
    n = 3
    from c22 import inv3
    from fractions import Fraction as F
    B = inv3([[F(x) for x in y] for y in A])     # B[j][i]: reciprocal vector i is column i
    cart = [sum(d[i] * float(B[j][i]) for i in range(3)) for j in range(3)]
    m = math.sqrt(sum(x * x for x in cart))
    d1 = [sum(cart[j] / m * A[i][j] for j in range(3)) for i in range(3)]
    return dict(txt=txt, par=par, d=d, d1=d1, orig=orig, b1=b1, b2=b2, lo=lo, hi=hi)


def script(rng, q):
    ids = rng.choice([[], [1], [1, 2], [-1, 1], [1, -1, 2]])
    tol = rng.choice([1e-3, 1e-4, 1e-6])
    nb = q["b2"] - q["b1"] + 1
    fr = rng.uniform(.08, .9)
    guess = [q["lo"] + (q["hi"] - q["lo"]) * rng.uniform(.02, .98) for _ in range(nb)]
    g = "(list %s)" % " ".join(map(repr, guess)) if rng.random() < .5 else repr(guess[0])
    kd = V(q["d"]) if not any(q["orig"]) and rng.random() < .6 else "(cons %s %s)" % (V(q["orig"]), V(q["d"]))
    fn = " ".join("(rec %d)" % i if i > 0 else "(thk %d)" % i for i in ids)
    at = lambda k: "(vector3+ %s (vector3-scale %s %s))" % (V(q["orig"]), k, V(q["d1"]))
    b1, b2, p = q["b1"], q["b2"], q["par"]
    s = [LIB, q["txt"], "(set! tolerance 1e-10) (set! num-bands %d)" % (b2 + 2),
         "(define (at k) %s) (define p %s)" % (at("k"), p),
         "(define (direct k) (randomize-fields) (set! num-bands %d) (set! k-points (list (at k))) (run-parity p true) freqs)" % (b2 + 2),
         "(define flo (direct %r)) (define fhi (direct %r))" % (q["lo"], q["hi"]),
         "(define w0 (list-ref flo %d)) (define w1 (list-ref fhi %d)) (define omega (+ w0 (* %r (- w1 w0))))" % (b2 - 1, b1 - 1, fr),
         '(emit "range" w0 w1 omega)',
         "(define kk (list (vector3 .11 .2 0) (vector3 .3 0 0))) (set! num-bands 7) (set! k-points kk)",
         '(emit "search" 1)',
         "(define ks (find-k p omega %d %d %s %r %s %r %r %s))" % (b1, b2, kd, tol, g, q["lo"], q["hi"], fn),
         '(emit "kept" (= num-bands 7) (equal? k-points kk))',
         '(emit "ks" ks (map number->string ks))',
         # the same, band by band, from the default start
         "(define alone (map (lambda (b) (car (find-k p omega b b %s %r %r %r %r))) (arith-sequence %d 1 %d)))" % (kd, tol, (q["lo"] + q["hi"]) / 2, q["lo"], q["hi"], b1, nb),
         '(emit "direct" alone (map (lambda (k b) (- (list-ref (direct k) (- b 1)) omega)) ks (arith-sequence %d 1 %d)))' % (b1, nb)]
    return "\n".join(s), dict(ids=ids, tol=tol)


def trace(q, a, r):
    """events of one run, or None if the frequency asked for does not exist in the range"""
    rg = r.one("range")
    if not rg or rg[0] >= rg[1] - 1e-3:
        return None
    w = rg[2]
    Q = lambda x: max(-2000000000, min(2000000000, round(x * 1e9)))
    names, ev, on = {}, [], False
    dd = sum(x * x for x in q["d1"])

    def kname(x):
        for v, n in names.items():
            if float(x) == v:
                return n
        names[float(x)] = len(names) + 1
        return len(names)

    def along(v):
        t = sum((v[i] - q["orig"][i]) * q["d1"][i] for i in range(3)) / dd
        off = max(abs(v[i] - q["orig"][i] - t * q["d1"][i]) for i in range(3))
        return t, off < 3e-5
    par = PAR[q["par"]]
    kv, pend, ks, tk = None, [], None, None
    for line in r.out.splitlines():
        if line.startswith("@@"):
            tag, _, js = line[2:].partition(" ")
            v = json.loads(js)
            if tag == "search":
                on = True
                ev.append(dict(ev="search", p=par, b1=q["b1"], b2=q["b2"], ids=a["ids"]))
            elif tag == "kept":
                on = False
                kept = dict(ev="kept", ok=int(v == [True, True]))
            elif tag == "call" and on:
                ev.append(dict(ev="call", id=v[0], b=v[1], k=along(v[2])))
            elif tag == "ks":
                ks = v[0]
            elif tag == "direct":
                tk = v
            continue
        if not on:
            continue
        m = re.match(r"(\w*)freqs:, (\d+), (.*)$", line)
        if m:
            x = [float(y) for y in m[3].split(",")]
            ev.append(dict(ev="solve", p=m[1], k=along(x[:3]), f=[Q(y - w) for y in x[4:]], n=len(x) - 4))
            continue
        m = re.match(r"find-k (\d+) at (\S+): (\S+?)( \(cached\))?$", line)
        if m:
            e = dict(ev="look", b=int(m[1]), k=kname(m[2]), v=Q(float(m[3])), hit=int(bool(m[4])))
            ev.append(e)
            continue
        m = re.match(r"(\w*)kvals:, (.*)$", line)
        if m:
            kv = (m[1], [float(x) for x in m[2].split(",")])
    if ks is None or tk is None:
        return ev + [dict(ev="kept", ok=0)]
    # exact wave numbers: printed by the search, and returned
    kn = [kname(k) for k in ks]
    kn = [next(i for v, i in names.items() if i in kn and abs(v - k) <= 1e-12 * (1 + abs(v))) for k in ks]
    for e in ev:
        if e["ev"] in ("solve", "call"):
            t, ok = e["k"]
            n = [i for v, i in names.items() if abs(v - t) <= (6e-6 if e["ev"] == "solve" else 1e-12) * (1 + abs(v))]
            if e["ev"] == "call":
                n = [i for i in n if i in kn] or n
                e["k"] = n[0] if n and ok else 0
            else:
                e.update(cand=n, on=int(ok and bool(n)), k=0)
    # a printed k has six digits only: of several names choose the one looked at next
    for i, e in enumerate(ev):
        if e["ev"] == "solve":
            nx = next((x for x in ev[i + 1:] if x["ev"] in ("look", "call", "solve")), None)
            c = e.pop("cand")
            e["k"] = nx["k"] if nx and nx["ev"] != "solve" and nx["k"] in c else (c[0] if c else 0)
    same = int(kv is not None and kv[0] == par and len(kv[1]) == 9 + len(ks) and abs(kv[1][0] - w) < 1e-9 and kv[1][1:3] == [q["b1"], q["b2"]]
               and max(abs(x - y) for x, y in zip(kv[1][3:9], list(q["orig"]) + q["d1"])) < 1e-6
               and max(abs(x - y) for x, y in zip(kv[1][9:], ks)) < 1e-9)
    tol = a["tol"] * max(map(abs, ks)) * 2 + 2e-6
    slope = (rg[1] - rg[0]) / (q["hi"] - q["lo"])
    ev.append(dict(ev="found", p=kv[0] if kv else "?", k=kn, kq=[Q(k / 4) for k in ks], same=same, direct=[Q(x) for x in tk[1]],
                   alone=[Q(x / 4) for x in tk[0]], tol=Q(tol), ktol=Q(tol * 5)))
    ev.append(kept)
    return ev


def check(c):
    vf.need("complex")
    vf.tlc_model(c, "FindK")
    rng = c.rng
    jobs = []
    for _ in range(c.n(48, 500)):
        q = crystal(rng)
        t, a = script(rng, q)
        jobs.append((q, a, t))
    rs = vf.pmap(lambda j: vf.run_mpb("complex", j[2], timeout=300), jobs)
    recs, at, skip, none = [], [], 0, 0
    for j, r in zip(jobs, rs):
        f = problems.run_failure(r)
        if f == "skip":
            skip += 1
            continue
        t = trace(j[0], j[1], r)
        if t is None and not (f and not r.get("range")):
            none += 1
            continue
        if f:
            c.violate("a search failed: %s" % f, script=j[2], log=r.out[-1500:])
            continue
        at += [(len(recs), j)] * len(t)
        recs += t
    if skip + none > len(jobs) // 2:
        raise vf.HarnessError("only %d of %d searches usable" % (len(jobs) - skip - none, len(jobs)))
    r, bad, _ = c.validate("FindKTrace", recs)
    if not bad and not r.ok:
        raise vf.HarnessError(r.out[-2000:])
    seen = set()
    for b in bad:
        o, j = at[b["line"] - 1]
        if o in seen or len(c.viol) >= 6:
            continue
        seen.add(o)
        c.violate("%s: %s" % (recs[b["line"] - 1]["ev"], b["why"]), event=recs[b["line"] - 1], script=j[2])
    c.extra.update(searches=len(jobs) - skip - none, no_solution_in_range=none, not_converged=skip)
    c.sample(next((e for e in recs if e["ev"] == "found"), {}))
