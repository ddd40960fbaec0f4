"""C16: mpb-data samples the same Bloch function.  Specification: spec/Resample.tla."""
import os, random, shutil
import vf, h5, problems

ATTRS = ("lattice vectors", "Bloch wavevector", "lattice copies")
REALS = ["data", "epsilon.xx", "epsilon.yz", "epsilon_inverse.zz", "epsilon_inverse.xy", "epsilon.xz"]


def options(o, rng):
    m = [x / 2 for x in o["m"]]
    r = []
    if o["rect"]:
        r += ["-e", ",".join(str(x) for x in o["e"])] if any(o["e"]) else ["-r"]
    if m[0] == m[1] == m[2] and rng.random() < .7:
        if m[0] != 1:
            r += ["-m", "%g" % m[0]]
    else:
        for c, x in zip("xyz", m):
            if x != 1:
                r += ["-" + c, "%g" % x]
    if o["res"]:
        r += ["-n", str(o["res"])]
    if o["T"]:
        r.append("-T")
    if o["p"]:
        r.append("-p")
    if o["P"]:
        r += ["-P", str(90 * o["P"])]
    return r


def content(kind, f, rng):
    """{data set: values}, [(kind, names of the components)], data sets that must be left alone"""
    n = f["n"][0] * f["n"][1] * f["n"][2]
    vals = lambda: [rng.randint(-9, 9) for _ in range(n)]
    if kind in ("named", "colon"):
        c = rng.random() < .5
        use = [("cplx", [["foo.r", "foo.i"]])] if c else [("data", [["foo"]])]
        other = ["data", "data.r", "data.i", "bar"]
    elif kind == "vec":
        use, other = [("vec", [[c + ".r", c + ".i"] for c in "xyz"])], ["foo"]
    elif kind == "part":
        use, other = [("cplx", [["x.r", "x.i"]]), ("data", [["y"]])], ["z.x"]
    elif kind == "cplx":
        use, other = [("cplx", [["data.r", "data.i"]])], ["foo", "foo.r"]
    elif kind == "eps":
        use, other = [("data", [[x]]) for x in rng.sample(REALS, 2)] + [("cplx", [["epsilon.xy.r", "epsilon.xy.i"]])], ["foo"]
    else:
        use, other = [("data", [["data"]])], ["foo"]
    data = {nm: vals() for _, comps in use for c in comps for nm in c}
    for nm in rng.sample(other, rng.randint(0, 1)):
        data[nm] = vals()
    return data, use


def store(path, f, data, rng):
    dims = f["n"][:f["rank"]]
    attrs = {}
    eye = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    if f["A"] != eye or rng.random() < .8:
        attrs["lattice vectors"] = ([3, 3], [float(x) for v in f["A"] for x in v])
    if any(f["k"]) or rng.random() < .5:
        attrs["Bloch wavevector"] = ([3], [x / 4 for x in f["k"]])
    if f["g"] != [1, 1, 1] or rng.random() < .3:
        attrs["lattice copies"] = ([3], [float(x) for x in f["g"]])
    # the program keeps attributes as data sets
    h5.write(path, dict({k: (dims, [float(x) for x in v]) for k, v in data.items()}, **attrs))


def check(c):
    vf.need("complex", "inv")
    vf.tlc_model(c, "ResampleMC", "ResampleMCq" if c.quick else "ResampleMC")
    g = vf.tlc("ResampleGen", simulate=c.n(130, 1500), depth=9, seed=vf.SEED, workers=1)
    jobs = [x for s in g.json_lines() for x in s["log"]]
    if len(jobs) < 150:
        raise vf.HarnessError("only %d conversions" % len(jobs))
    tmp = vf.scratch()

    def one(i):
        j, out = jobs[i], []
        rng = random.Random(j["seed"])
        d = os.path.join(tmp, "r%d" % i)
        os.makedirs(d)
        exe = vf.mpb_data("complex" if i % 3 else "inv")
        f, o = j["f"], j["o"]
        files = []
        for n in range(2 if j["mode"] == "pair" else 1):
            data, use = content(j["kind"], f, random.Random(j["seed"] + (n if j["kind"] in ("data", "vec") else 0)))
            store(os.path.join(d, "f%d.h5" % n), f, data, rng)
            files.append((data, use))
        opts = options(o, rng)
        if j["kind"] == "named":
            opts += ["-d", "foo"]
        names = ["f%d.h5" % n + (":foo" if j["kind"] == "colon" else "") for n in range(len(files))]
        cmds = []
        if j["mode"] == "twice":
            cmds.append([exe, "-m", "3", "-T", "-P", "30"] + ([] if j["kind"] != "named" else ["-d", "foo"]) + names)
        cmds.append([exe] + opts + (["-o", "out.h5"] if j["mode"] in ("out", "pair") else []) + names)
        for cmd in cmds:
            run = vf.run_cmd(cmd, d, timeout=60)
            if run.rc != 0:
                return [dict(fail="mpb-data ended with %s: %s" % (run.rc, run.out[-300:]), cmd=cmd)]
        for n, (data, use) in enumerate(files):
            src = h5.read(os.path.join(d, "f%d.h5" % n))["data"]
            same = all(k in src and src[k][1] == [float(x) for x in v] for k, v in data.items())
            apart = j["mode"] in ("out", "pair") and n == 0
            res = h5.read(os.path.join(d, "out.h5"))["data"] if apart else {k[:-4]: v for k, v in src.items() if k.endswith("-new")}
            want = sorted(x for _, comps in use for y in comps for x in y)
            extra = [k for k in src if k not in data and k not in ATTRS and not (k.endswith("-new") and not apart)]
            if sorted(res) != want or extra:
                out.append(dict(fail="data sets %s instead of %s, and %s in the file" % (sorted(res), want, extra), cmd=cmds[-1]))
                continue
            for kind, comps in use:
                dims = res[comps[0][0]][0]
                if any(res[x][0] != dims for y in comps for x in y):
                    out.append(dict(fail="components of different sizes", cmd=cmds[-1]))
                    continue
                s3 = dims + [1] * (3 - len(dims))
                grid = [s3[1], s3[0], s3[2]] if o["T"] else s3
                pts = [(a, b, e) for a in range(grid[0]) for b in range(grid[1]) for e in range(grid[2])]
                if len(pts) > 40:
                    pts = rng.sample(pts, 40)
                rp = []
                for p in pts:
                    q = (p[1], p[0], p[2]) if o["T"] else p
                    l = (q[0] * s3[1] + q[1]) * s3[2] + q[2]
                    rp.append(dict(i=p, v=[[problems.qi(res[y[r]][1][l], 64) if r < len(y) else 0 for r in (0, 1)] for y in comps]))
                out.append(dict(f=f, o=o, kind=kind, out=dims, same=same, pts=rp,
                                d=[dict(re=data[y[0]], im=data[y[1]] if len(y) > 1 else [0] * len(data[y[0]])) for y in comps], _cmd=cmds[-1]))
        shutil.rmtree(d)
        return out
    recs, kinds = [], {}
    for i, out in enumerate(vf.pmap(one, range(len(jobs)))):
        for r in out:
            if "fail" in r:
                c.violate("%s: %s" % (" ".join(r["cmd"][1:]), r["fail"]), file=jobs[i])
            else:
                recs.append(r)
                k = "%dd %s%s" % (r["f"]["rank"], r["kind"], " rectangular" if r["o"]["rect"] else "")
                kinds[k] = kinds.get(k, 0) + 1
        if i % 40 == 0:
            c.sample(jobs[i])
    c.extra["conversions"] = kinds
    _, bad, _ = c.validate("ResampleTrace", [{k: v for k, v in r.items() if k[0] != "_"} for r in recs], timeout=800, workers=8)
    for x in bad[:20]:
        r = recs[x["line"] - 1]
        c.violate("mpb-data %s on a %s file of grid %s: %s" % (" ".join(r["_cmd"][1:]), r["kind"], r["f"]["n"][:r["f"]["rank"]], x["why"]), file=r["f"], options=r["o"])
