"""Common machinery of the checks: building /repo, running mpb, running TLC, verdicts and evidence."""
import concurrent.futures as cf
import contextlib, fcntl, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
T0 = time.time()
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

ENV = dict(os.environ, HDF5_USE_FILE_LOCKING="FALSE", GUILE_AUTO_COMPILE="0", LC_ALL="C.UTF-8", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", OMPI_ALLOW_RUN_AS_ROOT="1",
           OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_plm="isolated",
           OMPI_MCA_btl="self,vader", OMPI_MCA_btl_base_warn_component_unused="0",
           PRTE_MCA_plm="isolated", HOME=os.environ.get("HOME", "/root"))
ENV.pop("LD_PRELOAD", None)


class HarnessError(Exception):
    """The check itself could not reach an answer."""


# ---------------------------------------------------------------- scratch
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
    return _scratch


def cleanup():
    if _scratch and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(_scratch, ignore_errors=True)


# ---------------------------------------------------------------- building
_S, _P = "/usr/lib/x86_64-linux-gnu/hdf5/serial", "/usr/lib/x86_64-linux-gnu/hdf5/openmpi"
CONFIGS = {
    "complex": ([], "gcc", _S, "/usr/include/hdf5/serial", "mpb"),
    "inv": (["--with-inv-symmetry"], "gcc", _S, "/usr/include/hdf5/serial", "mpbi"),
    "herm": (["--with-hermitian-eps"], "gcc", _S, "/usr/include/hdf5/serial", "mpb"),
    "mpi": (["--with-mpi", "--with-hermitian-eps"], "mpicc", _P, "/usr/include/hdf5/openmpi", "mpb_mpi"),
    "invmpi": (["--with-mpi", "--with-inv-symmetry"], "mpicc", _P, "/usr/include/hdf5/openmpi", "mpbi_mpi"),
}


def tree_hash():
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(REPO)):
        if d == REPO:
            ds[:] = [x for x in ds if x not in (".git", "_build", "autom4te.cache")]
        ds.sort()
        rel = os.path.relpath(d, REPO)
        if rel.startswith(("doc", "examples/old")):
            continue
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update((rel + "/" + f).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(hashlib.sha256(json.dumps(CONFIGS).encode()).digest())
    return h.hexdigest()[:20]


def _build_one(cfg, d):
    args, cc, lib, inc, _ = CONFIGS[cfg]
    os.makedirs(d, exist_ok=True)
    env = dict(ENV, OMPI_CC="gcc", HOME="/root")
    env.pop("VERIF_SEED", None)
    cmd = [REPO + "/configure", "--enable-maintainer-mode", "--prefix=" + d + "/inst",
           "--with-libctl=/usr/share/libctl"] + args + [
        "CC=" + cc, "MPICC=mpicc", "F77=gfortran", "CFLAGS=-O2",
        "CPPFLAGS=-I%s/src/util -I%s" % (d, inc), "LDFLAGS=-L" + lib]
    with open(d + "/verif.log", "wb") as log:
        for c in (cmd, ["make", "-j8"]):
            r = subprocess.run(c, cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT,
                               stdin=subprocess.DEVNULL)
            if r.returncode:
                tail = open(d + "/verif.log", errors="replace").read()[-3000:]
                return "%s failed in configuration %s:\n%s" % (c[0], cfg, tail)
    return None


def ensure_configure():
    """/repo's generated autotools files are tracked or present; nothing to do unless missing."""
    if not os.access(REPO + "/configure", os.X_OK):
        raise HarnessError("no configure script in " + REPO)


def build(cfgs):
    """Build the given configurations of /repo's working tree; return {cfg: dir}."""
    ensure_configure()
    base = os.path.join(VERIF, ".build")
    os.makedirs(base, exist_ok=True)
    out = {}
    with open(base + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        for e in os.listdir(base):       # builds of other trees are useless now
            if "-" in e and not e.endswith(h):
                shutil.rmtree(os.path.join(base, e), ignore_errors=True)
        todo = []
        for c in cfgs:
            d = os.path.join(base, c + "-" + h)
            out[c] = d
            if not os.path.exists(d + "/verif.ok"):
                shutil.rmtree(d, ignore_errors=True)
                todo.append((c, d))
        if todo:
            with cf.ThreadPoolExecutor(len(todo)) as ex:
                errs = [e for e in ex.map(lambda t: _build_one(*t), todo) if e]
            if errs:
                raise HarnessError("\n".join(errs))
            for c, d in todo:
                open(d + "/verif.ok", "w").close()
    return out


_built = {}


def need(*cfgs):
    miss = [c for c in cfgs if c not in _built]
    if miss:
        _built.update(build(miss))
    return _built


def exe(cfg):
    return os.path.join(_built[cfg], "mpb", CONFIGS[cfg][4])


def mpb_data(cfg="complex"):
    return os.path.join(_built[cfg], "utils", "mpbi-data" if cfg == "inv" else "mpb-data")


# ---------------------------------------------------------------- running mpb
class Run:
    def __init__(self, rc, out, d, timed_out=False):
        self.rc, self.out, self.dir, self.timed_out = rc, out, d, timed_out
        self.obs = []           # [(tag, [values])]
        lines = out.splitlines()
        if os.path.exists(d + "/obs.txt"):
            lines = open(d + "/obs.txt", errors="replace").read().splitlines()
        for line in lines:
            if line.startswith("@@"):
                tag, _, js = line[2:].partition(" ")
                try:
                    self.obs.append((tag, json.loads(js)))
                except ValueError:
                    self.obs.append((tag, ["unparsable", js]))

    def get(self, tag):
        return [v for t, v in self.obs if t == tag]

    def one(self, tag):
        v = self.get(tag)
        return v[0] if len(v) == 1 else None


_rid = [0]


def run_mpb(cfg, script, params=(), np=1, timeout=120, name="t.ctl", files=None, again=2):
    """Run one ctl script (text) in a directory of its own; returns a Run."""
    _rid[0] += 1
    d = os.path.join(scratch(), "r%05d" % _rid[0])
    os.makedirs(d)
    for f, data in (files or {}).items():
        with open(os.path.join(d, f), "wb" if isinstance(data, bytes) else "w") as fh:
            fh.write(data)
    with open(os.path.join(d, name), "w") as fh:
        fh.write('(load "%s/lib/prelude.ctl")\n' % VERIF + script)
    cmd = [exe(cfg), "deterministic?=true"] + list(params) + [name]
    if cfg.endswith("mpi"):
        cmd = ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(np)] + cmd
    r = run_cmd(cmd, d, timeout)
    # mpirun itself may fail to start or lose its processes: no message from the program
    if cfg.endswith("mpi") and r.rc not in (0, -999) and again and not re.search(r"CHECK failure|In procedure|Backtrace|on signal (?!9 )\d|HDF5", r.out):
        print("  (mpirun failed, exit status %d: %s)" % (r.rc, " / ".join(r.out.split("\n")[-12:])[-900:]), flush=True)
        return run_mpb(cfg, script, params, np, timeout, name, files, again - 1)
    return r


def run_cmd(cmd, d, timeout=120):
    with open(os.path.join(d, "log"), "wb") as log:
        p = subprocess.Popen(cmd, cwd=d, env=ENV, stdout=log, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        to = False
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc, to = -999, True
            with contextlib.suppress(ProcessLookupError):
                os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    return Run(rc, open(os.path.join(d, "log"), errors="replace").read(), d, to)


def pmap(f, items, workers=None):
    items = list(items)
    if not items:
        return []
    with cf.ThreadPoolExecutor(workers or min(8, os.cpu_count() or 2)) as ex:
        return list(ex.map(f, items))


# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[1]), int(m[2])) if m else (0, 0)
        if not m:
            m = re.findall(r"(\d+) states checked", out) or re.findall(r"generated (\d+) states", out)
            self.generated = int(m[-1]) if m else 0
        self.violated = re.findall(r"(?:Invariant|Action property|Property|Assumption|PostCondition) (\S+)[^\n]* (?:is|was) (?:violated|false)", out)
        self.ok = rc == 0

    def json_lines(self, tag="@J "):
        """Values printed by the spec with PrintT(tag \\o ToJson(x))."""
        res = []
        for line in self.out.splitlines():
            line = line.strip()
            if line.startswith('"' + tag):
                res.append(json.loads(json.loads(line)[len(tag):]))
        return res


_tid = [0]


def tlc(module, cfg=None, env=None, workers=8, simulate=None, depth=None, seed=None, timeout=600,
        extra=(), heap="4g"):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg; returns Tlc."""
    _tid[0] += 1
    meta = os.path.join(scratch(), "tlc%d" % _tid[0])
    os.makedirs(meta, exist_ok=True)
    e = dict(ENV)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-cp", TLA_CP, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", meta, "-config", (cfg or module) + ".cfg", "-workers", str(workers)]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd += ["-seed", str(seed if seed is not None else SEED)]
    cmd += list(extra) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise HarnessError("TLC timed out on %s" % module)
    out = p.stdout.decode(errors="replace")
    shutil.rmtree(meta, ignore_errors=True)
    return Tlc(p.returncode, out)


def tlc_model(check, module, cfg=None, **kw):
    """Exhaustive check of the design; an error here is an error of the model, not of the code."""
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise HarnessError("the model %s/%s does not check:\n%s" % (module, cfg, r.out[-4000:]))
    check.states += r.distinct or r.generated
    check.transitions += r.generated
    return r


def write_ndjson(path, recs):
    with open(path, "w") as fh:
        for r in recs:
            fh.write(json.dumps(r, separators=(",", ":")) + "\n")


# ---------------------------------------------------------------- a check
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.assumptions, self.extra = [], [], [], {}
        self.known = []
        self.rng = random.Random("%s/%d" % (pid, SEED))
        self.quick = TIER != "thorough"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def violate(self, what, **detail):
        """Record a violation found in the real code."""
        for kid, pat in KNOWN.get(self.pid, []):
            if re.search(pat, what):
                if kid not in self.known:
                    self.known.append(kid)
                return
        self.viol.append(dict(what=what, **detail))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def validate(self, module, recs, cfg=None, what="trace", chunk=None, env=None, timeout=600, heap="4g", workers=1):
        """Let TLC decide whether the recorded observations `recs` conform to spec/<module>.tla.

        The module reads IOEnv.TRACE; it must print "@J " \\o ToJson([i |-> line, why |-> ...]) for
        every rejected line (or violate an invariant/postcondition)."""
        if not recs:
            raise HarnessError("no observations to validate for " + module)
        path = os.path.join(scratch(), "%s-%d.ndjson" % (module, _tid[0]))
        write_ndjson(path, recs)
        e = dict(env or {}, TRACE=path)
        r = tlc(module, cfg, env=e, workers=workers, timeout=timeout, heap=heap)
        bad = r.json_lines()
        if not r.ok and not bad:
            if re.search(r"OutOfMemory|StackOverflow|Java heap|timed out|Parsing or semantic analysis failed", r.out):
                raise HarnessError("TLC failed on %s:\n%s" % (module, r.out[-3000:]))
            # an observation TLC cannot even evaluate is rejected as well
            m = re.findall(r"^Error: .*", r.out, re.M)
            bad = [dict(line=min(len(recs), max(1, r.distinct)), why="TLC stopped here: " + " ".join(m)[:300])]
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(recs)
        return r, bad, path

    def finish(self):
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                samples=self.samples or ["(none)"], **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 2),
                  violations=len(self.viol))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, self.pid), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.viol:
            os.makedirs(VERIF + "/.build/replay", exist_ok=True)
            path = VERIF + "/.build/replay/%s.json" % self.pid
            with open(path, "w") as fh:
                json.dump(self.viol, fh, indent=1, default=str)
            for v in self.viol[:8]:
                print("  " + v["what"][:600])
                if v.get("log"):
                    print("    log: " + " / ".join(str(v["log"]).strip().split("\n"))[-400:])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("%s: held on everything explored (%d states, %d transitions, %d observations, %.1f s)"
              % (self.pid, self.states, self.transitions, self.traces, time.time() - T0))
        return 0


# ---------------------------------------------------------------- known findings
KNOWN = {}


def load_known():
    p = VERIF + "/known_findings.txt"
    if not os.path.exists(p):
        return
    for line in open(p):
        m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", line)
        if m:
            KNOWN.setdefault(m[1], []).append((m[3].strip(), m[2]))


load_known()
