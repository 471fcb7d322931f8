"""Shared infrastructure: building muon, running it contained, running TLC."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, random
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
NOBODY = 65534


class CheckError(Exception):
    """The check itself could not be carried out (exit 3)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def tree_hash():
    """Hash of everything in the repository's working tree that can reach the binary."""
    h = hashlib.sha256()
    out = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "-co", "--exclude-standard"],
                         capture_output=True, check=True).stdout
    for f in sorted(out.split(b"\0")):
        if not f or f.startswith(b"tests/"):
            continue
        p = os.path.join(REPO.encode(), f)
        try:
            if os.path.islink(p):
                data = os.readlink(p)
            else:
                with open(p, "rb") as fh:
                    data = fh.read()
        except OSError:
            data = b"<gone>"
        h.update(f + b"\0" + hashlib.sha256(data).digest())
    return h.hexdigest()[:20]


def build_muon():
    """Build muon from REPO's working tree; returns the path of the binary."""
    os.makedirs(BUILD, exist_ok=True)
    dst = os.path.join(BUILD, "muon-" + tree_hash())
    if os.path.exists(dst):
        return dst
    d = tempfile.mkdtemp(prefix="vfbuild.")
    try:
        env = dict(os.environ, CC="gcc", CXX="g++", CCACHE_DISABLE="1")
        for v in ("NINJA_STATUS", "MAKEFLAGS", "CFLAGS", "LDFLAGS", "CPPFLAGS", "DESTDIR"):
            env.pop(v, None)
        cmds = [["meson", "setup", d + "/b", REPO, "--buildtype=debugoptimized", "--wrap-mode=nodownload",
                 "-Dwerror=false", "-Dlibcurl=enabled", "-Dlibarchive=enabled", "-Dlibpkgconf=enabled",
                 "-Ddocs=disabled", "-Doptimization=1"],
                ["ninja", "-C", d + "/b", "muon"]]
        for c in cmds:
            r = subprocess.run(c, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, errors="replace")
            if r.returncode:
                raise CheckError("building muon failed: %s\n%s\n%s" % (" ".join(c), r.stdout[-3000:], r.stderr[-3000:]))
        tmp = dst + ".tmp.%d" % os.getpid()
        shutil.copy2(d + "/b/muon", tmp)
        os.rename(tmp, dst)
        old = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("muon-")),
                     key=os.path.getmtime)
        for f in old[:-6]:
            if f != dst:
                os.unlink(f)
        return dst
    finally:
        shutil.rmtree(d, ignore_errors=True)


def build_helper(name):
    src = os.path.join(ROOT, "vf", "helpers", name + ".c")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:12]
    os.makedirs(BUILD, exist_ok=True)
    dst = os.path.join(BUILD, "%s-%s" % (name, h))
    if not os.path.exists(dst):
        tmp = dst + ".tmp.%d" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-o", tmp, src], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("building %s failed: %s" % (name, r.stderr))
        os.rename(tmp, dst)
    return dst


# ------------------------------------------------------------------- scratch
class Scratch:
    """A scratch directory owned by an unprivileged user, holding copies of the
    binaries; everything the code under test can write to is inside it."""

    def __init__(self, helpers=()):
        self.dir = tempfile.mkdtemp(prefix="vf.")
        os.chmod(self.dir, 0o755)
        os.mkdir(self.dir + "/bin")
        self.muon = self.dir + "/bin/muon"
        shutil.copy2(build_muon(), self.muon)
        os.chmod(self.muon, 0o755)
        self.helpers = {}
        for h in helpers:
            self.helpers[h] = self.dir + "/bin/" + h
            shutil.copy2(build_helper(h), self.helpers[h])
            os.chmod(self.helpers[h], 0o755)
        self.n = 0
        self.root = os.geteuid() == 0
        os.mkdir(self.dir + "/w")
        if self.root:
            os.chown(self.dir + "/w", NOBODY, NOBODY)

    def fresh(self, name=None):
        self.n += 1
        d = "%s/w/%s" % (self.dir, name or "s%06d" % self.n)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        self.own(d)
        return d

    def own(self, path):
        if self.root:
            os.lchown(path, NOBODY, NOBODY)

    def write(self, path, text, mode=None):
        d = os.path.dirname(path)
        if not os.path.isdir(d):
            self.mkdirs(d)
        with open(path, "wb" if isinstance(text, bytes) else "w") as f:
            f.write(text)
        self.own(path)
        if mode is not None:
            os.chmod(path, mode)

    def mkdirs(self, d):
        if os.path.isdir(d):
            return
        self.mkdirs(os.path.dirname(d))
        os.mkdir(d)
        self.own(d)

    def env(self, extra=None):
        e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": self.dir + "/w", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
             "TMPDIR": self.dir + "/w", "CCACHE_DISABLE": "1", "CC": "gcc", "CXX": "g++", "NO_COLOR": "1"}
        if extra:
            for k, v in extra.items():
                if v is None:
                    e.pop(k, None)
                else:
                    e[k] = v
        return e

    def popen(self, argv, cwd, env=None, **kw):
        if self.root:
            kw.update(user=NOBODY, group=NOBODY, extra_groups=[])
        return subprocess.Popen(argv, cwd=cwd, env=self.env(env), stdin=subprocess.DEVNULL,
                                start_new_session=True, **kw)

    def run(self, argv, cwd, env=None, timeout=60, merge=True):
        """Run contained; returns (rc, out, err). rc None: timed out (a hang)."""
        p = self.popen(argv, cwd, env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT if merge else subprocess.PIPE)
        try:
            out, err = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            killpg(p)
            out, err = p.communicate()
            rc = None
        killpg(p)               # whatever it left running
        return rc, out.decode("utf-8", "replace"), (err or b"").decode("utf-8", "replace")

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


# ----------------------------------------------------------------------- TLC
def _tlc(module, cfg_text, env, workers, timeout, extra=(), heap="2g"):
    meta = tempfile.mkdtemp(prefix="vftlc.")
    try:
        cfg = os.path.join(meta, module + ".cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        argv = ["java", "-Xmx" + heap, "-Xss256m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
                "-Djava.io.tmpdir=" + meta,
                "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta + "/m",
                "-config", cfg, *extra, os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(argv, env=e, cwd=meta, capture_output=True, text=True, errors="replace", timeout=timeout,
                               stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        return r.returncode, r.stdout + r.stderr
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "") if False else out)
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


def tlc_mc(module, cfg_text, timeout=800, workers=None, extra=(), heap="6g"):
    """Exhaustive check. Returns (generated, distinct, output); an invariant
    violated by the *model* is an error of the check."""
    rc, out = _tlc(module, cfg_text, {}, workers or NCPU, timeout, extra, heap)
    if rc != 0 or "Model checking completed. No error" not in out:
        raise CheckError("model %s does not satisfy its properties:\n%s" % (module, out[-4000:]))
    g, d = stats(out)
    return g, d, out


def _accept_chunk(args):
    module, cfg, chunk, timeout, heap = args
    fd, path = tempfile.mkstemp(prefix="vftraces.", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(chunk, f)
    try:
        rc, out = _tlc(module, cfg, {"TRACES": path}, 1, timeout, heap=heap)
    finally:
        os.unlink(path)
    if rc != 0:
        i = out.find("Error:")
        raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, rc, out[i:i + 3000] if i >= 0 else out[-3000:]))
    acc = {int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', out)}
    g, d = stats(out)
    return acc, g, d, out


def tlc_accept(module, traces, cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", timeout=800, par=None, chunk=None,
               heap="3g"):
    """Validate traces. Returns (set of rejected indices, states, transitions)."""
    if not traces:
        return set(), 0, 0
    par = par or NCPU
    if chunk is None:
        chunk = max(1, min(200, (len(traces) + par - 1) // par))
    jobs, base = [], []
    for i in range(0, len(traces), chunk):
        jobs.append((module, cfg, traces[i:i + chunk], timeout, heap))
        base.append(i)
    rejected, gs, ds = set(), 0, 0
    with ThreadPoolExecutor(par) as ex:
        for b, job, (acc, g, d, _) in zip(base, jobs, ex.map(_accept_chunk, jobs)):
            gs += g
            ds += d
            for k in range(len(job[2])):
                if k + 1 not in acc:
                    rejected.add(b + k)
    return rejected, ds, gs


def tlc_print(module, data, tag, cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", timeout=600):
    """Run a trace spec on data and return its raw output (for diagnosis)."""
    return _accept_chunk((module, cfg, data, timeout, "3g"))[3]


# ------------------------------------------------------------------ property
class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.assumptions = []
        self.known = load_known()
        self.level = "model_checking"
        self.notes = []

    def rng(self, *tag):
        return random.Random("%s/%s/%s" % (self.pid, self.seed, "/".join(map(str, tag))))

    def mc(self, module, cfg, **kw):
        if os.environ.get("VF_NOMC"):
            return ""
        g, d, out = tlc_mc(module, cfg, **kw)
        self.cov["states"] += d
        self.cov["transitions"] += g
        self.cov.setdefault("model_runs", []).append({"module": module, "states": d, "transitions": g,
                                                      "cfg": " ".join(cfg.split())})
        log("[%s] TLC %s: %d states, %.1fs" % (self.pid, module, d, time.time() - self.t0))
        return out

    def accept(self, module, traces, **kw):
        rej, d, g = tlc_accept(module, traces, **kw)
        self.cov["states"] += d
        self.cov["transitions"] += g
        self.cov["traces_validated_against_impl"] += len(traces)
        return rej

    def sample(self, x):
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(x)

    def known_line(self, k):
        print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)

    def violation(self, what, replay):
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        n = len(self.violations)
        path = os.path.join(d, "%s-%d.json" % (self.pid, n))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "replay": replay}, f, indent=1, default=str)
        self.violations.append(path)
        log("[%s] %s" % (self.pid, what))
        if n < 5:
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def finish(self):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        return 1 if self.violations else 0


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def pmap(fn, items, par=None):
    with ThreadPoolExecutor(par or NCPU) as ex:
        return list(ex.map(fn, items))


def conform(ctx, module, scenarios, execute, describe=None, on_reject=None, known=None, **kw):
    """Run every scenario on the real code, validate the traces, re-run the
    rejected ones and report those rejected again.

    execute(scenario) -> trace (JSON-able).  Scenarios must be JSON-able too.
    known: (deviating, demos): deviating(trace, keys) is the trace with the
    specification weakened by the named known findings, demos a list of
    (key, scenario) which show them.  A rejected trace the weakened
    specification accepts is a known finding; only findings listed in
    known_findings.json weaken it."""
    demos = [(k, s) for k, s in (known[1] if known else [])]
    scenarios = [s for _, s in demos] + list(scenarios)
    listed = {k["key"]: k for k in ctx.known if k.get("property") == ctx.pid and k.get("kind") == "known"}
    traces = pmap(execute, scenarios, kw.pop("par", None))
    t = time.time()
    log("[%s] %s: ran %d scenarios (%.1fs)" % (ctx.pid, module, len(scenarios), t - ctx.t0))
    rej = ctx.accept(module, traces, **kw)
    log("[%s] %s: validated, %d rejected (%.1fs)" % (ctx.pid, module, len(rej), time.time() - t))
    if known and listed and rej:
        idx = sorted(rej)
        still = ctx.accept(module, [known[0](traces[i], sorted(listed)) for i in idx], **kw)
        for j, i in enumerate(idx):
            if j in still:
                continue
            rej.discard(i)
            ctx.cov["explained_by_known_findings"] = ctx.cov.get("explained_by_known_findings", 0) + 1
            if i < len(demos) and demos[i][0] in listed:
                ctx.known_line(listed[demos[i][0]])
    if scenarios:
        ctx.sample({"scenario": scenarios[0], "trace": traces[0]})
    bad = sorted(rej)[:12]
    todo, bad = bad, []
    for attempt in range(4):
        if not todo:
            break
        again = [execute(scenarios[i]) for i in todo]
        r2 = ctx.accept(module, again, **kw)
        if known and listed and r2:
            idx = sorted(r2)
            r3 = ctx.accept(module, [known[0](again[j], sorted(listed)) for j in idx], **kw)
            r2 = {idx[j] for j in r3}
        for j in sorted(r2):
            traces[todo[j]] = again[j]
            bad.append(todo[j])
        todo = [i for j, i in enumerate(todo) if j not in r2]
        if bad and attempt >= 1:
            break
    bad.sort()
    unstable = sorted(rej)[:12]
    unstable = [i for i in unstable if i not in bad]
    if unstable:
        ctx.cov["unrepeated_rejections"] = ctx.cov.get("unrepeated_rejections", 0) + len(unstable)
        log("[%s] %d rejection(s) did not repeat" % (ctx.pid, len(unstable)))
        if os.environ.get("VF_DEBUG"):
            for i in unstable:
                log("   ", json.dumps({"scenario": scenarios[i], "trace": traces[i]}))
    nviol = 0
    for i in bad:
        if on_reject and on_reject(scenarios[i], traces[i]):
            continue
        where = describe(traces[i]) if describe else ""
        ctx.violation("%s rejects the observed behaviour. %s" % (module, where),
                      {"module": module, "scenario": scenarios[i], "trace": traces[i], "where": where})
        nviol += 1
    return traces, nviol
