"""Shared machinery of the checks: build the harness from /repo's working tree, run it,
run TLC, collect VIOL lines, write evidence, decide the exit status."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
T0 = time.time()
NCPU = os.cpu_count() or 4


class Tool(Exception):
    """An error of the check itself (exit 2)."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def workdir(pid):
    d = os.path.join(ROOT, "work", "%s.%d" % (pid, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def build(features=(), name=None):
    """Builds the harness against /repo's current tree; returns the binary."""
    tgt = TARGET if not features else os.path.join(TARGET, "f_" + "_".join(features))
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true")
    cmd = ["cargo", "build", "--offline", "--locked"]
    if features:
        cmd += ["--features", ",".join(features)]
    t = time.time()
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-6000:])
        raise Tool("harness build failed")
    log("built harness %s in %.1fs" % ("+".join(features) or "default", time.time() - t))
    return os.path.join(tgt, "debug", "mqv")


def harness(binary, *args, timeout=600, ok=(0,)):
    cmd = [binary] + [str(a) for a in args]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout", " ".join(cmd)
    if r.returncode not in ok:
        return r.returncode, (r.stderr[-3000:] + " ".join(cmd))
    return 0, r.stdout


class Tlc:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"The number of states generated: (\d+)", out)
        if m and not self.generated:
            self.generated = self.distinct = int(m.group(1))
        self.viols = []
        for l in out.splitlines():
            if l.startswith('"VIOL|'):
                p = l.strip().strip('"').split("|", 3)
                self.viols.append((p[1], int(p[2]) if p[2].isdigit() else 0, p[3]))

    def json_lines(self):
        for l in self.out.splitlines():
            if l.startswith('"{'):
                yield json.loads(json.loads(l))

    def tagged(self, tag):
        for l in self.out.splitlines():
            if l.startswith('"' + tag + "|"):
                yield l.strip().strip('"').split("|")[1:]


def tlc(module, cfg, wd, env=None, workers=1, timeout=800, args=(), heap="3g", tag="", ok=(0,)):
    """Runs TLC; raises Tool unless the exit status is in `ok`
    (0 clean, 10 assumption, 11 deadlock, 12 safety, 13 liveness)."""
    md = os.path.join(wd, "md_%s_%s%s" % (module, os.path.basename(cfg), tag))
    os.makedirs(md, exist_ok=True)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-Dtlc2.TLC.stopAfter=%d" % (timeout + 60), "-cp", JAR, "tlc2.TLC",
           "-metadir", md, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg] + list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Tool("TLC %s %s timed out after %ds" % (module, cfg, timeout))
    res = Tlc(r.returncode, r.stdout, time.time() - t)
    with open(os.path.join(wd, "tlc_%s_%s%s.log" % (module, os.path.basename(cfg), tag)), "w") as f:
        f.write(r.stdout + r.stderr)
    if r.returncode not in ok:
        sys.stderr.write(r.stdout[-5000:] + r.stderr[-2000:])
        raise Tool("TLC %s %s exit %d" % (module, cfg, r.returncode))
    shutil.rmtree(md, ignore_errors=True)
    return res


def parallel(fs, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex:
        futs = [ex.submit(f) for f in fs]
        return [f.result() for f in futs]


class Check:
    """Collects what a check explored and turns it into evidence and an exit status."""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.wd = workdir(pid)
        self.viol = []        # (message, replay object)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.known_hit = {}

    def model(self, name, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov.setdefault("models", {})[name] = {"distinct": r.distinct, "generated": r.generated, "wall_s": round(r.wall, 1)}
        log("model %s: %d distinct, %d generated, %.1fs" % (name, r.distinct, r.generated, r.wall))

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def violation(self, msg, replay=None):
        self.viol.append((msg, replay))

    def finish(self):
        known = load_known(self.pid)
        new = []
        for m, r in self.viol:
            k = next((k for k in known if k["re"].search(m)), None)
            if k:
                self.known_hit[k["what"]] = self.known_hit.get(k["what"], 0) + 1
            else:
                new.append((m, r))
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 1), "violations": len(new)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            rp = os.path.join(ROOT, "evidence", "replay_%s.json" % self.pid)
            with open(rp, "w") as f:
                json.dump([{"message": m, "replay": r} for m, r in new[:50]], f, indent=1)
            for m, _ in new[:10]:
                print("  " + m[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            keep(self.wd)
            return 1
        log("%s held on everything explored" % self.pid)
        shutil.rmtree(self.wd, ignore_errors=True)
        return 0


def keep(wd):
    pass


def load_known(pid):
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", l.strip())
            if m and m.group(1) == pid:
                out.append({"re": re.compile(m.group(2)), "what": m.group(3)})
    return out


def main(checks):
    pid = sys.argv[1]
    try:
        sys.exit(checks[pid](pid))
    except Tool as e:
        print("TOOL-ERROR: %s" % e, flush=True)
        sys.exit(2)
