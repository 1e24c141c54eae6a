"""Common machinery of the checks: scratch space, builds, TLC, verdicts, evidence."""
import resource, atexit, json, os, random, re, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BPV_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()

TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

_work = None


def work():
    """The scratch directory of this run; removed on exit."""
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="bpv-")
        if not os.environ.get("BPV_KEEP"):
            atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class Hang(Exception):
    """The program under test stopped talking."""


class Odd(Hang):
    """The program under test did something with which there is no going on."""


class Broken(Exception):
    """The check itself could not decide (build failure, dead driver, ...)."""


# ---------------------------------------------------------------- builds

def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off",
             GOWORK="off", PATH="/opt/veriftools/go1.27.3/bin:" + e.get("PATH", ""))
    for k in ("BPASS", "EDITOR", "PINENTRY", "GOOS", "GOARCH"):
        e.pop(k, None)
    return e


def _gomod(real_kdf):
    src = open(os.path.join(REPO, "go.mod")).read()
    req = re.findall(r"^\s*(?:require\s+)?([\w./\-!]+\.[\w./\-]+) (v\S+)", src, re.M)
    out = ["module bpv", "", "go 1.18", "", "require ("]
    out.append("\tgithub.com/aarondl/bpass v0.0.0")
    for m, v in req:
        out.append("\t%s %s" % (m, v))
    out += [")", "", "replace github.com/aarondl/bpass => " + REPO,
            "replace github.com/aarondl/readline => ../stubs/readline",
            "replace github.com/atotto/clipboard => ../stubs/clipboard"]
    if not real_kdf:
        out.append("replace golang.org/x/crypto => ../xcrypto")
    return "\n".join(out) + "\n"


def build(*targets, real_kdf=False):
    """Build driver programs and/or the bpass program itself from REPO's tree.

    Target "bpass" is the program under test; any other target is cmd/<target>
    of /verif/go.  Returns {target: path}.
    """
    w = os.path.join(work(), "build-real" if real_kdf else "build")
    god = os.path.join(w, "go")
    if not os.path.isdir(god):
        os.makedirs(w)
        shutil.copytree(os.path.join(VERIF, "go"), god)
        shutil.copytree(os.path.join(VERIF, "stubs"), os.path.join(w, "stubs"))
        if not real_kdf:
            m = re.search(r"golang.org/x/crypto (v\S+)", open(os.path.join(REPO, "go.mod")).read())
            cache = subprocess.run(["go", "env", "GOMODCACHE"], env=goenv(), capture_output=True, text=True).stdout.strip()
            xc = os.path.join(w, "xcrypto")
            shutil.copytree(os.path.join(cache, "golang.org/x/crypto@" + m.group(1)), xc)
            subprocess.run(["chmod", "-R", "u+w", xc], check=True)
            for f in os.listdir(os.path.join(xc, "scrypt")):
                os.remove(os.path.join(xc, "scrypt", f))
            shutil.copy(os.path.join(VERIF, "stubs/scrypt/scrypt.go"), os.path.join(xc, "scrypt/scrypt.go"))
        open(os.path.join(god, "go.mod"), "w").write(_gomod(real_kdf))
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(god, "go.sum"))
    res = {}
    for t in targets:
        out = os.path.join(w, t)
        pkg = "github.com/aarondl/bpass" if t == "bpass" else "./cmd/" + t
        p = subprocess.run(["go", "build", "-o", out, pkg], cwd=god, env=goenv(), capture_output=True, text=True)
        if p.returncode:
            raise Broken("build of %s failed:\n%s" % (t, p.stdout + p.stderr))
        res[t] = out
    log("built", ", ".join(targets), "real kdf" if real_kdf else "")
    return res


# ---------------------------------------------------------------- TLC

class TLC:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0

    def prints(self):
        """JSON payloads printed with PrintT(<<"@@", ToJson(x)>>)."""
        res = []
        for m in re.finditer(r'^<<"@@", "(.*)">>$', self.out, re.M):
            res.append(json.loads(json.loads('"' + m.group(1) + '"')))
        return res


def tlc(module, cfg, files=None, workers="auto", args=(), timeout=600, java=(), mem="4g", consts=None):
    """Run TLC on spec/<module>.tla with config text cfg in a private directory."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=work())
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
    for name, text in (files or {}).items():
        with open(os.path.join(d, name), "w") as fh:
            fh.write(text)
    if cfg.endswith(".cfg"):
        cfg = open(os.path.join(VERIF, "spec", cfg)).read()
    with open(os.path.join(d, "run.cfg"), "w") as fh:
        fh.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", *java, "-cp", TLA, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", "run.cfg", *args, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on " + module)
    r = TLC(p.stdout + p.stderr, p.returncode)
    r.dir = d
    return r


def design(module, cfg, **kw):
    """Exhaustive (or simulated) check of the design; any error is an error of the spec."""
    r = tlc(module, cfg, **kw)
    if r.rc != 0:
        raise Broken("design check of %s failed (spec, not code):\n%s" % (module, r.out[-6000:]))
    log("TLC %s: %d states, %d distinct, depth %d: design properties hold" % (module, r.generated, r.distinct, r.depth))
    return r


# ---------------------------------------------------------------- verdicts

class Check:
    def __init__(self, pid, technique_note=""):
        self.pid = pid
        self.viol = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.rng = random.Random("%s-%d" % (pid, SEED))
        self.known = load_known(pid)
        self.known_hit = set()

    def design(self, module, cfg, **kw):
        r = design(module, cfg, **kw)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov.setdefault("design", []).append(
            {"module": module, "distinct": r.distinct, "generated": r.generated, "depth": r.depth})
        return r

    def sample(self, s):
        if len(self.cov["samples"]) < 12:
            self.cov["samples"].append(str(s)[:600])

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def violation(self, what, detail, key=None):
        """Report a violation seen in the real code. key identifies the failing input."""
        for k in self.known:
            if key is not None and k["key"] == key:
                if key not in self.known_hit:
                    self.known_hit.add(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return
        n = len(self.viol) + 1
        if n > 10:
            self.viol.append({"what": what})
            return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, n))
        with open(path, "w") as fh:
            json.dump({"property": self.pid, "what": what, "seed": SEED, "tier": TIER, "detail": detail}, fh, indent=1, default=str)
        self.viol.append({"what": what, "replay": path})
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        print("   " + str(what)[:600], flush=True)

    def finish(self):
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": LEVELS.get(self.pid, "model_checking"),
              "coverage": self.cov, "wall_s": round(time.time() - T0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        log("%s: %d violation(s); coverage %s" % (self.pid, len(self.viol),
            {k: v for k, v in self.cov.items() if k not in ("samples", "design")}))
        return 1 if self.viol else 0


LEVELS = {}


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)).get("known", []):
            if k["property"] == pid:
                out.append(k)
    return out


def main(pid, fn):
    c = Check(pid)
    # a program that never stops talking must not fill the disk
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    try:
        fn(c)
    except Broken as e:
        log("CHECK BROKEN:", e)
        if c.viol:
            return c.finish()
        return 2
    except Hang as e:
        c.violation("the program shows no sign of life: " + str(e), str(e))
    except Exception:
        import traceback
        traceback.print_exc()
        log("CHECK BROKEN: the check itself failed")
        return 2
    return c.finish()


# ---------------------------------------------------------------- drivers

def l1(binary, scenarios, timeout=600, env=None):
    """Run scenarios through the l1 driver; returns one result per scenario.

    A scenario that kills or hangs the driver yields {"dead": reason}."""
    res = []
    todo = list(scenarios)
    e = goenv()
    e.update(env or {})
    while len(res) < len(todo):
        rest = todo[len(res):]
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
        data = "".join(json.dumps(s) + "\n" for s in rest).encode()
        try:
            out, err = p.communicate(data, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            raise Broken("l1 driver did not finish in %ds" % timeout)
        got = [json.loads(x) for x in out.decode().splitlines() if x]
        res += got
        if p.returncode == 0 and len(got) == len(rest):
            break
        err = err.decode(errors="replace")
        if p.returncode == 7:
            res.append({"dead": "hang"})
        elif "driver:" in err or p.returncode in (-9, -15):
            raise Broken("l1 driver died: " + err[-2000:])
        else:
            res.append({"dead": err[:1500]})
    return res


def validate(module, traces, cfg, consts="", timeout=900, chunk=4000, parallel=6, mem="3g", trace_key="t"):
    """Validate recorded traces with TLC; returns [(index, position)] of rejected ones."""
    from concurrent.futures import ThreadPoolExecutor
    jobs = [(i, traces[i:i + chunk]) for i in range(0, len(traces), chunk)]
    stats = {"states": 0, "generated": 0}

    def one(job):
        base, ts = job
        r = tlc(module, cfg, files={"traces.ndjson": "".join(json.dumps(t) + "\n" for t in ts)},
                workers=1, args=("-deadlock",), timeout=timeout, mem=mem)
        bad = [(base + p["tid"] - 1, p["at"]) for p in r.prints()]
        ok = "Model checking completed" in r.out or (bad and "ostcondition" in r.out) or bad
        if not ok:
            raise Broken("trace validation with %s failed to run:\n%s" % (module, r.out[-5000:]))
        return bad, r
    bad = []
    with ThreadPoolExecutor(parallel) as ex:
        for b, r in ex.map(one, jobs):
            bad += b
            stats["states"] += r.distinct
            stats["generated"] += r.generated
    log("TLC validated %d traces against %s (%d states): %d rejected" % (len(traces), module, stats["states"], len(bad)))
    return bad, stats


def judge(module, traces, cfg, tables=None, chunk=None, parallel=6, mem="3g", timeout=900):
    """Have TLC judge recorded traces; returns ([(index, position, what is wrong)], stats)."""
    from concurrent.futures import ThreadPoolExecutor
    chunk = chunk or max(1, min(400, -(-len(traces) // parallel)))
    jobs = [(i, traces[i:i + chunk]) for i in range(0, len(traces), chunk)]
    stats = {"states": 0, "generated": 0}

    def one(job):
        base, ts = job
        files = {"traces.ndjson": "".join(json.dumps(t) + "\n" for t in ts)}
        if tables is not None:
            files["tables.json"] = json.dumps(tables)
        r = tlc(module, cfg, files=files, workers=1, args=("-deadlock",), timeout=timeout, mem=mem)
        bad = [(base + p["tid"] - 1, p["at"], p["w"]) for p in r.prints()]
        if "Model checking completed" not in r.out:
            raise Broken("judging with %s failed to run:\n%s" % (module, r.out[-5000:]))
        return bad, r
    bad = []
    with ThreadPoolExecutor(parallel) as ex:
        for b, r in ex.map(one, jobs):
            bad += b
            stats["states"] += r.distinct
            stats["generated"] += r.generated
    log("TLC judged %d traces by %s (%d states): %d events not as specified" % (len(traces), module, stats["states"], len(bad)))
    return bad, stats


def scenarios_of(module, cfg, simulate=None, depth=20, seed=None, timeout=300, **kw):
    """Scenarios printed by TLC (exhaustive exploration, or -simulate)."""
    args = []
    if simulate:
        args = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed if seed is not None else SEED)]
    r = tlc(module, cfg, workers=1, args=("-deadlock", *args), timeout=timeout, **kw)
    if r.rc != 0 and not (simulate and "Simulation" in r.out and "Error" not in r.out):
        raise Broken("scenario generation from %s failed:\n%s" % (module, r.out[-4000:]))
    ss = r.prints()
    if not ss:
        raise Broken("no scenarios from %s:\n%s" % (module, r.out[-3000:]))
    return ss, r
