"""Which file a run works on, and what it leaves of all others (modules Invoke, InvokeModel, InvokeTrace)."""
from concurrent.futures import ThreadPoolExecutor
import base64, hashlib, json, uuid as uuidlib
from vf import *
import vf
from app import App, Codec, Dir, EOF, INT, pmap
from session import Maker, PWPROMPT

PLACES = {"home": "h/.bpass", "cwd": "w/.bpass", "a": "o/a.bp", "b": "o/s/b.bp", "dir": "o/dir.bp", "junk": "o/junk.bp", "new": "w/new.bp"}
LINK = "w/link.bp"
MAIN = [os.path.basename(p) for p in PLACES.values()] + ["link.bp"]
PASSES = {"p": "p", "q": "Q q%", "": ""}
BADTIMES = ["yesterday", "2020", "2020-13-01 00:00:00", "2020-02-30 00:00:00", "2020-01-01", "2020-01-01T00:00:00Z", "20200101 000000", "2020-01-01 25:00:00", " 2020-01-01 00:00:00", "2020-01-01 00:00:00 x"]
LATER = ["2100-01-01 00:00:00", "2199-12-31 23:59:59"]
BEFORE = ["1999-12-31 23:59:59", "1970-01-01 00:00:01", "1971-06-05 04:03:02"]
NOFILE = {"k": "none", "pass": "", "user": "", "names": []}


def names_of(log):
    return sorted({t["value"] for t in log if t["kind"] == "setk" and t.get("key") == "name" and not t["value"].startswith("user/")})


class World:
    def __init__(self, d, codec, fs, rng, lpass):
        self.d, self.codec, self.rng, self.n = d, codec, rng, 0
        for x in ("h", "w", "o/s", "bin", "tmp"):
            os.makedirs(os.path.join(d, x))
        os.symlink(lpass, d + "/bin/lpass")
        for p, f in fs.items():
            path = self.path(p)
            if f["k"] == "dir":
                os.makedirs(path)
                open(path + "/x", "w").write("x")
            elif f["k"] == "junk":
                open(path, "wb").write(rng.choice([b"", b"hello", b"blobpass", b"blobpass0001", b"\0" * 300, b"{}", b"#!/bin/sh\necho\n" * 40]))
            elif f["k"] == "file":
                self.make(path, f)
        os.symlink(rng.choice([d + "/o/a.bp", "../o/a.bp", "../w/../o/a.bp"]), d + "/" + LINK)
        self.was = None
        self.look()

    def path(self, p):
        return os.path.join(self.d, LINK if p == "link" else PLACES[p])

    def make(self, path, f):
        m = Maker(1500000000)
        for n in f["names"]:
            m.entry(n, user="u", password="x")
        pw = PASSES[f["pass"]]
        if not f["user"]:
            return self.codec.seal(path, pw, {"log": m.log})
        ks = self.codec.call(op="keys", users=[{"name": f["user"], "pass": pw}])
        k = ks["keys"][0]
        m.entry("user/" + k["name"], salt=k["salt"], iv=k["iv"], mkey=k["mkey"])
        r = self.codec.call(op="assemble", path=path, text=base64.b64encode(json.dumps({"log": m.log}).encode()).decode(), master=ks["master"],
                            mats=[{x: k[x] for x in ("name", "salt", "iv", "mkey")}])
        if not r["ok"]:
            raise Broken("codec: " + r["err"])

    def state(self, p):
        path = self.path(p)
        if not os.path.lexists(path):
            return NOFILE
        if os.path.isdir(path):
            return {**NOFILE, "k": "dir"}
        for u in ("", "ann", "bob"):
            for k, pw in PASSES.items():
                l = self.codec.log(path, u, pw)
                if l is not None:
                    return {"k": "file", "pass": k, "user": u, "names": names_of(l)}
        return {**NOFILE, "k": "junk"}

    def look(self):
        """What changed of all that is not one of the files."""
        now = {}
        for r, ds, fs in os.walk(self.d):
            for x in ds + fs:
                p = os.path.join(r, x)
                n = os.path.relpath(p, self.d)
                known = n in PLACES.values() and not os.path.islink(p)
                if known and n not in (PLACES["dir"], PLACES["junk"]):
                    continue
                if os.path.islink(p):
                    now[n] = "-> " + os.readlink(p)
                elif os.path.isdir(p):
                    now[n] = "dir"
                else:
                    now[n] = hashlib.sha256(open(p, "rb").read()).hexdigest()
        was, self.was = self.was, now
        return [] if was is None else sorted(k for k in set(was) | set(now) if was.get(k) != now.get(k))

    def spell(self, p, env):
        rng = self.rng
        path = self.path(p)
        rel = os.path.relpath(path, self.d + "/w")
        return rng.choice([path, path, rel, "./" + rel, "../w/" + rel, self.d + "/w/../" + os.path.relpath(path, self.d), self.d + "//" + os.path.relpath(path, self.d)])

    def run(self, r, bins):
        rng = self.rng
        self.n += 1
        env = {"HOME": self.d + "/h" if r["home"] else rng.choice([None, ""]), "TMPDIR": self.d + "/tmp",
               "PATH": (self.d + "/bin:" if r["cmd"] == "lpass" else "") + "/usr/bin:/bin",
               "BPASS": self.spell(r["env"], True) if r["env"] else rng.choice([None, ""])}
        args = []
        if r["flag"]:
            s = self.spell(r["flag"], False)
            args = rng.choice([["-f", s], ["--file", s], ["-f=" + s], ["--file=" + s]])
        if r["tm"]:
            t = rng.choice({"later": LATER, "before": BEFORE, "bad": BADTIMES}[r["tm"]])
            a = rng.choice([["-t", t], ["--time", t]])
            args = rng.choice([args + a, a + args])
        csv = os.path.join(self.d, "w", "x%d.csv" % self.n)
        args += {"session": [], "export": ["export", rng.choice([csv, os.path.basename(csv)])], "lpass": ["lpassimport"], "nolpass": ["lpassimport"],
                 "gen": ["gen"], "version": ["version"], "help": [rng.choice(["-h", "--help"])]}[r["cmd"]]
        if r["cmd"] == "lpass":
            open(self.d + "/data", "w").write("url,username,password,extra,name,grouping,fav\nhttps://x,u,p,,%s,,0\n" % r["add"])
            self.look()
        e = {"r": r, "works": False, "asks": [], "seen": []}
        app = App(bins["bpass"], self.d + "/w", args, file=None, env=env, names=MAIN)
        info = {"args": args, "env": {k: env[k] for k in ("HOME", "BPASS")}}
        try:
            while True:
                p = app.next()
                if p is None:
                    break
                if p.main:
                    e["works"] = True
                    out = app.run("ls")["out"]
                    e["seen"] = sorted(set(re.findall(r"\b[abchn]\d\b", out)))
                    if app.rc is None and r["add"]:
                        app.run("add " + r["add"], more=lambda q: "y" if q.text.startswith(PWPROMPT) else "")
                    if app.rc is None:
                        app.run({"exit": "exit", "eof": EOF, "int": INT}[r["end"]])
                    if app.rc is None:
                        raise Odd("the session does not end by " + r["end"])
                    break
                if app.n > 50:
                    raise Odd("keeps asking")
                if p.hidden:
                    app.say(PASSES[r["p2" if "pass" in e["asks"] else "p1"]])
                    e["asks"].append("pass")
                elif p.text.endswith(" user: "):
                    app.say(r["user"])
                    e["asks"].append("user")
                else:
                    app.say("y")        # to import, or to take a generated password
            info["out"], info["err"] = app.out[-300:], app.err[-300:]
            e["status"] = app.rc
            if app.crashed():
                info["crash"] = app.err[:1000]
        finally:
            app.kill()
        extra = self.look()
        if r["cmd"] == "lpass" and "ran" in extra:
            e["works"] = True
            extra.remove("ran")
            os.unlink(self.d + "/ran")
        n = os.path.relpath(csv, self.d)
        if n in extra:
            if r["cmd"] == "export" and os.path.isfile(csv):
                e["works"] = True
                e["seen"] = sorted(set(re.findall(r"\b[abchn]\d\b", open(csv, errors="replace").read())))
                extra.remove(n)
            os.unlink(csv)
        self.look()
        e["extra"] = extra
        e["files"] = {p: self.state(p) for p in PLACES}
        return e, info


def run(c):
    big = TIER == "thorough"
    cfg = ("SPECIFICATION Spec\nINVARIANT %s\n%sCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxRuns = %d\n Small = %s\n Bug = \"%s\"\n")
    props = "PROPERTY OnlyTarget FlagCounts FailKeeps Opened\n"
    c.design("InvokeModel", cfg % ("Closed Again", props, 1, "TRUE", ""))
    bugs = ("env first", "once", "int", "at", "cwd", "wrong", "dir")
    with ThreadPoolExecutor(4) as ex:
        for bug, r in zip(bugs, ex.map(lambda b: tlc("InvokeModel", cfg % ("Closed Again", props, 1, "TRUE", b), workers=2), bugs)):
            if " is violated" not in r.out:
                raise Broken("the specification does not notice " + bug)
            c.count("negative_controls")
    ss, _ = scenarios_of("InvokeModel", cfg % ("EmitEnd", "", 5, "FALSE", ""), simulate=2000 if big else 260, depth=31)
    c.cov["scenarios"] = {"from_model": len(ss)}
    lpass = os.path.join(work(), "lpass27")
    open(lpass, "w").write("#!/bin/sh\nd=$(dirname \"$0\")/..\n: > \"$d/ran\"\ncat \"$d/data\"\n")
    os.chmod(lpass, 0o755)
    bins = build("bpass")
    codec = Codec(build("codec")["codec"], 8)

    def one(k):
        rng = random.Random("c27-%d-%d" % (vf.SEED, k))
        s = ss[k]
        with Dir() as d:
            w = World(d, codec, s["fs"], rng, lpass)
            out = [w.run(r, bins) for r in s["h"]]
            return {"fs": s["fs"], "t": [e for e, _ in out]}, [i for _, i in out]
    traces, info = [], []
    for k, r in enumerate(pmap(one, range(len(ss)))):
        if isinstance(r, dict):
            c.violation("a run hangs or cannot go on: " + str(r)[:300], {"scenario": ss[k], "result": r})
            continue
        traces.append(r[0])
        info.append(r[1])
    codec.close()
    bad, st = judge("InvokeTrace", traces, "InvokeTrace.cfg", chunk=max(1, -(-len(traces) // 6)))
    c.cov["states"] += st["states"]
    c.cov["transitions"] += st["generated"]
    c.traces(len(traces))
    kinds = {}
    for t in traces:
        for e in t["t"]:
            x = "%s:%s:%s" % (e["r"]["cmd"], "works" if e["works"] else "no", e["status"])
            kinds[x] = kinds.get(x, 0) + 1
    c.cov["events"] = kinds
    for i, at, w in bad:
        c.violation("%s: %s" % (",".join(w), str({**info[i][at - 1], **traces[i]["t"][at - 1]})[:500]), {"trace": traces[i], "info": info[i], "at": at, "wrong": w})
    for i in (0, len(traces) // 2, len(traces) - 1):
        c.sample(str(info[i])[:500])
