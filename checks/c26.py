"""Sync entries, how they are made and where they lead (modules SyncEntry, SyncEntryModel, SyncEntryTrace)."""
import json, random, threading, time, urllib.parse
from vf import *
import vf
from app import App, Codec, Dir, EOF, INT, plain, pmap
from session import Maker, PWPROMPT, norm
from host_servers import Servers
from sync_common import replay, NOBODY

QS = {"path: ": "path", "user: ": "user", "host: ": "host", "port (22): ": "port", "> ": "key", PWPROMPT: "pw", "enter new password: ": "new", "verify password: ": "verify"}
USERS = ["u", "ann", "me@example.org", "a b", "ü", "u:p", "a/b", "%41", "x%", "u?", "#1", "user+tag", "a\\b", "日本", "-o", "'q'", '"', "&=;,$!*()", "[x]", ":", "@", "%", " u ", "\t", "root", "u%2Fv", "x" * 70]
PWS = ["p", "secret", "a:b", "a@b", "a/b", "100%", "%41", "p?q", "p#q", "ünï", "日本", " lead", "trail ", "+", "a b", "&=;,", "[", "]", "\\", "'", '"', "%25", "://", "@@", "x" * 90, "p%", ":"]
PATHS = ["f.bp", "dir/f.bp", "./f.bp", "../f.bp", "a b/c d", "ü.bp", "100%", "%41.bp", "a?b", "a#b", "a:b", "a@b", "/abs/f.bp", "//x/y", "~/f.bp", "a//b", " f", "dir/", "*", "a\\b", "a;b", "&=,$!()", "[x]", "日本/f", "/", ".", "..", "a%2Fb", "/abs//x", "+", "f.bp?x=1#y", "'q'", "x" * 200]
FPATHS = ["r.bp", "rem/r.bp", "./r.bp", "rem/../r.bp", "rem//r.bp", "../r.bp", "a b.bp", "ü.bp", "100%.bp", "%41.bp", "a?b.bp", "a#b.bp", "a:b.bp", "a@b.bp", "rem/./x/../r.bp", "a%2Fb.bp", " lead.bp", "-x.bp", "a+b.bp", "日本.bp", "a\\b.bp", "'q'.bp", "[x].bp", "rem/a;b.bp", "..r.bp", "...", "file:x.bp", "~", "&=,$!().bp", "f.bp.bp", "rem/" + "y" * 90]
HOSTS = ["example.org", "EXAMPLE", "10.1.2.3", "::1", "fe80::1", "host_1", "a.b-c", "bücher.example", "x" * 60]
BADPORTS = ["x", "0", "-1", "+22", "22.0", "70000", "65536", "0x16", " 22", "22 ", "2 2", "99999999999999999999", "1e3", "٢٢", "-0", "22/tcp", "ssh", ":22", "-2222"]
BADKEYS = ["", "0", "4", "x", "-1", "ed25519", "1.0", " ", "99", "ED25519", "RSA 4096"]


def codes(s):
    return list(s.encode())


class Scen:
    def __init__(self, rng, steps, hand=(), names=()):
        self.seed, self.steps, self.hand, self.names = rng.randrange(1 << 30), steps, list(hand), list(names)


def wizard(r, kind, rsa, host=None, cut=.15):
    """Answers to a wizard; host: where it is to lead, if that matters."""
    bad = lambda xs: [r.choice(xs) for _ in range(r.choice([0, 0, 0, 1, 2]))]
    if kind == "file":
        a = bad([""]) + [r.choice(FPATHS)]
        if r.random() < .3:
            a[-1] = "@/" + a[-1].lstrip("/")
    elif kind == "scp":
        a = bad([""]) + [r.choice(USERS)] + bad([""])
        a += [host[0] if host else r.choice(HOSTS)] + bad(BADPORTS)
        a += [str(host[1])] if host else [r.choice(["", "", "1", "22", "2222", "65534", "443"])]
        a += bad([""]) + [r.choice(PATHS)] + bad(BADKEYS)
        k = "2" if rsa else r.choice("1333")
        a.append(k)
        if k == "3":
            if r.random() < .3:
                a += bad(["", "20", "u", "?", "n 4"]) + ["y"]
            else:
                p = r.choice(PWS)
                for _ in range(r.choice([0, 0, 0, 1])):
                    a += ["m", p, r.choice([p + " ", p[:-1], p.upper() + "x", "other"])]
                a += ["m", p, p]
    else:
        a = ["x"]
    if r.random() < cut:
        a = a[:r.randrange(0, len(a))] + [EOF]
    return a


class Run:
    def __init__(self, env, d, sc):
        self.env, self.d, self.sc = env, os.path.join(d, "home"), sc
        self.rng = random.Random(sc.seed)
        self.t, self.hist, self.made = [], [], {}

    def start(self):
        # by somebody who can write nowhere else, in a directory that another one surrounds
        for top, ds, fs in os.walk(os.path.dirname(self.d)):
            for x in [top] + [os.path.join(top, f) for f in fs]:
                os.chown(x, 65534, 65534, follow_symlinks=False)
        self.app = App(self.env["bpass"], self.d, wrap=NOBODY)
        if not self.app.open("pw"):
            raise Odd("the file does not open: " + (self.app.err or self.app.out)[-500:])

    def run(self):
        env, d = self.env, self.d
        os.makedirs(d + "/rem/x")
        srv = env["srv"]
        self.servers = []
        notfound = [{"wait": 1, "send": base(b"\x01scp: f: No such file or directory\n"), "exit": 1}]
        takes = [{"send": base(b"\0\0\0")}, {"wait": -1}, {"exit": 0}]
        m = Maker(1500000000)
        m.entry("mail", user="me")
        try:
            for _ in range(3):
                s = srv.call(op="listen", kind="ed25519", seed="k%d" % len(self.servers))
                srv.call(op="do", id=s["id"], steps={"f": notfound, "t": takes})
                self.servers.append(s)
            self.known = {}
            for n, mk in self.sc.hand:
                kv, want = mk(self)
                u = m.entry(n, sync="true", **kv)
                self.made[u] = {"name": n, "kind": "", "asked": [], "url": kv["url"], "pub": want, "ok": True}
            for n in self.sc.names:
                m.entry(n)
            env["codec"].seal(d + "/f.bp", "pw", {"log": m.log})
            self.start()
            try:
                for st in self.sc.steps:
                    if self.app.rc is not None:
                        break
                    getattr(self, st[0])(*st[1:])
            finally:
                self.app.kill()
        finally:
            for s in self.servers:
                srv.call(op="close", id=s["id"])
        return {"t": self.t, "hist": self.hist}

    def restart(self):
        self.app.run("exit")
        if self.app.rc is None:
            self.app.kill()
        self.start()

    def do(self, line, answers=(), more=None):
        r = self.app.run(line, answers, more)
        self.hist.append({"c": line, "asked": [(q["prompt"], plain(q["ans"])) for q in r["asked"]], "out": r["out"][-600:]})
        return r

    def add(self, kind, answers=None, rsa=False, live=False, cut=.15):
        r = self.rng
        if answers is None:
            s = r.choice(self.servers)
            answers = wizard(r, kind, rsa, (r.choice(["127.0.0.1", "127.0.0.1", "localhost"]), s["port"]) if live else None, cut)
        answers = [self.d + a[1:] if isinstance(a, str) and a.startswith("@/") else a for a in answers]
        before = replay(self.app.must_log())
        q = self.do("addsync " + kind, answers)
        asked, out, shown = [], "", ""
        for x in q["asked"]:
            out += x["out"]
            for mm in re.finditer(r"^password: (.*)$", x["out"], re.M):
                shown = mm.group(1)
            stop = not isinstance(x["ans"], str)
            asked.append({"q": QS.get(x["prompt"], "other"), "t": [] if stop else codes(x["ans"]), "stop": stop, "shown": codes(shown)})
        out = q["out"]
        if self.app.rc is not None:
            log = self.env["codec"].log(self.d + "/f.bp", "", "pw")
            after = replay(log) if log is not None else {}
        else:
            after = replay(self.app.must_log())
        new = []
        for u, e in after.items():
            if u in before:
                continue
            info = self.env["srv"].call(op="keyinfo", priv=e.get("privkey", ""))
            pub = e.get("pubkey", "")
            two = " ".join(pub.split(" ")[:2])
            with self.env["lock"]:
                fresh = two not in self.env["pubs"]
                self.env["pubs"].add(two)
            new.append({"unique": bool(e.get("name")) and sum(x.get("name") == e.get("name") for x in after.values()) == 1, "sync": e.get("sync") == "true",
                        "url": codes(e.get("url", "")), "priv": "privkey" in e, "pub": "pubkey" in e, "info": {"type": info["type"], "bits": info["bits"]},
                        "pair": info["pub"] != "" and two == info["pub"], "shown": pub != "" and pub in out, "fresh": fresh})
            self.made[u] = {"name": e.get("name", ""), "kind": kind, "asked": asked, "url": "", "pub": info["pub"], "ok": live or kind == "file", "e": e}
        crash = self.app.rc is not None and self.app.crashed()
        self.t.append({"k": "add", "kind": kind, "cwd": codes(self.d), "asked": asked, "crash": crash,
                       "others": sum(after.get(u) != e for u, e in before.items()), "new": new})

    def mv(self):
        if self.made:
            u = self.rng.choice(sorted(self.made))
            n = "moved%d" % len(self.hist)
            self.do("mv %s %s" % (self.made[u]["name"], n))
            self.made[u]["name"] = n

    def seturl(self, url):
        """The url of an entry by hand."""
        us = [u for u in sorted(self.made) if self.made[u]["ok"]]
        if us:
            u = self.rng.choice(us)
            m = self.made[u]
            full, _ = url(self)
            self.do("set %s url %s" % (m["name"], full["url"]))
            now = replay(self.app.must_log()).get(u, {})
            self.t.append({"k": "set", "url": codes(full["url"]), "stored": codes(now.get("url", ""))})
            m.update(url=full["url"], kind="", pub=self.env["srv"].call(op="keyinfo", priv=now.get("privkey", ""))["pub"])

    def tree(self):
        out = {}
        for top, ds, fs in os.walk(os.path.dirname(self.d)):
            for f in fs:
                p = os.path.join(top, f)
                if f.startswith((".out", ".err")) or p == self.app.file:
                    continue
                st = os.stat(p)
                out[p] = (st.st_ino, st.st_mtime_ns, st.st_size)
        return out

    def sync(self, which=None):
        us = [u for u in sorted(self.made) if self.made[u]["ok"] and self.usable(self.made[u])]
        if not us:
            return
        u = self.rng.choice(us)
        m = self.made[u]
        # something to bring there
        self.do("set mail n%d v" % len(self.hist))
        for s in self.servers:
            self.env["srv"].call(op="take", id=s["id"])
        before = self.tree()
        r = self.do("sync " + m["name"], more=lambda p: "y" if p.text.startswith("Save this host") else EOF)
        conns = [c for c in map(self.take, self.servers) if c]
        after = self.tree()
        touched = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))
        right = True
        if not conns and self.app.rc is None:
            log = self.app.must_log()
            right = bool(touched) and all(os.path.exists(p) and self.env["codec"].log(p, "", "pw") == log for p in touched)
        self.t.append({"k": "sync", "kind": m["kind"], "cwd": codes(self.d), "asked": m["asked"], "url": codes(m["url"]), "pub": m["pub"], "conns": conns,
                       "touched": [codes(p) for p in touched], "right": right, "crash": self.app.rc is not None})

    def usable(self, m):
        """Whether one can log in there at all."""
        if m["kind"] == "scp":
            return bool(m["pub"]) or any(a["q"] == "pw" and a["t"] == codes("y") or a["q"] == "verify" and a["t"] for a in m["asked"][-1:])
        if m["kind"] == "file":
            p = os.path.normpath(os.path.join(self.d, bytes(m["asked"][-1]["t"]).decode()))
            return not os.path.isdir(p) and p != self.app.file and os.path.isdir(os.path.dirname(p)) and len(os.path.basename(p)) < 200
        return True

    def take(self, s):
        x = {"port": s["port"], "users": [], "passes": [], "keys": [], "login": False, "cmds": []}
        logins, some = 0, False
        end = time.monotonic() + 3
        while True:
            for e in self.env["srv"].call(op="take", id=s["id"])["events"]:
                some = True
                if e["ev"] == "auth":
                    x["users"].append(codes(e.get("user", "")))
                    x["passes"].append(codes(e.get("pass", "")))
                elif e["ev"] == "authkey":
                    x["users"].append(codes(e.get("user", "")))
                    x["keys"].append(e.get("pass", ""))
                elif e["ev"] == "login":
                    logins += 1
                    x["users"].append(codes(e.get("user", "")))
                elif e["ev"] == "exec":
                    x["cmds"].append(command(e["cmd"]))
            if logins <= len(x["cmds"]) or time.monotonic() > end:
                break
            time.sleep(.02)
        x["login"] = logins > 0
        return x if some else None


def inside(kind, a):
    """Files are all in the scratch directory."""
    return "@" + a if kind == "file" and a.startswith("/") else a


def base(b):
    import base64
    return base64.b64encode(b).decode()


def command(c):
    """What a command does and to what, whether or not a shell takes it apart."""
    import shlex
    m = re.match(r"^\s*scp((?: -\w+)+) (?:-- )?(.*)$", c, re.S)
    if not m:
        return {"k": "?", "to": [codes(c)]}
    to = [m.group(2)]
    try:
        l = shlex.split(m.group(2))
        if len(l) == 1:
            to.append(l[0])
    except ValueError:
        pass
    return {"k": "f" if "f" in m.group(1) else "t" if "t" in m.group(1) else "?", "to": [codes(x) for x in to]}


def by_hand(rng):
    """A maker of an entry that somebody wrote themselves."""
    r = random.Random(rng.randrange(1 << 30))
    q = lambda s, safe="": urllib.parse.quote(s, safe=safe)

    def make(run):
        if r.random() < .35:
            p = run.d + "/" + r.choice([x for x in FPATHS if "/" not in x and x not in ("~", "...")])
            return {"url": "file://" + q(p, "/" if r.random() < .5 else "/:@+,;=&$!()")}, ""
        s = r.choice(run.servers)
        u, path = r.choice(USERS), r.choice([x for x in PATHS if x != "."])
        url = "scp://" + q(u)
        kv = {}
        pub = ""
        if r.random() < .6:
            url += ":" + q(r.choice(PWS))
        if ":" not in url[6:]:
            pem = run.env["srv"].call(op="pem", seed="h%d" % r.randrange(5))
            kv["privkey"], pub = pem["priv"], pem["pub"]
        return {"url": url + "@%s:%d/%s" % (r.choice(["127.0.0.1", "localhost"]), s["port"], q(path, "/")), **kv}, pub
    return make


def files_by_hand(rng):
    """A url of another place, for an entry whatever its key."""
    r = random.Random(rng.randrange(1 << 30))

    def make(run):
        return {"url": "file://" + urllib.parse.quote(run.d + "/" + r.choice(["moved.bp", "mo ved.bp", "mö.bp", "mo%ved.bp"]), safe="/")}, ""
    return make


def scenarios(c, big):
    r = c.rng
    scs = []
    for _ in range(1200 if big else 160):
        steps = []
        hand = [("h%d" % i, by_hand(r)) for i in range(r.choice([0, 1, 1, 2]))]
        for _ in range(r.randrange(2, 7)):
            kind = r.choice(["scp"] * 6 + ["file"] * 4 + ["ftp", "SCP", "File"])
            steps.append(("add", kind, None, False, r.random() < .75))
            if r.random() < .6:
                steps.append(("sync",))
            if r.random() < .12:
                steps.append(("restart",))
            if r.random() < .15:
                steps.append(("mv",))
            if r.random() < .12:
                steps.append(("seturl", files_by_hand(r)))
        steps += [("restart",), ("sync",), ("sync",)]
        scs.append(Scen(r, steps, hand, r.sample(["sync/file", "sync/scp", "sync/scp1", "sync/file1", "sync/file11"], r.choice([0, 0, 1, 3]))))
    # every odd answer once
    for x in USERS:
        scs.append(Scen(r, [("add", "scp", [x, "example.org", "", "f.bp", "3", "m", "p", "p"])]))
    for x in PATHS:
        scs.append(Scen(r, [("add", "scp", ["u", "example.org", "2222", x, "3", "m", "p", "p"])]))
    for x in PWS:
        scs.append(Scen(r, [("add", "scp", ["u", "example.org", "2222", "f", "3", "m", x, x])]))
    for x in HOSTS:
        scs.append(Scen(r, [("add", "scp", ["u", x, "2222", "f", "1"])]))
    for x in BADPORTS:
        scs.append(Scen(r, [("add", "scp", ["u", "h", x, "", "f", "1"]), ("add", "scp", ["u", "h", x, x, "2222", "/f", "3", "m", "p", "p"])]))
    for x in BADKEYS:
        scs.append(Scen(r, [("add", "scp", ["u", "h", "", "f", x, "1"])]))
    for x in FPATHS:
        scs.append(Scen(r, [("add", "file", [x], False, False, 0), ("sync",), ("restart",), ("sync",)]))
    # abandoned everywhere
    full = ["", "u", "", "h", "x", "22", "", "/f", "9", "3", "", "m", "a", "b", "m", "a", "a"]
    for i in range(len(full)):
        scs.append(Scen(r, [("add", "scp", full[:i] + [EOF]), ("add", "file", ["r.bp"]), ("sync",)]))
        scs.append(Scen(r, [("add", "scp", full[:i] + [INT])]))
    # long keys take their time
    for i in range(24 if big else 5):
        scs.append(Scen(r, [("add", "scp", None, True, True, 0), ("sync",), ("restart",), ("sync",)]))
    return scs


def run(c):
    big = TIER == "thorough"
    rng = c.rng
    cfg = ("SPECIFICATION Spec\nINVARIANT Entries Leads Syncs Usable AsDue OneToOne Clean %s\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS\n Kinds = {%s}\n Small = %s\n MaxAnswers = %d\n MaxEntries = %d\n Bug = \"%s\"\n")
    both = '"scp", "file"'
    c.design("SyncEntryModel", cfg % ("", both, "FALSE", 8 if big else 7, 1, ""))
    c.design("SyncEntryModel", cfg % ("", both, "TRUE", 6 if big else 5, 2, ""))
    for bug, inv in (("raw", "Leads"), ("slash", "Leads"), ("port", "AsDue"), ("early", "Entries")):
        if "Invariant %s is violated" % inv not in tlc("SyncEntryModel", cfg % ("", both, "FALSE", 7, 1, bug)).out:
            raise Broken("the specification does not notice " + bug)
        c.count("negative_controls")
    ss, _ = scenarios_of("SyncEntryModel", cfg % ("Emit", both + ', "ftp"', "FALSE", 12, 3, ""), simulate=4000 if big else 600, depth=60)
    ss = sorted({json.dumps(s, sort_keys=True) for s in ss})
    rng.shuffle(ss)
    scs = []
    for s in ss[:1500 if big else 150]:
        steps = [("add", h["kind"], [EOF if a["stop"] else inside(h["kind"], bytes(a["t"]).decode()) for a in h["asked"]]) for h in json.loads(s)]
        scs.append(Scen(rng, steps + [("sync",)]))
    n_model = len(scs)
    scs += scenarios(c, big)
    bins = build("bpass", "codec", "sshsrv")
    codec = Codec(bins["codec"])
    pool = [Servers(bins["sshsrv"]) for _ in range(6)]
    env = {"bpass": bins["bpass"], "codec": codec, "pubs": set(), "lock": threading.Lock()}

    os.chmod(vf.work(), 0o711)

    def one(i):
        with Dir() as d:
            return Run({**env, "srv": pool[i % len(pool)]}, d, scs[i]).run()
    res = pmap(one, list(range(len(scs))), par=16)
    codec.close()
    for p in pool:
        p.close()
    traces, where, kinds = [], [], {}
    for i, r in enumerate(res):
        if "hang" in r:
            c.violation("the program shows no sign of life: " + r["hang"], {"scenario": str(scs[i].steps)})
            continue
        traces.append({"t": r["t"]})
        where.append(i)
        for e in r["t"]:
            k = e["k"] + ((":" + e["kind"] + (":made" if e["new"] else "")) if e["k"] == "add" else (":scp" if e["conns"] else ":file") if e["k"] == "sync" else "")
            kinds[k] = kinds.get(k, 0) + 1
    bad, st = judge("SyncEntryTrace", traces, "SyncEntryTrace.cfg", parallel=8)
    c.cov["states"] += st["states"]
    c.cov["transitions"] += st["generated"]
    c.cov["events"] = kinds
    c.cov["scenarios"] = {"from_model": n_model, "all": len(scs)}
    c.traces(len(traces))
    for t, at, w in bad:
        e = traces[t]["t"][at - 1]
        show = {k: (bytes(v).decode() if k in ("url", "cwd") else v) for k, v in e.items() if k in ("k", "kind", "url", "touched")}
        c.violation("%s: %s %s" % (",".join(w), show, [(a["q"], bytes(a["t"]).decode()) for a in e.get("asked", [])]),
                    {"event": e, "wrong": w, "history": res[where[t]]["hist"]})
    for i in (0, n_model + 1, len(traces) - 1):
        c.sample(json.dumps(plain(res[i].get("hist")))[:600])
