"""Syncs with hosts whose keys are known, new or changed, recorded for module HostTrace."""
import random, threading
from vf import *
import vf
from app import App, Codec, Dir, EOF, INT, Hang, plain, pmap
from session import norm
from host_servers import Servers, Host, ident
from sync_common import World, replay

ASK = "Save this host (y/N): "
CONN = re.compile(r"^\(ssh\) connected to: (\S+) \((\S+)\)\nverify pubkey: (\S+) (\S+)$", re.M)


class HostRun:
    def __init__(self, env, d, sc):
        self.env, self.d, self.sc = env, d, sc
        self.srv = env["srv"]
        self.rng = random.Random(sc["seed"])
        self.w = World(env["codec"], d, self.rng)
        self.t, self.hist = [], []

    def later(self, log):
        return max([x["time"] for x in log] + [1]) + 10**6

    def run(self):
        r, w, d = self.rng, self.w, self.d
        n = self.sc["hosts"]
        self.hosts, self.uuid, self.names, self.roots = [], [], [], []
        f = {"log": [], "m": "", "own": "pw" + w.tag, "key": w.salt()}
        w.passes.add(f["own"])
        w.entry(f, "mail", k1="v0")
        pem = self.srv.call(op="pem", seed="c")["priv"]
        try:
            for i in range(n):
                root = os.path.join(d, "rem%d" % i)
                os.makedirs(root)
                h = Host(self.srv, root, r.choice(["127.0.0.1"] * 3 + ["localhost"]))
                self.hosts.append(h)
                self.roots.append(root)
                self.names.append("sync/%d" % i)
                kv = {"sync": "true", "synckind": "scp"}
                auth = r.choice(["pass", "pass", "key", "both"])
                kv["url"] = "scp://%s@%s/r.bp" % ("u" if auth == "key" else Host.login, h.host)
                if auth != "pass":
                    kv["privkey"] = pem
                self.uuid.append(w.entry(f, self.names[i], **kv))
            os.makedirs(d + "/dev")
            self.dev = d + "/dev/f.bp"
            self.f = f
            if "script" not in self.sc:
                for i in range(n):
                    self.know(i, self.lines(i))
            for st in self.sc.get("script") or range(self.sc["steps"]):
                if isinstance(st, dict):
                    self.scripted(st)
                else:
                    self.random()
                if self.t and self.t[-1]["crash"]:
                    break
        finally:
            for h in self.hosts:
                h.close()
        return {"t": self.t, "hist": self.hist}

    def know(self, i, lines):
        self.w.put(self.f, self.later(self.f["log"]), "setk", self.uuid[i], "knownhosts", "\n".join(lines))

    def known(self, i, log=None):
        return replay(log or self.f["log"]).get(self.uuid[i], {}).get("knownhosts", "")

    def line(self, i, k):
        t, h = ident(self.srv, k)
        return "%s %s %s %s" % (self.hosts[i].host, self.hosts[i].addr, t, h)

    def lines(self, i):
        r, out = self.rng, []
        h = self.hosts[i]
        for _ in range(r.choice([0, 0, 1, 1, 1, 2, 3])):
            k = r.choice(KEYS)
            good = self.line(i, k)
            t, hs = ident(self.srv, k)
            out.append(r.choice([
                good, good, good,
                "%s %s %s %s" % (h.host, "10.9.8.7:22", t, hs),
                "%s %s %s %s" % (h.host, h.addr, r.choice(["ssh-rsa", "ssh-ed25519", "", "SSH-ED25519"]), hs),
                "%s %s %s %s" % (h.host, h.addr, t, r.choice([hs[:-1], hs.upper(), hs + "0", "", hs[1:], "f" * 64])),
                good + " ", good + " x", good + "\r", good.replace(" ", "\t"), good.replace(" ", "  "), " " + good, "%s %s %s" % tuple(good.split(" ")[:3]), h.host,
                "%s0 %s %s %s" % (h.host, h.addr, t, hs), "%s %s %s %s" % (h.host[:-1], h.addr, t, hs), "%s %s %s %s" % (h.host.split(":")[0], h.addr, t, hs),
                "%s %s %s %s" % (h.host.upper() + "x", h.host, t, hs), "other:22 %s %s %s" % (h.addr, t, hs), "%s,%s %s %s %s" % (h.host, "x", h.addr, t, hs), "* %s %s %s" % (h.addr, t, hs),
                "", " ", "#" + good]))
        return out

    def remote(self, i, there):
        """What is at the remote before a sync."""
        r, f = self.rng, self.f
        path = self.roots[i] + "/r.bp"
        if os.path.exists(path):
            os.unlink(path)
        g = {"log": list(f["log"]), "m": "", "own": f["own"], "key": f["key"]}
        mail = f["log"][0]["uuid"]
        t = self.later(g["log"])
        if there == "absent":
            return []
        if there == "garbage":
            open(path, "wb").write(os.urandom(3000))
            return []
        if there == "fork":
            g["log"] = []
            self.w.entry(g, "other")
        elif there == "both":
            self.w.put(g, t, "setk", mail, "k1", "r%d" % t)
            self.w.put(f, t + 5, "setk", mail, "k2", "l%d" % t)
        elif there == "behind":
            self.w.put(f, t + 5, "setk", mail, "k2", "l%d" % t)
        elif there == "ahead":
            self.w.put(g, t, "setk", mail, "k1", "r%d" % t)
        elif there == "knows":
            self.w.put(g, t, "setk", self.uuid[i], "knownhosts", "\n".join(self.lines(i)))
        elif there == "removed":
            self.w.put(g, t, "del", self.uuid[i])
        self.w.write(g, path)
        return g["log"]

    def scripted(self, st):
        kn = [x for x in self.known(0).split("\n") if x]
        if st["op"] == "forget":
            self.know(0, [])
            return
        if st["op"] == "break":
            if st["i"] <= len(kn):
                kn[st["i"] - 1] = " ".join(kn[st["i"] - 1].split(" ")[:3])
                self.know(0, kn)
            return
        if st["op"] == "put":
            self.know(0, [self.line(int(st["h"][1]) - 1, MODELKEYS[tuple(st["k"])])] + kn)
            return
        # one entry that is moved between hosts
        i = int(st["h"][1]) - 1
        t = self.later(self.f["log"])
        u = self.uuid[0]
        url = "scp://%s@%s/r.bp" % (Host.login, self.hosts[i].host)
        if replay(self.f["log"])[u].get("url") != url:
            self.w.put(self.f, t, "setk", u, "url", url)
        there = {"ahead": "both"}.get(st["there"], st["there"])
        self.sync({i: 0}, {i: [MODELKEYS[tuple(st["k1"])], MODELKEYS[tuple(st["k2"])]]}, {i: there}, [st["a1"], st["a2"]], "name", "sync/0")

    def random(self):
        r = self.rng
        n = len(self.hosts)
        live = [i for i in range(n) if self.uuid[i] in replay(self.f["log"])]
        if not live:
            return
        keys, there = {}, {}
        for i in live:
            ks = [r.choice(KEYS) for _ in range(4)]
            if r.random() < .7:
                ks = [ks[0]] * 4
            if r.random() < .5 and self.known(i):
                # what is known
                have = [k for k in KEYS if ident(self.srv, k)[1] in self.known(i)]
                if have:
                    ks[0] = have[0]
                    ks[1:] = ks[:1] * 3 if r.random() < .7 else ks[1:]
            keys[i] = ks
            there[i] = r.choice(["absent", "both", "both", "behind", "same", "ahead", "knows", "removed", "garbage"] if r.random() < .95 else ["fork"])
            if r.random() < .15:
                self.know(i, self.lines(i))
        how = r.choice(["cmd", "cmd", "name", "auto", "auto"])
        answers = [r.choice(["y", "y", "y", "Y", "n", "", "yes", " y", "N", "no", "YES", EOF, INT, "ü"]) for _ in range(12)]
        name = ""
        if how == "name":
            i = r.choice(live)
            name = self.names[i]
            self.sync({i: i}, keys, there, answers, how, name)
            return
        self.sync({i: i for i in live}, keys, there, answers, how, "")

    # ---- a sync, hosts: host -> entry

    def sync(self, hosts, keys, there, answers, how, name):
        r, f = self.rng, self.f
        remotes = [x for i in hosts for x in self.remote(i, there[i])]
        for i in hosts:
            self.hosts[i].keys(keys[i], refuse=r.random() < .04 and "script" not in self.sc)
        before = [norm(t) for t in f["log"]]
        self.w.write(f, self.dev)
        app = App(self.env["bpass"], self.d + "/dev", file=self.dev, nosync=how != "auto")
        todo = list(answers)
        said, stray = [], [False]

        def more(p):
            if p.text != ASK:
                if "Restore item" not in p.text and "merge these anyway" not in p.text and "use remote cred" not in p.text:
                    said.append([p.text, "EOF"])
                    return EOF
                a = r.choice(["d", "r"]) if "Restore item" in p.text else r.choice(["y", "n", EOF])
                said.append([p.text, plain(a)])
                return a
            m = CONN.findall(p.out)
            a = todo.pop(0) if todo else "n"
            ok = False
            for i in hosts:
                h = self.hosts[i]
                if m and m[-1][0] == h.host:
                    h.update()
                    if h.conns:
                        ok = True
                        h.conns[-1]["asks"].append({"addr": m[-1][1], "type": m[-1][2], "hash": m[-1][3].replace(":", ""), "a": plain(a)})
            stray[0] = stray[0] or not ok
            said.append([m[-1:], plain(a)])
            return a
        try:
            p = app.next()
            first = True
            while p is not None and not p.main:
                app.say(f["own"] if first else more(p))
                first = False
                p = app.next()
            if p is None:
                self.judge(hosts, before, remotes, before, True, stray[0])
                self.hist.append(["died", said, app.err[:1500], app.out[-500:]])
                return
            if how == "auto":
                after = [norm(t) for t in app.must_log()]
                self.judge(hosts, before, remotes, after, False, stray[0])
                before, stray[0] = after, False
                self.hist.append(["login", said[:], p.out[-800:]])
                del said[:]
                # what is there now
                remotes = [x for i in hosts for x in self.there(i)]
                for i in hosts:
                    self.hosts[i].conns = []
                if r.random() < .4:
                    res = app.run("set mail k3 x%d" % r.randrange(99))
                    before = [norm(t) for t in app.must_log()]
            else:
                res = app.run("sync " + name if name else "sync", more=more)
                self.hist.append([res["line"], said[:], res["out"][-800:]])
                if not res["open"]:
                    self.judge(hosts, before, remotes, before, True, stray[0])
                    self.hist.append(res.get("crash"))
                    return
                after = [norm(t) for t in app.must_log()]
                self.judge(hosts, before, remotes, after, False, stray[0])
                before = after
            app.say("exit")
            p = app.next()
            while p is not None:
                app.say(more(p))
                p = app.next()
            o = self.env["codec"].open(self.dev, "", f["own"])
            crash = app.crashed() or app.rc != 0 or not o["ok"]
            if crash:
                self.hist.append(["end", app.rc, app.err[:1500], app.out[-300:]])
            log = (json.loads(o["text"]) or {}).get("log") or [] if o["ok"] else f["log"]
            if how == "auto":
                self.judge(hosts, before, remotes, [norm(t) for t in log], crash, stray[0])
                self.hist.append(["exit", said, app.out[-800:]])
            f["log"] = log
            if o["ok"]:
                f["key"] = o["salt"]
        finally:
            app.kill()

    def there(self, i):
        path = self.roots[i] + "/r.bp"
        if not os.path.exists(path):
            return []
        o = self.env["codec"].open(path, "", self.f["own"])
        return (json.loads(o["text"]) or {}).get("log") or [] if o["ok"] else []

    def judge(self, hosts, before, remotes, after, crash, stray):
        key = lambda t: (t["tm"], t["u"], t["kind"], t["k"], t["v"])
        old = {key(t) for t in before} | {key(norm(t)) for t in remotes}
        for i, e in hosts.items():
            h, u = self.hosts[i], self.uuid[e]
            h.update()
            mine = [t for t in after if t["u"] == u and t["k"] == "knownhosts" and t["kind"] in ("setk", "delk")]
            b = [t for t in before if t["u"] == u and t["k"] == "knownhosts" and t["kind"] in ("setk", "delk")]
            m = [t for t in mine if key(t) in old]
            lines = lambda v: [x.split(" ") for x in v.split("\n")]
            self.t.append({"host": h.host, "addr": h.addr, "before": lines(b[-1]["v"] if b else ""), "merged": lines(m[-1]["v"] if m else ""),
                           "kept": not any(t["u"] == u and t["kind"] == "del" for t in after), "news": [lines(t["v"]) for t in mine if key(t) not in old],
                           "conns": json.loads(json.dumps(h.conns)), "stray": stray, "crash": crash})


KEYS = [("ed25519", "k1"), ("ed25519", "k2"), ("rsa", "k3"), ("rsa", "k4"), ("ecdsa", "k5")]
MODELKEYS = {("ed", "k1"): ("ed25519", "k1"), ("ed", "k2"): ("ed25519", "k2"), ("rsa", "k3"): ("rsa", "k3")}


def cfg(n, ctl, inv, view=True):
    return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n%sCONSTANTS\n Hosts = {"h1", "h2"}\n Keys <- MKeys\n MaxSteps = %d\n Control = "%s"\n%s' % (
        "VIEW View\n" if view else "", n, ctl, "".join("INVARIANT %s\n" % i for i in inv))


def run(c):
    big = TIER == "thorough"
    c.design("HostModel", cfg(5 if big else 4, "", ["OnlyVouched", "NotAgain", "Kept", "One"]), timeout=3000 if big else 600)
    for ctl, inv in (("type", "OnlyVouched"), ("push", "One"), ("forget", "Kept"), ("forget", "NotAgain")):
        r = tlc("HostModel", cfg(3, ctl, [inv]))
        if "Invariant %s is violated" % inv not in r.out:
            raise Broken("negative control %s of HostModel does not break %s:\n%s" % (ctl, inv, r.out[-2000:]))
    c.count("negative_controls", 4)
    hs, _ = scenarios_of("HostModel", cfg(6, "", ["MEnd"], view=False), simulate=400 if big else 60, depth=8, seed=c.rng.getrandbits(31))
    seen, scs = set(), []
    for x in hs:
        k = json.dumps(x["h"], sort_keys=True)
        if k not in seen and sum(e["op"] == "sync" for e in x["h"]) > 1:
            seen.add(k)
            scs.append({"seed": c.rng.getrandbits(48), "hosts": 2, "script": x["h"]})
    scs = c.rng.sample(scs, min(len(scs), 4000 if big else 220))
    c.count("model_histories", len(scs))
    scs += [{"seed": c.rng.getrandbits(48), "hosts": c.rng.choice([1, 1, 2]), "steps": c.rng.choice([2, 4, 6])} for _ in range(4000 if big else 260)]
    b = build("bpass", "codec", "sshsrv")
    codec = Codec(b["codec"], 8)
    env = {"bpass": b["bpass"], "codec": codec, "srv": Servers(b["sshsrv"])}

    def one(sc):
        with Dir() as d:
            return HostRun(env, d, sc).run()
    try:
        res = pmap(one, scs, 8)
    finally:
        codec.close()
        env["srv"].close()
    traces, idx = [], []
    for i, r in enumerate(res):
        if "hang" in r:
            c.violation("the program shows no sign of life: " + r["hang"], {"scenario": scs[i]})
            continue
        traces.append({"t": r["t"]})
        idx.append(i)
    bad, st = judge("HostTrace", traces, "HostTrace.cfg")
    c.cov["states"] += st["states"]
    c.cov["transitions"] += st["generated"]
    for ti, at, w in sorted(bad):
        c.violation("a sync with a host: not as specified (%s)" % ", ".join(w),
                    {"wrong": w, "position": at, "event": traces[ti]["t"][at - 1], "history": res[idx[ti]]["hist"], "scenario": scs[idx[ti]]})
    c.traces(len(traces) - len({x[0] for x in bad}))
    es = [e for t in traces for e in t["t"]]
    c.count("syncs", len(es))
    c.count("connections", sum(len(e["conns"]) for e in es))
    c.count("talked", sum(1 for e in es for x in e["conns"] if x["auth"]))
    c.count("asked", sum(len(x["asks"]) for e in es for x in e["conns"]))
    c.count("recorded", sum(len(e["news"]) for e in es))
    c.count("pushes", sum(1 for e in es for x in e["conns"] if any(" -qt " in y for y in x["cmds"])))
    for e in es[::max(1, len(es) // 6)]:
        c.sample(e)
