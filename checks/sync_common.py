"""Devices that sync with remotes, recorded for module SyncTrace."""
import base64, random, shutil
import uuid as uuidlib
from vf import *
import vf
from app import App, Codec, Dir, EOF, INT, Hang, Odd, plain, pmap, parse_log
from session import norm
from host_servers import Servers, Host, ident

USERS = ["ann", "bob", "Ann", "ü", "x/y", "%s"]
PASSES = ["p", "pass with spaces", " lead", "ünï", "%25%", 'a"b\'c', "long" * 20, "日本語", "0", "true", "q", "r"]
NAMES = ["mail", "web", "bank", "a/b", "ü", "x y", "user", "zz"]
VALUES = ["v%d" % i for i in range(9)] + ["", "ünï", "a b", '"q"', "%d"]
SNAMES = ["sync/r", "r", "läptop", "a/b", "sync/x"]


class World:
    """The files there are, made without the program."""

    def __init__(self, codec, d, rng):
        self.codec, self.d, self.rng = codec, d, rng
        self.now = 1_500_000_000
        self.masters, self.keys, self.salts, self.urls = {}, {}, {}, {}
        self.coarse = rng.random() < .3
        self.users, self.passes = set(), set()
        self.tag = "%x" % rng.getrandbits(32)

    # ---- contents, [log, m, own, key] with m the name of the master key and key the salt

    def uuid(self):
        return str(uuidlib.UUID(int=self.rng.getrandbits(128), version=4))

    def tick(self, exact=False):
        """The moment of the next changes: nobody's changes of keys fall into one moment."""
        if self.coarse and not exact:
            self.now += self.rng.random() < .4
            return self.now * 10**9
        self.now += 1
        return self.now * 10**9 + self.rng.randrange(10**6)

    def put(self, f, t, kind, u, k="", v=""):
        x = {"time": t, "kind": kind, "uuid": u}
        if k:
            x["key"] = k
        if v:
            x["value"] = v
        if x in f["log"]:
            return
        f["log"].append(x)

    def entry(self, f, name, exact=False, **kv):
        u, t = self.uuid(), self.tick(exact)
        self.put(f, t, "add", u)
        self.put(f, t, "setk", u, "updated", str(t))
        self.put(f, t, "setk", u, "name", name)
        for i, (k, v) in enumerate(kv.items()):
            self.put(f, t + i, "setk", u, k, v)
        return u

    def salt(self):
        return "%064x" % self.rng.getrandbits(256)

    def key(self, p, m):
        r = self.codec.call(op="keys", users=[{"name": "x", "pass": p}], master=self.masters[m])
        if not r["ok"]:
            raise Broken("codec: " + r["err"])
        k = r["keys"][0]
        self.keys[k["mkey"]] = {"p": p, "m": m}
        self.passes.add(p)
        return {"salt": k["salt"], "iv": k["iv"], "mkey": k["mkey"]}

    def master(self):
        m = "M%d" % (len(self.masters) + 1)
        self.masters[m] = "%0160x" % self.rng.getrandbits(640)
        return m

    def users_of(self, f):
        return {e["name"][5:]: (u, e) for u, e in replay(f["log"]).items() if e.get("name", "").startswith("user/") and len(e["name"]) > 5 and e.get("mkey")}

    def creds(self, f):
        if not f["m"]:
            return {"": f["own"]}
        return {n: self.keys[e["mkey"]]["p"] for n, (u, e) in self.users_of(f).items() if self.keys[e["mkey"]]["m"] == f["m"]}

    def adduser(self, f, name, p):
        if not f["m"]:
            f["m"], p = self.master(), f["own"]
        self.users.add(name)
        self.entry(f, "user/" + name, exact=True, **self.key(p, f["m"]))

    def setkeys(self, f, u, p):
        k, t = self.key(p, f["m"]), self.tick(True)
        for i, x in enumerate(("salt", "iv", "mkey")):
            self.put(f, t + i, "setk", u, x, k[x])

    def passwd(self, f, p, who=None):
        self.passes.add(p)
        if not f["m"]:
            f["own"], f["key"] = p, self.salt()
            return
        us = self.users_of(f)
        self.setkeys(f, us[who or self.rng.choice(sorted(us))][0], p)

    def rmuser(self, f, name):
        u, p = self.users_of(f)[name][0], self.creds(f).get(name)
        self.put(f, self.tick(True), "del", u)
        if not self.users_of(f):
            f["m"], f["own"], f["key"] = "", p or "gone", self.salt()
            self.passes.add(f["own"])

    def rekeyall(self, f):
        f["m"] = self.master()
        for n, (u, _) in sorted(self.users_of(f).items()):
            self.setkeys(f, u, "%s-%s" % (self.rng.choice(PASSES), f["m"]))

    def write(self, f, path):
        text = json.dumps({"log": f["log"]}).encode()
        if not f["m"]:
            self.codec.seal(path, f["own"], text, salt=f["key"])
            return
        mats = [{"name": n, "salt": e["salt"], "iv": e["iv"], "mkey": e["mkey"]} for n, (u, e) in sorted(self.users_of(f).items())]
        r = self.codec.call(op="assemble", path=path, text=base64.b64encode(text).decode(), master=self.masters[f["m"]], mats=mats)
        if not r["ok"]:
            raise Broken("codec: " + r["err"])

    # ---- what there is

    def look(self, path):
        """What is in a file, whoever opens it."""
        gone = {"st": "bad", "log": [], "m": "", "own": "", "key": "", "creds": []}
        if not os.path.lexists(path) or os.path.islink(path) and not os.path.exists(path):
            return dict(gone, st="absent" if os.path.isdir(os.path.dirname(path)) else "nowhere")
        if not os.path.isfile(path):
            return gone
        r = self.codec.call(op="probe", path=path, pairs=[{"name": u, "pass": p} for u in sorted(self.users | {""}) for p in sorted(self.passes)])
        if not r["ok"] or not r["opens"]:
            return gone
        o = {"st": "ok", "creds": [[x["name"], x["pass"]] for x in r["opens"]], "m": "", "own": "", "key": ""}
        first = r["opens"][0]
        x = self.codec.open(path, first["name"], first["pass"])
        try:
            log = parse_log(x["text"])
            if not isinstance(log, list) or replay(log) is None:
                return gone
        except (Odd, ValueError, AttributeError, TypeError, KeyError):
            return gone
        o["log"] = [self.norm(t) for t in log]
        if first["name"] == "":
            o["own"], o["key"] = first["pass"], x["salt"]
        else:
            m = [k for k, v in self.masters.items() if v == x["master"]]
            if not m:
                m = ["M%d" % (len(self.masters) + 1)]
                self.masters[m[0]] = x["master"]
            o["m"] = m[0]
            view = replay(log)
            for n, p in o["creds"]:
                for e in view.values():
                    if e.get("name") == "user/" + n and e.get("mkey"):
                        self.keys.setdefault(e["mkey"], {"p": p, "m": m[0]})
        return o

    def norm(self, t):
        t = norm(t)
        return dict(t, v=t["v"].replace(self.d, "@"))


def replay(log):
    s = {}
    for t in log:
        u = t.get("uuid")
        if t["kind"] == "add":
            if u in s:
                return None
            s[u] = {}
        elif u not in s:
            return None
        elif t["kind"] == "del":
            del s[u]
        elif t["kind"] == "setk":
            s[u][t.get("key", "")] = t.get("value", "")
        elif t["kind"] == "delk":
            s[u].pop(t.get("key", ""), None)
    return s


class SyncRun:
    def __init__(self, env, d, sc):
        self.bin, self.d, self.sc = env["bpass"], d, sc
        self.rng = random.Random(sc["seed"])
        self.w = World(env["codec"], d, self.rng)
        self.t, self.hist = [], []
        self.paths, self.stamp, self.seen = [], {}, {}
        # somebody who can be denied writing
        self.wrap = NOBODY if sc.get("unpriv") else ()
        self.ro, self.down, self.hosts, self.urls = set(), set(), {}, {}
        self.srv = env["nobody" if self.wrap else "srv"]

    # ---- making the scene

    def p(self, path):
        return path.replace(self.d, "@")

    def copy(self, f):
        return json.loads(json.dumps(f))

    def sync_entry(self, f, i):
        return self.w.entry(f, self.snames[i], url=self.url(i), sync=self.rng.choice(["true"] * 9 + ["false"]), **self.known(i))

    def connect(self, some):
        """Remotes that are reached over ssh."""
        for i, x in enumerate(self.rem):
            if some(i):
                h = self.hosts[i] = Host(self.srv, self.d)
                # keys are not what this is about
                k = self.rng.choice([("ed25519", "k1"), ("rsa", "k3")])
                h.keys([k])
                t, hs = ident(self.srv, k)
                h.key = k
                h.line = "%s %s %s %s" % (h.host, h.addr, t, hs)
        if self.hosts:
            self.pem = self.srv.call(op="pem", seed="c")["priv"]
        for i in range(len(self.rem)):
            self.urls[self.url(i)] = self.p(self.rem[i])

    def known(self, i):
        kv = {"synckind": "scp" if i in self.hosts else "file"}
        if self.hosts:
            # whichever of them its url comes to lead to
            kv["knownhosts"] = "\n".join(h.line for h in self.hosts.values())
            kv["privkey"] = self.pem
        return kv

    def url(self, i):
        if i in self.hosts:
            return "scp://%s@%s/%s" % ([Host.login, "u"][i % 2], self.hosts[i].host, os.path.relpath(self.rem[i], self.d))
        return "file://" + self.rem[i]

    def edits(self, f, n, kinds):
        r, w = self.rng, self.w
        for _ in range(n):
            k = r.choice(kinds)
            view = replay(f["log"])
            plain_ = sorted(u for u, e in view.items() if not e.get("name", "").startswith("user/") and "url" not in e)
            syncs = sorted(u for u, e in view.items() if "url" in e)
            names = {e.get("name") for e in view.values()}
            us = w.users_of(f)
            if k == "add":
                free = [x for x in NAMES if x not in names]
                if free:
                    w.entry(f, r.choice(free) + "-%x" % r.getrandbits(16), pass_=r.choice(VALUES[:9]))
            elif k == "set" and plain_:
                w.put(f, w.tick(), "setk", r.choice(plain_), r.choice(["k1", "k2", "notes"]), r.choice(VALUES))
            elif k == "delk" and plain_:
                w.put(f, w.tick(), "delk", r.choice(plain_), r.choice(["k1", "k2"]))
            elif k == "rm" and len(plain_) > 1:
                w.put(f, w.tick(), "del", r.choice(plain_))
            elif k == "pass":
                w.passwd(f, r.choice(PASSES) + w.tag)
            elif k == "salt":
                w.passwd(f, w.creds(f)[""] if not f["m"] else r.choice(PASSES) + w.tag)
            elif k == "adduser":
                free = [x for x in USERS if x not in us and "user/" + x not in names]
                if free and len(us) < 4:
                    # nobody else gets that name elsewhere
                    n_ = r.choice(free) + ("" if r.random() < .5 else "%x" % r.getrandbits(12))
                    if n_ not in w.users:
                        w.adduser(f, n_, r.choice(PASSES) + w.tag)
            elif k == "rmuser" and us and (len(us) > 1 or r.random() < .3):
                w.rmuser(f, r.choice(sorted(us)))
            elif k == "single" and us:
                for n_ in sorted(us):
                    w.rmuser(f, n_)
            elif k == "rekeyall" and us:
                w.rekeyall(f)
            elif k == "url" and syncs:
                w.put(f, w.tick(), "setk", r.choice(syncs), "url", r.choice([self.url(0), "", "ftp://x/y", "file://%s/elsewhere.bp" % self.d]))
            elif k == "rmsync" and syncs:
                w.put(f, w.tick(), "del", r.choice(syncs))

    def start(self):
        r, w, sc = self.rng, self.w, self.sc
        nrem, ndev = sc["nrem"], sc["ndev"]
        ssh = [r.random() < sc.get("ssh", 0) for _ in range(nrem)]
        self.rem = [os.path.join(self.d, "rem%d" % i, "r %d.bp" % i if r.random() < .2 and not ssh[i] else "r%d.bp" % i) for i in range(nrem)]
        self.connect(lambda i: ssh[i])
        self.snames = [r.choice(SNAMES) + str(i) for i in range(nrem)]
        self.dev = [os.path.join(self.d, "dev%d" % i, "f.bp") for i in range(ndev)]
        for x in self.rem + self.dev:
            os.makedirs(os.path.dirname(x))
        self.paths = self.rem + self.dev + [self.d + "/elsewhere.bp"]
        base = {"log": [], "m": "", "own": r.choice(PASSES) + w.tag, "key": w.salt()}
        w.passes.add(base["own"])
        for i in range(r.randrange(1, 4)):
            w.entry(base, NAMES[i], k1="v0")
        if sc["multi"]:
            for n in r.sample(USERS, r.randrange(1, 4)):
                w.adduser(base, n, r.choice(PASSES) + w.tag)
        self.new = None
        for i in range(nrem):
            if i == nrem - 1 and nrem > 1 and r.random() < .15:
                self.new = i        # only some copy knows this one
            else:
                self.sync_entry(base, i)
        mid = self.copy(base)
        self.edits(mid, r.randrange(0, 3), sc["ops"])
        versions = [base, mid]
        files = {}
        for i, x in enumerate(self.dev):
            f = self.copy(r.choice(versions))
            self.edits(f, r.randrange(0, 4), sc["ops"])
            if self.new is not None and i == 0 and r.random() < .5:
                self.sync_entry(f, self.new)
            files[x] = f
            versions.append(f)
        for i, x in enumerate(self.rem):
            k = r.choices(["ok", "same", "fork", "empty", "absent", "nowhere", "dir", "garbage", "broken", "notjson", "trunc", "dangling", "link", "enotdir"],
                          [60, 14, 3, 2, 6, 2, 2, 2, 3, 2, 2, 1, 2, 1])[0]
            if sc.get("calm"):
                k = r.choice(["ok"] * 6 + ["same", "absent"])
            if r.random() < sc.get("fork", 0):
                k = "fork"
            f = self.copy(r.choice(versions))
            if k == "ok":
                self.edits(f, r.randrange(0, 4), sc["ops"])
                if self.new is not None and r.random() < .3 and not any(t.get("value") == self.snames[self.new] for t in f["log"]):
                    self.sync_entry(f, self.new)
            elif k == "same":
                f = self.copy(files[self.dev[0]])
                if r.random() < .4:
                    self.edits(f, 1, ["pass", "salt"] if not f["m"] else ["pass"])
            elif k == "fork":
                f = {"log": [], "m": "", "own": r.choice([base["own"], r.choice(PASSES) + w.tag]), "key": w.salt()}
                w.passes.add(f["own"])
                w.entry(f, "other", k1="v1")
            elif k == "empty":
                f["log"], f["m"] = [], ""
            f["kind"] = k
            files[x] = f
            versions.append({y: f[y] for y in ("log", "m", "own", "key")} if k in ("ok", "same") else base)
        for x, f in files.items():
            k = f.get("kind", "ok")
            if k in ("absent", "dangling"):
                if k == "dangling":
                    os.symlink("nothing-there", x)
                continue
            if k == "nowhere":
                os.rmdir(os.path.dirname(x))
                continue
            if k == "enotdir":
                os.rmdir(os.path.dirname(x))
                open(os.path.dirname(x), "w").close()
                continue
            if k == "dir":
                os.mkdir(x)
                continue
            if k == "garbage":
                open(x, "wb").write(r.choice([b"", b"x", os.urandom(5000), b"blobpass", b"blobpass00990000" + os.urandom(400)]))
                continue
            if k == "broken":
                f["log"] = f["log"] + [{"time": w.tick(True), "kind": "setk", "uuid": w.uuid(), "key": "k", "value": "v"}] if r.random() < .5 else f["log"][1:] or [{"time": 1, "kind": "del", "uuid": w.uuid()}]
                if f["m"]:
                    f["log"] = f["log"][:0] + [t for t in f["log"]]
            if k in ("broken", "notjson"):
                own = r.choice([base["own"], f["own"]])
                w.codec.seal(x, own, {"log": f["log"]} if k == "broken" else r.choice([b"{", b"[1]", b'"x"', b"\xff", b'{"log": 3}']))
                continue
            if k == "link":
                real = os.path.join(os.path.dirname(x), "real.bp")
                w.write(f, real)
                os.symlink("real.bp", x)
                continue
            w.write(f, x)
            if k == "trunc":
                b = open(x, "rb").read()
                open(x, "wb").write(b[:r.randrange(len(b))])
        self.hist.append(["files", {self.p(x): {"kind": f.get("kind", "ok"), "m": f["m"], "own": f["own"], "events": len(f["log"])} for x, f in files.items()}])
        if self.wrap:
            self.ro = {x for x in self.rem if r.random() < .12}
        self.note_files()

    def scan(self):
        """The files that have changed since last time."""
        ch = {}
        for x in self.paths:
            try:
                s = os.stat(x)
                st = (s.st_ino, s.st_mtime_ns, s.st_size)
            except OSError:
                st = None
            if x not in self.stamp or self.stamp[x] != st:
                ch[self.p(x)] = self.seen[x] = self.w.look(x)
                self.stamp[x] = st
        return ch

    def own(self):
        """Everything is the unprivileged user's, who cannot change what is in the directories of self.ro."""
        if not self.wrap:
            return
        for top, ds, fs in os.walk(self.d):
            for x in [top] + [os.path.join(top, f) for f in fs]:
                os.chown(x, 65534, 65534, follow_symlinks=False)
        for x in self.rem:
            t = os.path.dirname(x)
            if os.path.isdir(t):
                r = x in self.ro
                os.chown(t, 0 if r else 65534, 0)
                os.chmod(t, 0o755)
                if self.rem.index(x) in self.hosts and os.path.isfile(x):
                    # written in place
                    os.chmod(x, 0o400 if r else 0o600)

    def locked(self):
        return [self.p(x) for x in sorted(self.ro)]

    def note_files(self):
        self.t.append({"k": "files", "f": self.scan()})

    # ---- people

    def policy(self, st=None):
        r, pol = self.rng, {"root": "y", "ask": "y", "any": "restore", "del": {}, "may": {}}
        if st:
            pol["ask"], pol["any"] = st["ask"], st["any"]
        elif self.sc.get("calm"):
            pol["root"], pol["ask"], pol["any"] = "y", r.choice("yn"), r.choice(["restore", "delete"])
        else:
            pol["root"], pol["ask"] = r.choice(["y", "y", "n", "eof"]), r.choice(["y", "n", "y", "n", "eof"])
            pol["any"] = r.choice(["restore", "delete"] * 4 + ["eof"])
        self.down = {self.rem[i] for i in self.hosts if not st and r.random() < .08}
        for i, h in self.hosts.items():
            h.keys([("ed25519", "other")] if self.rem[i] in self.down and r.random() < .3 else [h.key], refuse=self.rem[i] in self.down)
        for i, x in enumerate(self.rem):
            o = self.seen.get(x)
            may = {"u": "", "p": ""}
            if o and o["creds"] and (st or self.sc.get("calm") or r.random() < .75):
                # somebody is the same user everywhere
                mine = [c for c in o["creds"] if c[0] == self.me or c[0] == ""]
                if not mine and self.me == "":
                    mine = [r.choice(o["creds"])]
                    self.me = mine[0][0]
                c = mine[0] if mine else [self.me, r.choice(sorted(self.w.passes))]
                may = {"u": c[0], "p": c[1]}
            elif r.random() < .4:
                may = {"u": self.me, "p": r.choice(sorted(self.w.passes))}
            pol["may"][self.snames[i]] = may
        return pol

    def answerer(self, pol, asks, log):
        said = {}
        giveup = self.rng.choice([EOF, EOF, INT])

        def more(p):
            # the line with the question
            t = p.text
            m = re.search(r"^(.*) (user|passphrase): $", t, re.S)
            if m:
                n, kind = m.group(1), "user" if m.group(2) == "user" else "pass"
                asks.append([kind, n])
                a = pol["may"].get(n, {"u": "", "p": ""})["u" if kind == "user" else "p"]
                if (kind, n) in said or a == "":
                    ans = giveup
                else:
                    ans = a
                said[(kind, n)] = True
            elif "do you want to merge these anyway" in t:
                asks.append(["root", ""])
                ans = {"eof": giveup}.get(pol["root"], pol["root"])
                if self.rng.random() < .1 and ("odd", "root") not in said:
                    said[("odd", "root")] = True
                    ans = "maybe"
            elif "use remote credentials" in t:
                n = (re.findall(r'^remote "(.*)" has different credentials!$', p.out, re.M) or [""])[-1]
                n = json.loads('"%s"' % n)
                asks.append(["cred", n])
                ans = {"eof": giveup}.get(pol["ask"], pol["ask"])
            elif "[R]estore item" in t:
                us = re.findall(r'entry "([^"]*)" was deleted at', p.out)
                if us:
                    said["del"] = us[-1]
                u = said.get("del", "")
                asks.append(["del", u])
                if u not in pol["del"]:
                    pol["del"][u] = self.rng.choice(["restore", "delete"]) if pol["any"] != "eof" and not self.script and self.rng.random() < .5 else pol["any"]
                how = pol["del"][u]
                ans = giveup if how == "eof" else self.rng.choice({"restore": "rR", "delete": "dD"}[how])
                if self.rng.random() < .1 and ("odd", u) not in said:
                    said[("odd", u)] = True
                    ans = "x"
            else:
                asks.append(["?", t])
                ans = giveup
            log.append([t, plain(ans)])
            return ans
        return more

    # ---- sessions

    def load(self, path):
        """A file as World knows it."""
        o = self.seen[path]
        x = self.w.codec.open(path, *o["creds"][0])
        return {"log": parse_log(x["text"]), "m": o["m"], "own": o["own"], "key": o["key"]}

    def replay(self):
        """A history of module SyncModel, on real files and with the real program."""
        r, w, sc = self.rng, self.w, self.sc
        self.rem = [os.path.join(self.d, "rem%d" % i, "r.bp") for i in range(sc["nrem"])]
        self.snames = ["s%d" % i for i in range(sc["nrem"])]
        self.dev = [os.path.join(self.d, "dev%d" % i, "f.bp") for i in range(sc["ndev"])]
        self.connect(lambda i: r.random() < sc.get("ssh", 0))
        for x in self.rem + self.dev:
            os.makedirs(os.path.dirname(x))
        self.paths = self.rem + self.dev
        f = {"log": [], "m": "", "own": "p0", "key": w.salt()}
        w.passes.add("p0")
        e1 = w.entry(f, "mail")
        ss = [w.entry(f, n, url=self.url(i), sync="true", **self.known(i)) for i, n in enumerate(self.snames)]
        self.role = {}
        if sc["multi"]:
            w.adduser(f, "ann", "p0")
            w.adduser(f, "bob", "q0")
        for x in self.dev:
            w.write(f, x)
        self.note_files()
        for n, st in enumerate(sc["script"]):
            op = st["op"]
            self.hist.append(["step", st])
            if op == "break":
                x = self.rem[int(st["p"][1:]) - 1]
                shutil.rmtree(os.path.dirname(x))
                os.mkdir(os.path.dirname(x))
                open(x, "wb").write(r.choice([b"", b"x" * 99, b"blobpass00990000" + os.urandom(400), b"blobpass00010000" + os.urandom(400)]))
                self.note_files()
                continue
            if "d" in st and not isinstance(st["d"], int):
                st = dict(st, d=int(st["d"][1:]) - 1)
            dev = self.dev[st["d"]]
            if self.seen[dev]["st"] != "ok" or not self.seen[dev]["creds"]:
                break
            if op == "sync":
                self.ro = {x for i, x in enumerate(self.rem) if "r%d" % (i + 1) not in st["pushed"]} if self.wrap else set()
                if not self.session(st):
                    break
                continue
            f = self.load(dev)
            view, us = replay(f["log"]), w.users_of(f)
            me = st["who"][0] if st["who"][0] in us else sorted(us)[0] if us else ""
            if op == "set" and e1 in view:
                w.put(f, w.tick(True), "setk", e1, "k1", "v%d" % n)
            elif op == "del" and e1 in view:
                w.put(f, w.tick(True), "del", e1)
            elif op == "moved" and ss[0] in view:
                w.put(f, w.tick(True), "setk", ss[0], "url", "ftp://x/y")
            elif op == "passwd":
                w.passwd(f, "p%d" % n, me)
            elif op == "adduser":
                w.adduser(f, "n%d" % n, "p%d" % n)
            elif op == "rmuser" and len(us) > 1:
                w.rmuser(f, r.choice([x for x in sorted(us) if x != me]))
            elif op == "single":
                for x in sorted(us):
                    w.rmuser(f, x)
            elif op == "rekeyall" and us:
                w.rekeyall(f)
            w.write(f, dev)
            self.note_files()
        return {"t": self.t, "hist": self.hist}

    def run(self):
        try:
            return self.all()
        finally:
            for h in self.hosts.values():
                h.close()

    def all(self):
        self.role, self.script = {}, "script" in self.sc
        if self.script:
            return self.replay()
        self.start()
        for s in range(self.sc["sessions"]):
            if not self.session(s):
                break
        return {"t": self.t, "hist": self.hist}

    def loose(self, files):
        return any(self.seen.get(x, {}).get("st") == "bad" and os.path.isfile(x) for x in self.rem) or len({self.url(i) for i in range(len(self.rem))}) < len(self.rem)

    def session(self, n):
        r = self.rng
        st = n if isinstance(n, dict) else None
        dev = self.dev[st["d"]] if st else r.choice(self.dev)
        o = self.seen[dev]
        if o["st"] != "ok" or not o["creds"]:
            return False
        who = r.choice(o["creds"])
        if st and list(st["who"]) in [[self.role.get(x[0], x[0]), x[1]] for x in o["creds"]]:
            who = [x for x in o["creds"] if [self.role.get(x[0], x[0]), x[1]] == list(st["who"])][0]
        self.me = who[0]
        auto = bool(st) or r.random() < .8
        if self.wrap and not st and r.random() < .3:
            self.ro = {x for x in self.rem if r.random() < .12}
        self.own()
        app = App(self.bin, os.path.dirname(dev), file=dev, nosync=not auto, wrap=self.wrap)
        asks, said = [], []
        pol = self.policy(st)
        more = self.answerer(pol, asks, said)
        try:
            todo = ([who[0]] if o["m"] else []) + [who[1]]
            p = app.next()
            while p is not None and not p.main:
                if todo:
                    app.say(todo.pop(0))
                else:
                    app.say(more(p))
                p = app.next()
            loose = self.loose(None)
            self.hist.append(["open", self.p(dev), who, "auto" if auto else "", said, (p.out if p else app.out)[-1500:]])
            self.t.append({"k": "open", "path": self.p(dev), "who": who, "ok": p is not None,
                           "sync": p is None and auto and not app.crashed() and self.opens(dev, o, who)})
            if p is None:
                if app.crashed():
                    self.t.append({"k": "end", "leave": "lost", "auto": auto, "pol": pol, "written": self.scan(), "asks": asks, "crash": True, "loose": True, "ro": self.locked(), "down": [self.p(x) for x in sorted(self.down)], "rc": app.rc})
                    self.hist.append(["crash", app.err[:1500]])
                return False
            log = self.take(app)
            if auto:
                self.t.append({"k": "sync", "auto": True, "name": "", "pol": pol, "log": log, "written": self.scan(), "asks": asks, "crash": False, "loose": loose, "ro": self.locked(), "down": [self.p(x) for x in sorted(self.down)]})
            for _ in range(0 if st else self.sc["cmds"]):
                log = self.command(app, log)
                if log is None:
                    return False
            return self.leave(app, dev, auto, st)
        finally:
            app.kill()

    def opens(self, dev, o, who):
        """Whether it can be opened when nothing is synced."""
        app = App(self.bin, os.path.dirname(dev), file=dev, nosync=True, wrap=self.wrap)
        try:
            p = app.next()
            for x in ([who[0]] if o["m"] else []) + [who[1]]:
                if p is None or p.main:
                    break
                app.say(x)
                p = app.next()
            return p is not None and p.main
        finally:
            app.kill()

    def take(self, app):
        return [self.w.norm(t) for t in app.must_log()]

    def command(self, app, log):
        r, w = self.rng, self.w
        k = r.choice(self.sc["plan"])
        asks, said = [], []
        if k in ("sync", "syncname"):
            pol = self.policy()
            loose = self.loose(None)
            name = "" if k == "sync" else r.choice(self.snames)
            res = app.run("sync " + name if name else "sync", more=self.answerer(pol, asks, said))
            self.hist.append([res["line"], said, res["out"][-1500:]])
            ev = {"k": "sync", "auto": not name, "name": name, "pol": pol, "asks": asks, "crash": not res["open"], "loose": loose, "ro": self.locked(), "down": [self.p(x) for x in sorted(self.down)]}
            ev["written"] = self.scan()
            ev["log"] = self.take(app) if res["open"] else log
            self.t.append(ev)
            if not res["open"]:
                self.hist.append(["crash", res["crash"]])
            return ev["log"] if res["open"] else None
        pw = ""
        if k == "set":
            line, ans = "set %s %s %s" % (r.choice(["mail", "web", "bank"]), r.choice(["k1", "k2"]), "w%d" % r.randrange(99)), []
        elif k == "rm":
            n = r.choice(["mail", "web", "bank"])
            line, ans = "rm " + n, [n]
        elif k == "rekey":
            line, ans = "rekey", []
        elif k == "passwd":
            pw = r.choice(PASSES) + "%x" % r.getrandbits(20)
            w.passes.add(pw)
            line, ans = "passwd", ["m", pw, pw]
        res = app.run(line, ans)
        self.hist.append([line, plain(ans), res["out"][-300:]])
        if not res["open"]:
            self.t.append({"k": "end", "leave": "lost", "auto": False, "pol": self.policy(), "written": self.scan(), "asks": [], "crash": True, "loose": True, "ro": self.locked(), "down": [self.p(x) for x in sorted(self.down)], "rc": app.rc})
            return None
        new = self.take(app)
        ev = {"k": "edit", "log": new, "pass": "", "key": ""}
        if k in ("rekey", "passwd") and "not found" not in res["out"]:
            ev["pass"] = pw
            salts = [t["v"] for t in new[len(log):] if t["k"] == "salt"]
            ev["key"] = salts[-1] if salts else "fresh"
        self.t.append(ev)
        return new

    def leave(self, app, dev, auto, st=None):
        how = self.rng.choice(["exit"] * 6 + ["eof", "int"])
        if st:
            how = "exit" if st["saved"] else "int"
        asks, said, pol = [], [], self.policy(st)
        more = self.answerer(pol, asks, said)
        loose = self.loose(None)
        app.say({"exit": "exit", "eof": EOF, "int": INT}[how])
        p = app.next()
        n = 0
        while p is not None and n < 200:
            app.say(more(p))
            p = app.next()
            n += 1
        app.kill()
        self.t.append({"k": "end", "leave": "int" if how == "int" else "exit", "auto": auto, "pol": pol, "written": self.scan(), "asks": asks,
                       "crash": app.crashed() or n >= 200, "loose": loose, "ro": self.locked(), "down": [self.p(x) for x in sorted(self.down)], "rc": app.rc})
        self.hist.append([how, said, app.out[-1500:], app.err[:800] if app.crashed() else ""])
        return not app.crashed()


NOBODY = ("setpriv", "--reuid", "65534", "--regid", "65534", "--clear-groups")

KINDS = {
    "plain": ["add", "set", "set", "set", "delk"],
    "conflict": ["set", "set", "rm", "rm", "add"],
    "pass": ["set", "add", "pass", "salt"],
    "users": ["set", "adduser", "rmuser", "pass", "rekeyall", "single", "pass"],
    "moved": ["set", "url", "rmsync", "add"],
    "all": ["add", "set", "delk", "rm", "pass", "adduser", "rmuser", "rekeyall", "single", "url", "rmsync"],
}


def scenarios(c, n, mix, fork=0):
    out = []
    for i in range(n):
        r = c.rng
        k = r.choices(list(mix), list(mix.values()))[0]
        out.append({"seed": r.getrandbits(48), "kind": k, "ops": KINDS[k], "multi": r.random() < (.7 if k == "users" else .3 if k == "all" else .12),
                    "nrem": r.choice([1, 1, 2, 2, 3]), "ndev": r.choice([1, 1, 2]), "sessions": r.choice([1, 2, 3]), "cmds": r.choice([0, 1, 1, 2, 3]),
                    "plan": ["sync", "sync", "syncname", "set", "rm"] + (["rekey", "passwd"] if k in ("pass", "users", "all") else ["set"]),
                    "calm": r.random() < .3, "unpriv": r.random() < .35, "ssh": r.choice([0, 0, .5, 1]), "fork": fork})
    return out


def run_sync(c, scs, par=8):
    b = build("bpass", "codec", "sshsrv")
    codec = Codec(b["codec"], 8)
    env = {"bpass": b["bpass"], "codec": codec, "srv": Servers(b["sshsrv"]), "nobody": Servers(b["sshsrv"], NOBODY)}
    os.chmod(vf.work(), 0o711)
    keys, urls = {}, {}

    def one(sc):
        with Dir() as d:
            x = SyncRun(env, d, sc)
            res = x.run()
            keys.update(x.w.keys)
            urls.update(x.urls)
            res["ssh"] = len(x.hosts)
            for e in res["t"]:
                for o in ([e] if "log" in e else []) + list(e.get("f", {}).values()) + list(e.get("written", {}).values()):
                    for t in o["log"]:
                        if t["k"] == "url":
                            u = t["v"]
                            urls.setdefault(u, u[7:] if u.startswith("file://") else "none")
            return res
    try:
        res = pmap(one, scs, par)
    finally:
        codec.close()
        env["srv"].close()
        env["nobody"].close()
    return res, keys, urls


def compact(t):
    """Moments as small numbers in the same order; returns the strings there are."""
    logs = [o["log"] for e in t for o in ([e] if "log" in e else []) + list(e.get("f", {}).values()) + list(e.get("written", {}).values())]
    rank = {x: i + 1 for i, x in enumerate(sorted({x["tm"] for l in logs for x in l}))}
    strs, done = set(), set()
    for l in logs:
        if id(l) in done:
            continue
        done.add(id(l))
        for x in l:
            if x["tm"] in rank and not x.get("_"):
                x["tm"], x["_"] = rank[x["tm"]], True
            strs |= {x["u"], x["kind"], x["k"], x["v"]}
    for l in logs:
        for x in l:
            x.pop("_", None)
    return strs


def judge_sync(c, scs, relevant, what="sync"):
    res, keys, urls = run_sync(c, scs)
    traces, idx, strs = [], [], set()
    for i, r in enumerate(res):
        if "hang" in r:
            if relevant("hang", {}):
                c.violation("the program shows no sign of life: " + r["hang"], {"scenario": scs[i]})
            continue
        t = json.loads(json.dumps(r["t"]))
        strs |= compact(t)
        traces.append({"t": t})
        idx.append(i)
    tables = {"rank": {s: i + 1 for i, s in enumerate(sorted(strs, key=lambda s: s.encode()))}, "key": keys or {"-": {"p": "", "m": "none"}}, "path": urls or {"-": "none"}}
    bad, st = judge("SyncTrace", traces, "SyncTrace.cfg", tables=tables)
    c.cov["states"] += st["states"]
    c.cov["transitions"] += st["generated"]
    badtr, foreign = set(), 0
    for ti, at, w in sorted(bad):
        if "setup" in w:
            raise Broken("the files made to start from are not as they should be: %s" % json.dumps(traces[ti]["t"][at - 1])[:1500])
        if ti in badtr:
            continue
        ev = traces[ti]["t"][at - 1]
        rel = sorted(x for x in w if relevant(x, ev))
        if not rel:
            foreign += 1
            badtr.add(ti)
            continue
        badtr.add(ti)
        c.violation("%s: not as specified (%s)" % (ev["k"], ", ".join(rel)),
                    {"wrong": w, "position": at, "event": ev, "history": res[idx[ti]]["hist"], "scenario": scs[idx[ti]]})
    c.traces(len(traces) - len(badtr))
    c.count("sessions", sum(1 for t in traces for e in t["t"] if e["k"] == "open"))
    syncs = [e for t in traces for e in t["t"] if e["k"] == "sync" or e["k"] == "end" and e["auto"]]
    c.count("syncs", len(syncs))
    c.count("scenes_with_ssh", sum(1 for r in res if r.get("ssh")))
    c.count("unreachable", sum(len(e["down"]) for e in syncs))
    c.count("pushes", sum(1 for e in syncs for p in e["written"] if "/rem" in p))
    for k in ("root", "del", "cred", "user", "pass"):
        c.count("questions_" + k, sum(1 for e in syncs for a in e["asks"] if a[0] == k))
    if foreign:
        c.cov["events_wrong_in_ways_of_other_properties"] = foreign
    for r in res[:3]:
        if "hist" in r:
            c.sample(r["hist"][:6])
    return res


# ---------------------------------------------------------------- module SyncModel

LAWS = ("Valid", "NoLoss", "Untouched", "SelfOpens", "OldPass", "Openable", "Given", "Converges")


def model_cfg(dev, rems, multi, ops, n, faults=False, control="", inv=LAWS, view=True):
    s = lambda x: "{%s}" % ", ".join('"%s"' % y for y in x)
    return ("SPECIFICATION MSpec\nCHECK_DEADLOCK FALSE\n%sCONSTANTS\n Dev = %s\n Rems = %s\n Multi = %s\n Ops = %s\n MaxSteps = %d\n"
            " Faults = %s\n Control = \"%s\"\n KeyOf <- MKey\n PathOf <- MPath\n Rank <- MRank\n%s" %
            ("VIEW MView\n" if view else "", s(dev), s(rems), str(multi).upper(), s(ops), n, str(faults).upper(), control,
             "".join("INVARIANT %s\n" % i for i in inv)))


D2 = ["d1", "d2"]
SINGLE_OPS = ["set", "del", "passwd", "adduser", "single"]
MULTI_OPS = ["set", "passwd", "adduser", "rmuser", "single", "rekeyall"]


def sync_design(c, big):
    k = 1 if big else 0
    t = 3000 if big else 600
    c.design("SyncModel", model_cfg(D2, ["r1"], False, SINGLE_OPS, 3 + k, True), timeout=t, mem="8g")
    c.design("SyncModel", model_cfg(D2, ["r1"], True, MULTI_OPS, 3, True), timeout=t, mem="8g")
    c.design("SyncModel", model_cfg(D2, ["r1", "r2"], False, ["set", "passwd", "break", "moved"], 3 + k, True), timeout=t, mem="8g")
    if big:
        c.design("SyncModel", model_cfg(D2, ["r1"], True, MULTI_OPS, 4, True, inv=LAWS[:-1]), timeout=t, mem="8g")
    for ctl, inv in (("blind", "Untouched"), ("newest", "NoLoss"), ("mine", "Converges")):
        r = tlc("SyncModel", model_cfg(D2, ["r1"], False, ["set", "passwd", "break"], 4, False, ctl, [inv]), timeout=t)
        if "Invariant %s is violated" % inv not in r.out:
            raise Broken("negative control %s of SyncModel does not break %s:\n%s" % (ctl, inv, r.out[-3000:]))
    c.count("negative_controls", 3)


def model_scripts(c, n, kinds=("single", "multi", "two")):
    """Histories of module SyncModel to run the program on, n of each kind."""
    res = []
    for k in kinds:
        rems, multi, ops = {"single": (["r1"], False, SINGLE_OPS), "multi": (["r1"], True, MULTI_OPS),
                            "two": (["r1", "r2"], False, ["set", "del", "passwd", "break", "moved"])}[k]
        ss, r = scenarios_of("SyncModel", model_cfg(D2, rems, multi, ops, 7, True, inv=["MEnd"], view=False), simulate=n // 10 + 5, depth=8,
                             seed=c.rng.getrandbits(31), timeout=900)
        seen, out = set(), []
        for x in ss:
            key = json.dumps(x["h"], sort_keys=True)
            if key in seen or not any(e["op"] == "sync" for e in x["h"]):
                continue
            seen.add(key)
            out.append({"seed": c.rng.getrandbits(48), "kind": k, "multi": multi, "nrem": len(rems), "ndev": 2, "script": x["h"], "unpriv": True, "ssh": c.rng.choice([0, 0, 0, .5])})
        res += c.rng.sample(out, min(n, len(out)))
    return res
