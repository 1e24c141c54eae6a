"""Import from lpass and export to csv (modules Transfer, TransferModel, TransferTrace)."""
import base64, csv, io, itertools, json, stat
from vf import *
from app import App, Codec, Dir, EOF, INT, plain, pmap
from session import Maker

HEAD = "url,username,password,extra,name,grouping,fav".split(",")
NAMES = ["mail", "My Mail", "MY MAIL", "my_mail", "mail1", "MAIL", "a", "A", "a1", "a11", "B b  b", "ÜBER Web", "über_web", "Юзер", "日本", "x/y", "user/ann", "a,b", 'q"uote', " lead", "trail ", "", "two\nlines", "r\r\nn", "ß", "%s", "tab\tx", "🔑 Key"]
VALS = ["", "v", "with, comma", 'say "hi"', "two\nlines", "crlf\r\nhere", " lead", "trail ", "ünï日本", "=1+1", "'", "#x", '"', '""', ",", "\n", "a\n\nb", "\\n", "%d%s", "x" * 3000, "http://u:p@h:1/x?y=1&z", "http://sn", "1", "0", "\\.", "-", "🔑", "tab\there"]
GROUPS = ["", "", "Work", "My Group", "a,b", "ÄÖ", "Lpfav", "x\\Y", "home"]
KEYS = ["user", "pass", "url", "notes", "labels", "email", "extra key", "k,1", 'k"2', "ünï", "k\n3", " k4", "totp", "URL", "x" * 60, "=k", "#k", "-"]
USERS = [("ann", "pa"), ("Bob", "pb"), ("ü x", "p c")]


def norm_text(t):
    return json.dumps(t).encode()


def replay(log):
    ents, order = {}, []
    for t in log:
        u = t["uuid"]
        if t["kind"] == "add":
            ents[u] = {}
            order.append(u)
        elif u in ents and t["kind"] == "setk":
            ents[u][t["key"]] = t.get("value", "")
        elif u in ents and t["kind"] == "delk":
            ents[u].pop(t["key"], None)
        elif u in ents and t["kind"] == "del":
            del ents[u]
            order.remove(u)
    return {u: ents[u] for u in order}


class Sheet:
    """What a fake lpass puts out, and what that is."""

    def __init__(self, rng, rows, head=None, ends="\n", quote=csv.QUOTE_MINIMAL, cut=None, status=0, found=True, mess=None):
        self.rows = rows
        h = HEAD if head is None else head
        f = io.StringIO()
        w = csv.writer(f, lineterminator=ends, quoting=quote)
        if h:
            w.writerow(h)
        for r in rows:
            w.writerow(r)
        t = f.getvalue()
        self.ok_head = h == HEAD
        self.cut = False
        if mess:
            t = mess(t)
            self.cut = True
        if cut:
            t, self.cut = t + cut, True
        self.text, self.status, self.found = t, status, found

    def lp(self):
        rows = []
        for r in self.rows:
            d = dict(zip(HEAD, (list(r) + [""] * 7)[:7]))
            d["n"] = len(r)
            rows.append(d)
        return {"found": self.found, "status": self.status, "head": self.ok_head, "cut": self.cut, "rows": rows}


def row(rng, names=NAMES):
    v = lambda: rng.choice(VALS) if rng.random() < .75 else ""
    return [v(), v(), v(), v(), rng.choice(names), rng.choice(GROUPS), rng.choice(["0", "0", "1", "", "1", "2", "true", "01"])]


def odd_sheet(rng):
    rows = [row(rng) for _ in range(rng.randrange(0, 4))]
    k = rng.randrange(14)
    if k == 0:
        return Sheet(rng, rows, head=HEAD[:-1])
    if k == 1:
        return Sheet(rng, rows, head=HEAD + ["totp"])
    if k == 2:
        h = list(HEAD)
        i = rng.randrange(6)
        h[i], h[i + 1] = h[i + 1], h[i]
        return Sheet(rng, rows, head=h)
    if k == 3:
        return Sheet(rng, rows, head=[x.upper() for x in HEAD])
    if k == 4:
        return Sheet(rng, rows, head=[])        # no header at all
    if k == 5:
        return Sheet(rng, rows + [row(rng)[:rng.randrange(1, 7)]] + rows)
    if k == 6:
        return Sheet(rng, rows + [row(rng) + ["more"]])
    if k == 7:
        return Sheet(rng, rows, cut='h,u,p,"never closed')
    if k == 8:
        return Sheet(rng, rows, cut='h,u,p,x"y,n,g,0\n')
    if k == 9:
        return Sheet(rng, rows, cut='h,u,p,"x"y,n,g,0\n')
    if k == 10:
        return Sheet(rng, rows + [row(rng)], status=rng.choice([1, 2, 255]))
    if k == 11:
        return Sheet(rng, rows, found=False)
    if k == 12:
        s = Sheet(rng, [])
        s.text, s.ok_head = rng.choice(["", "\n", "Error: Could not find decryption key. Perhaps you need to login with `lpass login`.\n", "url\n", "\ufeff" + ",".join(HEAD) + "\n"]), False
        return s
    return Sheet(rng, rows, cut="h,u\n")


def startlog(rng, names=None):
    m = Maker()
    us = []
    for n in (names if names is not None else rng.sample(NAMES, rng.randrange(0, 6))):
        kv = {rng.choice(KEYS[:5]): rng.choice([v for v in VALS if v]) for _ in range(rng.randrange(0, 3))}
        us.append(m.entry(n, **kv))
    if us and rng.random() < .3:
        m.put("del", us[rng.randrange(len(us))])
        m.tick()
    return m.log


def export_log(rng):
    m = Maker()
    us = []
    for _ in range(rng.choice([0, 1, 2, 3, 6, 12])):
        u = m.entry(rng.choice([n for n in NAMES if n]))
        us.append(u)
        for _ in range(rng.randrange(0, 7)):
            m.set(u, rng.choice(KEYS), rng.choice(VALS))
            if rng.random() < .2:
                m.put("delk", u, rng.choice(KEYS))
                m.tick()
    for u in us:
        if rng.random() < .15:
            m.put("del", u)
            m.tick()
    return m.log


def run(c):
    big = TIER == "thorough"
    rng = c.rng
    cfg = "SPECIFICATION Spec\nINVARIANT %s\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Names0 = {\"a\", \"a1\", \"b\"}\n RowNames = {\"A\", \"a\", \"a1\", \"b b\", \"a11\"}\n MaxRows = %d\n Bug = \"%s\"\n LC <- Id\n"
    c.design("TransferModel", cfg % ("Unique Kept Meets Export", 4 if big else 3, ""))
    for bug in ("same", "old"):
        if "is violated" not in tlc("TransferModel", cfg % ("Meets", 3, bug)).out:
            raise Broken("the specification does not notice " + bug)
        c.count("negative_controls")
    ss, _ = scenarios_of("TransferModel", cfg % ("Emit", 3, ""))
    ss = sorted(ss, key=str)
    rng.shuffle(ss)
    bins = build("bpass", "codec")
    codec = Codec(bins["codec"])
    scs = []
    for s in ss[:1400 if big else 160]:
        scs.append({"k": "import", "existed": bool(s["old"]), "log": startlog(rng, s["old"]) if s["old"] else [], "ans": "y",
                    "sheet": Sheet(rng, [row(rng, [n]) for n in s["rows"]], quote=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL]))})
    n_model = len(scs)
    for _ in range(2500 if big else 260):
        existed = rng.random() < .7
        sh = odd_sheet(rng) if rng.random() < .4 else Sheet(rng, [row(rng) for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))], ends=rng.choice(["\n", "\r\n"]), quote=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL]))
        ans = rng.choice(["y", "Y", "y", "y", "n", "N", "", "yes", "Yes", " y", "y ", "j", EOF, INT]) if rng.random() < .6 else "y"
        scs.append({"k": "import", "existed": existed, "log": startlog(rng) if existed else [], "ans": ans, "sheet": sh, "users": existed and rng.random() < .3})
    for _ in range(2500 if big else 260):
        t = rng.random()
        scs.append({"k": "export", "log": export_log(rng), "fmt": rng.choice(["CSV"] * 9 + ["csv", "JSON", "", "CSV "]), "users": rng.random() < .2,
                    "target": "ok" if t < .7 else rng.choice(["exists", "dir", "nodir", "full", "deep"])})
    # written before there are threads: a program that is being written while
    # another thread forks cannot be executed
    lpass = os.path.join(work(), "lpass")
    open(lpass, "w").write("#!/bin/sh\nd=$(dirname \"$0\")/..\n[ \"$1\" = export ] || exit 9\ncat \"$d/data\"\nread -r n < \"$d/status\"\nexit $n\n")
    os.chmod(lpass, 0o755)
    lower = {}
    for s in scs:
        if s["k"] == "import":
            for r in s["sheet"].rows:
                for ch in "".join(r):
                    if ch.lower() != ch and len(ch.lower()) == 1:
                        lower[ch] = ch.lower()

    def one(s):
        with Dir() as d:
            f = os.path.join(d, "f.bp")
            text = {"log": s["log"]}
            users = USERS if s.get("users") else []
            existed = s.get("existed", True)
            if users:
                # a file with users has their entries
                ks = codec.call(op="keys", users=[{"name": n, "pass": p} for n, p in users])
                m = Maker(1500000000)
                for k in ks["keys"]:
                    m.entry("user/" + k["name"], salt=k["salt"], iv=k["iv"], mkey=k["mkey"])
                mine = {t["uuid"] for t in s["log"] if t.get("value") == "user/ann"}
                s["log"] = m.log + [t for t in s["log"] if t["uuid"] not in mine]
                r = codec.call(op="assemble", path=f, text=base64.b64encode(norm_text({"log": s["log"]})).decode(), master=ks["master"],
                               mats=[{k: x[k] for k in ("name", "salt", "iv", "mkey")} for x in ks["keys"]])
                if not r["ok"]:
                    raise Broken("codec: " + r["err"])
            elif existed:
                codec.seal(f, "pw", text)
            before = open(f, "rb").read() if existed else None
            os.makedirs(d + "/bin")
            env = {"PATH": d + "/bin:/usr/bin:/bin"}
            who = USERS[len(s["log"]) % 3] if users else ("", "pw")
            if s["k"] == "import":
                sh = s["sheet"]
                open(d + "/data", "wb").write(sh.text.encode())
                open(d + "/status", "w").write("%d\n" % sh.status)
                if sh.found:
                    os.symlink(lpass, d + "/bin/lpass")
                args = ["lpassimport"]
            else:
                out = {"ok": "out.csv", "exists": "old.csv", "dir": "bin", "nodir": "no/out.csv", "full": "/dev/full", "deep": "bin/ü o.csv"}[s["target"]]
                out = os.path.join(d, out)
                if s["target"] == "exists":
                    open(out, "w").write("what was here before\n" * 400)
                args = ["export", *([] if s["fmt"] == "CSV" else ["--format", s["fmt"]]), out]
            app = App(bins["bpass"], d, args=args, env=env)
            asked, ans = 0, ""
            try:
                cred = [*who] if users else ["pw"] if existed else ["pw", "pw"]
                while True:
                    p = app.next()
                    if p is None:
                        break
                    if p.text.startswith("proceed"):
                        asked += 1
                        ans = s["ans"]
                        app.say(ans)
                    else:
                        app.say(cred.pop(0) if cred else EOF)
                rc = app.rc
            finally:
                app.kill()
            after = open(f, "rb").read() if os.path.exists(f) else None
            same = before == after or (existed and after is not None and all(codec.log(f, *w) == s["log"] for w in (users or [who])))
            if s["k"] == "import":
                ev = {"k": "import", "existed": existed, "lp": s["sheet"].lp(), "asked": asked, "ans": "<%s>" % ans if not isinstance(ans, str) else ans, "rc": rc, "same": same}
                old = replay(s["log"])
                log = codec.log(f, *who) if after is not None else []
                ev["opens"] = log is not None and all(codec.log(f, *w) == log for w in (users or [who]))
                log = log or []
                ev["kept"] = log[:len(s["log"])] == s["log"]
                now = replay(log)
                ev["kept"] = ev["kept"] and all(now.get(u) == e for u, e in old.items())
                ev["old"] = list(old.values())
                ev["new"] = [e for u, e in now.items() if u not in old]
            else:
                ev = {"k": "export", "fmt": s["fmt"], "fine": s["target"] in ("ok", "exists", "deep"), "rc": rc, "same": same, "ents": list(replay(s["log"]).values()),
                      "fresh": s["target"] != "exists", "private": True, "read": False, "head": [], "rows": []}
                if ev["fine"] and os.path.exists(out):
                    ev["private"] = stat.S_IMODE(os.stat(out).st_mode) & 0o77 == 0
                    try:
                        rows = list(csv.reader(io.StringIO(open(out, "rb").read().decode(), newline=""), strict=True))
                        ev["read"] = len(rows) > 0
                        ev["head"], ev["rows"] = rows[0], rows[1:]
                    except (csv.Error, UnicodeDecodeError, IndexError):
                        pass
            return ev
    res = pmap(one, scs)
    codec.close()
    traces = []
    for s, ev in zip(scs, res):
        if "hang" in ev:
            c.violation("no answer", {"scenario": str(s), "result": ev})
            traces.append({"t": []})
        else:
            traces.append({"t": [ev]})
            c.count("%s_rc%s" % (ev["k"], ev["rc"]))
    bad, st = judge("TransferTrace", traces, "TransferTrace.cfg", tables=lower or {"A": "a"}, chunk=-(-len(traces) // 8), parallel=8)
    c.cov["states"] += st["states"]
    c.cov["transitions"] += st["generated"]
    c.cov["scenarios"] = {"from_model": n_model, "all": len(scs)}
    c.traces(len(traces))
    for i, at, w in bad:
        s = scs[i]
        c.violation("%s: %s" % (",".join(w), str({k: v for k, v in s.items() if k not in ("log", "sheet")})), {"event": traces[i]["t"][0], "wrong": w, "data": s["sheet"].text if "sheet" in s else "", "log": s["log"]})
    for i in (0, n_model + 1, -1):
        c.sample(json.dumps(traces[i]["t"][:1])[:500])
