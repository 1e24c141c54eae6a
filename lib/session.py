"""Recording interactive sessions for module SessionTrace."""
import socket, threading
import ast, base64, hashlib, hmac, json, os, re, stat, struct, time, uuid
from urllib.parse import urlparse, parse_qs
import vf
from app import App, Dir, EOF, INT, TAB, plain, pmap

NAMES_SORT = lambda l: l == sorted(l, key=lambda s: s.encode("utf-8", "surrogateescape"))
PWPROMPT = "u/l/n/b/e/y/c/m/enter/?> "


def norm(tx):
    return {"kind": tx.get("kind", ""), "u": tx.get("uuid", ""), "k": tx.get("key", ""), "v": tx.get("value", ""), "tm": tx.get("time", 0)}


# ---------------------------------------------------------------- one-time codes, independently

def totp_secret(uri):
    try:
        return parse_qs(urlparse(uri).query).get("secret", [""])[0]
    except ValueError:
        return ""


def totp_codes(uri, t0, t1):
    u = urlparse(uri)
    if u.scheme != "otpauth" or u.netloc != "totp":
        return []
    s = totp_secret(uri).strip().upper()
    try:
        key = base64.b32decode(s + "=" * (-len(s) % 8))
    except Exception:
        return []
    if not s:
        return []
    out = []
    for n in range(int(t0) // 30, int(t1) // 30 + 1):
        h = hmac.new(key, struct.pack(">Q", n), hashlib.sha1).digest()
        o = h[-1] & 15
        out.append("%06d" % ((struct.unpack(">I", h[o:o + 4])[0] & 0x7fffffff) % 1000000))
    return out


# ---------------------------------------------------------------- files to start from

class Maker:
    """Makes histories."""

    def __init__(self, t=1600000000):
        self.t = t * 10**9
        self.log = []

    def tick(self, ns=10**9):
        self.t += ns

    def put(self, kind, u, k="", v=""):
        x = {"time": self.t, "kind": kind, "uuid": u}
        if k:
            x["key"] = k
        if v:
            x["value"] = v
        self.log.append(x)

    def entry(self, name, **kv):
        u = str(uuid.UUID(int=(hash_int(name, len(self.log)) & ((1 << 128) - 1)), version=4))
        self.put("add", u)
        self.put("setk", u, "updated", str(self.t))
        self.put("setk", u, "name", name)
        for k, v in kv.items():
            self.put("setk", u, k, v)
        self.tick()
        return u

    def set(self, u, k, v):
        self.put("setk", u, "updated", str(self.t))
        self.put("setk", u, k, v)
        self.tick()


def hash_int(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:16], "big")


# ---------------------------------------------------------------- reading what the program says

def parse_show(out):
    """Keys and values as show prints them, or None if that can't be told."""
    e, snaps, cur = {}, -1, None
    lines = out.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    if lines and not lines[0].startswith("  "):
        if lines[0] == "entry is empty":
            return {}, -1
        lines.pop(0)                       # "using: ..."
    if lines == ["entry is empty"]:
        return {}, -1
    order = []
    for ln in lines:
        if ln.startswith("    ") and cur is not None:
            e[cur] = (e[cur] + "\n" if e[cur] else "") + ln[4:]
            continue
        m = re.match(r"^  (\S+?):(?: +(.*))?$", ln)
        if not m:
            return None
        cur = m.group(1)
        e[cur] = m.group(2) or ""
        order.append(cur)
    if order and order[-1] == "snaps":
        snaps = int(e.pop("snaps"))
    return e, snaps


def parse_dump(out):
    e = {}
    lines = out.split("\n")
    for i, ln in enumerate(lines):
        m = re.match(r'^(\S+): (".*")$', ln)
        if m:
            try:
                e[m.group(1)] = ast.literal_eval(m.group(2))
            except Exception:
                return None
        elif ln and i > 0:
            return None
    return e


def claims(cmd, a, out):
    """Whether a writing command says it has done something."""
    return bool({"set": re.search(r"^set .* = ", out, re.M), "edit": re.search(r"^(set |erasing value)", out, re.M),
                 "mv": re.search(r"^moved ", out, re.M), "rm": re.search(r"^DELETED", out, re.M),
                 "label": re.search(r"^Updated labels", out, re.M), "rmlabel": re.search(r"^Updated labels", out, re.M),
                 "addsync": re.search(r"^added new sync", out, re.M)}.get(cmd))


def pw_outcome(asked, start):
    """What the password dialogue amounts to, from its prompts and answers."""
    shown, clips, i = None, [], start
    while i < len(asked):
        q = asked[i]
        for m in re.finditer(r"^password: (.*)$", q["out"], re.M):
            shown = m.group(1)
        a = q["ans"]
        if a is INT:
            return {"how": "int", "pw": "", "clips": clips}
        if a is EOF:
            return {"how": "eof", "pw": "", "clips": clips}
        if q["prompt"] == PWPROMPT:
            if a == "y":
                return {"how": "ok", "pw": shown or "<none>", "clips": clips}
            if a == "c":
                clips.append(shown or "<none>")
            if a == "m":
                two = asked[i + 1:i + 3]
                i += 2
                if any(t["ans"] in (INT, EOF) for t in two):
                    bad = next(t["ans"] for t in two if t["ans"] in (INT, EOF))
                    return {"how": "int" if bad is INT else "eof", "pw": "", "clips": clips}
                if len(two) == 2 and two[0]["ans"] == two[1]["ans"]:
                    return {"how": "ok", "pw": two[0]["ans"], "clips": clips}
        i += 1
    return {"how": "ok" if not asked[start:] else "open", "pw": "", "clips": clips}


def sync_outcome(kind, asked):
    """What the answers to addsync amount to."""
    sy = {"how": "ok", "url": "", "more": []}
    got = {}
    for q in asked:
        if q["ans"] is INT:
            sy["how"] = "int"
            return sy
        if q["ans"] is EOF:
            sy["how"] = "eof"
            return sy
        key = q["prompt"].split(":")[0].split(" ")[0]
        got[key] = q["ans"]
    if kind == "file":
        sy["url"] = "file://" + got.get("path", "")
    elif kind == "scp":
        user = got.get("user", "")
        if got.get(">") == "3":
            user += ":" + pw_outcome([q for q in asked], next((i for i, q in enumerate(asked) if q["prompt"] == PWPROMPT), len(asked)))["pw"]
        else:
            sy["more"] = ["privkey", "pubkey"]
        p = got.get("path", "")
        sy["url"] = "scp://%s@%s:%s/%s" % (user, got.get("host", ""), got.get("port", "") or "22", p)
    return sy


def tok(a):
    return "<EOF>" if a is EOF else "<INT>" if a is INT else a if isinstance(a, str) else "<bytes>"


# ---------------------------------------------------------------- recording

class Tables:
    def __init__(self):
        self.t = {"low": {}, "fold": {}, "totp": {}, "url": {}, "nolabel": {}, "secret": {}, "when": {}, "int": {}}

    def text(self, s):
        for ch in s:
            lo = ch.lower()
            if lo != ch and len(lo) == 1:
                self.t["low"][ch] = lo
            if ch.isspace() or ch.isupper():
                self.t["nolabel"][ch] = True

    def key(self, k):
        f = k.casefold()
        if f != k:
            self.t["fold"][k] = f

    def log(self, txs):
        for t in txs:
            if t["k"] == "name":
                self.text(t["v"])
            if t["k"] == "labels":
                self.text(t["v"])
            if t["k"] == "totp":
                self.t["secret"][t["v"]] = totp_secret(t["v"])
            if t["k"] == "updated" and re.match(r"^\d+$", t["v"]):
                self.t["when"][t["v"]] = time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(int(t["v"]) // 10**9))

    def merged(tabs):
        out = Tables()
        for x in tabs:
            for k, v in x.t.items():
                out.t[k].update(v)
        return out.t


NOPW = {"how": "ok", "pw": "", "clips": []}

# Programs are written once, before there are threads: one that is being
# written while another thread forks cannot be executed ("text file busy").
SCRIPTS = {
    "xdg-open": "#!/bin/sh\nd=$(dirname \"$0\")/..\nprintf '%s' \"$1\" > \"$d/o.tmp\" && mv \"$d/o.tmp\" \"$d/opened\"\n",
    "ed": "#!/bin/sh\n. \"$(dirname \"$0\")/../ed.do\"\n",
}


def scripts():
    d = os.path.join(vf.work(), "scripts")
    if not os.path.isdir(d):
        os.mkdir(d)
        for n, text in SCRIPTS.items():
            with open(os.path.join(d, n), "w") as fh:
                fh.write(text)
            os.chmod(os.path.join(d, n), 0o755)
    return d


class Outside:
    """Remotes that are only watched: files in a directory, and a port that nobody may connect to."""

    def __init__(self, d):
        self.d = os.path.join(d, "outside")
        os.mkdir(self.d)
        self.n = 0
        self.ln = socket.create_server(("127.0.0.1", 0))
        self.port = self.ln.getsockname()[1]
        threading.Thread(target=self.listen, daemon=True).start()

    def listen(self):
        while True:
            try:
                self.ln.accept()[0].close()
            except OSError:
                return
            self.n += 1

    def put(self, log):
        return [{**t, "value": t["value"].replace("@D", self.d).replace("@P", str(self.port))} if "value" in t else t for t in log]

    def look(self):
        self.was = self.tree()

    def tree(self):
        out = {}
        for n in sorted(os.listdir(self.d)):
            p = os.path.join(self.d, n)
            out[n] = (open(p, "rb").read() if os.path.isfile(p) else None, os.stat(p).st_mtime_ns, os.stat(p).st_ino)
        return out

    def reached(self):
        return self.n > 0 or self.tree() != self.was

    def close(self):
        self.ln.shutdown(socket.SHUT_RDWR)
        self.ln.close()


class Recorder:
    """Runs one session and records it."""

    def __init__(self, env, d, scenario):
        self.bin, self.codec = env["bpass"], env["codec"]
        self.d = d
        self.sc = scenario
        self.tab = Tables()
        self.t = []
        self.hist = []
        self.lost = False
        self.outside = None

    def run(self):
        sc = self.sc
        f = self.f = os.path.join(self.d, "s", "f.bp") if sc.get("lose") else os.path.join(self.d, "f.bp")
        if sc.get("lose"):
            os.mkdir(os.path.dirname(f))
        if sc.get("remotes"):
            # where the entries to sync with lead, below a directory of their own
            self.outside = Outside(self.d)
            sc = self.sc = {**sc, "file": self.outside.put(sc["file"])}
            for n, l in sc["remotes"].items():
                if l is not None:
                    self.codec.seal(os.path.join(self.outside.d, n), "pw", {"log": self.outside.put(l)})
            self.outside.look()
        text = {"log": sc["file"]} if sc.get("file") is not None else {}
        if sc.get("snapshot"):
            text.update(sc["snapshot"])
        self.codec.seal(f, "pw", text)
        self.before = open(f, "rb").read()
        bind = os.path.join(self.d, "bin")
        os.mkdir(bind)
        os.symlink(os.path.join(scripts(), "xdg-open"), os.path.join(bind, "xdg-open"))
        env = {"PATH": bind + ":/usr/bin:/bin", "EDITOR": os.path.join(bind, "ed")}
        env.update(sc.get("env", {}))
        args = list(sc.get("args", []))
        if sc.get("time"):
            args += ["-t", sc["time"]]
        app = self.app = App(self.bin, self.d, args=args, nosync=not sc.get("remotes"), env=env, clear=not sc.get("noclear"), file=f if sc.get("lose") else "f.bp",
                             tty=any(x["c"] == "open" for x in sc["cmds"]))
        try:
            if not app.open("pw"):
                self.t.append({"k": "dead", "out": app.out, "err": getattr(app, "err", "")[:1500]})
                return self.result(opened=False)
            filelog = [norm(x) for x in sc.get("file") or []]
            cur = app.log()
            if cur is None:
                return self.result(opened=False)
            self.log = [norm(x) for x in cur]
            self.tab.log(filelog + self.log)
            ranks = sorted({x["tm"] for x in filelog + self.log} | ({sc["at"]} if sc.get("time") else set()))
            rank = {t: i for i, t in enumerate(ranks)}
            rk = lambda l: [{**x, "tm": rank[x["tm"]]} for x in l]
            self.rank = rank
            self.t.append({"k": "open", "ro": bool(sc.get("time")), "at": rank[sc["at"]] if sc.get("time") else 0,
                           "file": rk(filelog), "log": rk(self.log), "reached": bool(self.outside) and self.outside.reached(), "noclear": bool(sc.get("noclear"))})
            for c in sc["cmds"]:
                if sc.get("lose") and c is sc["cmds"][-1]:
                    # nowhere to save to any more
                    self.lost = True
                    os.rename(os.path.dirname(f), os.path.join(self.d, "s-gone"))
                if not self.command(c):
                    break
            else:
                self.command({"c": EOF})
        finally:
            app.kill()
            if self.outside:
                self.outside.close()
        return self.result()

    def result(self, opened=True):
        return {"t": self.t, "tab": self.tab, "hist": self.hist, "opened": opened}

    def command(self, c):
        app = self.app
        cmd = c["c"]
        if cmd is TAB:
            app.say(TAB)
            app.next()
            names = app.tabs
            self.t.append({"k": "tab", "names": names, "sorted": NAMES_SORT(names)})
            self.hist.append("<TAB>")
            return True
        a = c.get("a", [])
        if cmd in (EOF, INT):
            line = cmd
        elif cmd == "":
            line = c.get("line", "")
        else:
            line = c["line"] if "line" in c else " ".join([c.get("word", cmd), *a])
            # what the arguments are once the line is taken apart
            a = line.strip().split(" ")[1:] if cmd == "set" else line.split()[1:]
        opened = os.path.join(self.d, "opened")
        if os.path.exists(opened):
            os.unlink(opened)
        ed = c.get("ed") or {"how": "ok" if cmd == "edit" else "none", "text": ""}
        edobs = {}
        if cmd == "edit":
            self.known = set(os.listdir(self.d))
            edobs = self.prepare_editor(ed)
        t0 = time.time()
        n0 = time.time_ns()
        r = app.run(line, c.get("ans", ()))
        n1 = time.time_ns()
        t1 = time.time()
        self.hist.append({"line": plain(line), "ans": [plain(q["ans"]) for q in r["asked"]], "out": r["out"][-1500:]})
        ev = {"k": "cmd", "open": r["open"], "crash": bool(r.get("crash")) or bool(r.get("endless")), "rc": r.get("rc", 0) or 0,
              "clips": r["clips"], "new": [], "pre": True, "ctx": "", "inside": False, "spoke": bool(r["out"].strip()),
              "names": [], "sorted": True, "out": r["out"], "parsed": False, "entry": {}, "snaps": -1, "claims": False, "opened": [],
              "cur": True, "same": True, "lost": self.lost, "reached": False, "edobs": edobs}
        if r.get("crash"):
            self.hist.append({"crash": r["crash"]})
        if self.outside:
            ev["reached"] = self.outside.reached()
        asked = r["asked"]
        ctext = "<EOF>" if cmd is EOF else "<INT>" if cmd is INT else cmd
        cc = {"c": ctext, "a": list(a), "ans": [tok(q["ans"]) for q in asked],
              "pw": dict(NOPW), "sy": {"how": "ok", "url": "", "more": []}, "codes": {}, "ed": {"how": ed["how"], "text": ed["text"]}}
        if cmd == "add":
            cc["pw"] = pw_outcome(asked, 2)
            cc["ans"] = cc["ans"][:2]
        elif cmd == "set" and any(q["prompt"] == PWPROMPT for q in asked):
            cc["pw"] = pw_outcome(asked, 0)
        elif cmd == "addsync":
            cc["sy"] = sync_outcome(a[0] if a else "", asked)
            cc["pw"] = {**NOPW, "clips": pw_outcome(asked, next((i for i, q in enumerate(asked) if q["prompt"] == PWPROMPT), len(asked)))["clips"]}
        for x in self.log:
            if x["k"] == "totp":
                cc["codes"][x["v"]] = totp_codes(x["v"], t0, t1)
        ev["c"] = cc
        for s in a + cc["ans"]:
            self.tab.text(s)
        for s in a:
            self.tab.key(s)
            if re.match(r"^[+-]?[0-9]+$", s):
                self.tab.t["int"][s] = max(-10**9, min(10**9, int(s)))
        for k in ("totp", "url"):
            if k in c:
                self.tab.t[k][c[k][0]] = c[k][1]
        if cmd in ("ls", "labels"):
            ev["names"] = r["out"].split("\n")[:-1] if r["out"].strip() else []
            ev["sorted"] = NAMES_SORT(ev["names"])
        if cmd == "show":
            p = parse_show(r["out"])
            if p is not None:
                ev["entry"], ev["snaps"] = p
                ev["parsed"] = True
        if cmd == "dump":
            p = parse_dump(r["out"])
            if p is not None:
                ev["entry"], ev["parsed"] = p, True
        if isinstance(cmd, str):
            ev["claims"] = claims(cmd, a, r["out"])
        if cmd == "open" and r["open"]:
            end = time.monotonic() + (2 if c.get("expect_open", True) else .1)
            while not os.path.exists(opened) and time.monotonic() < end and "url not set" not in r["out"] and "atch" not in r["out"] and "syntax" not in r["out"]:
                time.sleep(.005)
            if os.path.exists(opened):
                ev["opened"] = [open(opened).read()]
        if cmd == "edit":
            self.observe_editor(edobs, cc, ed)
        if not r["open"]:
            f = self.f
            data = open(f, "rb").read() if os.path.exists(f) else b""
            ev["same"] = data == self.before
            saved = self.codec.log(f, "", "pw") if data else None
            ev["cur"] = saved is not None and [norm(x) for x in saved] == self.log
            self.t.append(ev)
            return False
        m = re.match(r"^\([^)]*f\.bp[^)]*\)(?::(.*))?> $", r["prompt"], re.S)
        ev["inside"] = m.group(1) is not None
        ev["ctx"] = m.group(1) or ""
        cur = app.log()
        if cur is None:
            ev["crash"] = True
            self.hist.append({"crash": app.err[:1500]})
            self.t.append(ev)
            return False
        cur = [norm(x) for x in cur]
        n = len(self.log)
        ev["pre"] = cur[:n] == self.log
        new = cur[n:] if ev["pre"] else []
        self.tab.log(new)
        ev["new"] = [{"kind": x["kind"], "u": x["u"], "k": x["k"], "v": x["v"], "tm": 0,
                      "fresh": n0 <= x["tm"] <= n1 and (x["k"] != "updated" or (x["v"].isdigit() and n0 <= int(x["v"]) <= n1))} for x in new]
        if ev["pre"]:
            self.log = cur
        self.t.append(ev)
        return ev["pre"]

    # the editor: see module EditTmp
    def prepare_editor(self, ed):
        for n in ("ed.seen", "ed.link", "ed.mode", "ed.path", "ed.size"):
            p = os.path.join(self.d, n)
            if os.path.exists(p):
                os.unlink(p)
        p = os.path.join(self.d, "bin", "ed")
        how, do = ed["how"], ed.get("do", "write")
        if how in ("missing", "notmp"):
            if os.path.exists(p):
                os.unlink(p)
            return {"ran": False}
        with open(os.path.join(self.d, "ed.text"), "w", newline="") as fh:
            fh.write(ed["text"])
        body = "d='%s'\n" % self.d
        body += 'cat "$1" > "$d/ed.seen"\nstat -c "%a %u" "$1" > "$d/ed.mode"\nprintf %s "$1" > "$d/ed.path"\n'
        body += {"write": 'cat "$d/ed.text" > "$1"\n', "append": 'cat "$d/ed.text" >> "$1"\n', "keep": "",
                 "replace": 'cp "$d/ed.text" "$1.new"; chmod 600 "$1.new"; mv "$1.new" "$1"\n'}[do]
        body += 'ln "$1" "$d/ed.link"\nstat -c %s "$1" > "$d/ed.size"\n'
        body += {"ok": "exit 0\n", "fail": "exit 3\n", "signal": "kill -9 $$\n", "gone": 'rm "$1"\nexit 0\n'}[how]
        with open(os.path.join(self.d, "ed.do"), "w") as fh:
            fh.write(body)
        if not os.path.lexists(p):
            os.symlink(os.path.join(scripts(), "ed"), p)
        return {}

    def observe_editor(self, obs, cc, ed):
        g = lambda n: os.path.join(self.d, n)
        obs["ran"] = os.path.exists(g("ed.mode"))
        obs["private"] = obs["gone"] = obs["wiped"] = True
        obs["seen"] = ""
        if obs["ran"]:
            mode, uid = open(g("ed.mode")).read().split()
            obs["private"] = int(mode, 8) & 0o077 == 0 and int(uid) == os.getuid()
            path = open(g("ed.path")).read()
            obs["gone"] = not os.path.lexists(path)
            with open(g("ed.seen"), newline="", errors="surrogateescape") as fh:
                obs["seen"] = fh.read()
            if ed["how"] != "gone":
                left = open(g("ed.link"), "rb").read()
                obs["wiped"] = not left.strip(b"\0") and len(left) >= int(open(g("ed.size")).read())
            do = ed.get("do", "write")
            if do == "append":
                cc["ed"]["text"] = obs["seen"] + ed["text"]
            elif do == "keep":
                cc["ed"]["text"] = obs["seen"]
        if [n for n in os.listdir(self.d) if n not in self.known and not n.startswith((".out", ".err", "ed.")) and n not in ("opened", "o.tmp")]:
            obs["gone"] = False


def record(env, scenario):
    with Dir() as d:
        return Recorder(env, d, scenario).run()
