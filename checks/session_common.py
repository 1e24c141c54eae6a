"""Scenarios of interactive sessions and their judgement by module Session."""
import string
from vf import *
import session
from session import Maker, record, EOF, INT, TAB
from app import Codec, pmap

# ---------------------------------------------------------------- texts

FIRST = ["a", "b", "ab", "Ab", "bA", "a/b", "b/a", "A/b/c", "abc", "cab", "site", "Site", "site/mail", "site/Main", "user-x", "é", "Éa", "ключ", "日本",
         "x1", "x11", "a.b", "a-b", "..", "%s", "{}", "\\", "'q'", '"', "a%25b", "/", "//", "a/", "/a", "*", "-", "--help", "0", "12", "1", "nul",
         "ÀÉ", "longer-name-with-many-letters-in-it/and/parts"]
QUERIES = ["a", "b", "ab", "A", "B", "ba", "c", "s", "S", "si", "sm", "ite", "x", "/", "a/", "/b", "a/b", "s/m", "S/M", "é", "É", "ч", "本", "zzz", "site", "%",
           ".", "..", "1", "11", "e", "//", "a//", "q", "0", "-", "\\"]
PLAIN = ["v", "hello world", "p4ss", "with,comma", "quote\"s", "back\\slash", "percent%25", "tab\there", "ünïcödé", "日本語", "$HOME", "`ls`", "{a:b}", "a=b&c=d", "<tag>",
         "true", "null", "0", "-1", "  led", "'", "%s%d%n", "x" * 500, "\u200bzw", "é́", "&amp;", "set a = b", "a  b   c"]
KEYS = ["k", "note", "notes", "user", "email", "Custom", "a.b", "key:1", "x", "ключ", "pin", "labels", "sync", "password", "Pass", "USER"]
PROTECTED = ["name", "updated", "iv", "salt", "mkey", "Name", "NAME", "UPDATED", "Iv", "SALT", "MKey", "mKEY", "ſalt", "mKey"]
LABELS = ["l1", "l2", "work", "home", "ünï", "a-b", "x.y", "1", "%", "l", "l11"]
BADLABELS = ["two words", "Upper", "tab\tx", "É", " lead", "nb\u00a0sp"]
TOTPOK = ["JBSWY3DPEHPK3PXP", "jbswy3dpehpk3pxp", "GEZDGNBVGY3TQOJQ", "otpauth://totp/site:me?secret=JBSWY3DPEHPK3PXP&issuer=site", "MFRGG"]
TOTPBAD = ["", "not!base32", "otpauth://hotp/x?secret=JBSWY3DPEHPK3PXP&counter=1", "otpauth://totp/x", "otpauth://totp/x?secret=1890", "11111", "otpauth://%zz"]
URLOK = ["https://example.com", "http://u:p@h:1/p?q=1#f", "ftp://x/y", "https://example.com/a%20b", "x://y", "HTTPS://EXAMPLE.com/", "https://x/a b", "https://x/?", "https://x/#",
         "https://x/%7Euser", "https://x/ü", "https://x:80/", "https://x/..//a/./b", "file:///a", "https://[::1]:80/", "https://x?a=1&a=%2f", "https://u@x", "https://u:@x", "a+b-c.d://x",
         "https://x/a%2Fb", "https://x/\"q\"", "https://x#a#b", "https:///p", "https://x/é?é#é"]
URLBAD = ["", "example.com", "mailto:me", "https:x", "://x", "%zz", "/path", "http://[::1"]

PIECES = ["#", " #", ";", " ; ", "//", "&&", " | ", "'", '"', "`", "$(x)", "${HOME}", "%s", "~", "!", "\\", "\\n", "\t", "  ", " ", "<!--", "é", "e\u0301", "ß", "İ", "本", "\U0001f511",
          "\u200d", "\ufeff", "\u2028", "\x7f", "\x1b[31m", "\x01", "a", "B", "0", "=", ":", ",", "--", "-", "*", "?", "[", "{", "(", "@", "+", "^", "/", "..", "null", "\ufffd", "\xa0", "|",
          "x" * 300, "y" * 5000]


def text(r):
    """What somebody may enter as a value, in one line that neither begins nor ends with blanks."""
    if r.random() < .6:
        return r.choice(PLAIN)
    return ("".join(r.choice(PIECES) for _ in range(r.randrange(1, 7)))).strip() or "v"


def alabel(r):
    """A label that is allowed."""
    if r.random() < .7:
        return r.choice(LABELS)
    return "".join(r.choice("aab1-/.:;#@+_|&='\"*é本~%") for _ in range(r.randrange(1, 5)))


def aname(r):
    """A name with parts, over few letters, so that much is alike."""
    if r.random() < .6:
        return r.choice(FIRST)
    return "/".join("".join(r.choice("aabBcéÉ-") for _ in range(r.choice([0, 1, 1, 2, 2, 3]))) for _ in range(r.randrange(1, 5))) or "a"


PW = [["y"], ["", "y"], ["16", "y"], ["u", "e", "y"], ["m", "sec ret", "sec ret"], ["m", "a", "b", "y"], ["m", "a", "b", "m", "pä%ss", "pä%ss"], ["c", "y"],
      ["?", "y"], ["zz", "y"], ["n 3", "c", "m", "x", "x"], ["m", "", ""]]
PWSTOP = [[EOF], [INT], ["m", EOF], ["m", "a", EOF], ["m", INT], ["", EOF], ["c", INT]]


class Gen:
    """Random sessions that keep a rough idea of what exists."""

    def __init__(self, rng, names=None, mix=None):
        self.r = rng
        self.names = list(names or [])
        self.used = []
        self.mix = mix
        self.ctx = False

    def name(self):
        if self.names and self.r.random() < .85:
            return self.r.choice(self.names)
        return self.r.choice(FIRST)

    def newname(self):
        n = aname(self.r)
        if self.r.random() < .3:
            n += self.r.choice(["1", "/x", "b", "/a", "2"])
        return n

    def query(self):
        x = self.r.random()
        if x < .6:
            return self.name()
        if x < .8 and self.names:
            n = self.r.choice(self.names)
            parts = n.split("/")
            q = "/".join("".join(ch for ch in p if self.r.random() < .6) for p in parts)
            q = "".join(ch.lower() if self.r.random() < .5 and len(ch.lower()) == 1 else ch for ch in q)
            return q or "a"
        return self.r.choice(QUERIES)

    def q(self, *rest):
        """Arguments with a query, left out sometimes when inside an entry."""
        if self.ctx and self.r.random() < .8:
            return list(rest)
        return [self.query(), *rest]

    def value(self):
        return text(self.r)

    def lines(self):
        out, n = [], self.r.randrange(0, 5)
        for _ in range(n):
            out.append(self.r.choice(["line", "two words ", " x", "", "..", "é", "\ttab", ", ", "a: b"]))
        return out + self.r.choice([["."], [EOF], ["", ""], ["."]])

    def label(self):
        """Often one that was used before, or a part or an extension of one."""
        r = self.r
        if self.used and r.random() < .5:
            l = r.choice(self.used)
            if r.random() < .3:
                parts = [p for p in re.split(r"[^a-z0-9]", l) + [l[:-1], l[1:], l + "a"] if p]
                l = r.choice(parts or [l])
        else:
            l = alabel(r)
        self.used.append(l)
        return l

    def stop(self):
        return self.r.random() < .12

    def make(self, k):
        r = self.r
        if k == "add":
            n = self.newname() if r.random() < .75 else self.name()
            pw = r.choice(PW)
            ans = [r.choice(["", "me@x", "e m"]), r.choice(["", "me", "ü"])]
            if r.random() < .25:
                pw = r.choice(PWSTOP[:1] + PWSTOP[2:4] + PWSTOP[5:6])
                if r.random() < .4:
                    ans, pw = r.choice([[EOF], ["x", EOF]]), []
            else:
                self.names.append(n)
            return {"c": "add", "a": [n], "ans": ans + pw}
        if k == "addsync":
            kind = r.choice(["file", "file", "file", "scp", "ftp", "File"])
            if kind == "scp":
                ans = [r.choice(["u", "ann"]), r.choice(["h", "host.example"]), r.choice(["", "2222", "x"]), "/p/f", r.choice(["1", "3", "9"])]
                if ans[2] == "x":
                    ans.insert(3, "22")
                if ans[-1] == "9":
                    ans += ["x", "1"]
                if ans[-1] == "3":
                    ans += ["m", "pw1", "pw1"]
            else:
                ans = ["/tmp/none/file.bp"] if r.random() < .7 else ["", "/x/y"]
            if r.random() < .4:
                ans = ans[:r.randrange(0, len(ans))] + [EOF]
            return {"c": "addsync", "a": [kind], "ans": ans}
        if k == "rm":
            n = self.name()
            x = r.random()
            if x < .6:
                if n in self.names:
                    self.names.remove(n)
                return {"c": "rm", "a": [n], "ans": [n]}
            return {"c": "rm", "a": [n], "ans": [r.choice(
                ["", "y", "yes", n + "x", n[:-1], n[1:], n.upper() + "!", EOF, n.swapcase(), n.lower(), n.upper(), n.title(), n + " ", " " + n,
                 '"' + n + '"', n.split("/")[-1], n.split("/")[0], self.name(), n + n])]}
        if k == "mv":
            a = self.name()
            b = self.newname() if r.random() < .7 else self.name()
            if a in self.names and b not in self.names:
                self.names.remove(a)
                self.names.append(b)
            return {"c": "mv", "a": [a, b]}
        if k == "cd":
            x = r.random()
            self.ctx = x < .75
            return {"c": "cd", "a": [] if x > .85 else [self.query()] if x < .8 else [self.query(), "x"]}
        if k == "ls":
            return {"c": "ls", "a": [] if r.random() < .2 else [self.query()]}
        if k == "set":
            x = r.random()
            if x < .5:
                return {"c": "set", "a": self.q(r.choice(KEYS), self.value())}
            if x < .54:
                return {"c": "set", "a": self.q(r.choice(["user", "email", "k"])), "ans": r.choice([["."], [EOF], ["", ""]])}   # there, but empty
            if x < .7:
                return {"c": "set", "a": self.q(r.choice(KEYS)), "ans": self.lines()}
            if x < .8:
                return {"c": "set", "a": self.q("pass"), "ans": r.choice(PW)}
            if x < .84:
                return {"c": "set", "a": self.q("pass", self.value())}
            if x < .9:
                v, ok = r.choice([(v, True) for v in TOTPOK] + [(v, False) for v in TOTPBAD])
                return {"c": "set", "a": self.q("totp", *([v] if v else [])), "totp": (v, ok)}
            if x < .96:
                v, ok = r.choice([(v, True) for v in URLOK] + [(v, False) for v in URLBAD])
                return {"c": "set", "a": self.q("url", *([v] if v else [])), "url": (v, ok)}
            return {"c": "set", "a": self.q(r.choice(PROTECTED), *([self.value()] if r.random() < .8 else [])), "ans": ["x", "."]}
        if k == "protect":
            key = r.choice(PROTECTED + ["totp", "Totp", "TOTP"])
            c = r.choice(["set", "rmk", "rmk", "edit", "setml"])
            if c == "set" or (c == "setml" and key == "totp"):
                v = r.choice([v for v in TOTPBAD if v]) if key == "totp" else self.value()
                return {"c": "set", "a": self.q(key, v), **({"totp": (v, False)} if key == "totp" else {})}
            if c == "setml":
                return {"c": "set", "a": self.q(key), "ans": ["x", "."]}
            if c == "rmk":
                return {"c": "rmk", "a": self.q(key)}
            return {"c": "edit", "a": self.q(key), "ed": {"how": "ok", "text": r.choice(["new", ""])}}
        if k == "rmk":
            return {"c": "rmk", "a": self.q(r.choice(KEYS + ["pass", "url", "email", "totp", "none"]))}
        if k == "edit":
            text = r.choice(["", "new text\n", "é\n\nx", "\x00\x01", "x" * 3000, "short", "y" * 20000, "\r\n", " ", "\n", "日本"])
            key = r.choice(KEYS + (["name", "totp", "pass"] if r.random() < .3 else []))
            if key == "labels":
                text = r.choice(["", ",".join(LABELS[:3]), "x"])
            return {"c": "edit", "a": self.q(key),
                    "ed": {"how": r.choice(["ok", "ok", "ok", "fail", "signal", "missing", "gone"]), "text": text,
                           "do": r.choice(["write", "write", "write", "replace", "append", "keep"])}}
        if k == "label":
            if r.random() < .06:
                return {"c": "label", "a": self.q(), "ans": [r.choice(LABELS), INT]}
            n = r.randrange(0, 4)
            return {"c": "label", "a": self.q(), "ans": [self.label() if r.random() < .75 else r.choice(BADLABELS) for _ in range(n)] + [r.choice(["", ".", EOF])]}
        if k == "rmlabel":
            return {"c": "rmlabel", "a": self.q(self.label())}
        if k == "labels":
            return {"c": "labels", "a": [self.label() for _ in range(r.choice([1, 1, 2, 2, 3]))]}
        if k == "setlabels":
            return {"c": "set", "a": self.q("labels", ",".join(self.label() for _ in range(r.randrange(1, 4))))}
        if k == "show":
            x = r.random()
            if x < .35:
                return {"c": "show", "a": self.q()}
            return {"c": "show", "a": self.q(r.choice(["1", "1", "2", "3", "4", "5", "6", "7", "8", "12", "30", "-1", "0", "x", "1.5", "+2", "007"]))}
        if k in ("get", "cp"):
            key = r.choice(KEYS + ["pass", "totp", "updated", "url", "name", "labels", "pass", "user", "email"])
            x = r.random()
            return {"c": k, "a": self.q(key) if x < .9 else self.q(key, "1" if x < .95 else "x")}
        if k == "short":
            return {"c": r.choice(["pass", "user", "email", "totp"]), "a": self.q()}
        if k == "login":
            a = [self.query()] if not self.ctx or r.random() < .3 else []
            n = r.randrange(0, 4)
            return {"c": "login", "a": a, "ans": [r.choice(["", "", "x"]) for _ in range(4)]}
        if k == "open":
            return {"c": "open", "a": self.q()}
        if k == "dump":
            return {"c": "dump", "a": self.q()}
        if k == "help":
            return {"c": "help", "a": r.choice([[], ["sync"], ["users"], ["other"], ["zzz"]])}
        if k == "unknown":
            w = r.choice(["foo", "Ls", "SHOW", "..", "-h", "sets", "ad", "exit!", "q", "quit", ":", "cd/", "é", "set\u00a0a"])
            if w == "set\u00a0a":
                w = "setta"
            return {"c": "?", "word": w, "a": r.choice([[], ["a"], ["a", "b"]])}
        if k == "short-args":
            c = r.choice(["add", "rm", "mv", "rmk", "set", "edit", "label", "rmlabel", "labels", "show", "get", "cp", "pass", "user", "email", "totp", "login",
                          "open", "dump", "addsync"])
            a = []
            if c in ("mv", "rmk", "set", "edit", "rmlabel", "get", "cp") and r.random() < .5 and not (self.ctx and c != "mv"):
                a = [self.name()]
            if self.ctx and c in ("label", "show", "pass", "user", "email", "totp", "login", "open", "dump"):
                c = "mv"
            return {"c": c, "a": a}
        if k == "blank":
            return {"c": "", "line": r.choice(["", "  ", "\t"])}
        if k == "setgap":
            return {"c": "set", "a": ["", self.name(), "k"]} if not self.ctx else {"c": "set", "a": ["", "k"]}
        if k == "tab":
            return {"c": TAB}
        if k == "passwd":
            return {"c": r.choice(["passwd", "rekey", "adduser", "rekeyall", "sync"]), "a": ["x"], "ans": []}
        raise KeyError(k)

    def cmds(self, n, mix, end=True):
        ks, ws = zip(*mix.items())
        out = [self.make(self.r.choices(ks, ws)[0]) for _ in range(n)]
        if end:
            x = self.r.random()
            if x < .6:
                out.append({"c": "exit"})
            elif x < .8:
                out.append({"c": EOF})
            elif x < .93:
                out.append({"c": INT})
            else:
                out.append(self.r.choice([{"c": "set", "a": [self.name(), "pass"], "ans": [self.r.choice([EOF, INT])]},
                                          {"c": "set", "a": [self.name(), "k"], "ans": ["x", INT]},
                                          {"c": "rm", "a": [self.name()], "ans": [INT]},
                                          {"c": "label", "a": [self.name()], "ans": [INT]},
                                          {"c": "login", "a": [self.name()], "ans": [self.r.choice([EOF, INT])]},
                                          {"c": "add", "a": ["fresh-name"], "ans": self.r.choice([[INT], ["", INT], ["", "", INT], ["", "", "m", INT]])},
                                          {"c": "addsync", "a": ["file"], "ans": [INT]}]))
        return out


def startfile(rng, n=4, rich=True, names=None):
    """A history with some entries of unique names."""
    m = Maker()
    have = []
    for _ in range(n):
        nm = rng.choice(names) if names else aname(rng)
        if nm in have:
            continue
        have.append(nm)
        kv = {}
        if rich:
            if rng.random() < .6:
                kv["user"] = rng.choice(["me", "ü ser", "u"])
            if rng.random() < .5:
                kv["email"] = rng.choice(["a@b", "x y"])
            if rng.random() < .7:
                kv["pass"] = text(rng)
            if rng.random() < .4:
                kv["labels"] = ",".join(dict.fromkeys(alabel(rng) for _ in range(rng.randrange(1, 4))))
            if rng.random() < .35:
                kv["totp"] = rng.choice(["otpauth://totp/x?secret=JBSWY3DPEHPK3PXP", "otpauth://totp/a:b?secret=gezdgnbvgy3tqojq&issuer=a",
                                         "otpauth://hotp/x?secret=JBSWY3DPEHPK3PXP", "otpauth://totp/x?secret=1", "nonsense"])
            if rng.random() < .3:
                kv["url"] = rng.choice(URLOK)
            if rng.random() < .3:
                kv["notes"] = rng.choice(["one\ntwo", "a\n\nb", "text"])
            if rng.random() < .3:
                kv["k"] = rng.choice(PLAIN)
        u = m.entry(nm, **kv)
        for _ in range(rng.randrange(0, 4) if rich else 0):
            m.set(u, rng.choice(["k", "user", "note"]), rng.choice(PLAIN))
        if rng.random() < .15:
            m.put("setk", u, "updated", str(m.t))
            m.put("delk", u, "k")
            m.tick()
        if rng.random() < .12:
            m.put("del", u)
            m.tick()
            have.remove(nm)
    return m, have


# ---------------------------------------------------------------- judging

def run_sessions(c, scenarios, par=8):
    b = build("bpass", "codec")
    session.scripts()
    codec = Codec(b["codec"])
    try:
        return pmap(lambda s: record({"bpass": b["bpass"], "codec": codec}, s), scenarios, par)
    finally:
        codec.close()


def judge_sessions(c, scenarios, relevant, results=None):
    """Run the scenarios, have TLC judge them; what is relevant(command, wrong) is a violation."""
    res = results or run_sessions(c, scenarios)
    traces, idx, tabs = [], [], []
    for i, r in enumerate(res):
        if "hang" in r:
            c.violation("the program shows no sign of life: " + r["hang"], {"scenario": jsonable(scenarios[i])})
            continue
        if not r["opened"]:
            c.violation("the session could not be opened", {"scenario": jsonable(scenarios[i]), "result": r["t"], "hist": r["hist"]})
            continue
        traces.append({"t": r["t"]})
        idx.append(i)
        tabs.append(r["tab"])
    bad, st = judge("SessionTrace", traces, "SessionTrace.cfg", tables=session.Tables.merged(tabs))
    c.cov["states"] += st["states"]
    c.cov["transitions"] += st["generated"]
    n = 0
    foreign = 0
    badtr = set()
    for ti, at, w in sorted(bad):
        ev = traces[ti]["t"][at - 1]
        cmd = ev["c"]["c"] if ev["k"] == "cmd" else ev["k"]
        rel = sorted(x for x in w if x == "stuck" or relevant(cmd, x, ev))
        if not rel:
            foreign += 1
            continue
        if ti in badtr:
            continue
        badtr.add(ti)
        r = res[idx[ti]]
        c.violation("%s is not as specified (%s): %s" % (cmd, ", ".join(rel), json.dumps(r["hist"][at - 2] if at >= 2 and at - 2 < len(r["hist"]) else {})[:400]),
                    {"wrong": w, "position": at, "event": ev, "history": r["hist"], "scenario": jsonable(scenarios[idx[ti]])})
    c.traces(len(traces) - len(badtr))
    c.count("commands", sum(len(t["t"]) - 1 for t in traces))
    if foreign:
        c.cov["events_wrong_in_ways_of_other_properties"] = foreign
    for r in res[:3]:
        if "hist" in r:
            c.sample([h if isinstance(h, str) else [h.get("line"), h.get("ans")] for h in r["hist"]][:10])
    return res


def jsonable(s):
    from app import plain
    return {k: (plain(v)) for k, v in s.items()}


# ---------------------------------------------------------------- the design, and scenarios from it

MOPS = """  LC <- MLC
  FOLD <- MFold
  OkTotp <- MTotp
  OkUrl <- MUrl
  OkLabel <- MLabel
  Secret <- MSecret
  When <- MWhen
  IntOf <- MInt
  IsInt <- MIsInt
"""


def model_cfg(depth, names=("a", "Ab"), queries=("a", "b"), keys=("k",), labs=("l1",), ids=("e1", "e2"), loose=False):
    q = lambda l: "{" + ", ".join('"%s"' % x for x in l) + "}"
    return ("CONSTANTS\n" + MOPS + "  Names = %s\n  Queries = %s\n  Keys = %s\n  Labs = %s\n  Ids = %s\n  MaxDepth = %d\n  LooseMv = %s\n"
            % (q(names), q(queries), q(keys), q(labs), q(ids), depth, "TRUE" if loose else "FALSE"))


MPROPS = "SPECIFICATION MSpec\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANT Replayable UniqueInv CtxInv\nPROPERTY ReadOnly OnlyWriters OneEntry OthersStay NameOwner RmOnly\n"


def session_design(c, big):
    """The design properties hold of every session of the model, and can be violated."""
    c.design("SessionModel", MPROPS + model_cfg(6 if big else 4), timeout=800)
    r = tlc("SessionModel", MPROPS + model_cfg(3, loose=True))
    if "violated" not in r.out:
        raise Broken("the specification does not notice a rename to a name that is taken")
    c.count("negative_controls")


def render(c, s):
    """A scenario of module SessionModel as input for the program."""
    sub = {"good": "JBSWY3DPEHPK3PXP", "bad": "bad!"}
    cmds = []
    for h in s["h"]:
        a = [sub.get(x, x) for x in h["a"]]
        cmd = {"c": h["c"], "a": a}
        if h["c"] == "<INT>":
            cmd = {"c": INT}
        elif h["c"] == "?":
            cmd = {"c": "?", "word": "what", "a": []}
        elif h["c"] == "add":
            cmd["ans"] = [EOF] if h["ans"] == ["<EOF>"] else h["ans"] + ["y"]
        elif h["c"] == "addsync":
            cmd["ans"] = ["/x"] if h["sy"] == "ok" else [EOF]
        elif h["c"] == "edit":
            cmd["ed"] = h["ed"]
        elif h["ans"]:
            cmd["ans"] = [EOF if x == "<EOF>" else INT if x == "<INT>" else x for x in h["ans"]]
        if h["c"] == "set" and "totp" in a:
            cmd["totp"] = (a[-1], a[-1] != "bad!")
        cmds.append(cmd)
    m, _ = startfile(c.rng, 0) if not s["ro"] else startfile(c.rng, 3, names=["a", "Ab", "b"])
    sc = {"file": m.log, "cmds": cmds, "noclear": False}
    return at_time(sc, m.t + 10**9) if s["ro"] else sc


def at_time(sc, t):
    """The scenario, opened at the moment t (whole seconds, UTC)."""
    t = t // 10**9 * 10**9
    return {**sc, "time": time.strftime("%Y-%m-%d %H:%M:%S", time.gmtime(t // 10**9)), "at": t}


def model_scenarios(c, cover, sim, wanted=None, depth=14):
    """Scenarios that TLC generates from SessionModel, those containing a wanted command first."""
    ss, _ = scenarios_of("SessionModel", "SPECIFICATION MSpec\nVIEW View\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" + model_cfg(3))
    ends = [s for s in ss if not wanted or any(h["c"] in wanted for h in s["h"][-1:])]
    c.rng.shuffle(ends)
    c.cov["model_transitions"] = len(ss)
    c.cov["model_transitions_replayed"] = min(cover, len(ends))
    si, _ = scenarios_of("SessionModel", "SPECIFICATION MSpec\nINVARIANT EmitEnd\n" + model_cfg(depth, names=("a", "Ab", "a/b"), queries=("a", "b", "A", "/b"), keys=("k", "pass"), labs=("l1", "l2"), ids=("e1", "e2", "e3", "e4")),
                         simulate=sim * 4, depth=depth + 2)
    uniq = {}
    for s in si:
        if not wanted or any(h["c"] in wanted for h in s["h"]):
            uniq[json.dumps(s, sort_keys=True)] = s
    si = list(uniq.values())
    c.rng.shuffle(si)
    return [render(c, s) for s in ends[:cover] + si[:sim]]


def mixed(c, n, mix, length=(5, 25), start=(0, 6), names=None, noclear=.15, ro=0.0, lose=0.0):
    """Random sessions over rich alphabets."""
    out = []
    for _ in range(n):
        m, have = startfile(c.rng, c.rng.randrange(*start), names=names)
        g = Gen(c.rng, have)
        sc = {"file": m.log, "cmds": g.cmds(c.rng.randrange(*length), mix), "noclear": c.rng.random() < noclear}
        if c.rng.random() < lose:
            sc["lose"] = True
        if c.rng.random() < ro:
            lo = 1600000000 - 2
            hi = m.t // 10**9 + 2
            sc = at_time(sc, c.rng.randrange(lo, hi + 1) * 10**9)
        out.append(sc)
    return out


ALL = {"add": 8, "addsync": 3, "rm": 5, "mv": 6, "cd": 6, "ls": 5, "set": 12, "protect": 4, "rmk": 5, "edit": 4, "label": 5, "rmlabel": 4, "labels": 3,
       "setlabels": 2, "show": 6, "get": 5, "cp": 5, "short": 5, "login": 3, "open": 2, "dump": 3, "help": 1, "unknown": 2, "short-args": 4, "blank": 1,
       "setgap": 1, "tab": 1}


def weighted(**kw):
    """The whole mix at low weight, with some commands more often."""
    return {**{k: 1 for k in ALL}, **kw}
