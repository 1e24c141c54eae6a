"""Making up passwords (modules Passwords, PasswordsModel, PasswordsTrace)."""
import re, threading
from vf import *
from app import App, Dir, EOF, INT, plain, pmap
from session import PWPROMPT

SHOWN = re.compile(r"^password: (.*)$", re.M)


def atoi(s):
    if re.fullmatch(r"[+-]?[0-9]+", s, re.A) and -2**63 <= int(s) < 2**63:
        return {"ok": True, "v": max(-2**26, min(2**26, int(s)))}
    return {"ok": False, "v": 0}


def fields(s):
    # what Go calls white space
    return [x for x in re.split("[\t\n\v\f\r \u0085\u00a0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]+", s) if x]


def line(s):
    if s in (EOF, INT):
        return {"raw": "", "f": [], "n1": atoi(""), "n": atoi(""), "gone": True}
    f = fields(s)
    return {"raw": s, "f": f, "n1": atoi(f[1] if len(f) > 1 else ""), "n": atoi(s), "gone": False}


def codes(p):
    return [ord(x) for x in p]


class Run:
    seen, lock = set(), threading.Lock()

    def shown(self, out):
        m = SHOWN.findall(out)
        pw = m[-1:]
        again = False
        if pw:
            with self.lock:
                again = pw[0] in self.seen
                if len(pw[0]) >= 16:
                    self.seen.add(pw[0])
        return {"shown": [codes(x) for x in pw], "again": again}

    def go(self, binary, sc):
        """A dialogue: a list of lines; lists are lines with hidden answers, ["batch", ...] many enters."""
        t, hist = [], []
        with Dir() as d:
            app = App(binary, d, args=["gen"], file=None)
            try:
                p = app.next()
                if p is None:
                    return {"t": [], "hist": ["does not start: " + app.err + app.out], "dead": True}
                t.append({"k": "start", **self.shown(p.out)})
                now = t[-1]["shown"]
                for s in sc + [EOF]:
                    if isinstance(s, dict):
                        got = set()
                        for _ in range(s["n"]):
                            app.say("")
                            p = app.next()
                            if p is None:
                                break
                            got |= set(SHOWN.findall(p.out)[-1:])
                        t.append({"k": "batch", "n": s["n"], "shown": [codes(x) for x in sorted(got)], "all": s.get("all", False), "chars": s.get("chars", False)})
                        hist.append(["batch", s["n"], len(got)])
                        if p is None:
                            break
                        # whatever is shown last is what the next line is about
                        app.say("?")
                        p = app.next()
                        m = SHOWN.findall(p.out)[-1:] if p else []
                        t.append({"k": "line", "l": line("?"), "hidden": [], "clips": [], "crash": p is None, "again": False,
                                  "end": {"is": p is None, "ok": False, "text": []}, "shown": [codes(x) for x in m]})
                        continue
                    s, hid = (s[0], list(s[1:])) if isinstance(s, (list, tuple)) else (s, [])
                    app.say(s)
                    p = app.next()
                    out, hidden, clips = p.out if p else "", [], p.clips() if p else []
                    while p is not None and p.text != PWPROMPT:
                        a = hid.pop(0) if hid else EOF
                        hidden.append({"p": [] if a in (EOF, INT) else codes(a), "gone": a in (EOF, INT), "h": p.hidden})
                        app.say(a)
                        p = app.next()
                        if p is not None:
                            out += p.out
                            clips += p.clips()
                    end = {"is": p is None, "ok": False, "text": []}
                    if p is None:
                        clips += [e["line"] for e in app.last_events if e["ev"] == "clip"]
                        o = out + app.out
                        end["ok"] = app.rc == 0
                        end["text"] = codes(o[:-1].split("\n")[-1] if o.endswith("\n") else o)
                        if app.rc == 0 and not o.endswith("\n"):
                            end["text"] = codes(o)
                    ev = {"k": "line", "l": line(s), "hidden": hidden, "clips": [codes(x) for x in clips], "end": end, "crash": app.crashed() if p is None else False}
                    ev.update({"shown": [], "again": False} if p is None else self.shown(out))
                    if not ev["hidden"] and not ev["end"]["is"] and s not in (EOF, INT) and s != "" and ev["shown"] == now:
                        ev["again"] = True
                    now = ev["shown"]
                    t.append(ev)
                    hist.append(plain([s, *[h["p"] for h in hidden], SHOWN.findall(out)[-1:]]))
                    if p is None:
                        break
            finally:
                app.kill()
        return {"t": t, "hist": hist}


def gen_lines(rng, n):
    out = []
    kinds = "ulnbe"
    for _ in range(n):
        r = rng.random()
        k = rng.choice(kinds)
        if r < .18:
            out.append(k)
        elif r < .45:
            v = rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 7, 10, 33, -1, -1, -5, 255, 256, 300, 2**31, 2**32, 2**63 - 1, -2**63, 2**63])
            out.append("%s %s" % (k, v))
        elif r < .70:
            out.append(str(rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 31, 32, 33, 64, 100, 255, 256, 257, 300, 1000, 5000, -1, -2**31, 2**31, 2**32, 2**40, 2**62, 2**63 - 1, 10**30, "+7", "007", "1e3", "0x10", " 5", "5 ", "1_0"])))
        elif r < .80:
            out.append("")
        elif r < .86:
            out.append("c")
        elif r < .90:
            out.append("?")
        elif r < .94:
            a = rng.choice(["typed", "", "ü %s\\", " lead", "y"])
            out.append(["m", a, a + rng.choice(["x", " ", "\u00fc"])] if rng.random() < .8 else ["m", a, a])
        else:
            out.append(rng.choice([" ", "\t ", "x", "u x", "l 1.5", "n -", "u  4", "  u 2", "u 2 3", "b\t2", "yes", "Y", "C", "c c", "U", "ul", "%d", "ü", "-", "+", "u3", "c 3", "\u00a0", "e +2"]))
    end = rng.random()
    if end < .55:
        out.append("y")
    elif end < .7:
        a = rng.choice(["typed", "", "ü %s\\", " lead", "trail ", "y", "long" * 50])
        out.append(["m", a, a])
    elif end < .8:
        out.append(rng.choice([EOF, INT]))
    elif end < .9:
        out.append(["m", *rng.choice([[EOF], [INT], ["a", EOF], ["a", INT]])])
    return out


def run(c):
    big = TIER == "thorough"
    g = "SPECIFICATION GSpec\nINVARIANT Sound Refused Complete\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxLen = %d\n MaxMin = %d\n MaxSteps = 1\n Bug = \"%s\"\n Kinds <- %s\n"
    c.design("PasswordsModel", g % (4 if big else 3, 2, "", "K3"))
    for bug, inv in [("off", "Sound"), ("noswap", "Complete")]:
        if "Invariant %s is violated" % inv not in tlc("PasswordsModel", g % (3, 2, bug, "K3")).out:
            raise Broken("the specification does not notice " + bug)
        c.count("negative_controls")
    dcfg = "SPECIFICATION DSpec\nINVARIANT Honest\nVIEW DView\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxLen = 3\n MaxMin = 2\n MaxSteps = %d\n Bug = \"\"\n Kinds <- K3\n"
    c.design("PasswordsModel", dcfg % (9 if big else 6))
    ecfg = "SPECIFICATION DSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxLen = 6\n MaxMin = 3\n MaxSteps = 9\n Bug = \"any\"\n Kinds <- K5\n"
    ss, r = scenarios_of("PasswordsModel", ecfg, simulate=1500 if big else 300, depth=12)
    c.cov["states"] += r.generated
    binary = build("bpass")["bpass"]
    rng = c.rng
    scs = []
    ss = sorted(ss)
    rng.shuffle(ss)
    for s in ss[:4000 if big else 700]:
        # a dialogue of the model; hand-typed passwords are the same twice if that ended it
        scs.append([(["m", "typed", "typed"] if i == len(s) - 1 and len(s) < 9 else ["m", "a", "b"]) if x == "m" else x for i, x in enumerate(s)])
    n_model = len(scs)
    # every setting of each kind against lengths around the sum
    vals = [-1, 0, 1, 2] if big else [-1, 0, 1]
    for u in vals:
        for l in vals:
            for n in vals:
                for b in vals:
                    for e in vals:
                        tot = sum(x for x in (u, l, n, b, e) if x > 0)
                        scs.append(["u %d" % u, "l %d" % l, "n %d" % n, "b %d" % b, "e %d" % e] + [str(x) for x in range(max(-1, tot - 2), tot + 4)] + ["y"])
    for _ in range(3000 if big else 500):
        scs.append(gen_lines(rng, rng.randrange(2, 25)))
    # many passwords for the same request
    off = lambda *on: ["%s -1" % k for k in "ulnbe" if k not in on]
    N = 40000 if big else 15000
    scs += [off("n") + ["2", {"n": 4000, "all": True}, "y"],
            off("b") + ["2", {"n": 4000, "all": True}, "c", "y"],
            off("n", "b") + ["n 1", "b 1", "2", {"n": 8000, "all": True}],
            off("e") + ["e 1", "2", {"n": 14000, "all": True}],
            off("u") + ["1", {"n": 1500, "all": True}],
            off("l") + ["l 1", "1", {"n": 1500, "all": True}],
            ["6", {"n": N, "chars": True}, "y"],
            off("u", "e") + ["u 1", "5", {"n": N, "chars": True}],
            ["32", {"n": N // 2, "chars": True}]]
    for _ in range(40 if big else 12):
        s = ["%s %d" % (k, rng.choice([-1, 0, 0, 1, 1, 2])) for k in "ulnbe"]
        need = sum(max(0, int(x[2:])) for x in s)
        if all(x.endswith("-1") for x in s):
            s[0] = "u 0"
        scs.append(s + [str(max(1, need + rng.choice([0, 0, 1, 2, 4]))), {"n": 3000}, rng.choice(["y", "c"])])
    res = pmap(lambda s: Run().go(binary, s), scs)
    traces = []
    for i, r in enumerate(res):
        if "hang" in r or r.get("dead"):
            c.violation("no answer", {"scenario": plain(scs[i]), "result": r})
            traces.append({"t": []})
        else:
            traces.append({"t": r["t"]})
            c.count("lines", len(r["t"]))
    c.count("passwords_judged", sum(len(e["shown"]) for tr in traces for e in tr["t"]))
    c.cov["scenarios"] = {"from_model": n_model, "all": len(scs)}
    order = sorted(range(len(traces)), key=lambda i: i * 7919 % len(traces))    # spread the big ones
    bad, st = judge("PasswordsTrace", [traces[i] for i in order], "PasswordsTrace.cfg", chunk=-(-len(traces) // 8), parallel=8)
    c.cov["states"] += st["states"]
    c.cov["transitions"] += st["generated"]
    c.traces(len(traces))
    for k, at, w in bad:
        i = order[k]
        c.violation("%s after line %d of %s" % (",".join(w), at, plain(scs[i])[:30]), {"scenario": plain(scs[i]), "at": at, "wrong": w, "event": str(traces[i]["t"][at - 1])[:3000], "history": res[i]["hist"][:60]})
    for i in (0, n_model + 3, -1):
        c.sample({"scenario": plain(scs[i]), "seen": res[i].get("hist", [])[:6]})
