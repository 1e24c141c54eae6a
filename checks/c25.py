"""The dialogue with pinentry programs (modules Pinentry, PinentryModel, PinentryTrace)."""
import json
from concurrent.futures import ThreadPoolExecutor
from vf import *
import vf
from app import App, Codec, Dir, EOF, INT, plain, pmap
from session import PWPROMPT

GREET = "OK Pleased to meet you"
PASS = ["p", "pass word", " lead", "trail ", "%", "%%", "%25", "%0A", "%0a", "100%25", "a\nb", "a\rb", "\r\n", "\n", "D x", "OK", "ERR", "ERR 83886179 Operation cancelled <Pinentry>",
        "ünïcödé", "日本語", "D ", "#", "S ", "\\n", "+", "a+b", "%0D%0A", "%250A", "x%", "x%2", "%2", "BYE", "\t", " ", "\u0301e", "x" * 200, "%" * 300, "y" * 900]
CANCEL = ["ERR 83886179 Operation cancelled <Pinentry>", "ERR 83886179 Operation cancelled"]
WORDS = {"greet": [GREET], "OK": ["OK"], "almost OK": ["OK ", " OK", "OK foo", "ok", "Ok", "OKAY", "OK Pleased to meet you", "O"], "ERR": ["ERR 1 no", "ERR", "ERR 83886179 Timeout <Pinentry>", "ERR 67109139 Unknown IPC command <User defined source 1>",
                                                                               "ERR 83886179 cannot cancel grab of keyboard <Pinentry>", "ERR 1 not cancelled", "ERR 99 cancel", "ERR 2 Operation", "ERR 3 fully cancelled"],
         "cancelled": CANCEL, "": [""], "other": ["D", "S OK", "# comment", "D\tx", "hello", "%25", "S ERROR gtk.get_pin 83886179", "INQUIRE x", "Operation cancelled", "d x"],
         "almost greet": ["OK Pleased to meet yo", "OK Pleased to meet you, process 17", "ok pleased to meet you", " OK Pleased to meet you"]}


def enc(b):
    return b.replace(b"%", b"%25").replace(b"\r", b"%0D").replace(b"\n", b"%0A")


def hexl(*ls):
    return b"".join(l + b"\n" for l in ls).hex()


class Scen:
    """A script for the fake program and what it stands for."""

    def __init__(self, pw="p", **kw):
        self.pw = pw.encode() if isinstance(pw, str) else pw
        self.typed = True
        self.loose = False
        self.script = {"greet": hexl(GREET.encode()), "odd": {}, "pin": [hexl(b"D " + enc(self.pw), b"OK")], "bye": "", "quit": "", "exit": 0}
        self.script.update(kw)


def lines_of(b):
    out = b.split(b"\n")
    if out[-1] == b"":
        out.pop()
    res = []
    for l in out:
        d = l.startswith(b"D ")
        s = l.decode("latin1")
        if s.startswith("ERR") and "Operation cancelled" in s:
            s = "<cancelled>"
        res.append({"s": "D" if d else s, "d": d, "x": list(l[2:]) if d else []})
    return res


def transcript(path):
    """The conversations in a log."""
    rounds = []
    if os.path.exists(path):
        for l in open(path):
            e = json.loads(l)
            if e.get("c", "").startswith("START "):
                rounds.append({"c": [], "p": b"", "q": None, "name": e["c"][6:]})
            elif "c" in e:
                rounds[-1]["c"].append(e["c"])
            elif "p" in e:
                rounds[-1]["p"] += bytes.fromhex(e["p"][:-1])
            else:
                rounds[-1]["q"] = e["q"]
    return rounds


def dialogue(r, exit):
    n = r["c"].index("GETPIN") if "GETPIN" in r["c"] else -1
    return {"lines": lines_of(r["p"]), "n": n, "exit": exit if r["q"] is None else r["q"]}


NONE = {"lines": [], "n": -1, "exit": 0}


def of_model(s, rng):
    """A dialogue of the model as a script."""
    sc = Scen("p")
    x = sc.script
    sc.typed = False
    x["exit"] = max(0, s["exit"]) if rng.random() < .8 or s["exit"] == 0 else rng.choice([2, 77, 255])
    words = []
    for w in s["said"]:
        if w["d"]:
            words.append(b"D " + bytes(w["x"]))
        else:
            k = {"OK Pleased to meet you": "greet"}.get(w["s"], w["s"])
            words.append(rng.choice(WORDS[k]).encode())
    places = ["greet", "0", "1", "2"]
    for i, w in enumerate(words[:4]):
        if i == 0:
            if s["said"][0]["s"] == "almost OK":
                w = rng.choice(WORDS["almost greet"]).encode()
            x["greet"] = hexl(w)
        else:
            x["odd"][places[i]] = hexl(w)
    if len(words) > 4:
        x["pin"] = [hexl(*words[4:])]
    if s["exit"] >= 0 and len(words) < 5:
        x["quit"] = places[len(words)] if len(words) < 4 else "pin"
    elif s["exit"] >= 0 and len(words) == 5 and s["said"][4]["d"]:
        x["quit"] = "after"
    return sc


def run(c):
    big = TIER == "thorough"
    rng = c.rng
    cfg = "SPECIFICATION Spec\nINVARIANT AsSpecified Whole RoundTrip %s\nCHECK_DEADLOCK FALSE\nCONSTANTS\n NSet = %d\n Bug = \"%s\"\n"
    for n in (1, 3, 5):
        c.design("PinentryModel", cfg % ("", n, ""))
    for bug in ("set", "data", "twice"):
        if "AsSpecified is violated" not in tlc("PinentryModel", cfg % ("", 3, bug)).out:
            raise Broken("the specification does not notice " + bug)
        c.count("negative_controls")
    ss, _ = scenarios_of("PinentryModel", cfg % ("Emit", 3, ""))
    bins = build("bpass", "l1", "fakepin")
    scs = []
    for s in ss:
        for _ in range(12 if big else 4):
            scs.append(of_model(s, rng))
    c.cov["scenarios"] = {"from_model": len(scs)}
    for p in PASS:
        scs.append(Scen(p))
        scs.append(Scen(p, exit=rng.choice([1, 2, 255])))
        scs.append(Scen(p, bye=hexl(b"OK closing connection")))
        q = enc(p.encode())
        for bad in ([b"D " + q], [b"D " + q, b"ERR 83886179 Operation cancelled"], [b"D " + q, b"D " + q, b"OK"], [b"D " + q, b"S x", b"OK"], [b"# c", b"D " + q, b"OK"], [b"D" + q, b"OK"], [b"D " + q, b""]):
            z = Scen(p, pin=[hexl(*bad)], quit="after" if len(bad) == 1 or rng.random() < .5 else "")
            z.typed = False
            scs.append(z)
    for _ in range(3000 if big else 300):
        b = bytes(rng.choice(b"%0123456789ADad\r\n Dx\xc3\xbc+\\") for _ in range(rng.randrange(0, 14)))
        scs.append(Scen(b))
    for n in ([990, 998] if not big else range(980, 999)):
        scs.append(Scen("x" * n))
    for n in (1000, 4096, 20000, 65536, 70000):     # longer than a line may be
        z = Scen("x" * n)
        z.loose = True
        scs.append(z)
    for p in ("p", "", "x%y"):
        for cut in (1, 2, 3, 4):                        # the end of a line is missing
            z = Scen(p)
            z.script["pin"] = [bytes.fromhex(z.script["pin"][0])[:-cut].hex()]
            z.script["quit"] = "after"
            z.typed, z.loose = False, cut == 1
            scs.append(z)
    for p in ("p", "%25"):
        z = Scen(p, pin=[hexl(b"D " + enc(p.encode()), b"OK", b"OK", b"extra")])
        z.loose = True
        scs.append(z)
    for w in CANCEL:
        for e in (0, 1, 2):
            z = Scen("", pin=[hexl(w.encode())], exit=e, quit=rng.choice(["", "after"]))
            scs.append(z)
    for w in WORDS["ERR"]:
        for e in (0, 1):
            z = Scen("", pin=[hexl(w.encode())], exit=e)
            z.typed = False
            scs.append(z)
    for z in scs:
        # whether a program that's gone already can be told so is a matter of luck
        if z.script["quit"] == "after" and b"Operation cancelled" not in bytes.fromhex(z.script["pin"][0]):
            z.loose = True
    envs = [{}, {"TERM": "xterm"}, {"DISPLAY": ":0"}, {"TERM": "xterm 1", "DISPLAY": "host:0.1"}]
    traces, info = [], []

    with Dir() as d:
        items = []
        for i, z in enumerate(scs):
            p = os.path.join(d, "s%d" % i)
            json.dump(z.script, open(p, "w"))
            env = {"TERM": None, "DISPLAY": None, "PINENTRY": bins["fakepin"], "BPV_PIN": p, "BPV_PINLOG": p + ".log", **rng.choice(envs)}
            items.append({"kind": "pin", "arg": {"env": env, "prompt": rng.choice(["passphrase: ", "enter new password: ", "ü %25 pw> ", ""])}})
        parts = [list(range(k, len(items), 8)) for k in range(8)]
        with ThreadPoolExecutor(8) as ex:
            got = list(ex.map(lambda part: l1(bins["l1"], [items[i] for i in part]), parts))
        res = [None] * len(items)
        for part, g in zip(parts, got):
            for i, r in zip(part, g):
                res[i] = r
        for i, (z, r) in enumerate(zip(scs, res)):
            if "how" not in r:
                c.violation("pinentry dialogue: " + str(r)[:300], {"script": z.script, "result": r})
                continue
            rounds = transcript(os.path.join(d, "s%d.log" % i))
            ev = {"k": "ask", "want": "program", "found": True, **(dialogue(rounds[0], z.script["exit"]) if rounds else NONE), "loose": z.loose,
                  "res": {"how": r["how"], "pw": r.get("pw", [])},
                  "typed": {"is": z.typed and z.script["exit"] == 0 and not z.script["quit"], "p": list(z.pw)}}
            traces.append({"t": [ev]})
            info.append((z.script, r, rounds))

        # which program is started
        names = ["pinentry", "pinentry-gnome3", "pinentry-kde", "pinentry-x11", "pinentry-curses", "pinentry-tty"]

        def which(k):
            rg = random.Random("%d-%d" % (vf.SEED, k))
            sub = os.path.join(d, "w%d" % k)
            os.makedirs(sub + "/bin")
            have = [n for n in names if rg.random() < .35] if k % 5 else []
            for n in have:
                os.symlink(bins["fakepin"], os.path.join(sub, "bin", n))
            z = Scen("pw%d" % k)
            json.dump(z.script, open(sub + "/s", "w"))
            val = rg.choice([None, "", None, "", "none", "NONE", "None", "nOnE", "missing", sub + "/missing", sub + "/s", sub, "pinentry-tty", "none ", "no"])
            env = {"PATH": sub + "/bin", "PINENTRY": val, "BPV_PIN": sub + "/s", "BPV_PINLOG": sub + "/log", "TERM": None, "DISPLAY": None}
            if k % 7 == 0:      # not executable
                os.symlink(sub + "/s", os.path.join(sub, "bin", "pinentry" if "pinentry" not in have else "x"))
            rs = l1(bins["l1"], [{"kind": "pin", "arg": {"env": env, "prompt": "p"}}] * 2)
            rounds = transcript(sub + "/log")
            none = val is not None and val.lower() == "none"
            want = "none" if none else "search" if not val else "program"
            found = bool(have) if not val else val in have
            out = []
            for j, r in enumerate(rs):
                ev = {"k": "ask", "want": want, "found": found, **(dialogue(rounds[j], 0) if len(rounds) > j else NONE), "loose": False,
                      "res": {"how": r.get("how", "dead"), "pw": r.get("pw", [])}, "typed": {"is": want == "search" and found, "p": list(z.pw)}}
                out.append(({"t": [ev]}, ({"PINENTRY": val, "found": have, "round": j}, r, rounds)))
            return out
        for o in pmap(which, range(400 if big else 80)):
            for tr, inf in o:
                traces.append(tr)
                info.append(inf)

    # the program itself
    codec = Codec(build("codec")["codec"])

    def app_use(k):
        rg = random.Random("use%d-%d" % (vf.SEED, k))
        z = rg.choice(scs)
        while z.loose or len(z.pw) > 1000:
            z = rg.choice(scs)
        good = rg.random() < .45
        if good:
            z = Scen(rg.choice([p for p in PASS]))
        p = z.pw
        if rg.random() < .25:
            p = rg.choice([p + b" ", p[:-1], p + b"\n", enc(p), b"p", p.strip()])
        with Dir() as e:
            json.dump(z.script, open(e + "/s", "w"))
            codec.seal(e + "/f.bp", p.decode("utf-8", "replace") or "q", {"log": []})
            p = p.decode("utf-8", "replace").encode() or b"q"
            pin = rg.choice(["none", "None", "NONE"]) if rg.random() < .12 else bins["fakepin"]
            before = open(e + "/f.bp", "rb").read()
            app = App(bins["bpass"], e, env={"PINENTRY": pin, "BPV_PIN": e + "/s", "BPV_PINLOG": e + "/log"})
            try:
                ok = app.open()
                asked = any(x["hidden"] for x in app.opening)
                rc = app.rc
                if ok:
                    app.run("exit")
            finally:
                app.kill()
            rounds = transcript(e + "/log")
            ev = {"k": "use", "want": "none" if pin.lower() == "none" else "program", "found": True,
                  **(dialogue(rounds[0], z.script["exit"]) if rounds else NONE), "loose": False, "file": list(p), "open": bool(ok), "asked": asked, "rc": -1 if rc is None else rc}
            return {"t": [ev]}, (z.script, p, rounds)

    def app_set(k):
        rg = random.Random("set%d-%d" % (vf.SEED, k))
        pool = [x for x in PASS if 0 < len(x) < 400]
        new = rg.choice(pool)
        r1 = Scen(new).script["pin"][0]
        r = rg.random()
        if r < .5:
            r2 = r1
        elif r < .75:
            r2 = Scen(rg.choice([new + " ", new.strip() or "q", new[:-1] or "z", rg.choice(pool), new.replace("%25", "%") + "%"])).script["pin"][0]
        else:
            r2 = hexl(*rg.choice([[b"ERR 1 x"], [CANCEL[0].encode()], [b"D " + enc(new.encode()), b"ERR"], [b"D " + enc(new.encode()), b"D y", b"OK"]]))
            if rg.random() < .5:
                r1, r2 = r2, r1
            if rg.random() < .2:
                r1 = r2
        with Dir() as e:
            z = Scen("old")
            z.script["pin"].extend([r1, r2])
            json.dump(z.script, open(e + "/s", "w"))
            codec.seal(e + "/f.bp", "old", {"log": []})
            app = App(bins["bpass"], e, env={"PINENTRY": bins["fakepin"], "BPV_PIN": e + "/s", "BPV_PINLOG": e + "/log"})
            try:
                if app.open():
                    app.run("passwd", ["m"])
                    if app.rc is None:
                        app.run("exit")
            finally:
                app.kill()
            rounds = transcript(e + "/log")
            ds = [dialogue(x, 0) for x in rounds[1:3]]
            ds += [NONE] * (2 - len(ds))
            cands = {b"old", new.encode()}
            for h in (r1, r2):
                for l in bytes.fromhex(h).split(b"\n"):
                    if l.startswith(b"D "):
                        cands |= {l[2:], l[2:].replace(b"%0D", b"\r").replace(b"%0A", b"\n").replace(b"%25", b"%"), l[2:].replace(b"%25", b"%").replace(b"%0A", b"\n")}
            opens = []
            for x in sorted(cands | {b""}):
                try:
                    if codec.open(e + "/f.bp", "", x.decode())["ok"]:
                        opens.append(list(x))
                except UnicodeDecodeError:
                    pass
            ev = {"k": "set", "rounds": [{"want": "program", "found": True, **x} for x in ds], "file": list(b"old"), "creds": opens}
            return {"t": [ev]}, (z.script, new, rounds)
    for fn, n in ((app_use, 1500 if big else 250), (app_set, 800 if big else 150)):
        for r in pmap(fn, range(n)):
            if isinstance(r, dict):
                c.violation("program hangs asking for a passphrase", r)
                continue
            traces.append(r[0])
            info.append(r[1])
    codec.close()
    bad, st = judge("PinentryTrace", traces, "PinentryTrace.cfg", chunk=-(-len(traces) // 6))
    c.cov["states"] += st["states"]
    c.cov["transitions"] += st["generated"]
    c.traces(len(traces))
    kinds = {}
    for t in traces:
        e = t["t"][0]
        o = e["k"] + ":" + (e["res"]["how"] if e["k"] == "ask" else str(e.get("open", len(e.get("creds", [])))))
        kinds[o] = kinds.get(o, 0) + 1
    c.cov["events"] = kinds
    for i, at, w in bad:
        c.violation("%s: %s" % (",".join(w), str(info[i])[:400]), {"event": traces[i]["t"][0], "info": str(info[i])[:4000], "wrong": w})
    for i in (0, len(scs) // 2, len(traces) - 1):
        c.sample(str(info[i])[:500])
