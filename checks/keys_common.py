"""Recorded sessions of user management for module KeyTrace."""
import hashlib
import uuid as uuidlib
from vf import *
import vf
from app import App, Codec, Dir, EOF, INT, plain, pmap
from session import norm, pw_outcome, PWPROMPT

USERS = ["a", "ann", "Ann", "ü", "x/y", "%s", "1", "user/a", "ann1", "日本", "..", "a:", "-", "bob\u00a0x", "\\n", "averyveryverylongname" * 3]
# Names that are nearly the same
TWINS = [["ann", "Ann", "ANN", "ann1", "an", "annn"], ["ü", "Ü", "u\u0308", "U\u0308", "u", "u\u0308\u0308"], ["a", "A", "user/a", "user/A", "a/a", "user/user/a"]]
OTHERS = ["mail", "user", "users/a", "User/a", "user/", "x/user/a", "web", "syn", "user-a", "юзер/a"]
PASSES = ["p", "pass with spaces", " lead", "trail ", "ünï", "%25%", 'a"b\'c', "long" * 40, "\\", "日本語", "P", "p ", "tab\tbed", "\u0301", "0", "true", "\u00e9", "e\u0301"]


def fake_rng(rng):
    return rng


class KeyRun:
    """One history: a file, sessions on it, and who can open it in between."""

    def __init__(self, env, d, sc):
        self.bin, self.codec, self.d, self.sc = env["bpass"], env["codec"], d, sc
        self.f = os.path.join(d, "f.bp")
        self.t, self.hist = [], []
        self.real = {}                  # passphrases made up by the program
        self.users, self.passes = {""}, set()
        self.salts = {}

    def text(self, ents):
        log, tm = [], 10**18
        for i, (u, e) in enumerate(ents.items()):
            kv = [("updated", str(tm)), ("name", e["n"])]
            kv += [(k, e[k]) for k in ("salt", "iv", "mkey") if k in e]
            log.append({"time": tm, "kind": "add", "uuid": u})
            log += [{"time": tm, "kind": "setk", "uuid": u, "key": k, "value": v} for k, v in kv]
        return {"log": log}

    def start(self):
        st = self.sc["start"]
        ents, model = {}, {}
        if st["users"]:
            ks = self.codec.call(op="keys", users=[{"name": n, "pass": p} for n, p in st["users"]])
            for i, k in enumerate(ks["keys"]):
                u = str(uuidlib.UUID(int=i + 1, version=4))
                ents[u] = {"n": "user/" + k["name"], "salt": k["salt"], "iv": k["iv"], "mkey": k["mkey"]}
                model[u] = {"n": "user/" + k["name"], "k": {"p": st["users"][i][1], "m": 1}}
        for j, n in enumerate(st["plain"]):
            u = str(uuidlib.UUID(int=100 + j, version=4))
            ents[u] = {"n": n}
            model[u] = {"n": n, "k": {"p": "", "m": 0}}
        text = json.dumps(self.text(ents)).encode()
        if st["users"]:
            # the file is made of the same keys as its entries
            r = self.codec.call(op="assemble", path=self.f, text=b64(text), master=ks["master"],
                                mats=[{k: x[k] for k in ("name", "salt", "iv", "mkey")} for x in ks["keys"]])
            if not r["ok"]:
                raise Broken("codec: " + r["err"])
        else:
            self.codec.seal(self.f, st["own"], text)
        self.users |= {n for n, _ in st["users"]} | {n[5:] for n in st["plain"] if n.startswith("user/")}
        self.passes |= {p for _, p in st["users"]} | {st["own"]}
        ev = {"k": "start", "f": {"multi": bool(st["users"]), "own": "" if st["users"] else st["own"], "ents": model, "m": 1 if st["users"] else 0, "top": 1 if st["users"] else 0}}
        ev.update(self.probe())
        self.t.append(ev)

    def probe(self):
        """Everybody who can open the file now."""
        creds, texts, names, salts, ivs = [], set(), [], [], []
        r = self.codec.call(op="probe", path=self.f, pairs=[{"name": u, "pass": p} for u in sorted(self.users) for p in sorted(self.passes)])
        if not r["ok"]:
            return {"creds": [], "same": True, "names": [], "salts": [], "ivs": []}
        for x in r["opens"]:
            creds.append([x["name"], x["pass"]])
            texts.add(x["text"])
            if x["name"] not in names:
                names.append(x["name"])
                salts.append(self.salts.setdefault(x["salt"], len(self.salts) + 1))
            if x["name"] == "":
                ivs.append(self.salts.setdefault(x["iv"], len(self.salts) + 1))
        return {"creds": creds, "same": len(texts) <= 1, "names": names, "salts": salts, "ivs": ivs[:1]}

    def tr(self, p):
        return self.real.get(p, p)

    def run(self):
        self.start()
        for s in self.sc["sessions"]:
            if not self.session(s):
                break
        return {"t": self.t, "hist": self.hist}

    def session(self, s):
        user, pw = s["who"][0], self.tr(s["who"][1])
        before = open(self.f, "rb").read()
        app = App(self.bin, self.d)
        dead = False
        try:
            multi = before[12:16] != b"0000"
            if not multi:
                user = ""           # nobody is asked for a name
            ok = app.open(*([user, pw] if multi else [pw]))
            self.hist.append(["open", user, pw, ok])
            self.t.append({"k": "open", "who": [user, pw], "ok": ok})
            if ok:
                log = [norm(x) for x in app.log() or []]
                for c in s["cmds"] + [{"c": EOF}]:
                    log = self.command(app, c, log)
                    if log is None:
                        break
        finally:
            dead = app.crashed() if app.rc is not None else False
            app.kill()
        ev = {"k": "end", "saved": open(self.f, "rb").read() != before}
        ev.update(self.probe())
        self.t.append(ev)
        self.hist.append(["creds", ev["creds"]])
        return ok and not dead

    def command(self, app, c, log):
        cmd = c["c"]
        a = list(c.get("a", []))
        line = cmd if cmd in (EOF, INT) else " ".join([cmd, *a])
        if isinstance(line, str):
            a = line.split()[1:]
        toks = list(c.get("ans", []))
        r = app.run(line, [x if x in (EOF, INT) else self.tr(x) for x in toks])
        asked = r["asked"]
        cc = {"c": "<EOF>" if cmd is EOF else "<INT>" if cmd is INT else cmd, "a": a, "how": "none", "p": "", "yes": False, "tab": {"": ""}, "ans": "", "id": ""}
        if cmd in ("passwd", "rekey", "adduser") and asked:
            o = pw_outcome(asked, 0)
            cc["how"], cc["p"] = o["how"], o["pw"]
            if not r["open"] and o["how"] == "open":
                cc["how"] = "eof"
        if cmd == "rekeyall":
            cc["how"] = "ok"
            for q in asked:
                if q["ans"] in (EOF, INT):
                    cc["how"] = "eof" if q["ans"] is EOF else "int"
                elif q["ans"] in ("yes", "y", "YES", "Y"):
                    cc["yes"] = True
            for ln in r["out"].split("\n"):
                m = re.match(r"^ *(.*): (\S{32})$", ln)
                if m:
                    cc["tab"][m.group(1)] = m.group(2)
            for n, tok in c.get("tab", {}).items():
                if n in cc["tab"] and cc["tab"][n]:
                    self.real[tok] = cc["tab"][n]
        if cmd == "rm" and asked:
            x = asked[-1]["ans"]
            cc["ans"] = "<EOF>" if x is EOF else "<INT>" if x is INT else x
        self.users |= set(cc["tab"])
        if a:
            self.users |= {x[5:] for x in a if x.startswith("user/")} | ({x for x in a} if cmd in ("adduser", "passwd", "rekey") else set())
        self.passes |= {cc["p"]} | set(cc["tab"].values()) | {q["ans"] for q in asked if q["hidden"] and isinstance(q["ans"], str)}
        cur = None
        if r["open"]:
            cur = app.log()
            cur = [norm(x) for x in cur] if cur is not None else None
        new = cur[len(log):] if cur is not None else []
        names = {}
        for x in log + new:
            if x["kind"] == "setk" and x["k"] == "name" and (x["u"] not in names or x in new and not any(y["u"] == x["u"] and y["k"] == "name" for y in log)):
                names[x["u"]] = x["v"]
        for x in log:
            if x["kind"] == "setk" and x["k"] == "name":
                names[x["u"]] = x["v"]
        adds = [x["u"] for x in new if x["kind"] == "add"]
        cc["id"] = adds[0] if adds else "none"
        self.t.append({"k": "cmd", "c": cc, "open": r["open"], "crash": bool(r.get("crash")) or bool(r.get("endless")) or (r["open"] and cur is None),
                       "spoke": bool(r["out"].strip()), "changed": cur is not None and cur != log,
                       "touched": sorted({names.get(x["u"], "?") for x in new})})
        self.hist.append([plain(line), [plain(q["ans"]) for q in asked], r["out"][-400:]])
        return cur


def b64(b):
    import base64
    return base64.b64encode(b).decode()


def run_keys(c, scs, par=8):
    b = build("bpass", "codec")
    codec = Codec(b["codec"], 8)
    env = {"bpass": b["bpass"], "codec": codec}

    def one(sc):
        with Dir() as d:
            return KeyRun(env, d, sc).run()
    try:
        return pmap(one, scs, par)
    finally:
        codec.close()


def judge_keys(c, scs, relevant):
    res = run_keys(c, scs)
    traces, idx = [], []
    for i, r in enumerate(res):
        if "hang" in r:
            if relevant("hang"):
                c.violation("the program shows no sign of life: " + r["hang"], {"scenario": plain(scs[i])})
            continue
        traces.append({"t": r["t"]})
        idx.append(i)
    bad, st = judge("KeyTrace", traces, "KeyTrace.cfg")
    c.cov["states"] += st["states"]
    c.cov["transitions"] += st["generated"]
    badtr, foreign = set(), 0
    for ti, at, w in sorted(bad):
        if "start" in w:
            raise Broken("the file made to start from is not as it should be: %s" % json.dumps(traces[ti]["t"][0])[:800])
        rel = sorted(x for x in w if relevant(x))
        if not rel:
            foreign += 1
            continue
        if ti in badtr:
            continue
        badtr.add(ti)
        ev = traces[ti]["t"][at - 1]
        c.violation("%s: not as specified (%s)" % (json.dumps(ev.get("c", {}).get("c", ev["k"])), ", ".join(rel)),
                    {"wrong": w, "position": at, "event": ev, "history": res[idx[ti]]["hist"], "scenario": plain(scs[idx[ti]])})
    c.traces(len(traces) - len(badtr))
    c.count("sessions", sum(1 for t in traces for e in t["t"] if e["k"] == "open"))
    c.count("commands", sum(1 for t in traces for e in t["t"] if e["k"] == "cmd"))
    if foreign:
        c.cov["events_wrong_in_ways_of_other_properties"] = foreign
    for r in res[:3]:
        if "hist" in r:
            c.sample(r["hist"][:8])


def key_cfg(names, plain_, pas, ids, depth, loose=False, rude=False):
    q = lambda l: "{" + ", ".join('"%s"' % x for x in l) + "}"
    return "CONSTANTS\n  Names = %s\n  Plain = %s\n  Pass = %s\n  Ids = %s\n  MaxDepth = %d\n  LooseRm = %s\n  Rude = %s\n" % (
        q(names), q(plain_), q(pas), q(ids), depth, str(loose).upper(), str(rude).upper())


KPROPS = "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANT Openable OnePass SelfIn\nPROPERTY NoWayBack Others NoSelfDelete\n"


def key_design(c, big):
    c.design("KeyModel", KPROPS + key_cfg(["a", "b"], ["x"], ["p1"], ["i1", "i2"], 10 if big else 7, rude=True), timeout=800)
    if "violated" not in tlc("KeyModel", KPROPS + key_cfg(["a", "b"], ["x"], ["p1"], ["i1", "i2"], 7, loose=True)).out:
        raise Broken("the specification does not notice that somebody deletes himself")
    c.count("negative_controls")


def render_keys(c, hist, plains=("x",)):
    """A history of KeyModel as input for the program, in odd letters."""
    r = c.rng
    names = dict(zip("abcd", r.sample(USERS, 4)))
    others = dict(zip("xyz", r.sample(OTHERS, 3)))
    pas = dict(zip(["p0", "p1", "p2", "p3"], r.sample(PASSES, 4)))
    run = "%x" % r.getrandbits(40)

    def nm(n):
        return "user/" + names[n[5:]] if n.startswith("user/") else others.get(n, names.get(n, n))

    def pw(p):
        return pas.get(p, p if p in ("",) else run + p)

    def answers(p):
        if r.random() < .1:
            return ["m", "no", "match", "m", pw(p), pw(p)]
        return ["m", pw(p), pw(p)]
    ses, plain_used = [], set()
    for h in hist:
        a = [nm(x) for x in h["a"]]
        k = h["c"]
        if k == "open":
            ses.append({"who": [names.get(h["a"][0], ""), pw(h["p"])], "cmds": []})
            continue
        x = {"c": k, "a": a}
        if k in ("passwd", "rekey", "adduser"):
            x["ans"] = answers(h["p"]) if h["how"] == "ok" else [r.choice([[], ["m"], ["m", "q"]]), EOF if h["how"] == "eof" else INT]
            if h["how"] != "ok":
                x["ans"] = x["ans"][0] + [x["ans"][1]]
        elif k == "rekeyall":
            x["ans"] = [EOF] if h["how"] == "eof" else [r.choice(["y", "yes"])] if h["yes"] else ["x", "n"]
            x["tab"] = {names.get(n, n): run + p for n, p in h["tab"].items()}
        elif k == "add":
            x["ans"] = ["", "", "y"]
        elif k == "rm":
            x["ans"] = [INT] if h["ans"] == "<INT>" else [nm(h["ans"]) if h["ans"] not in ("", "y") else h["ans"]]
        elif k in ("<INT>", "<EOF>"):
            x = {"c": INT if k == "<INT>" else EOF}
        ses[-1]["cmds"].append(x)
    return {"start": {"users": [], "own": pas["p0"], "plain": []}, "sessions": ses}


def key_scenarios(c, cover, sim, depth=26):
    out = []
    if cover:
        ss, _ = scenarios_of("KeyModel", "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nACTION_CONSTRAINT Emit\n" + key_cfg(["a", "b"], ["x"], ["p1"], ["i1", "i2"], 6, rude=True))
        c.cov["model_transitions"] = len(ss)
        c.rng.shuffle(ss)
        c.cov["model_transitions_replayed"] = min(cover, len(ss))
        out += ss[:cover]
    if sim:
        ss, _ = scenarios_of("KeyModel", "SPECIFICATION Spec\nINVARIANT EmitEnd\n" + key_cfg(["a", "b", "c"], ["x", "y"], ["p1", "p2", "p3"], ["i1", "i2", "i3", "i4", "i5", "i6"], depth, rude=True),
                             simulate=sim * 2, depth=depth + 2)
        uniq = list({json.dumps(s): s for s in ss}.values())
        c.rng.shuffle(uniq)
        out += uniq[:sim]
    return [render_keys(c, s) for s in out]


def key_random(c, n):
    """Random sessions over files that exist already, single and multi-user."""
    r = c.rng
    out = []
    for _ in range(n):
        us = r.sample(USERS if r.random() < .6 else r.choice(TWINS), 5)
        ps = r.sample(PASSES if r.random() < .7 else ["p", "P", "p ", " p", "pp", "p\t"], 5)
        k = r.choice([0, 1, 2, 2, 3])
        users = [[us[i], ps[i]] for i in range(k)]
        others = r.sample(OTHERS + ["user/" + us[4]], 2)
        creds = {u: p for u, p in users} if k else {"": ps[0]}
        have = {"user/" + u for u, _ in users} | set(others)
        ses, own = [], None
        for _ in range(r.randrange(1, 4)):
            who = r.choice(sorted(creds)) if r.random() < .85 else r.choice(us)
            s = {"who": [who, creds.get(who) or r.choice(ps)], "cmds": []}
            ses.append(s)
            for _ in range(r.randrange(1, 5)):
                t = r.choice(us[:4])
                x = r.random()
                pw = r.choice(ps)
                ans = ["m", pw, pw]
                if x < .03:
                    # somebody else gets another name, who am I after that?
                    s["cmds"].append({"c": "mv", "a": ["user/" + t, r.choice(["user/" + r.choice(us), r.choice(OTHERS)])]})
                    s["cmds"].append({"c": r.choice(["passwd", "rekey"]), "a": [], "ans": ans})
                elif x < .2:
                    s["cmds"].append({"c": "passwd", "a": [] if r.random() < .4 else [t], "ans": ans})
                elif x < .35:
                    s["cmds"].append({"c": "rekey", "a": [] if r.random() < .5 else [t], "ans": ans})
                elif x < .5:
                    s["cmds"].append({"c": "adduser", "a": [t], "ans": ans})
                elif x < .62:
                    n_ = "user/" + t if r.random() < .8 else r.choice(others)
                    s["cmds"].append({"c": "rm", "a": [n_], "ans": [n_]})
                elif x < .85:
                    s["cmds"].append({"c": "mv", "a": [r.choice(["user/" + t, r.choice(others)]), r.choice(["user/" + r.choice(us), r.choice(OTHERS), "user/" + t + "1"])]})
                elif x < .92:
                    s["cmds"].append({"c": "rekeyall", "a": [], "ans": ["y"]})
                else:
                    s["cmds"].append({"c": "add", "a": [r.choice(["user/" + t, r.choice(OTHERS)])], "ans": ["", "", "y"]})
            s["cmds"].append({"c": r.choice(["exit", "exit", "exit", EOF, INT]), "a": []})
        out.append({"start": {"users": users, "own": ps[0], "plain": others}, "sessions": ses})
    return out


def key_crowds(c, n):
    """Files of many users, as many as fit into one digit more of the header than before."""
    r = c.rng
    out = []
    for i in range(n):
        k = [9, 8, 15, 99, 14, 10, 16, 254, 255, 12, 7, 98][i % 12]
        us = ["m%d" % j for j in range(k + 3)]
        r.shuffle(us)
        ps = r.sample(PASSES, 3)
        users = [[u, r.choice(ps)] for u in us[:k]]
        have = dict(users)
        ses = []
        for _ in range(3):
            who = r.choice(sorted(have))
            s = {"who": [who, have[who]], "cmds": []}
            ses.append(s)
            for _ in range(r.randrange(1, 3)):
                left = [u for u in us if u not in have]
                pw = r.choice(ps)
                ans = ["m", pw, pw]
                x = r.random()
                if x < .6 and left:
                    s["cmds"].append({"c": "adduser", "a": [left[0]], "ans": ans})
                    have[left[0]] = pw
                elif x < .8:
                    t = r.choice(sorted(have))
                    s["cmds"].append({"c": "passwd", "a": [t], "ans": ans})
                    have[t] = pw
                else:
                    t = r.choice(sorted(set(have) - {who}))
                    s["cmds"].append({"c": "rm", "a": ["user/" + t], "ans": ["user/" + t]})
                    del have[t]
            s["cmds"].append({"c": "exit", "a": []})
        out.append({"start": {"users": users, "own": ps[0], "plain": ["x"]}, "sessions": ses})
    return out


def key_twins(c, n):
    """Users of nearly the same name: what is done to one of them is not done to the one at work."""
    r = c.rng
    out = []
    for i in range(n):
        fam = list(TWINS[i % len(TWINS)])
        r.shuffle(fam)
        ps = r.sample(PASSES, 5)
        k = r.choice([3, 4, 5])
        users = [[u, r.choice(ps)] for u in fam[:k]]
        me, other = r.sample([u for u, _ in users], 2)
        same = [u for u in fam[:k] if u != me and u.lower() == me.lower()]
        other = r.choice(same) if same and r.random() < .7 else other
        new = r.choice([fam[5], fam[5], "z", "Z" + me])
        ans = ["m", ps[3], ps[3]]
        first = r.choice([{"c": "mv", "a": ["user/" + other, "user/" + new]}] * 3 + [
            {"c": "mv", "a": ["user/" + other, "x"]}, {"c": "rm", "a": ["user/" + other], "ans": ["user/" + other]},
            {"c": "passwd", "a": [other], "ans": ans}, {"c": "rekey", "a": [other], "ans": ans},
            {"c": "mv", "a": ["user/" + me, "user/" + new]}])
        then = r.choice([{"c": "passwd", "a": [], "ans": ["m", ps[4], ps[4]]}] * 2 + [{"c": "rekey", "a": [], "ans": []}] * 2 + [
            {"c": "rm", "a": ["user/" + me], "ans": ["user/" + me]}, {"c": "rm", "a": ["user/" + new], "ans": ["user/" + new]},
            {"c": "adduser", "a": [other], "ans": ans}, {"c": "mv", "a": ["user/" + me, "user/q"]}])
        cmds = [first, then] + ([{"c": "passwd", "a": [], "ans": ["m", ps[2], ps[2]]}] if r.random() < .4 else []) + [{"c": "exit", "a": []}]
        out.append({"start": {"users": users, "own": ps[0], "plain": ["y"]}, "sessions": [{"who": [me, dict(users)[me]], "cmds": cmds}]})
    return out
