"""Saving: every state a crash or failure may leave behind, and how runs end (modules Durable, DurableModel, DurableTrace)."""
import base64, errno, io, csv, json, os, random, re, shutil, signal, subprocess, threading, time
from vf import *
from app import App, Codec, Dir, EOF, INT, Hang, pmap
from session import Maker, norm

PW, PW2 = "pw", "another one"
USERS = [("ann", "pa"), ("bob", "pb")]
ENOSPC, EIO, EACCES, EDQUOT, EROFS = errno.ENOSPC, errno.EIO, errno.EACCES, errno.EDQUOT, errno.EROFS


def names_of(log):
    d = {}
    for t in log:
        if t.get("key") == "name":
            d[t["uuid"]] = t.get("value", "")
        if t["kind"] == "del":
            d.pop(t["uuid"], None)
    return set(d.values())


def small_log(n=3, big=0):
    m = Maker()
    for i in range(n):
        u = m.entry("e%d" % i, user="u%d" % i)
        if big:
            m.set(u, "notes", os.urandom(big // 2).hex())
    return m.log


def multi(codec, f, log):
    ks = codec.call(op="keys", users=[{"name": n, "pass": p} for n, p in USERS])
    m = Maker(1500000000)
    for k in ks["keys"]:
        m.entry("user/" + k["name"], salt=k["salt"], iv=k["iv"], mkey=k["mkey"])
    log = m.log + log
    r = codec.call(op="assemble", path=f, text=base64.b64encode(json.dumps({"log": log}).encode()).decode(), master=ks["master"],
                   mats=[{k: x[k] for k in ("name", "salt", "iv", "mkey")} for x in ks["keys"]])
    if not r["ok"]:
        raise Broken("codec: " + r["err"])
    return log


class Task:
    """Something that is done with a file, from opening it to leaving."""

    def __init__(self, name, old=None, users=False, cmds=(), leave="exit", link="", remotes=(), args=(), lpass="", file="f.bp", newpass=None, tty=False):
        self.__dict__.update(locals())
        self.nosync = not remotes

    def prepare(self, codec, d):
        """Make the files there are; returns the history in the main one."""
        self_real = {"": self.file, "link": "sub/real.bp", "dangling": "sub/real.bp"}[self.link]
        os.makedirs(d + "/sub")
        f = os.path.join(d, self_real)
        if self.link:
            os.symlink(f if self.name.endswith("abs") else self_real, os.path.join(d, self.file))
        old = [dict(t) for t in self.old] if self.old is not None else None
        if self.remotes:
            m = Maker(1550000000)
            for i, r in enumerate(self.remotes):
                m.entry("sync/r%d" % i, url="file://%s/rem/r%d.bp" % (d, i), sync="true", synckind="file")
            old = m.log + old
            os.makedirs(d + "/rem")
            for i, r in enumerate(self.remotes):
                if r == "older":
                    codec.seal(d + "/rem/r%d.bp" % i, PW, {"log": old[:-2]})
                elif r == "newer":
                    n = Maker(1700000000 + i)
                    n.entry("from r%d" % i)
                    codec.seal(d + "/rem/r%d.bp" % i, PW, {"log": old + n.log})
        if old is not None:
            if self.users:
                old = multi(codec, f, old)
            else:
                codec.seal(f, PW, {"log": old})
        if self.lpass:
            os.makedirs(d + "/bin")
            open(d + "/data", "w").write(self.lpass)
            os.symlink(LPASS, d + "/bin/lpass")
        return old

    def creds(self):
        c = [(n, p) for n, p in USERS] if self.users else [("", PW)]
        return c + ([(USERS[0][0] if self.users else "", self.newpass)] if self.newpass else [])


def opens(codec, path, creds):
    """The history a file opens to with any of the credentials, or None."""
    for u, p in creds:
        l = codec.log(path, u, p)
        if l is not None:
            return [norm(t) for t in l]
    return None


def drive(app, t, state):
    """Go through a task.  Returns how it was left."""
    cred = list(USERS[0]) if t.users else [PW] if t.old is not None else [PW, PW]
    while True:
        p = app.next()
        if p is None:
            return "exit"
        if p.main:
            break
        if p.text.startswith("proceed"):
            app.say("y")
        else:
            app.say(cred.pop(0) if cred else EOF)
    for line, *answers in t.cmds:
        r = app.run(line, answers)
        if not r["open"]:
            return "ended"
    l = app.log()
    if l is None:
        return "ended"
    state["want"] = [norm(x) for x in l]
    app.say({"exit": "exit", "eof": EOF, "int": INT}[t.leave])
    last = app.next()
    while last is not None:      # asked for something by the sync
        app.say(EOF)
        last = app.next()
    return t.leave


def to_ops(log, start_ids):
    """The operations in a log of optrace, files by identity."""
    ids, out, n = dict(start_ids), [], 0
    for o in log:
        if o["k"] == "end" or o["ret"] < 0:
            continue
        k = o["k"]
        ev = {"k": k, "a": o["a"], "b": o["b"], "id": "", "tok": o["tok"], "sync": bool(o["sync"])}
        if k in ("create", "data", "sync", "wild"):
            if k == "sync" and o["tok"] == "":
                ev["k"] = "dirsync"
            elif k == "create" or o["ino"] not in ids:
                n += 1
                ids[o["ino"]] = "n%d" % n
                if k != "create":
                    ev["k"] = "create"
                ev["id"] = ids[o["ino"]]
            else:
                ev["id"] = ids[o["ino"]]
        if k == "mkdir" or k == "mode" or k == "symlink":
            continue
        out.append(ev)
    return out


def run_task(c, codec, bins, t, fault=None, sig=None, wrap=None, rng=None):
    """One run: [ops as logged, trace, detail]."""
    with Dir() as outer:
        d = outer + "/d"
        os.mkdir(d)
        old = t.prepare(codec, d)
        f = os.path.join(d, t.file)
        real = os.path.realpath(f)
        targets = [real if not t.link else f] + ["%s/rem/r%d.bp" % (d, i) for i in range(len(t.remotes))]
        files, start_ids, i = [], {}, 0
        for top, _, fs in os.walk(d):
            for x in fs:
                p = os.path.join(top, x)
                if os.path.islink(p):
                    continue
                i += 1
                start_ids[os.stat(p).st_ino] = "o%d" % i
                files.append({"name": p, "id": "o%d" % i, "tok": "o%d" % i, "path": p})
        links = [{"name": f, "to": real}] if t.link else []
        before = {p: open(p, "rb").read() if os.path.exists(p) else None for p in targets}
        oldtok = {p: next((x["tok"] for x in files if x["name"] == os.path.realpath(p)), None) for p in targets}
        os.mkdir(outer + "/io")
        w = wrap or [bins["optrace"], "-d", d, "-o", outer + "/ops", "-b", outer + "/blobs"]
        if fault and not wrap:
            w += ["-n", str(fault[0]), "-m", fault[1]] + (["-e", str(fault[2])] if len(fault) > 2 else [])
        if not wrap:
            w.append("--")
        env = {"PATH": d + "/bin:/usr/bin:/bin", "TMPDIR": outer + "/io"}
        app = App(bins["bpass"], outer + "/io", args=[*t.args, *([d + "/out.csv"] if t.args == ["export"] else [])], file=f, env=env, wrap=w, nosync=t.nosync)
        state, killer = {}, None
        try:
            if sig:
                killer = threading.Timer(sig[1], lambda: app.rc is None and app.p.send_signal(sig[0]))
                killer.start()
            how = drive(app, t, state)
            rc, out = app.rc, app.out + app.err
        finally:
            if killer:
                killer.cancel()
            app.kill()
        log = [json.loads(x) for x in open(outer + "/ops")] if not wrap else []
        end = log[-1] if log else {"killed": rc < 0 or rc >= 128}
        if not wrap and end["k"] != "end":
            raise Broken("optrace died: %s" % end)
        crash = rc == 2 and "goroutine " in out
        # what is complete: what opens with what somebody could know of it
        toks = {o["tok"] for o in log if o.get("tok")}
        creds = t.creds()
        comp = [k for k in sorted(toks) if opens(codec, outer + "/blobs/" + k, creds) is not None]
        start = {"k": "start", "files": [{k: x[k] for k in ("name", "id", "tok")} for x in files], "links": links,
                 "targets": [{"name": p, "complete": comp + ([oldtok[p]] if oldtok[p] else []), "absent": before[p] is None} for p in targets]}
        after = open(f, "rb").read() if os.path.exists(f) else None
        got = opens(codec, f, creds) if after is not None else None
        want = state.get("want")
        oldn = [norm(x) for x in old] if old is not None else None
        isnew = got is not None and (got == want if want is not None else
                                     got[:len(oldn or [])] == (oldn or []) and names_of([x | {"uuid": x["u"], "key": x["k"], "value": x["v"]} for x in got]) >= set(t.__dict__.get("names") or []))
        if t.newpass and got is not None and opens(codec, f, creds[-1:]) is None:
            isnew = False
        if t.remotes and want is not None and got is not None:
            isnew = all(x in got for x in want)      # with what came from the remotes
        if t.args == ["export"] and isnew:
            try:
                rows = list(csv.reader(io.StringIO(open(d + "/out.csv", newline="").read(), newline=""), strict=True))
                isnew = len(rows) == t.rows and all(len(r) == len(rows[0]) for r in rows)
            except (OSError, csv.Error, IndexError):
                isnew = False
        isold = after == before[targets[0]] or (got is not None and got == oldn and (not t.newpass or opens(codec, f, creds[:-1]) is not None))
        faulty = bool(fault or sig or wrap)
        leave = "killed" if end["killed"] or (sig and rc not in (0, 1)) else "exit" if how == "ended" else how
        if crash and not faulty:
            leave = "exit"
        ev = {"k": "end", "leave": leave, "faulty": faulty, "rc": rc if rc >= 0 else 128 - rc, "msg": bool(re.search(r"fail|error|cannot|denied|space", out, re.I)) and not crash,
              "isOld": isold, "isNew": isnew, "opens": got is not None, "was": before[targets[0]] is not None, "is": after is not None}
        ops = to_ops(log, start_ids)
        return {"log": log, "trace": [start, *ops, ev], "out": out[-600:], "left": sorted(os.listdir(d))}


def tasks():
    old = small_log()
    header = "url,username,password,extra,name,grouping,fav\n"
    rows = header + "http://a.b,u,p,,Web One,,0\nhttp://sn,,,note,Two,Grp,1\n"
    edit = [("add new", "", "", EOF), ("set e1 user changed",), ("set e0 pass secret",)]
    edit = [("set e1 user changed",), ("set e0 pass secret",), ("rm e2", "e2")]
    ts = [Task("create", cmds=[("add one", "u", "", "m", "x", "x")]), Task("create eof", leave="eof"), Task("create int", leave="int"),
          Task("edit", old, cmds=edit), Task("edit eof", old, cmds=edit, leave="eof"), Task("edit int", old, cmds=edit, leave="int"),
          Task("idle", old), Task("users", old, users=True, cmds=edit),
          Task("passwd", old, cmds=[("passwd", "m", PW2, PW2)], newpass=PW2),
          Task("passwd of a user", old, users=True, cmds=[("passwd", "m", PW2, PW2), *edit], newpass=PW2),
          Task("link", old, link="link", cmds=edit), Task("link abs", old, link="link", cmds=edit, leave="eof"), Task("dangling", link="dangling"),
          Task("import", lpass=rows, args=["lpassimport"]), Task("import more", old, lpass=rows, args=["lpassimport"]),
          Task("export", old, args=["export"]),
          Task("sync older", old, remotes=["older"], cmds=edit), Task("sync new", old, remotes=["absent", "older"], cmds=edit, leave="eof"),
          Task("sync newer", old, remotes=["newer"]), Task("large", small_log(4, 120000), cmds=edit), Task("odd name", old, cmds=edit, file="*f %s'\"\u00fc.f.bp"),
          Task("long name", old, cmds=edit, file="l" * 251 + "f.bp")]
    for t in ts:
        t.names = ["web_one", "two"] if t.lpass else []
        t.rows = 4
    return ts


def refusals(c, codec, bins):
    """Runs that do not get to a session, or whose task fails."""
    out = []

    def attempt(what, prep, answers, args=(), main=False, env=None):
        with Dir() as d:
            os.mkdir(d + "/bin")
            f = d + "/f.bp"
            fn = prep(d, f) or f
            b = open(fn, "rb").read() if os.path.isfile(fn) else None
            todo = list(answers)
            app = App(bins["bpass"], d, args=[a.replace("@", d) for a in args], file=fn, env={"PATH": d + "/bin:/usr/bin:/bin"})
            n = 0
            try:
                while True:
                    p = app.next()
                    if p is None or n > 30:
                        break
                    n += 1
                    app.say("exit" if p.main else todo.pop(0) if todo else EOF)
                rc, text = app.rc, app.out + app.err
            finally:
                app.kill()
            a = open(fn, "rb").read() if os.path.isfile(fn) else None
            ev = {"k": "end", "leave": "refused", "faulty": False, "rc": rc, "msg": bool(re.search(r"fail|error", text, re.I)) and "goroutine " not in text, "isOld": a == b, "isNew": False,
                  "opens": True, "was": b is not None, "is": a is not None}
            return what, ev, text[-400:]

    def sealed(d, f):
        codec.seal(f, PW, {"log": small_log()})

    def users(d, f):
        multi(codec, f, small_log())

    def cut(n):
        def go(d, f):
            sealed(d, f)
            b = open(f, "rb").read()
            open(f, "wb").write(b[:n])
        return go

    def content(b):
        return lambda d, f: open(f, "wb").write(b) and None

    def lp(text, status=0):
        def go(d, f):
            sealed(d, f)
            open(d + "/data", "w").write(text)
            open(d + "/status", "w").write("%d\n" % status)
            os.symlink(LPASS, d + "/bin/lpass")
        return go

    def loop(d, f):
        os.symlink(f, f)

    def through(d, f):
        open(d + "/x", "w").write("x")
        return d + "/x/f.bp"
    H = "url,username,password,extra,name,grouping,fav\n"
    jobs = [("directory", lambda d, f: os.mkdir(f), []), ("link to itself", loop, []), ("through a file", through, [PW, PW]),
            ("no such directory", lambda d, f: d + "/no/f.bp", [PW, PW]), ("empty file", content(b"") , [PW]), ("text", content(b"hello world, not a file of this kind at all\n" * 9), [PW]),
            ("wrong passphrase", sealed, ["wrong"]), ("no passphrase", sealed, [""]), ("end of input", sealed, [EOF]), ("interrupt", sealed, [INT]),
            ("unknown user", users, ["carl", "pa"]), ("wrong user", users, ["bob", "pa"]), ("no user", users, ["", "pa"]), ("user eof", users, [EOF]), ("user int", users, [INT]), ("user then eof", users, ["ann", EOF]),
            ("new, no passphrase", lambda d, f: None, ["", ""]), ("new, mismatch", lambda d, f: None, ["a", "b"]), ("new, eof", lambda d, f: None, [EOF]), ("new, int", lambda d, f: None, [INT]),
            ("new, eof at the second", lambda d, f: None, ["a", EOF]), ("new, int at the second", lambda d, f: None, ["a", INT]),
            *[("cut to %d" % n, cut(n), [PW]) for n in (1, 10, 100, 300, -1, -32)],
            ("import fails", lp(H + "h,u,p,e,n,g,0\n", 1), [PW, "y"], ["lpassimport"]), ("import odd", lp("hello\n"), [PW, "y"], ["lpassimport"]), ("import short", lp(H + "h,u\n"), [PW, "y"], ["lpassimport"]),
            ("import nothing", lp(""), [PW, "y"], ["lpassimport"]), ("no lpass", sealed, [PW, "y"], ["lpassimport"]), ("import eof", lp(H + "h,u,p,e,n,g,0\n"), [PW, EOF], ["lpassimport"]), ("import int", lp(H + "h,u,p,e,n,g,0\n"), [PW, INT], ["lpassimport"]),
            ("export to a directory", sealed, [PW], ["export", "@/bin"]), ("export nowhere", sealed, [PW], ["export", "@/no/x.csv"]), ("export to a full device", sealed, [PW], ["export", "/dev/full"]),
            ("export as what", sealed, [PW], ["export", "--format", "xml", "@/x.csv"]), ("import wrong passphrase", lp(H), ["x", "y"], ["lpassimport"]), ("export wrong passphrase", sealed, ["x"], ["export", "@/x.csv"])]
    return [r if isinstance(r, tuple) else ("hang", r, "") for r in pmap(lambda j: attempt(*j), jobs)]


def meddled(c, codec, bins):
    """Sessions during which the place to save to goes away."""
    def one(j):
        what, leave, fn = j
        with Dir() as d:
            os.mkdir(d + "/s")
            f = d + "/s/f.bp"
            codec.seal(f, PW, {"log": small_log()})
            app = App(bins["bpass"], d, file=f)
            try:
                if not app.open(PW):
                    raise Odd("does not open: " + (app.err or app.out)[-500:])
                app.run("set e1 user changed")
                fn(d, f)
                app.say(leave)
                while app.next() is not None:
                    app.say(EOF)
                rc, text = app.rc, app.out + app.err
            finally:
                app.kill()
            l = codec.log(f, "", PW) if os.path.isfile(f) else None
            isnew = l is not None and any(t.get("value") == "changed" for t in l)
            return what, {"k": "end", "leave": "exit", "faulty": True, "rc": rc, "msg": bool(re.search(r"fail|error", text, re.I)) and "goroutine " not in text, "isOld": not isnew, "isNew": isnew,
                          "opens": True, "was": False, "is": False}, text[-400:]

    def gone(d, f):
        shutil.rmtree(d + "/s")

    def isdir(d, f):
        os.unlink(f)
        os.mkdir(f)
        open(f + "/x", "w").close()

    def isfile(d, f):
        shutil.rmtree(d + "/s")
        open(d + "/s", "w").close()

    def moved(d, f):
        os.rename(d + "/s", d + "/t")

    def loop(d, f):
        os.unlink(f)
        os.symlink(f, f)

    def deleted(d, f):
        os.unlink(f)
    jobs = [(n.__name__ + " " + str(l), l, n) for n in (gone, isdir, isfile, moved, loop, deleted) for l in ("exit", EOF)]
    return [r if isinstance(r, tuple) else ("hang", r, "") for r in pmap(one, jobs)]


# written before there are threads: a program that is being written while
# another thread forks cannot be executed
LPASS = os.path.join(work(), "lpass")


def run(c):
    open(LPASS, "w").write("#!/bin/sh\nd=$(dirname \"$0\")/..\ncat \"$d/data\"\n[ ! -f \"$d/status\" ] || { read -r n < \"$d/status\"; exit $n; }\n")
    os.chmod(LPASS, 0o755)
    big = TIER == "thorough"
    rng = c.rng
    cfg = "SPECIFICATION Spec\nINVARIANT AlwaysSafe Told Ends %s\nCHECK_DEADLOCK FALSE\nCONSTANT Algo = \"%s\"\n"
    c.design("DurableModel", cfg % ("", "replace"))
    for bug, inv in (("nosync", "AlwaysSafe"), ("late", "AlwaysSafe"), ("early", "AlwaysSafe"), ("inplace", "AlwaysSafe"), ("clear", "AlwaysSafe"), ("aside", "AlwaysSafe"),
                     ("ignores", "AlwaysSafe"), ("quiet", "Told"), ("always", "Told")):
        if "Invariant %s is violated" % inv not in tlc("DurableModel", cfg % ("", bug)).out:
            raise Broken("the specification does not notice " + bug)
        c.count("negative_controls")
    model, _ = scenarios_of("DurableModel", cfg % ("Emit", "replace"))
    kinds = sorted({(s["was"], s["leave"], s["kind"]) for s in model})
    bins = build("bpass", "codec")
    bins["optrace"] = os.path.join(work(), "optrace")
    p = subprocess.run(["gcc", "-O1", "-w", "-o", bins["optrace"], os.path.join(VERIF, "c", "optrace.c")], capture_output=True, text=True)
    if p.returncode:
        raise Broken("optrace: " + p.stderr)
    codec = Codec(bins["codec"], 8)
    ts = tasks()

    # undisturbed, to learn what the operations are
    refs = pmap(lambda t: run_task(c, codec, bins, t), ts)
    jobs = []
    met = set()
    for t, r in zip(ts, refs):
        jobs.append((t, None, None, None))
        if "hang" in r:
            continue
        for o in r["log"][:-1]:
            met.add((t.old is not None, t.leave, o["k"]))
            fs = [("before",), ("after",), ("error", rng.choice([ENOSPC, EIO, EACCES, EDQUOT, EROFS]))]
            if o["k"] in ("data", "sync"):
                fs += [("errors", ENOSPC), ("error", EIO)]
            if o["k"] == "data":
                fs += [("part",), ("short",), ("full", ENOSPC)]
            if t.name == "large" and not big:
                fs = [("part",), ("after",), ("full", ENOSPC)]
            for x in fs:
                jobs.append((t, (o["n"], *x), None, None))
    by = {t.name: t for t in ts}
    # signals at any moment
    sigs = [signal.SIGKILL, signal.SIGTERM, signal.SIGINT, signal.SIGHUP, signal.SIGQUIT]
    for i in range(400 if big else 40):
        jobs.append((by[rng.choice(["large", "edit", "sync older", "create", "import more"])], None, (rng.choice(sigs), rng.uniform(0.01, 0.35)), ["env"]))

    rs = pmap(lambda j: run_task(c, codec, bins, j[0], fault=j[1], sig=j[2], wrap=j[3]) if j[1] or j[2] or j[3] else None, jobs)
    first = {id(t): r for t, r in zip(ts, refs)}
    rs = [first[id(j[0])] if r is None else r for j, r in zip(jobs, rs)]
    traces, what = [], []
    for j, r in zip(jobs, rs):
        name = "%s%s%s%s" % (j[0].name, " fault %s" % (j[1],) if j[1] else "", " signal %s at %.3f" % j[2] if j[2] else "", " %s" % j[3][:3] if j[3] else "")
        what.append(name)
        if "hang" in r:
            c.violation("no answer: " + name, r)
            traces.append({"t": []})
            continue
        traces.append({"t": r["trace"]})
        c.count("runs_" + ("undisturbed" if not (j[1] or j[2] or j[3]) else j[1][1] if j[1] else "signal" if j[2] else "limit"))
        c.count("left_" + r["trace"][-1]["leave"])
        c.count("operations", len(r["trace"]) - 2)
    for name, ev, text in refusals(c, codec, bins) + meddled(c, codec, bins):
        what.append(name)
        rs.append({"out": text, "trace": [ev]})
        if "hang" in ev:
            c.violation("no answer: " + name, ev)
            traces.append({"t": []})
            continue
        traces.append({"t": [ev]})
        c.count("refusals" if ev["leave"] == "refused" else "meddled")
    codec.close()
    c.cov["scenarios"] = {"kinds_of_model": len(kinds), "kinds_met": len([k for k in kinds if k in met]), "runs": len(traces)}
    bad, st = judge("DurableTrace", traces, "DurableTrace.cfg", chunk=-(-len(traces) // 8), parallel=8)
    c.cov["states"] += st["states"]
    c.cov["transitions"] += st["generated"]
    c.traces(len(traces))
    seen = set()
    for i, at, w in sorted(bad):
        if i in seen:
            continue
        seen.add(i)
        c.violation("%s: %s" % (what[i], ",".join(re.sub(r"/\S*/d/", "", x) for x in w)), {"what": what[i], "wrong": w, "at": at, "event": traces[i]["t"][at - 1], "run": rs[i]})
    for i in (0, 3, len(jobs) // 2, len(traces) - 1):
        c.sample(what[i] + ": " + json.dumps(traces[i]["t"][1:])[:400])
