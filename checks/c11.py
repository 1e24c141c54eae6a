from session_common import *


def run(c):
    big = TIER == "thorough"
    session_design(c, big)
    n = 1200 if big else 220
    mix = weighted(show=8, ls=6, get=4, dump=4, add=3, set=5, mv=3, rm=3, edit=2, passwd=3, login=2, cp=3)
    scs = mixed(c, n, mix, length=(4, 18), start=(1, 7), ro=1.0)
    scs += dense(c, n // 2)
    scs += model_scenarios(c, 400 if big else 60, 200 if big else 20)
    scs += remotes(c, 300 if big else 60)
    judge_sessions(c, [s for s in scs if s.get("time")], lambda cmd, w, ev: True)


def remotes(c, n):
    """Sessions with entries to sync with, which a look at the past has nothing to do with."""
    out = []
    for _ in range(n):
        r = c.rng
        m = Maker()
        m.entry("mail", user="me", k="v")
        base = list(m.log)
        rem = {}
        for i in range(r.randrange(1, 4)):
            nm = "sync/s%d" % i
            if r.random() < .3:
                m.entry(nm, url="scp://u:p@127.0.0.1:@P/r%d" % i, sync="true")
                continue
            m.entry(nm, url="file://@D/r%d" % i, sync="true")
            rem["r%d" % i] = r.choice(["none", "same", "base", "more"])
        mark = m.t
        m.tick(5 * 10**9)
        m.entry("bank", user="you")
        for _ in range(r.randrange(0, 4)):
            m.entry("n%d" % len(m.log), k=r.choice(PLAIN))
        more = Maker()
        more.t = m.t + 10**9
        more.entry("elsewhere", k="v")
        what = {"none": None, "same": m.log, "base": base, "more": m.log + more.log}
        g = Gen(r, ["mail", "bank", "sync/s0"])
        cmds = []
        for _ in range(r.randrange(1, 5)):
            x = r.random()
            cmds.append({"c": "sync", "a": [r.choice(["s0", "sync/s0", "s", "x"])] if x < .4 else []} if x < .8 else g.make(r.choice(["show", "set", "ls", "dump", "rm"])))
        cmds.append({"c": r.choice(["exit", "exit", EOF, INT])})
        out.append(at_time({"file": m.log, "cmds": cmds, "noclear": False, "remotes": {k: what[v] for k, v in rem.items()}}, mark + r.choice([0, 3 * 10**9, 10**12])))
    return out


def dense(c, n):
    """Histories with many changes at equal and neighbouring moments, opened at exactly those."""
    out = []
    for _ in range(n):
        r = c.rng
        m = Maker()
        us = []
        for _ in range(r.randrange(1, 12)):
            x = r.random()
            if x < .35 or not us:
                nm = "n%d" % len(us)
                u = str(session.uuid.UUID(int=session.hash_int(nm, m.t, len(m.log)) & ((1 << 128) - 1), version=4))
                m.put("add", u)
                m.put("setk", u, "name", nm)
                us.append(u)
            elif x < .8:
                m.put("setk", r.choice(us), r.choice(["k", "pass"]), r.choice(PLAIN))
            elif x < .9:
                m.put("delk", r.choice(us), "k")
            else:
                m.put("setk", r.choice(us), "updated", str(m.t))
            m.tick(r.choice([0, 0, 1, 10**9, 10**9, 999999999, 5 * 10**8, 3 * 10**9]))
        if us and r.random() < .4:
            m.put("del", us.pop(r.randrange(len(us))))
            m.tick(r.choice([0, 1, 10**9]))
        times = [t["time"] for t in m.log]
        t = (r.choice(times) // 10**9 + r.choice([0, 0, 0, 1, -1])) * 10**9
        g = Gen(r, ["n%d" % i for i in range(6)])
        cmds = [{"c": "ls", "a": []}] + [{"c": r.choice(["show", "dump"]), "a": ["n%d" % i]} for i in range(3)]
        cmds += g.cmds(r.randrange(0, 6), {"show": 3, "get": 2, "set": 2, "add": 1, "rm": 1, "mv": 1, "cd": 1, "label": 1, "edit": 1})
        out.append(at_time({"file": m.log, "cmds": cmds, "noclear": False}, t))
    return out
