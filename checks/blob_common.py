"""Package blobformat (names, labels, searches) on any history, judged by module BlobTrace."""
from vf import *
import session
from session import Maker
from session_common import FIRST, QUERIES, KEYS, PROTECTED, aname, alabel, text


def history(rng, dupes=True, users=True):
    """A history in which names need not be unique."""
    m, us = Maker(), []
    pool = list(dict.fromkeys(aname(rng) for _ in range(rng.randrange(1, 7))))
    labs = [alabel(rng) for _ in range(rng.randrange(1, 7))]
    if rng.random() < .3:
        pool += [pool[0] + "1", pool[0] + "11"]
    if users and rng.random() < .5:
        pool += ["user/a", "user/b", "user/", "users/x", "USER/a", "user"]
    if users and rng.random() < .4:
        pool += ["sync/file", "sync/file1", "sync/scp", "sync/scp1", "sync/scp2", "sync/"]
    have = set()
    for i in range(rng.choice([0, 1, 2, 4, 7, 12])):
        n = rng.choice(pool)
        if n in have and not dupes:
            continue
        have.add(n)
        kv = {}
        if rng.random() < .6:
            kv["labels"] = ",".join(dict.fromkeys(rng.choice(labs) for _ in range(rng.randrange(1, 5))))
        if rng.random() < .3:
            kv["k"] = text(rng)
        # entries of the same name made in turns
        u = m.entry(n, **kv)
        us.append(u)
        if rng.random() < .1:
            m.put("del", u)
            us.remove(u)
        elif rng.random() < .15:
            m.set(u, "name", rng.choice(pool) + rng.choice(["", "1"]))
    return m, us, pool, labs


def alike(rng, labs):
    """A label that is there, or is like one."""
    l = rng.choice(labs)
    x = rng.random()
    if x < .65:
        return l
    if x < .85:
        return rng.choice([p for p in re.split(r"[^a-z0-9]", l) + [l[:-1], l[1:], l + "a"] if p] or [l])
    return alabel(rng)


def name(rng, pool):
    x = rng.random()
    return rng.choice(pool) if x < .6 else rng.choice(FIRST) if x < .9 else rng.choice(pool) + "1"


def query(rng, pool):
    x = rng.random()
    if x < .3:
        return rng.choice(QUERIES)
    n = rng.choice(pool)
    if x < .45:
        return n
    if x < .6:
        return aname(rng)
    if x < .7:
        # some of the parts only
        parts = n.split("/")
        q = [p for p in parts if rng.random() < .7]
        return "/".join(q) or "a"
    parts = n.split("/")
    q = ["".join(ch for ch in p if rng.random() < .55) for p in parts]
    if x > .9:
        q = q + [""] if rng.random() < .5 else q[:-1] or [""]
    s = "/".join(q)
    return "".join(ch.lower() if rng.random() < .6 and len(ch.lower()) == 1 else ch for ch in s)


def ops(rng, us, pool, labs, mix, n):
    ks, ws = zip(*mix.items())
    out = []
    for _ in range(n):
        k = rng.choices(ks, ws)[0]
        if k in ("addlabel", "rmlabel", "rename", "set", "delk") and not us:
            continue
        u = rng.choice(us) if us else ""
        o = {"op": k, "u": u, "q": "", "ls": [], "i": 0}
        if k == "search":
            o["q"] = "" if rng.random() < .05 else query(rng, pool)
        elif k == "labels":
            o["ls"] = [alike(rng, labs) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
        elif k == "addlabel":
            o["q"] = alike(rng, labs)
        elif k == "rmlabel":
            o["i"] = rng.choice([0, 0, 0, 1, 1, 2, 3, 7, -1])
        elif k == "rename":
            o["q"] = name(rng, pool)
        elif k in ("set", "delk"):
            o["k"] = rng.choice(KEYS + PROTECTED + ["totp", "Totp", "pass"])
            o["q"] = text(rng)
        elif k in ("new", "newuser", "newsync"):
            o["q"] = name(rng, pool) if k == "new" else rng.choice(["file", "scp", "a", "b", "x"])
        out.append(o)
    return out


def conform(c, n, mix, dupes=True, nops=8):
    b = build("l1")["l1"]
    scs, hs = [], []
    for _ in range(n):
        m, us, pool, labs = history(c.rng, dupes)
        scs.append({"kind": "blob", "arg": {"log": m.log}, "ops": ops(c.rng, us, pool, labs, mix, nops)})
    res = l1(b, scs)
    traces, idx, tab = [], [], session.Tables()
    for i, (s, r) in enumerate(zip(scs, res)):
        if "dead" in r or "t" not in r:
            c.violation("the package crashed the process: " + str(r)[:300], {"scenario": s, "result": r})
            continue
        for t in r["log"]:
            t["k"], t["v"] = t.get("k", ""), t.get("v", "")
            if t["k"] in ("name", "labels"):
                tab.text(t["v"])
        for o in s["ops"]:
            tab.text(o["q"])
            for x in o["ls"]:
                tab.text(x)
            if "k" in o:
                tab.key(o["k"])
        traces.append(r)
        idx.append(i)
    bad, st = judge("BlobTrace", traces, "BlobTrace.cfg", tables=tab.t)
    c.cov["states"] += st["states"]
    c.cov["transitions"] += st["generated"]
    seen = set()
    for ti, at, w in sorted(bad):
        if ti in seen:
            continue
        seen.add(ti)
        ev = traces[ti]["t"][at - 1]
        c.violation("blobformat: %s(%s) is not as specified: %s" % (ev["op"], json.dumps({k: ev.get(k) for k in ("u", "q", "ls", "i", "k") if ev.get(k)}), ", ".join(w)),
                    {"wrong": w, "event": ev, "scenario": scs[idx[ti]]})
    c.traces(len(traces) - len(seen))
    c.count("package_calls", sum(len(t["t"]) for t in traces))
    for t in traces[:2]:
        c.sample([{k: v for k, v in e.items() if k in ("op", "q", "ls", "res")} for e in t["t"]][:8])
