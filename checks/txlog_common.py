"""C01-C03: the transaction log, its view, its transactions, its history queries."""
from vf import *

IMPL = """
CONSTANTS
  Ents = {%s}
  Keys = {%s}
  Vals = {%s}
  MaxLog = %d
  MaxOps = %d
  StaleRollback = %s
"""


def impl(ents, keys, vals, maxlog, maxops, stale=False):
    q = lambda n, p: ", ".join('"%s%d"' % (p, i + 1) for i in range(n))
    return IMPL % (q(ents, "e"), q(keys, "k"), q(vals, "v"), maxlog, maxops, "TRUE" if stale else "FALSE")


def design_check(c, thorough=False):
    body = "SPECIFICATION ISpec\nINVARIANT Faithful\nPROPERTY Refines RollbackExact\nVIEW View\nCHECK_DEADLOCK FALSE\n"
    # MaxOps is unbounded here: the state space is finite through MaxLog
    c.design("TxLogImpl", body + impl(2, 1, 1, 6 if thorough else 5, 10**6 if False else 14))
    # the spec can tell: with the old rollback the design property fails
    r = tlc("TxLogImpl", body + impl(1, 1, 2, 5, 12, stale=True))
    if "Faithful is violated" not in r.out and "violated" not in r.out:
        raise Broken("the specification does not notice a stale view after rollback")
    c.count("negative_controls")


def generated(c, n_sim, depth, ents=3, keys=2, vals=3, maxops_bfs=5):
    ss, r = scenarios_of("TxLogImpl", "SPECIFICATION ISpec\nVIEW View\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
                         + impl(1, 1, 2, 5, maxops_bfs))
    c.cov["scenarios_transition_cover"] = len(ss)
    sim, _ = scenarios_of("TxLogImpl", "SPECIFICATION ISpec\nINVARIANT EmitEnd\n" + impl(ents, keys, vals, depth, depth),
                          simulate=n_sim, depth=depth + 1)
    seen = {}
    for s in sim:
        seen[json.dumps(s, sort_keys=True)] = s
    c.cov["scenarios_simulated"] = len(seen)
    return ss, list(seen.values())


WEIRD = ["", " ", "a b", "k,v", "\n", "x" * 300, "name", "updated", "\\", "\"", "'", "%s", "{}", "null", "0"]


def random_ops(rng, n, queries=False, tx=True, weird=True):
    """Histories over a larger domain than the model constants."""
    ents = ["e%d" % i for i in range(1, 9)]
    born, ops, intx, length = [], [], False, 0
    val = lambda: rng.choice(WEIRD) if weird and rng.random() < .3 else "v%d" % rng.randrange(50)
    key = lambda: rng.choice(WEIRD) if weird and rng.random() < .2 else "k%d" % rng.randrange(4)
    while len(ops) < n:
        r = rng.random()
        if r < .12 and len(born) < len(ents):
            u = ents[len(born)]
            born.append(u)
            ops.append({"op": "add", "u": u})
        elif r < .45 and born:
            ops.append({"op": "set", "u": rng.choice(born), "k": key(), "v": val()})
        elif r < .53 and born:
            ops.append({"op": "delk", "u": rng.choice(born), "k": key()})
        elif r < .57 and born:
            ops.append({"op": "del", "u": rng.choice(born)})
        elif r < .68 and tx:
            if intx:
                ops.append({"op": rng.choice(["commit", "rollback"])})
                intx = False
            elif rng.random() < .15:
                ops.append({"op": rng.choice(["commit", "rollback"])})     # refused
            else:
                ops.append({"op": "begin"})
                intx = True
                if rng.random() < .1:
                    ops.append({"op": "begin"})                         # refused
        elif r < .72 and not intx:
            ops.append({"op": "undo", "n": rng.choice([0, 1, 1, 2, 3, 5, 1000])})
        elif r < .84:
            ops.append({"op": "update"})
        elif r < .87:
            ops.append({"op": "reset"})
        elif r < .91:
            ops.append({"op": "reload"})
        elif r < .93:
            ops.append({"op": "clock", "how": rng.choice(["back", "same", "past", "saw", "odd"])})
        elif queries:
            u = rng.choice(ents)
            ops.append(rng.choice([
                {"op": "viewat", "n": rng.choice([-1, 0, 1, 2, 3, 7, 10, 20, 1000])},
                {"op": "entryat", "u": u, "n": rng.choice([-2, -1, 0, 1, 2, 3, 4, 1000])},
                {"op": "entryat", "u": u, "n": rng.choice([0, 1, 2, 3, 4, 5, 6])},
                {"op": "nver", "u": u}, {"op": "last", "u": u}]))
    return ops


def with_queries(ops, rng, dense):
    out = []
    ents = ["e1", "e2", "e3"]
    for o in ops:
        out.append(o)
        if rng.random() < dense / 8:
            out.append({"op": "clock", "how": rng.choice(["back", "same", "past", "saw", "odd"])})
        if rng.random() < dense:
            for u in ents[:2]:
                out.append({"op": "nver", "u": u})
                out.append({"op": "last", "u": u})
                out.append({"op": "entryat", "u": u, "n": rng.choice([-1, 0, 1, 2, 3, 4])})
            out.append({"op": "viewat", "n": rng.choice([-1, 0, 1, 2, 3, 5, 6, 7])})
    return out


def conform(c, opslists, keyname=lambda ops: None):
    b = build("l1")["l1"]
    res = l1(b, [{"kind": "txlog", "ops": o} for o in opslists])
    traces, idx = [], []
    for i, (o, r) in enumerate(zip(opslists, res)):
        if "dead" in r:
            c.violation("the package crashed the process on this history: " + r["dead"], {"ops": o, "result": r})
        else:
            traces.append(r)
            idx.append(i)
    bad, st = validate("TxLogTrace", traces, "INIT TInit\nNEXT TNext\nCONSTRAINT Reach\nPOSTCONDITION Accepted\n")
    c.cov["states"] += st["states"]
    c.cov["transitions"] += st["generated"]
    c.traces(len(traces) - len(bad))
    for ti, at in bad:
        t = traces[ti]["t"]
        ev = t[at - 1]
        prev = t[at - 2] if at > 1 else None
        c.violation("event %d (%s -> %s) is not a step of TxLog" % (at, {k: v for k, v in ev.items() if k in ("op", "u", "k", "v", "n", "got")},
                                                                   ev.get("res") + " " + ev.get("msg", "")),
                    {"ops": opslists[idx[ti]], "before": prev, "event": ev})
    for t in traces[:2] + traces[-2:]:
        c.sample([{k: v for k, v in e.items() if k not in ("log", "snap", "tm", "fresh")} for e in t["t"]][:12])
