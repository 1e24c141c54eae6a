from txlog_common import *
import session_common as ses


def dos(rng):
    """Histories built from Do(fn) blocks that succeed or fail, with views taken at every moment."""
    ops, born = [], []

    def some(k):
        out = []
        for _ in range(k):
            r = rng.random()
            if r < .25 or not born:
                if len(born) >= 3:
                    continue
                u = "e%d" % (len(born) + 1)
                born.append(u)
                out.append({"op": "add", "u": u})
            elif r < .6:
                out.append({"op": "set", "u": rng.choice(born), "k": "k1", "v": "v%d" % rng.randrange(9)})
            elif r < .7:
                out.append({"op": "del", "u": rng.choice(born)})
            elif r < .9:
                out.append({"op": "update"})
            else:
                out.append({"op": "reload"})
        return out
    for _ in range(rng.randrange(2, 6)):
        ops += some(rng.randrange(0, 3))
        keep = list(born)
        fail = rng.random() < .6
        ops.append({"op": "do", "how": "err" if fail else "ok", "ops": some(rng.randrange(0, 5))})
        if fail:
            born[:] = born   # names stay used: uuids are never reused
        if rng.random() < .7:
            ops.append({"op": "update"})
    return ops


def run(c):
    big = TIER == "thorough"
    design_check(c, big)
    cover, sim = generated(c, 3000 if big else 400, 18 if big else 14, maxops_bfs=8 if big else 6)
    pick = [s for s in cover + sim if any(o["op"] in ("begin", "undo") for o in s)]
    c.cov["scenarios_with_transactions"] = len(pick)
    fin = [[*s, {"op": "update"}] for s in pick]
    rnd = [random_ops(c.rng, c.rng.choice([12, 30])) for _ in range(1000 if big else 150)]
    conform(c, fin + [dos(c.rng) for _ in range(2000 if big else 300)] + rnd)
    program(c, big)


def program(c, big):
    """add and addsync abandoned at each of their prompts."""
    EOF, INT = ses.EOF, ses.INT
    kinds = []
    full = [["m", "me", "y"], ["", "", "m", "pw", "pw"], ["e", "u", "m", "a", "b", "c", "16", "", "y"]]
    for f in full:
        for i in range(len(f)):
            for stop in (EOF, INT):
                kinds.append({"c": "add", "a": ["fresh"], "ans": f[:i] + [stop]})
        kinds.append({"c": "add", "a": ["fresh"], "ans": f})
    scp = [["u", "h", "", "/p", "1"], ["u", "h", "22x", "22", "p", "9", "3", "m", "x", "x"], ["", "u", "", "h", "2222", "", "/p", "2"]]
    for f in scp + [["/tmp/none/x"], ["", "", "/x"]]:
        k = "file" if f[0][:1] == "/" or f[1] == "" else "scp"
        for i in range(len(f)):
            for stop in (EOF, INT):
                kinds.append({"c": "addsync", "a": [k], "ans": f[:i] + [stop]})
        kinds.append({"c": "addsync", "a": [k], "ans": f})
    scs = []
    for rnd in range(3 if big else 1):
        for k in kinds:
            m, have = ses.startfile(c.rng, c.rng.randrange(0, 4))
            g = ses.Gen(c.rng, have)
            pre = g.cmds(c.rng.randrange(0, 3), {"set": 3, "rmk": 1, "mv": 1, "ls": 1, "show": 1}, end=False)
            post = [{"c": "ls", "a": []}, {"c": "add", "a": ["second"], "ans": ["", "", "y"]}, {"c": "show", "a": ["second"]}, {"c": "exit"}]
            scs.append({"file": m.log, "cmds": pre + [k] + ([] if INT in k["ans"] else post)})
    scs += ses.mixed(c, 300 if big else 60, {"add": 6, "addsync": 6, "set": 2, "ls": 1, "show": 1, "mv": 1}, length=(4, 12))
    ses.judge_sessions(c, scs, lambda cmd, w, ev: cmd in ("add", "addsync") and w not in ("clip", "says") or w in ("saved", "view", "names"))
