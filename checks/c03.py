from txlog_common import *
import session_common as ses


def run(c):
    big = TIER == "thorough"
    design_check(c, big)
    cover, sim = generated(c, 2000 if big else 250, 16 if big else 12, maxops_bfs=7 if big else 5)
    fin = [with_queries(s, c.rng, .5) for s in cover + sim]
    rnd = [random_ops(c.rng, c.rng.choice([15, 40]), queries=True) for _ in range(1500 if big else 250)]
    conform(c, fin + rnd)
    # show <query> <versions back> in the program
    mix = {"show": 12, "set": 6, "rmk": 3, "mv": 2, "label": 2, "cd": 1, "rm": 1, "add": 1, "edit": 1}
    scs = ses.mixed(c, 700 if big else 120, mix, length=(8, 24), names=["a", "b", "c/d"])
    ses.judge_sessions(c, scs, lambda cmd, w, ev: cmd == "show" and w not in ("ctx",))
