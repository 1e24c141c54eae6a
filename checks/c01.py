from txlog_common import *


def run(c):
    big = TIER == "thorough"
    design_check(c, big)
    cover, sim = generated(c, 4000 if big else 400, 20 if big else 16, maxops_bfs=8 if big else 6)
    fin = [[*s, {"op": "update"}, {"op": "reload"}, {"op": "update"}] for s in cover + sim]
    rnd = [random_ops(c.rng, c.rng.choice([10, 25, 60])) + [{"op": "update"}] for _ in range(1500 if big else 200)]
    conform(c, fin + rnd)
