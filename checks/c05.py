from merge_common import *
from sync_common import scenarios, judge_sync


def run(c):
    big = TIER == "thorough"
    design_check(c, big)
    scs = from_spec(c, 40000 if big else 1200, big) + random_scenarios(c.rng, 6000 if big else 500)
    conform(c, scs, "C05")
    # the same through the program
    judge_sync(c, scenarios(c, 1500 if big else 160, {"plain": 3, "users": 1}), lambda w, ev: w in ("log", "content", "saved-content", "written", "not-written"))
