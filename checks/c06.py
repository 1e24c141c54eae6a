from merge_common import *
from sync_common import scenarios, judge_sync


def run(c):
    big = TIER == "thorough"
    design_check(c, big)
    scs = from_spec(c, 40000 if big else 1200, big) + random_scenarios(c.rng, 6000 if big else 500)
    conform(c, scs, "C06")
    # the same through the program
    judge_sync(c, scenarios(c, 1500 if big else 320, {"conflict": 5, "all": 1}, fork=.1), relevant)


def relevant(w, ev):
    asked = [a for a in ev.get("asks", []) if a[0] in ("root", "del")]
    # what was not confirmed, or given up, is to change nothing anywhere
    return w in ("asked-conflict", "log", "crash", "hang") or bool(asked) and w == "written"
