from sync_common import *


def relevant(w, ev):
    return w in ("log", "written", "not-written", "content", "saved", "not-saved", "saved-content", "crash", "hang") or w == "open" and ev["sync"]


def run(c):
    big = TIER == "thorough"
    sync_design(c, big)
    scs = model_scripts(c, 2500 if big else 150) + scenarios(c, 3000 if big else 500, {"plain": 3, "conflict": 2, "pass": 1, "users": 1, "moved": 2, "all": 2})
    judge_sync(c, scs, relevant)
