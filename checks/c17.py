from sync_common import *


def relevant(w, ev):
    return w in ("creds", "self", "saved-creds", "asked-creds", "asked-who", "open")


def run(c):
    big = TIER == "thorough"
    sync_design(c, big)
    scs = model_scripts(c, 2500 if big else 150, ("single", "multi")) + scenarios(c, 3000 if big else 500, {"pass": 4, "users": 4, "all": 2, "conflict": 1})
    judge_sync(c, scs, relevant)
