from session_common import *
from blob_common import conform


def run(c):
    big = TIER == "thorough"
    session_design(c, big)
    n = 1200 if big else 220
    mix = {"label": 10, "rmlabel": 9, "labels": 8, "setlabels": 5, "show": 2, "cd": 2, "rmk": 1, "add": 1, "mv": 1, "rm": 1, "dump": 1}
    own = {"label", "rmlabel", "labels"}
    scs = mixed(c, n, mix, length=(8, 25)) + model_scenarios(c, 700 if big else 120, 200 if big else 40, wanted=own)
    judge_sessions(c, scs, lambda cmd, w, ev: cmd in own and w in ("change", "says", "claims", "touch", "stamp", "view", "crash", "ends")
                   or cmd in ("show", "dump") and w == "says")
    conform(c, 4000 if big else 500, {"labels": 8, "addlabel": 6, "rmlabel": 8})
