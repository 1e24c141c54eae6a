from session_common import *
from blob_common import conform


def run(c):
    big = TIER == "thorough"
    session_design(c, big)
    n = 2000 if big else 320
    mix = {"set": 14, "protect": 9, "rmk": 7, "edit": 6, "get": 8, "cp": 5, "show": 7, "dump": 5, "short": 4, "cd": 3, "add": 3, "setlabels": 2, "mv": 1, "setgap": 1, "addsync": 1, "label": 1}
    own = {"set", "rmk", "edit", "get", "cp", "show", "dump", "user", "email", "pass", "totp", "add"}
    scs = mixed(c, n, mix, length=(8, 25)) + model_scenarios(c, 900 if big else 150, 300 if big else 50, wanted={"set", "rmk", "edit"})
    judge_sessions(c, scs, lambda cmd, w, ev: cmd in own and w in ("change", "says", "claims", "touch", "stamp", "view", "clip", "crash", "ends"))
    conform(c, 3000 if big else 400, {"set": 10, "delk": 8, "rename": 1, "addlabel": 1})
