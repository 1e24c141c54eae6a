from session_common import *
from blob_common import conform


def run(c):
    big = TIER == "thorough"
    session_design(c, big)
    n = 1500 if big else 220
    names = ["a", "a1", "a11", "Ab", "b", "a/b", "sync/file", "sync/file1", "sync/scp", "user/a", "é", "x y"[:1]]
    mix = {"add": 10, "addsync": 6, "mv": 12, "rm": 4, "show": 3, "ls": 2, "set": 2, "cd": 2, "dump": 1, "protect": 2, "edit": 1, "tab": 2}
    own = {"add", "addsync", "mv", "rm", "tab"}
    scs = mixed(c, n, mix, length=(5, 20), names=names) + model_scenarios(c, 700 if big else 120, 300 if big else 60, wanted={"add", "mv", "addsync", "rm"})
    judge_sessions(c, scs, lambda cmd, w, ev: w in ("names", "view", "crash") or cmd in own and w in ("change", "says", "claims", "touch", "stamp", "ends"))
    conform(c, 3000 if big else 400, {"dups": 8, "rename": 5, "new": 5, "newuser": 2, "newsync": 4, "set": 1, "delk": 1})
