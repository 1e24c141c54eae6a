from session_common import *
from blob_common import conform
from fuzzy_common import fuzzy


def run(c):
    big = TIER == "thorough"
    session_design(c, big)
    n = 1500 if big else 220
    mix = {"ls": 14, "cd": 8, "tab": 3, "show": 6, "get": 5, "cp": 2, "rmk": 3, "label": 2, "dump": 3, "open": 1, "short": 2, "add": 4, "mv": 3, "rm": 2}
    scs = mixed(c, n, mix, length=(8, 22), start=(2, 12)) + model_scenarios(c, 700 if big else 120, 200 if big else 40, wanted={"ls", "cd", "show", "get", "dump", "rmk"})
    own = {"ls", "cd", "tab", "show", "get", "cp", "rmk", "label", "dump", "open", "user", "email", "pass", "totp"}
    judge_sessions(c, scs, lambda cmd, w, ev: cmd in own and w in ("says", "ctx", "names", "change", "claims", "crash", "clip", "opened"))
    conform(c, 6000 if big else 700, {"search": 12, "users": 1, "rename": 2, "new": 2}, dupes=False)
    fuzzy(c, 20000 if big else 3000)
