from session_common import *


def run(c):
    big = TIER == "thorough"
    session_design(c, big)
    n = 1500 if big else 300
    mix = weighted(cp=10, short=9, get=5, login=9, set=6, add=4, cd=3, show=2, open=2)
    scs = mixed(c, n, mix, length=(3, 16), noclear=.4, ro=.15, lose=.25) + model_scenarios(c, 500 if big else 80, 300 if big else 60, wanted={"cp", "user", "totp", "login", "<INT>"})
    judge_sessions(c, scs, lambda cmd, w, ev: w in ("clip", "crash") or cmd in ("login", "cp", "user", "email", "pass", "totp") and w in ("says", "ends", "claims"))
