from session_common import *


def run(c):
    big = TIER == "thorough"
    session_design(c, big)
    n = 3000 if big else 500
    scs = mixed(c, n, ALL, ro=.1) + model_scenarios(c, 2500 if big else 250, 800 if big else 100)
    judge_sessions(c, scs, lambda cmd, w, ev: True)
