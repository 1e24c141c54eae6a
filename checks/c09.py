from keys_common import *


def run(c):
    big = TIER == "thorough"
    key_design(c, big)
    scs = key_scenarios(c, 1500 if big else 250, 900 if big else 150) + key_random(c, 1500 if big else 250) + key_twins(c, 300 if big else 60) + key_crowds(c, 48 if big else 7)
    judge_keys(c, scs, lambda w: w not in ("salt", "iv"))
