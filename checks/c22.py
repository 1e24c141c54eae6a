from session_common import *


def design_edit(c, big):
    cfg = "SPECIFICATION Spec\nINVARIANT NoTrace Overwritten\nPROPERTY OnlySuccess GoesOn\nCONSTANTS\n MaxLen = %d\n Careless = %s\n"
    c.design("EditTmp", cfg % (5 if big else 3, "FALSE"))
    if "Overwritten is violated" not in tlc("EditTmp", cfg % (2, "TRUE")).out:
        raise Broken("the specification does not notice leftovers")
    c.count("negative_controls")


def run(c):
    big = TIER == "thorough"
    design_edit(c, big)
    mix = {"edit": 14, "set": 6, "cd": 2, "rmk": 1, "get": 3, "dump": 2, "protect": 2, "mv": 1, "add": 1, "show": 1}
    scs = mixed(c, 1200 if big else 220, mix, length=(8, 22), start=(1, 6))
    scs += model_scenarios(c, 500 if big else 80, 200 if big else 30, wanted={"edit"})
    # every way of editing, of values of several lengths, in turn
    how = ["ok", "fail", "signal", "missing", "gone"]
    do = ["write", "replace", "append", "keep"]
    for old in ["", "v", "a longer value\nof two lines", "z" * 5000]:
        cmds = [{"c": "cd", "a": ["a"]}]
        for h in how:
            for d in do:
                for text in ["", "n", "new and quite a bit longer than before", "w" * 9000]:
                    cmds.append({"c": "edit", "a": ["k"], "ed": {"how": h, "do": d, "text": text}})
                    if old:
                        cmds.append({"c": "edit", "a": ["k"], "ed": {"how": "ok", "do": "write", "text": old}})
                    else:
                        cmds.append({"c": "rmk", "a": ["k"]})
        for i in range(0, len(cmds), 40):
            m = Maker()
            m.entry("a", **({"k": old} if old else {}))
            scs.append({"file": m.log, "cmds": cmds[:1] + cmds[max(1, i):i + 40] + [{"c": "exit"}]})
    # nowhere to put the file
    for _ in range(40 if big else 8):
        m, have = startfile(c.rng, 3)
        cmds = Gen(c.rng, have).cmds(10, {"edit": 6, "set": 2, "ls": 1})
        for x in cmds:
            if x["c"] == "edit":
                x["ed"] = {**x["ed"], "how": "notmp"}
        scs.append({"file": m.log, "cmds": cmds, "env": {"TMPDIR": "/nonexistent"}})
    judge_sessions(c, scs, lambda cmd, w, ev: cmd == "edit")
