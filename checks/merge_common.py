"""C04-C06: reconciling histories."""
from vf import *

LAWS = "Valid NoLoss Content Symmetric Absorbing Associative TimeOrder ConflictExact Resolvable"


def cfg(dev, t, ents, edits, mono, dels, res, forked=False, inv=None, emit=False):
    q = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
    B = lambda b: "TRUE" if b else "FALSE"
    return ("SPECIFICATION RSpec\nVIEW RView\nCHECK_DEADLOCK FALSE\n" + ("INVARIANT %s\n" % inv if inv else "")
            + ("ACTION_CONSTRAINT REmit\n" if emit else "")
            + "CONSTANTS Dev = %s\n T = %d\n Ents = %s\n MaxEdits = %d\n Monotone = %s\n Dels = %s\n Resolving = %s\n Forked = %s\n"
            % (q(dev), t, q(ents), edits, B(mono), B(dels), B(res), B(forked)))


def design_check(c, big=False):
    D2, D3 = ["d1", "d2"], ["d1", "d2", "d3"]
    allbut = LAWS.replace("NoLoss ", "")
    k = 1 if big else 0
    c.design("Replicas", cfg(D2, 2, ["e2"], 3 + k, False, True, False, inv=LAWS), timeout=800)
    c.design("Replicas", cfg(D3, 2, [], 2 + k, True, True, False, inv=LAWS), timeout=800)
    # after decisions only the order of the copies may be given up
    c.design("Replicas", cfg(D2, 2, [], 3 + k, False, True, True, inv=allbut), timeout=800)
    c.design("Replicas", cfg(D2, 1, ["e2"], 2 + k, True, True, True, forked=True, inv=allbut), timeout=800)


ROOT = [{"tm": 0, "kind": "add", "u": "e1", "k": "", "v": ""}]
OTHER = [{"tm": 0, "kind": "add", "u": "e9", "k": "", "v": ""}]


def from_spec(c, n_each, big=False):
    """Histories that reach every state (transition cover) of small instances."""
    out = []
    D2, D3 = ["d1", "d2"], ["d1", "d2", "d3"]
    for dev, args in ((D2, (2, ["e2"], 3, False, True, False)), (D2, (2, [], 3, False, True, True)),
                      (D2, (1, ["e2"], 3, True, True, True, True)), (D3, (2, [], 2, False, True, True))):
        ss, _ = scenarios_of("Replicas", cfg(dev, *args, emit=True), timeout=600)
        c.cov["scenarios_transition_cover"] = c.cov.get("scenarios_transition_cover", 0) + len(ss)
        c.rng.shuffle(ss)
        forked = len(args) > 6 and args[6]
        for s in ss[:n_each]:
            out.append({"kind": "merge", "arg": {"dev": dev, "init": {d: OTHER if forked and d == "d2" else ROOT for d in dev}}, "ops": s["h"]})
    return out


def random_scenarios(rng, n):
    """Longer histories: up to four devices, nine entries, skewed, stuck and backward clocks, decisions of every kind."""
    out = []
    for _ in range(n):
        dev = ["d1", "d2", "d3", "d4"][:rng.choice([2, 2, 3, 4])]
        mode = rng.choice(["same", "same", "same", "fork", "empty", "prefix", "allempty"])
        base = list(ROOT) if mode != "allempty" else []
        if mode == "prefix":
            for i in range(rng.randrange(6)):
                base.append({"tm": i // 2, "kind": "setk", "u": "e1", "k": "k%d" % rng.randrange(1, 4), "v": "v%d" % i})
        init = {d: base for d in dev}
        if mode == "fork":
            init = dict(init, d2=OTHER)
        if mode == "empty":
            init = dict(init, d2=[])
        clock = rng.choice(["mono", "skew", "coarse", "back"])
        off = {d: rng.randrange(0, 12) if clock == "skew" else 0 for d in dev}
        now, ops, free = 1, [], ["e%d" % i for i in range(2, 9)]
        owned = {d: ["e1"] if init[d] == base and base else (["e9"] if init[d] else []) for d in dev}
        decide = rng.random() < .7
        for _ in range(rng.choice([6, 12, 25, 50])):
            d = rng.choice(dev)
            if clock == "coarse":
                now += rng.random() < .3
            elif clock == "back":
                now = max(1, now + rng.choice([-3, -1, 0, 1, 2]))
            else:
                now += 1
            tm = now + off[d]
            r = rng.random()
            if r < .12 and free:
                u = free.pop(0)
                owned[d] = owned[d] + [u]
                ops.append({"op": "edit", "d": d, "tx": {"tm": tm, "kind": "add", "u": u, "k": "", "v": ""}})
            elif r < .55 and owned[d]:
                ops.append({"op": "edit", "d": d, "tx": {"tm": tm, "kind": "setk", "u": rng.choice(owned[d]),
                            "k": rng.choice(["k1", "k2", "name"]), "v": "v%d" % rng.randrange(9)}})
            elif r < .62 and owned[d]:
                ops.append({"op": "edit", "d": d, "tx": {"tm": tm, "kind": "delk", "u": rng.choice(owned[d]), "k": rng.choice(["k1", "k2"]), "v": ""}})
            elif r < .68 and owned[d]:
                ops.append({"op": "edit", "d": d, "tx": {"tm": tm, "kind": "del", "u": rng.choice(owned[d]), "k": "", "v": ""}})
            elif r < .95:
                e = rng.choice([x for x in dev if x != d])
                o = {"op": "pull", "d": d, "e": e}
                if decide:
                    o["pat"] = [rng.choice(["restore", "delete"]) for _ in range(rng.randrange(1, 4))]
                owned[d] = sorted(set(owned[d]) | set(owned[e]))
                ops.append(o)
            else:
                ops.append({"op": "laws"})
        # a change is identified by its moment and content: nobody makes the very same one twice
        once, kept = {json.dumps(t, sort_keys=True) for l in init.values() for t in l}, []
        for o in ops:
            if o["op"] == "edit":
                k = json.dumps(o["tx"], sort_keys=True)
                if k in once:
                    continue
                once.add(k)
            kept.append(o)
        out.append({"kind": "merge", "arg": {"dev": dev, "init": init}, "ops": kept})
    return out


# Names that sort as the specification's do (Tokens in Merge.tla).
ENTS = ["e%d" % i for i in range(1, 10)]
KEYS = ["k1", "k2", "k3", "name", "updated"]
VALS = ["v%d" % i for i in range(10)]
IDS = ["00", "0A", "0a", "4f8c1d1e-0b9f-4f6a-8d52-0c1b7a3f2e11", "4f8c1d1e-0b9f-4f6a-8d52-0c1b7a3f2e12", "A", "B", "a", "b", "e1", "e10", "e2", "ff", "É", "é", "日本"]
WORDS = ["", " ", "1", "10", "2", "A", "a", "a,b", "a,b,c", "true", "x\ny", "é", "日本"]
NAMES = ["labels", "name", "notes", "pass", "priv", "pub", "sync", "twofactor", "updated", "url", "user"]
SCALES = [1, 1, 1000, 10**6, 10**9, 60 * 10**9, 10**12]


class Guise:
    """The same histories with other names and another clock."""

    def __init__(self, rng, sc):
        used = {"u": set(), "k": set(), "v": set()}

        def see(x):
            for f in used:
                used[f].add(x[f])
            return x
        self.over(sc, see)

        def pick(f, xs, ys):
            xs = [x for x in xs if x in used[f]]
            return dict(zip(xs, sorted(rng.sample(ys, len(xs)), key=lambda s: s.encode())))
        self.to = {"u": pick("u", ENTS, IDS), "k": pick("k", KEYS, NAMES), "v": pick("v", VALS, WORDS)}
        self.back = {f: {y: x for x, y in m.items()} for f, m in self.to.items()}
        self.scale = rng.choice(SCALES)

    def put(self, x):
        return {"tm": x["tm"] * self.scale, "kind": x["kind"], "u": self.to["u"].get(x["u"], x["u"]),
                "k": self.to["k"].get(x["k"], x["k"]), "v": self.to["v"].get(x["v"], x["v"]) if x["kind"] == "setk" else x["v"]}

    def unput(self, x):
        return {"tm": x["tm"] // self.scale if x["tm"] % self.scale == 0 else x["tm"], "kind": x["kind"], "u": self.back["u"].get(x["u"], x["u"]),
                "k": self.back["k"].get(x["k"], x["k"]), "v": self.back["v"].get(x["v"], x["v"]) if x["kind"] == "setk" else x["v"]}

    def over(self, x, f):
        if isinstance(x, dict):
            return f(x) if set(x) == {"tm", "kind", "u", "k", "v"} else {k: self.over(y, f) for k, y in x.items()}
        return [self.over(y, f) for y in x] if isinstance(x, list) else x


def conform(c, scs, pid):
    b = build("l1")["l1"]
    gs = [Guise(c.rng, s) if c.rng.random() < .5 else None for s in scs]
    res = l1(b, [g.over(s, g.put) if g else s for g, s in zip(gs, scs)])
    res = [g.over(r, g.unput) if g else r for g, r in zip(gs, res)]
    traces, idx = [], []
    ncalls = ndec = nconf = 0
    for i, (s, r) in enumerate(zip(scs, res)):
        if "dead" in r:
            c.violation("merging crashed the process on this history: " + r["dead"], {"scenario": s, "result": r})
            continue
        traces.append(r)
        idx.append(i)
        for e in r["t"]:
            ncalls += e["op"] == "merge"
            ndec += e["op"] == "merge" and bool(e["res"])
            nconf += e["op"] == "merge" and bool(e["conf"])
    c.count("merges", ncalls)
    c.count("merges_with_conflicts", nconf)
    c.count("merges_with_decisions", ndec)
    bad, st = validate("MergeTrace", traces, 'INIT TInit\nNEXT TNext\nCONSTRAINT Reach\nPOSTCONDITION Accepted\nCONSTANT Judge = {"%s"}\n' % pid, chunk=1500, parallel=8)
    c.cov["states"] += st["states"]
    c.cov["transitions"] += st["generated"]
    c.traces(len(traces) - len(bad))
    for ti, at in bad:
        t = traces[ti]["t"]
        ev = t[at - 1]
        c.violation("%s: event %d (%s) breaks the rules of merging: %s" % (pid, at, ev["op"], json.dumps(ev)[:700]),
                    {"scenario": scs[idx[ti]], "trace": t[:at]})
    for t in traces[:2] + traces[-2:]:
        c.sample([e for e in t["t"] if e["op"] in ("edit", "merge")][:8])
