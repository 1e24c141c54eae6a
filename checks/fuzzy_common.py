"""Matching of arbitrary texts, valid UTF-8 or not."""
from vf import *

ALPHA = ["a", "b", "A", "B", "c", "/", "é", "É", "ß", "ſ", "K", "ı", "日", "e\u0301", " ", "%", "\u0000", "\ufffd", "\U0001f511", "Ǆ", "ǅ", "ǆ"]


def fuzzy(c, n):
    import session
    b = build("l1")["l1"]
    r = c.rng
    cases = []
    for _ in range(n):
        k = r.choice([2, 4, len(ALPHA)])
        s = "".join(r.choice(ALPHA[:k]) for _ in range(r.randrange(0, 10)))
        x = r.random()
        q = "".join(ch for ch in s if r.random() < .5) if x < .5 else "".join(r.choice(ALPHA[:k]) for _ in range(r.randrange(0, 5)))
        if x < .5 and r.random() < .6:
            q = "".join(ch.lower() if len(ch.lower()) == 1 and r.random() < .7 else ch for ch in q)
        if x < .5 and r.random() < .2 and q:
            i = r.randrange(len(q))
            q = q[:i] + r.choice(ALPHA[:k]) + q[i:]
        cases.append((s.encode(), q.encode(), (s, q)))
    for _ in range(n // 5):     # bytes that are not text
        s = bytes(r.choice([0x61, 0x62, 0xc3, 0xa9, 0xff, 0x80, 0xe6, 0xf0, 0x41]) for _ in range(r.randrange(0, 8)))
        q = bytes(ch for ch in s if r.random() < .5) if r.random() < .5 else bytes(r.choice([0x61, 0xff, 0xc3, 0x80]) for _ in range(r.randrange(0, 4)))
        cases.append((s, q, None))
    res = l1(b, [{"kind": "fuzzy", "ops": [{"s": s.hex(), "q": q.hex()} for s, q, _ in cases[i:i + 100]]} for i in range(0, len(cases), 100)])
    tab, traces, idx = session.Tables(), [], []
    for i, rr in enumerate(res):
        chunk = cases[i * 100:i * 100 + 100]
        if "dead" in rr:
            c.violation("matching crashed or never ended: " + rr["dead"], {"cases": [(s.hex(), q.hex()) for s, q, _ in chunk]})
            continue
        t = []
        for (s, q, txt), e in zip(chunk, rr["t"]):
            if txt:
                tab.text(txt[0])
                tab.text(txt[1])
            t.append({"res": e["res"], "m": e["m"], "text": txt is not None, "s": txt[0] if txt else "", "q": txt[1] if txt else "", "same": s == q, "none": q == b""})
        traces.append({"t": t})
        idx.append(i)
    bad, st = judge("FuzzyTrace", traces, "FuzzyTrace.cfg", tables=tab.t, chunk=1000)
    for ti, at, w in bad:
        s, q, _ = cases[idx[ti] * 100 + at - 1]
        c.violation("fuzzy.Match(%r, %r) is not as specified (%s): %s" % (s, q, ", ".join(w), traces[ti]["t"][at - 1]), {"s": s.hex(), "q": q.hex(), "wrong": w})
    c.count("matches", len(cases))
    c.cov["states"] += st["states"]
    c.cov["transitions"] += st["generated"]
    c.traces(len(traces) - len({b[0] for b in bad}))
