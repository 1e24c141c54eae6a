from crypt_common import *
from keys_common import judge_keys, key_scenarios, key_random


def run(c):
    big = TIER == "thorough"
    crypt_design(c, big)
    b = build("cryptd")
    jobs = []

    def lengths(lo, hi):
        def f(rec):
            for n in range(lo, hi):
                text = rec.rng.choice([rec.rnd(n), bytes(n), b"\xff" * n, bytes([n % 16 or 16]) * n, b"\x01" * n])
                p = s8(rec.rng.choice(PASSES))
                for fi in (rec.ref_single(p, text), rec.code_single(p, text)):
                    if fi:
                        rec.open(fi["f"], b"", p, what="length %d" % n)
                cr = [(s8(u), s8(rec.rng.choice(PASSES))) for u in rec.rng.sample(NAMES, rec.rng.randrange(1, 4))]
                for fi in (rec.ref_multi(cr, text), rec.code_multi(cr, text, mine=rec.rng.randrange(len(cr)), others=rec.rng.random() < .3)):
                    if fi:
                        for u, q in cr:
                            rec.open(fi["f"], u, q, what="length %d" % n)
        return f
    top = 1200 if big else 200
    jobs += [lengths(i, i + 10) for i in range(0, top, 10)]

    def large(n):
        def f(rec):
            text = rec.rnd(n)
            for fi in (rec.ref_single(b"p", text), rec.code_single(b"p", text), rec.ref_multi([(b"a", b"p")], text), rec.code_multi([(b"a", b"p")], text)):
                if fi:
                    for u, q in fi["creds"].items():
                        rec.open(fi["f"], u, q, what="length %d" % n)
        return f
    jobs += [large(n) for n in (4095, 4096, 65535, 65536, 70001) + ((1 << 20, 3000017) if big else ())]

    def users(n):
        def f(rec):
            cr = [(b"u%d" % i, b"p%d" % (i % 7)) for i in range(n)]
            for fi in (rec.ref_multi(cr, b"text"), rec.code_multi(cr, b"text", mine=rec.rng.randrange(n))):
                if fi:
                    for u, q in rec.rng.sample(cr, min(n, 12)) + [cr[0], cr[-1]]:
                        rec.open(fi["f"], u, q, what="%d users" % n)
        return f
    jobs += [users(n) for n in (1, 2, 3, 5, 9, 10, 11, 40) + ((99, 100, 101, 300) if big else ())]

    def odd(rec):
        for p in PASSES:
            for fi in (rec.ref_single(s8(p), b"x"), rec.code_single(s8(p), b"x")):
                if fi:
                    rec.open(fi["f"], b"", s8(p), what="odd passphrase")
        cr = [(s8(u), s8(PASSES[i % len(PASSES)])) for i, u in enumerate(NAMES)]
        for fi in (rec.ref_multi(cr, b"x"), rec.code_multi(cr, b"x", mine=3)):
            if fi:
                for u, q in cr:
                    rec.open(fi["f"], u, q, what="odd name")
    jobs.append(odd)

    def again(rec):
        """Saved again and again, with what opening it gave."""
        cr = [(s8(u), s8(q)) for u, q in zip(rec.rng.sample(NAMES, 3), rec.rng.sample(PASSES, 3))]
        for fi in (rec.ref_single(b"p", b"0"), rec.code_single(b"p", b"0"), rec.ref_multi(cr, b"0"), rec.code_multi(cr, b"0")):
            for k in range(8):
                if not fi:
                    break
                fi = rec.resave(fi, rec.rng.choice(sorted(fi["creds"])), rec.rnd(rec.rng.randrange(100)))
                if fi:
                    for u, q in fi["creds"].items():
                        rec.open(fi["f"], u, q, what="saved again")
            if fi and b"" in fi["creds"] and "ks" in fi:
                for k in range(8):
                    rec.code_single(fi["creds"][b""], b"same", ks=fi["ks"])
    jobs += [again] * (40 if big else 8)

    def many(rec):
        """The same passphrase over and over: never the same salt."""
        for k in range(60):
            rec.derive(b"p")
    jobs.append(many)

    def padding(rec):
        for n in (1, 2, 3, 8, 16):
            for k in range(0, 2 * n + 2):
                rec.pad(rec.rnd(k), n)
                rec.pad(bytes([n]) * k, n)
        for n in (20, 100, 254, 255):
            for k in (0, 1, n - 1, n, n + 1):
                rec.pad(rec.rnd(k), n)
        alphabet = [0, 1, 2, 3, 4, 255]
        def words(k):
            return [()] if k == 0 else [w + (x,) for w in words(k - 1) for x in alphabet]
        for k in range(0, 5 if big else 4):
            for w in words(k):
                rec.unpad(bytes(w))
        for k in range(1, 20):
            rec.unpad(bytes([k]) * k)
            rec.unpad(bytes([k]) * (k - 1))
            rec.unpad(b"x" + bytes([k]) * k)
    jobs.append(padding)
    for s in model_scenarios(c, 2500 if big else 400):
        jobs.append(lambda rec, s=s: run_model(rec, s))
    recs = in_parallel(b["cryptd"], c.rng, jobs)

    # with the real key derivation
    rb = build("cryptd", real_kdf=True)

    def real(kind):
        def f(rec):
            if kind == "single":
                for fi in (rec.ref_single(b"pass", b"text"), rec.code_single(b"pass", b"text")):
                    if fi:
                        rec.open(fi["f"], b"", b"pass", what="real kdf")
            elif kind == "multi":
                cr = [(b"a", b"pass"), (b"b", b"word")]
                for fi in (rec.ref_multi(cr, b"text"), rec.code_multi(cr, b"text", mine=1)):
                    if fi:
                        for u, q in cr:
                            rec.open(fi["f"], u, q, what="real kdf")
            else:
                name, u, q = kind
                f = open(os.path.join(VERIF, "golden", name), "rb").read()
                text = b'{"log":[]}'
                rec.name(u)
                pf = rec.parse(f)
                if pf["n"] == 0:
                    rec.fact(f, rec.key(rec.learn(q, f[16:48])), text, [])
                else:
                    i = [x["h"] for x in pf["users"]].index(rec.name(u))
                    r = f[16 + 184 * i:16 + 184 * i + 184]
                    rec.fact(f, ["master", "Mgolden"], text, [{"m": pf["users"][i]["m"], "key": rec.key(rec.learn(q, r[32:64])), "iv": pf["users"][i]["v"], "master": "Mgolden"}])
                rec.golden = True
                rec.open(f, u, q, what="written by the original program")
                for e in rec.t:
                    if e["k"] == "open" and e["res"]["ok"]:
                        e["par"]["master"] = "Mgolden" if pf["n"] else e["par"]["master"]
        return f
    gold = [("single.bp", b"", "pässword".encode()), ("multi.bp", b"ann", b"first"), ("multi.bp", b"bob", b"second one")]
    recs += in_parallel(rb["cryptd"], c.rng, [real("single"), real("multi")] + [real(g) for g in gold], par=4)
    judge_crypt(c, recs, lambda w: w in ("refused-good", "refused", "text", "params", "format", "header", "iv", "salt", "key", "pad", "spoiled", "crash"))
    # and in the program
    scs = key_scenarios(c, 400 if big else 60, 300 if big else 60) + key_random(c, 600 if big else 120)
    judge_keys(c, scs, lambda w: w in ("salt", "iv"))
