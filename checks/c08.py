from crypt_common import *


def run(c):
    big = TIER == "thorough"
    crypt_design(c, big)
    b = build("cryptd", "bpass")
    jobs = []

    def swept(kind, xors):
        def f(rec):
            text = rec.rnd(rec.rng.randrange(0, 40))
            cr = [(b"ann", b"p1"), (b"bob", b"p2"), (b"c", b"p3")][:rec.rng.randrange(1, 4)]
            fi = {"rs": lambda: rec.ref_single(b"pass", text), "cs": lambda: rec.code_single(b"pass", text),
                  "rm": lambda: rec.ref_multi(cr, text), "cm": lambda: rec.code_multi(cr, text)}[kind]()
            if fi:
                sweep(rec, fi, xors)
        return f
    for k in ("rs", "cs", "rm", "cm"):
        jobs += [swept(k, [1, 0]) if not big else swept(k, x) for x in ([[]] if not big else [[1, 2, 4, 8], [16, 32, 64, 128], [0] * 6, [255, 0, 0]])]

    def odd(rec):
        cr = [(s8(u), s8(q)) for u, q in zip(rec.rng.sample(NAMES, 3), rec.rng.sample(PASSES, 3))]
        for fi in (rec.ref_single(b"p", b"x"), rec.code_multi(cr, b"x"), rec.ref_multi(cr[:1], b"yy")):
            if fi:
                damaged(rec, fi)

    def creds(rec):
        p = s8(rec.rng.choice(PASSES))
        cr = [(s8(u), s8(q)) for u, q in zip(rec.rng.sample(NAMES, 3), rec.rng.sample(PASSES, 3))]
        for fi in (rec.ref_single(p, b"x"), rec.code_single(p, b"y"), rec.ref_multi(cr, b"z"), rec.code_multi(cr, b"z")):
            if fi:
                credentials(rec, fi)

    def keys(rec):
        cr = [(s8(u), s8(q)) for u, q in zip(rec.rng.sample(NAMES, 2), rec.rng.sample(PASSES, 2))]
        p = s8(rec.rng.choice(PASSES))
        fs = [rec.ref_single(p, b"1"), rec.code_single(p, b"2"), rec.ref_multi(cr, b"3"), rec.code_multi([(cr[0][0], p), cr[1]], b"4")]
        remembered(rec, [f for f in fs if f])
    jobs += [odd] * (12 if big else 3) + [creds] * (60 if big else 8) + [keys] * (60 if big else 10)
    for s in model_scenarios(c, 6000 if big else 800):
        jobs.append(lambda rec, s=s: run_model(rec, s))
    recs = in_parallel(b["cryptd"], c.rng, jobs)
    recs += programs(c, b, 400 if big else 60)
    judge_crypt(c, recs, lambda w: w in ("accepted", "leak", "need-user", "told-apart", "crash", "multi", "status", "changed", "spoiled"))


def programs(c, b, n):
    """The program opening damaged files and being given wrong credentials."""
    seeds = [c.rng.getrandbits(60) for _ in range(n)]

    def one(seed):
        d = Driver(b["cryptd"])
        rec = Rec(d, random.Random(seed))
        rng = rec.rng
        text = b'{"log":[]}'
        typed = [x for x in PASSES if "\x00" not in x]
        p = s8(rng.choice(typed))
        if rng.random() < .5:
            fi = rec.ref_single(p, text)
        else:
            us = rng.sample([x for x in NAMES if x.strip()], 2)
            fi = rec.ref_multi([(s8(us[0]), p), (s8(us[1]), s8(rng.choice(typed)))], text)
        f = fi["f"]
        u, q = rng.choice(sorted(fi["creds"].items()))
        x = rng.randrange(8)
        what = "intact"
        if x == 0:
            q, what = rng.choice([y for y in near(q, rng) if b"\0" not in y and b"\n" not in y and y.decode("utf8", "ignore").encode() == y]), "wrong passphrase"
        elif x == 1:
            u, what = rng.choice([b"", b"nobody", u + b"x", u[:-1]]), "wrong user"
        elif x == 2:
            i = rng.randrange(len(f))
            f, what = f[:i] + bytes([f[i] ^ rng.randrange(1, 256)]) + f[i + 1:], "byte %d" % i
        elif x == 3:
            i = rng.randrange(len(f))
            f, what = f[:i], "cut to %d" % i
        elif x == 4:
            f, what = f + rec.rnd(rng.randrange(1, 50)), "extended"
        elif x == 5:
            f, what = rng.choice(ODD_FILES), "not such a file"
        elif x == 6:
            f, what = f[:12] + rng.choice(ODD_NS) + f[16:], "count"
        pf = rec.parse(f)
        if pf["ok"] and pf["n"] == 0:
            u = b""
            rec.learn(q, f[16:48])
        elif pf["ok"]:
            for i in range(pf["n"]):
                rec.learn(q, f[16 + 184 * i + 32:16 + 184 * i + 64])
        rec.name(u)
        ev = {"k": "prog", "f": pf, "u": rec.name(u), "p": pid(q), "opened": False, "crash": False, "status": 0, "changed": False, "asked": False, "text": ""}
        with Dir() as dd:
            path = os.path.join(dd, "f.bp")
            open(path, "wb").write(f)
            app = App(b["bpass"], dd)
            try:
                for k in range(8):
                    pr = app.next()
                    if pr is None:
                        break
                    if pr.main:
                        ev["opened"] = True
                        break
                    if not pr.hidden:
                        ev["asked"] = True
                    app.say(vf_eof if k > 4 else q if pr.hidden else u)
                if ev["opened"]:
                    lg = app.log()
                    ev["text"] = "t" + h(text) if lg == [] or lg is None else "other"
                    app.say(vf_eof)
                    while app.next() is not None:
                        pass
                elif app.rc is None:
                    app.next()
                ev["crash"], ev["status"] = app.crashed(), app.rc
            finally:
                app.kill()
            ev["changed"] = open(path, "rb").read() != f
        rec.t.append(ev)
        rec.hist.append(["prog", what, u.decode(errors="replace"), q.decode(errors="replace"), ev["opened"], ev["status"]])
        d.close()
        return rec
    out = pmap(one, seeds)
    res = []
    for r in out:
        if isinstance(r, dict):
            c.violation("the program shows no sign of life: " + str(r.get("hang")), r)
        else:
            res.append(r)
    return res


from app import EOF as vf_eof
