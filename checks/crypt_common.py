"""Files made, altered and opened through packages crypt and pkcs7, for module CryptTrace."""
import hashlib, select, threading
from vf import *
import vf
from app import App, Codec, Dir, plain, pmap

NAMES = ["a", "ann", "Ann", "ü", "日本語", "a b", "user/a", "0", "a" * 200, " ", "\u00e9", "e\u0301", "\\", "%s"]
PASSES = ["p", "pass with spaces", " lead", "trail ", "ünï", "%25", 'a"b', "long" * 60, "\\", "日本語", "P", "p ", "\t", "\u00e9", "e\u0301", "0", "x" * 64, "x" * 65, "p\x00q"]


def h(b):
    return hashlib.sha256(b).hexdigest()[:16]


def pid(p):
    """Passphrases that the key derivation itself (PBKDF2 with HMAC) cannot tell apart are the same."""
    if len(p) > 64:
        p = hashlib.sha256(p).digest()
    p = p.rstrip(b"\0")
    return h(p) if p else ""


class Driver:
    def __init__(self, binary, limit=90):
        self.binary, self.limit, self.p = binary, limit, None

    def call(self, **r):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        r = {k: v.hex() if isinstance(v, bytes) else v for k, v in r.items()}
        err = ""
        try:
            self.p.stdin.write((json.dumps(r) + "\n").encode())
            self.p.stdin.flush()
            buf = b""
            end = time.time() + self.limit
            while not buf.endswith(b"\n"):
                if not select.select([self.p.stdout], [], [], max(0, end - time.time()))[0]:
                    self.p.kill()
                    self.p = None
                    return {"ok": False, "crash": "hangs"}
                x = os.read(self.p.stdout.fileno(), 1 << 20)
                if not x:
                    break
                buf += x
            if buf.endswith(b"\n"):
                return json.loads(buf)
        except BrokenPipeError:
            pass
        err = self.p.stderr.read().decode(errors="replace")
        self.p.wait()
        self.p = None
        if "driver:" in err or not err:
            raise Broken("cryptd died: " + err[-1500:])
        return {"ok": False, "crash": err[:600]}

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()


def must(r):
    if not r["ok"]:
        raise Broken("reference codec: %s" % r)
    return r


class Rec:
    """Records one trace; bytes get names here."""

    def __init__(self, drv, rng):
        self.d, self.rng, self.t, self.hist = drv, rng, [], []
        self.keys, self.hashes = {}, {}

    def rnd(self, n):
        return bytes(self.rng.getrandbits(8) for _ in range(n))

    # names of things
    def key(self, b):
        if not b:
            return ["", ""]
        return self.keys.get(bytes(b)) or ["?", h(b)]

    def salt(self, b):
        return "s" + h(b)

    def learn(self, p, salt):
        """What key a passphrase and a salt must give."""
        if not p or len(salt) != 32:
            return
        pr = (p, bytes(salt))
        if not hasattr(self, "known"):
            self.known = {}
        if pr not in self.known:
            k = bytes.fromhex(must(self.d.call(op="refkey", **{"pass": p, "salt": salt}))["key"])
            self.known[pr] = k
            self.keys.setdefault(k, [pid(p), self.salt(salt)])
        return self.known[pr]

    def name(self, n):
        self.hashes[hashlib.sha256(n).digest()] = "u" + h(n) if n else ""
        return "u" + h(n) if n else ""

    def chunks(self, *bs):
        return [h(b[i:i + 8]) for b in bs for i in range(0, len(b), 8)]

    def parse(self, f):
        bad = {"ok": False, "magic": "", "n": 0, "users": [], "salt": "", "iv": "", "body": ""}
        if len(f) < 16 or f[:8] != b"blobpass" or f[8:12] != b"0001" or not f[12:16].isdigit():
            return bad
        n = int(f[12:16])
        r = {"ok": True, "magic": f[:16].decode(), "n": n, "users": [], "salt": ""}
        if n == 0:
            if len(f) < 88:
                return bad
            r.update(salt=self.salt(f[16:48]), iv="v" + h(f[48:88]), body="b" + h(f[88:]))
            return r
        end = 16 + 184 * n
        if len(f) < end + 40:
            return bad
        r["users"] = self.slots([f[16 + 184 * i:16 + 184 * i + 184] for i in range(n)])
        r.update(iv="v" + h(f[end:end + 40]), body="b" + h(f[end + 40:]))
        return r

    def slots(self, recs):
        return [{"h": self.hashes.get(x[:32]) or "?" + h(x[:32]), "s": self.salt(x[32:64]), "v": "v" + h(x[64:104]), "m": "m" + h(x[104:184])} for x in recs]

    def head(self, f):
        p = self.parse(f)
        return {k: p[k] for k in ("magic", "n", "users", "salt", "iv")}

    # making files
    def ref_single(self, p, text):
        salt, iv = self.rnd(32), self.rnd(40)
        self.learn(p, salt)
        f = bytes.fromhex(must(self.d.call(op="refsingle", salt=salt, iv=iv, text=text, **{"pass": p}))["file"])
        self.fact(f, self.key(self.learn(p, salt)), text, [])
        return {"f": f, "creds": {b"": p}, "text": text}

    def ref_multi(self, cr, text):
        master, ivm = self.rnd(80), self.rnd(40)
        us = [{"name": n, "pass": p, "salt": self.rnd(32), "iv": self.rnd(40)} for n, p in cr]
        for u in us:
            self.name(u["name"])
            self.learn(u["pass"], u["salt"])
        f = bytes.fromhex(must(self.d.call(op="refmulti", users=[{k: v.hex() for k, v in u.items()} for u in us], master=master, ivm=ivm, text=text))["file"])
        mk = [{"m": s["m"], "key": self.key(self.learn(us[i]["pass"], us[i]["salt"])), "iv": s["v"], "master": "M" + h(master)} for i, s in enumerate(self.parse(f)["users"])]
        self.fact(f, ["master", "M" + h(master)], text, mk)
        return {"f": f, "creds": dict(cr), "text": text, "master": master, "us": us}

    def fact(self, f, key, text, mk):
        p = self.parse(f)
        self.t.append({"k": "fact", "bodies": [{"b": p["body"], "key": key, "iv": p["iv"], "head": self.head(f), "text": "t" + h(text)}], "mkeys": mk})

    def derive(self, p):
        r = self.d.call(op="derive", **{"pass": p})
        ev = {"k": "derive", "ok": r["ok"], "p": pid(p), "key": ["", ""], "s": "", "chunks": []}
        key = salt = b""
        if r["ok"]:
            key, salt = bytes.fromhex(r["key"]), bytes.fromhex(r["salt"])
            if len(salt) == 32:
                self.learn(p, salt)
            ev.update(key=self.key(key), s=self.salt(salt), chunks=self.chunks(salt))
        self.t.append(ev)
        self.hist.append(["derive", p.decode(errors="replace"), r.get("err") or r.get("crash") or "ok"])
        return (key, salt) if r["ok"] else None

    def encrypt(self, held=None, params=None, text=b"", want=None, key=None):
        """want: the head it has to get; held: with the parameters of the last decryption."""
        r = self.d.call(op="encrypt", held=bool(held), params=params, text=text)
        ev = {"k": "enc", "ok": r["ok"], "key": key, "text": "t" + h(text), "back": "", "chunks": [], "spoiled": bool(r.get("spoiled")),
              "f": self.parse(b""), **want}
        f = None
        if r["ok"]:
            f = bytes.fromhex(r["file"])
            ev["f"] = self.parse(f)
            if want["n"] == 0:
                ev["chunks"] = self.chunks(f[48:88])
            ev["back"] = self.refopen(f)
        self.t.append(ev)
        self.hist.append(["encrypt", len(text), r.get("err") or r.get("crash") or "ok"])
        return f

    def refopen(self, f):
        for u, p in self.who:
            r = self.d.call(op="refopen", file=f, user=u, **{"pass": p})
            if not r["ok"]:
                return "?" + r["err"]
            t = "t" + h(bytes.fromhex(r["text"]))
        return t

    def code_single(self, p, text, ks=None):
        ks = ks or self.derive(p)
        if ks is None:
            return None
        self.who = [(b"", p)]
        f = self.encrypt(params={"keys": [ks[0].hex()], "salts": [ks[1].hex()]}, text=text,
                         want={"magic": "blobpass00010000", "n": 0, "users": [], "salt": self.salt(ks[1]), "iv": ""}, key=self.key(ks[0]))
        return f and {"f": f, "creds": {b"": p}, "text": text, "ks": ks}

    def code_multi(self, cr, text, mine=0, others=False):
        r = self.d.call(op="master")
        self.t.append({"k": "master", "ok": r["ok"], "chunks": self.chunks(bytes.fromhex(r["master"]), bytes.fromhex(r["ivm"])) if r["ok"] else []})
        if not r["ok"]:
            return None
        master, ivm = bytes.fromhex(r["master"]), bytes.fromhex(r["ivm"])
        us = []
        for n, p in cr:
            self.name(n)
            ks = self.derive(p)
            if ks is None:
                return None
            e = self.d.call(op="encmk", key=ks[0], master=master)
            ev = {"k": "encmk", "ok": e["ok"], "key": self.key(ks[0]), "master": "M" + h(master), "m": "", "v": "", "chunks": [], "back": ""}
            if e["ok"]:
                iv, mk = bytes.fromhex(e["iv"]), bytes.fromhex(e["mkey"])
                ev.update(m="m" + h(mk), v="v" + h(iv), chunks=self.chunks(iv), back="M" + h(bytes.fromhex(e.get("refmaster", ""))))
                us.append((hashlib.sha256(n).digest(), ks[1], iv, mk, ks[0]))
            self.t.append(ev)
            if not e["ok"]:
                return None
        self.who = list(cr)
        f = self.encrypt(params={"nusers": len(us), "user": mine, "keys": [u[4].hex() if others or i == mine else "" for i, u in enumerate(us)],
                                 "salts": [u[1].hex() for u in us], "users": [u[0].hex() for u in us], "ivs": [u[2].hex() for u in us],
                                 "mkeys": [u[3].hex() for u in us], "ivm": ivm.hex(), "master": master.hex()}, text=text,
                         want={"magic": "blobpass0001%04d" % len(us), "n": len(us), "users": self.slots([b"".join(u[:4]) for u in us]), "salt": "", "iv": "v" + h(ivm)},
                         key=["master", "M" + h(master)])
        return f and {"f": f, "creds": dict(cr), "text": text, "master": master}

    # opening
    def open(self, f, u=b"", p=b"", ck=None, cs=None, what=""):
        self.name(u)
        pf = self.parse(f)
        if pf["ok"]:
            n = pf["n"]
            if n == 0:
                self.learn(p, f[16:48])
            else:
                for i in range(n):
                    if pf["users"][i]["h"] == self.name(u) and u:
                        self.learn(p, f[16 + 184 * i + 32:16 + 184 * i + 64])
        r = self.d.call(op="decrypt", file=f, user=u, key=ck or b"", salt=cs or b"", nil=ck is None, **{"pass": p})
        m = self.d.call(op="ismulti", file=f)
        ev = {"k": "open", "f": pf, "u": self.name(u), "p": pid(p), "ck": self.key(ck) if ck else ["", ""], "cs": self.salt(cs) if cs else "",
              "multi": "crash" if m.get("crash") else "err" if not m["ok"] else "yes" if m["multi"] else "no",
              "res": {"ok": r["ok"], "crash": bool(r.get("crash")), "class": r.get("class", ""), "text": "t" + h(bytes.fromhex(r["text"])) if r["ok"] else "leak" if r.get("leak") else "", "spoiled": bool(r.get("spoiled"))},
              "par": {"n": 0, "user": 0, "key": ["", ""], "salt": "", "users": [], "ivm": "", "master": "", "version": 0}}
        key = salt = None
        if r["ok"]:
            q = r["par"]
            x = {k: [bytes.fromhex(y) for y in q[k] or []] for k in ("Keys", "Salts", "Users", "IVs", "MKeys")}
            i = q["User"]
            if i < len(x["Keys"]) and i < len(x["Salts"]):
                key, salt = x["Keys"][i], x["Salts"][i]
                same = len(x["Users"]) == len(x["IVs"]) == len(x["MKeys"]) == len(x["Salts"])
                ev["par"] = {"n": q["NUsers"], "user": i + 1, "key": self.key(key), "salt": self.salt(salt),
                             "users": self.slots([a + b + c + d for a, b, c, d in zip(x["Users"], x["Salts"], x["IVs"], x["MKeys"])]) if same else [],
                             "ivm": "v" + h(bytes.fromhex(q["IVM"])), "master": "M" + h(bytes.fromhex(q["Master"])), "version": r["version"]}
        self.t.append(ev)
        self.hist.append(["open", what, u.decode(errors="replace"), p.decode(errors="replace"), bool(ck), r.get("err") or r.get("crash") or "ok"])
        return (key, salt) if r["ok"] else None

    def resave(self, fi, u, text):
        """Open and encrypt again with the parameters that gave."""
        got = self.open(fi["f"], u, fi["creds"][u], what="to save again")
        if got is None:
            return None
        hd = self.head(fi["f"])
        self.who = list(fi["creds"].items())
        f = self.encrypt(held=True, text=text, want=hd, key=self.key(got[0]) if hd["n"] == 0 else ["master", "M" + h(fi["master"])])
        return f and dict(fi, f=f, text=text)

    def pad(self, b, n):
        r = self.d.call(op="pad", b=b, k=n)
        self.t.append({"k": "pad", "b": list(b), "n": n, "ok": r["ok"], "out": list(bytes.fromhex(r.get("b", "")))})

    def unpad(self, b):
        r = self.d.call(op="unpad", b=b)
        self.t.append({"k": "unpad", "b": list(b), "ok": r["ok"], "crash": bool(r.get("crash")), "out": list(bytes.fromhex(r.get("b", "")))})


def s8(x):
    return x.encode()


CRYPT_CFG = "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANT Sound Complete Agrees\n"


def crypt_consts(passes, cuts=1, users=True, iv=True, ask=True, texts=("t", "u")):
    q = lambda l: "{" + ", ".join('"%s"' % x for x in l) + "}"
    return "CONSTANTS\n Names = {\"a\",\"b\"}\n Pass = %s\n Texts = %s\n MaxFiles = 2\n MaxCuts = %d\n HashUsers = %s\n HashIV = %s\n AskSalt = %s\n" % (
        q(passes), q(texts), cuts, str(users).upper(), str(iv).upper(), str(ask).upper())


def crypt_design(c, big):
    c.design("CryptModel", CRYPT_CFG + crypt_consts(["p", "q"] if big else ["p"], 1), timeout=800)
    for kw in ({"users": False}, {"iv": False}, {"ask": False}):
        if "violated" not in tlc("CryptModel", CRYPT_CFG + crypt_consts(["p"], 1, texts=("t",), **kw)).out:
            raise Broken("the specification does not notice what is left out: %s" % kw)
        c.count("negative_controls")


def model_scenarios(c, n):
    ss, _ = scenarios_of("CryptModel", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT EmitEnd\n" + crypt_consts(["p", "q"], 2), simulate=n, depth=9)
    ss = list({json.dumps(s): s for s in ss}.values())
    c.rng.shuffle(ss)
    return ss[:n]


def run_model(rec, sc):
    """A behaviour of CryptModel with real bytes."""
    rng = rec.rng
    nm = dict(zip("ab", (s8(x) for x in rng.sample(NAMES, 2))))
    pw = dict(zip("pqw", (s8(x) for x in rng.sample(PASSES, 3))))
    nm[""] = pw[""] = b""
    tx = {"t": rec.rnd(rng.randrange(0, 60)), "u": rec.rnd(rng.randrange(0, 60))}
    files, cur = [], None

    def field(f, what, x, new=None):
        n = int(f[12:16])
        if x:
            base = 16 + 184 * (x - 1)
            a, b = {"all": (0, 184), "h": (0, 32), "s": (32, 64), "v": (64, 104), "m": (104, 184)}[what]
            a, b = base + a, base + b
        else:
            end = 16 + 184 * n if n else 48
            a, b = {"body": (end + 40, len(f)), "iv": (end, end + 40), "salt": (16, 48), "head": (0, end + 40)}[what]
        if new is None:
            return f[a:b]
        return f[:a] + new + f[b:]
    for s in sc:
        op = s["op"]
        by = rng.random() < .5
        if op == "single":
            x = (rec.code_single if by else rec.ref_single)(pw[s["p"]], tx[s["t"]])
        elif op == "multi":
            cr = [(nm[a], pw[b]) for a, b in s["cr"]]
            x = rec.code_multi(cr, tx[s["t"]], mine=rng.randrange(len(cr)), others=rng.random() < .5) if by else rec.ref_multi(cr, tx[s["t"]])
        elif op == "resave":
            o = files[s["i"] - 1]
            x = rec.resave(o, rng.choice(sorted(o["creds"])), tx[s["t"]])
        if op in ("single", "multi", "resave"):
            if x is None:
                return
            files.append(x)
        elif op == "take":
            cur = files[s["i"] - 1]["f"]
        elif op == "cut":
            j = s["j"]
            if s["what"] == "salt" and int(cur[12:16]):
                continue
            if j == 0:
                old = field(cur, s["what"], s["x"])
                new = rec.rnd(len(old))
                if s["what"] == "head":
                    new = rec.rnd(16) + new[16:]
            else:
                src = files[j - 1]["f"]
                if s["what"] == "salt" and int(src[12:16]):
                    continue
                new = field(src, s["what"], s["y"])
            cur = field(cur, s["what"], s["x"], new)
            if cur[:12] != b"blobpass0001" or not cur[12:16].isdigit():
                break
        elif op == "open":
            ck, cs = None, None
            if s["ck"][0]:
                # the key of a passphrase and a salt of one of the files
                for o in files:
                    n = int(o["f"][12:16])
                    ss = [o["f"][16:48]] if n == 0 else [o["f"][16 + 184 * i + 32:16 + 184 * i + 64] for i in range(n)]
                    for k, salt in enumerate(ss):
                        p = pw[s["ck"][0]]
                        if p in o["creds"].values() and rng.random() < .7 or cs is None:
                            cs, ck = salt, rec.learn(p, salt)
            rec.open(cur, nm[s["u"]], pw[s["p"]], ck, cs, what="after " + " ".join(x["op"] for x in sc[:-1]))
    if cur is not None:
        for o in files:
            for u, p in o["creds"].items():
                rec.open(cur, u, p, what="everybody")


def sweep(rec, fi, xors, us=None):
    """Every byte changed, every truncation, some extensions."""
    f = fi["f"]
    u, p = rec.rng.choice(sorted(fi["creds"].items())) if us is None else us
    rec.open(f, u, p, what="intact")
    for i in range(len(f)):
        for x in xors:
            y = x if x else rec.rng.randrange(1, 256)
            rec.open(f[:i] + bytes([f[i] ^ y]) + f[i + 1:], u, p, what="byte %d xor %d" % (i, y))
        rec.open(f[:i], u, p, what="cut to %d" % i)
    for n in (1, 7, 8, 15, 16, 17, 40, 80, 184):
        rec.open(f + bytes(n), u, p, what="%d zeros added" % n)
        rec.open(f + rec.rnd(n), u, p, what="%d bytes added" % n)
        rec.open(f + f[-n:], u, p, what="last %d bytes twice" % n)
        rec.open(rec.rnd(n) + f, u, p, what="%d bytes before it" % n)
    for x in range(1, 3):
        i, j = sorted(rec.rng.sample(range(16, len(f)), 2))
        rec.open(f[:i] + f[j:], u, p, what="bytes %d to %d missing" % (i, j))


ODD_NS = [b"0000", b"0001", b"0002", b"0003", b"0004", b"9999", b"-001", b"+001", b"+002", b" 002", b"2   ", b"0x02", b"1e00", b"\0\0\0\2", b"02\0\0", b"abcd", b"____", b"1_00", b"-000", b"+000", "٠٠".encode()]
ODD_VER = [b"0000", b"0002", b"9999", b"-001", b"+001", b"0x01", b"   1", b"1   ", b"\0\0\0\1", b"abcd", b"0010", b"1000"]
ODD_FILES = [b"", b"b", b"blobpass", b"blobpass0001", b"blobpass00010000", b"blobpass00010001", b"blobpass00019999", b"kniopass00000001", b"kniopass00000001" + bytes(200),
             b"kniopass00010001" + bytes(200), b"blobpass0001-001" + bytes(400), b"blobpass00010000" + bytes(72), b"blobpass00010000" + bytes(88), b"blobpass00010000" + bytes(500),
             b"blobpass00010001" + bytes(224), b"blobpass00010001" + bytes(232), b"blobpass00010001" + bytes(300), b"{}", b"null", b"PK\3\4" + bytes(100), b"\xff" * 500, bytes(1000)]


def damaged(rec, fi):
    f = fi["f"]
    u, p = rec.rng.choice(sorted(fi["creds"].items()))
    for x in ODD_NS:
        rec.open(f[:12] + x + f[16:], u or b"a", p, what="count %r" % x)
        rec.open(f[:12] + x + f[16:], b"", p, what="count %r" % x)
    for x in ODD_VER:
        rec.open(f[:8] + x + f[12:], u, p, what="version %r" % x)
    for x in (b"BLOBPASS", b"blobpas\0", b"kniopass", b"\0lobpass"):
        rec.open(x + f[8:], u, p, what="magic %r" % x)
    for x in ODD_FILES:
        rec.open(x, u, p, what="file %r" % x[:20])
        rec.open(x, b"a", b"p", what="file %r" % x[:20])


def near(p, rng):
    """Almost this passphrase or name."""
    s = p.decode(errors="replace")
    out = {p[:-1], p + b"x", p + b" ", b" " + p, p + p, p[1:], s.upper().encode(), s.lower().encode(), s.swapcase().encode(), s.strip().encode(), p + b"\0", p[::-1], b"", p + b"\n", p[:8], p[:64], hashlib.sha256(p).digest()}
    out = {x for x in out if pid(x) != pid(p)} | {b""}
    import unicodedata
    out |= {unicodedata.normalize(k, s).encode() for k in ("NFC", "NFD", "NFKC")}
    return sorted(out - {p})


def credentials(rec, fi, limit=None):
    allp = set(fi["creds"].values())
    names = set(fi["creds"])
    for u, p in fi["creds"].items():
        rec.open(fi["f"], u, p, what="right")
        for q in near(p, rec.rng) + sorted(allp - {p}):
            rec.open(fi["f"], u, q, what="wrong passphrase")
        for v in near(u, rec.rng) if u else [b"a", b"\0"]:
            if v not in names or fi["creds"][v] != p:
                rec.open(fi["f"], v, p, what="wrong user")


def remembered(rec, files):
    """Keys and salts of other files, with right and wrong passphrases."""
    ks = []
    for fi in files:
        for u, p in fi["creds"].items():
            got = rec.open(fi["f"], u, p, what="remember")
            if got:
                ks.append(got)
    for fi in files:
        for u, p in fi["creds"].items():
            for key, salt in ks:
                rec.open(fi["f"], u, p, key, salt, what="remembered key, right passphrase")
                rec.open(fi["f"], u, b"", key, salt, what="remembered key, no passphrase")
                rec.open(fi["f"], u, p + b"!", key, salt, what="remembered key, wrong passphrase")
                if rec.rng.random() < .3:
                    rec.open(fi["f"], u, b"", key, rec.rnd(32), what="another salt")
                    rec.open(fi["f"], u, p, rec.rnd(80), rec.rnd(32), what="rubbish remembered")
            if ks:
                rec.open(fi["f"], b"nobody", p, *ks[0], what="nobody with a key")


def in_parallel(binary, rng, jobs, par=8):
    """Each job is fn(rec); gives the recorded traces."""
    seeds = [rng.getrandbits(64) for _ in jobs]
    pool, lock = [], threading.Lock()

    def one(i):
        with lock:
            d = pool.pop() if pool else Driver(binary)
        rec = Rec(d, random.Random(seeds[i]))
        jobs[i](rec)
        with lock:
            pool.append(d)
        return rec
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(par) as ex:
        out = list(ex.map(one, range(len(jobs))))
    for d in pool:
        d.close()
    return out


def judge_crypt(c, recs, relevant):
    traces = [{"t": r.t} for r in recs]
    idx = [i for i, t in enumerate(traces) if t["t"]]
    bad, st = judge("CryptTrace", [traces[i] for i in idx], "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", chunk=max(1, -(-len(idx) // 8)), parallel=8)
    c.cov["states"] += st["states"]
    c.cov["transitions"] += st["generated"]
    badtr, foreign = set(), 0
    for ti, at, w in sorted(bad):
        rel = sorted(x for x in w if relevant(x))
        if not rel:
            foreign += 1
            continue
        if ti in badtr:
            continue
        badtr.add(ti)
        ev = traces[idx[ti]]["t"][at - 1]
        what = recs[idx[ti]].hist
        opens = [k for k, e in enumerate(traces[idx[ti]]["t"][:at]) if e["k"] in ("open", "enc", "derive", "prog")]
        c.violation("%s: not as specified (%s)" % (ev["k"], ", ".join(rel)),
                    {"wrong": w, "position": at, "event": ev, "what": what[len(opens) - 1] if ev["k"] in ("open", "enc", "derive", "prog") and len(opens) <= len(what) else None, "history": what[:20]})
    c.traces(len(idx) - len(badtr))
    for r in recs:
        for e in r.t:
            c.count(e["k"] + "_events")
    if foreign:
        c.cov["events_wrong_in_ways_of_other_properties"] = foreign
    for r in recs[:3]:
        c.sample(r.hist[:8])
