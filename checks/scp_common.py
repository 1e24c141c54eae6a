"""Transfers with servers that do anything, recorded for module ScpTrace."""
import base64, functools, hashlib, time
from vf import *
from app import Dir, pmap

DATA = b"a\n"


@functools.lru_cache(None)
def fill(n):
    b, x = bytearray(n), (n * 2654435761 + 1) & 0xffffffff
    for i in range(n):
        x = (x * 1664525 + 1013904223) & 0xffffffff
        b[i] = x >> 24
    return bytes(b)


def tag(b):
    return 1000 + int(hashlib.sha256(b).hexdigest()[:6], 16)


def runs(b, cut):
    """What came after the line, the first cut bytes of it in one if they are many."""
    if cut <= 64:
        return [[1, x] for x in b[:200]] + ([[len(b) - 200, tag(b)]] if len(b) > 200 else [])
    head, rest = b[:cut], b[cut:]
    return [[len(head), tag(head)]] + [[1, x] for x in rest[:200]] + ([[len(rest) - 200, tag(rest)]] if len(rest) > 200 else [])


def announced(line):
    try:
        n = int(line[1:-1].split()[1])
        return n if 0 <= n < 10**9 else 0
    except (ValueError, IndexError):
        return 0


def b64(b):
    return base64.b64encode(b).decode()


def split(b):
    i = b.find(b"\n")
    return (b[:i + 1], b[i + 1:]) if i >= 0 else (b, b"")


def source(stream, rc, ack=True, extra=()):
    """A server that sends a stream in turns: the line, what follows, its end."""
    line, rest = split(stream)
    st = [{"wait": 1}] if ack else []
    st.append({"send": b64(line)})
    if rest:
        n = announced(line)
        if ack:
            st.append({"wait": 2})
        st.append({"send": b64(rest[:n]) if n else ""})
        st.append({"send": b64(rest[n:])})
        if ack and len(rest) > n:
            st.append({"wait": 3})
    st += list(extra)
    return st + end(rc)


def end(rc):
    if rc == -2:
        return [{"drop": True}]
    if rc == -1:
        return [{"eof": True}]
    return [{"exit": rc}]


def answer(a, msg=b""):
    return {"send": b64(bytes([a]) + (msg + b"\n" if a in (1, 2) else b""))}


def of_model(h, rng):
    """A scenario from a history of module ScpModel."""
    if h["dir"] == "recv":
        b, rc = b"", -1
        for e in h["h"]:
            b += bytes(e["line"]) if "line" in e else bytes([e["byte"]]) if "byte" in e else b""
            rc = e.get("rc", rc)
        # the line did not come as a whole, or more came than was asked for: no taking turns
        line, rest = split(b)
        fair = bool(rest) and line[:1] == b"C" and len(rest) == announced(line) + 1
        fair = fair and rng.random() < .9
        return {"op": "recv", "name": "f", "steps": source(b, rc, ack=fair), "stream": b, "rc": rc, "loose": not fair}
    st, answers, rc = [], [], -1
    waits = [0, len(b"C0600 2 f\n"), len(b"C0600 2 f\n") + 3]
    for e in h["h"]:
        if "ack" in e:
            if waits[len(answers)]:
                st.append({"wait": waits[len(answers)]})
            st.append(answer(e["ack"], rng.choice([b"", b"m", b"scp: f: No such file or directory"])))
            answers.append(e["ack"])
        else:
            rc = e["rc"]
    whole = len(answers) == 3
    return {"op": "send", "name": "f", "mode": 0o600, "data": b64(DATA), "steps": st + end(rc), "answers": answers, "rc": rc, "whole": whole, "size": 2}


NAMES = ["f", "dir/f", "a/b/c.blob", "f.bp", "ü", "x-y_z", "0", "/abs/f"]


def rand_recv(r, big):
    n = r.choice([0, 1, 2, 3, 10, 60, 64, 65, 100, 4095, 4096, 4097, 32768, 70000] + ([3 << 20] if big or r.random() < .1 else []))
    data = r.choice([fill(n), bytes(r.choice(b"\0\n\1\2Ca") for _ in range(min(n, 300))), b"\0" * n])
    mode = r.choice(["0600", "0644", "0400", "0777"])
    line = b"C%s %d %s\n" % (mode.encode(), len(data), os.path.basename(r.choice(NAMES)).encode())
    b, rc, extra, ack = line + data + b"\0", 0, (), True
    for _ in range(r.choice([0, 0, 1, 1, 1, 2])):
        k = r.randrange(14)
        line, rest = split(b)
        if k == 0:
            b = b[:r.randrange(len(b) or 1)]
        elif k == 1:
            b = line + rest[:-1]
        elif k == 2:
            b = line + rest[:-1] + bytes([r.choice([1, 2, 10, 67, 255])])
        elif k == 3:
            b = b + r.choice([b"\0", b"x", b"\1late\n", b"C0600 1 g\nx\0"])
        elif k == 4:
            m = r.choice([b"C0600 %d", b"C0600 -%d", b"C0600 +%d", b"C600 %d f", b"C0600  %d f", b"C0600\t%d\tf", b"C 0600 %d f", b"C0600 0%d f", b"C0600 %dx f", b"C0600 %d a b",
                         b"C0600 0x%x f", b"C0999 %d f", b"D0755 %d f", b"T%d 0 1 0", b"c0600 %d f", b"E%d", b"C %d", b" C0600 %d f", b"C99999999999 %d f", b"C-600 %d f", b"C0600 9999999%d f",
                         b"C0600 99999999999999999999999%d f"])
            b = m % len(data) + b"\n" + rest
        elif k == 5:
            d = r.choice([-1, 1, 2, -2, 10])
            b = b"C%s %d f\n" % (mode.encode(), max(0, len(data) + d)) + rest
        elif k == 6:
            rc = r.choice([1, 2, 127, 255, -1, -2])
        elif k == 7:
            msg = r.choice([b"scp: f: No such file or directory", b"scp: f: no such FILE or directory", b"scp: f: Permission denied", b"", b"scp: f: not a regular file",
                            b"No such file or directory", b"no such file", b"x" * 5000])
            b = bytes([r.choice([1, 1, 1, 2, 2, 0, 3])]) + msg + r.choice([b"\n"] * 5 + [b""])
            rc = r.choice([1, 1, 0, -1])
        elif k == 8:
            b = r.choice([b"", b"\n", b"\0", b"\1", b"\2\n", b"\1\n", b"C\n", b"C0600\n", b"C0600 1\n", b"C0600 f 1\n", b"\xff\xfe\n", b"C" * 70000, b"C" * 70000 + b"\n"]) + r.choice([b"", rest])
        elif k == 9:
            extra = [{"signal": r.choice(["KILL", "TERM", "HUP"])}]
            rc = -1
        elif k == 10:
            extra = [{"drop": True}]
            rc = -2
        elif k == 11:
            ack = False
        elif k == 12:
            b = r.choice([b"\0", b"\1warn\n", b"T1 0 1 0\n"]) + b
        elif k == 13:
            b = b"C%s %d f\r\n" % (mode.encode(), len(data)) + rest
    return {"op": "recv", "name": r.choice(NAMES), "steps": source(b, rc, ack, extra), "stream": b, "rc": rc, "loose": not ack}


def rand_send(r, big):
    n = r.choice([0, 1, 2, 3, 10, 60, 64, 65, 100, 4096, 32768, 70000] + ([3 << 20] if big or r.random() < .1 else []))
    use_fill = n > 300 or r.random() < .5
    data = fill(n) if use_fill else bytes(r.choice(b"\0\n\1\2Ca") for _ in range(n))
    name, mode = r.choice(NAMES), r.choice([0o600, 0o600, 0o644, 0o400, 0o777])
    header = b"C0%o %d %s\n" % (mode, n, os.path.basename(name).encode())
    answers, rc = [0, 0, 0], 0
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        k = r.randrange(5)
        if k < 2:
            answers[r.randrange(len(answers) or 1):r.randrange(len(answers) or 1) + 1] = [r.choice([1, 2, 67, 255, 10])]
        elif k == 2:
            rc = r.choice([1, 2, 127, 255, -1, -2])
        elif k == 3:
            answers = answers[:r.randrange(len(answers) + 1)]
        elif k == 4:
            answers.append(r.choice([0, 1]))
    waits = [0, len(header), len(header) + n + 1]
    st, loose = [], r.random() < .1
    for i, a in enumerate(answers):
        if i < 3 and waits[i] and not loose:
            st.append({"wait": waits[i]})
        if r.random() < .05:
            st.append({"sleep": 20})
        st.append(answer(a, r.choice([b"", b"m", b"scp: x: No space left on device", b"scp: No such file or directory", b"y" * 400])))
    sig = r.random() < .05
    if sig:
        st.append({"signal": "KILL"})
        rc = -1
    return {"op": "send", "name": name, "mode": mode, "data": "" if use_fill else b64(data), "fill": n if use_fill else 0, "steps": st + end(rc), "answers": answers, "rc": rc,
            "whole": len(answers) >= 3 and not loose, "size": n, "loose": loose or len(answers) > 3, "raw": data}


def real(r, root, i):
    """A real scp on the other side."""
    k = r.choice(["recv", "send", "recv", "send", "missing", "nodir", "full", "over", "dir", "denied", "isdir"])
    n = r.choice([0, 1, 5, 65, 4096, 70000, 1 << 20])
    data = fill(n)
    d = os.path.join(root, "s%d" % i)
    os.makedirs(d)
    sc = {"root": d, "name": "f.bp", "mode": 0o600, "fill": n, "size": n, "raw": data, "kind": k}
    if k in ("recv", "dir"):
        sc["op"] = "recv"
        if k == "dir":
            os.mkdir(d + "/f.bp")
            return sc
        with open(d + "/f.bp", "wb") as fh:
            fh.write(data)
        os.chmod(d + "/f.bp", 0o600)
    elif k == "missing":
        sc.update(op="recv", name="nothing/here.bp")
    else:
        sc["op"] = "send"
        if k == "nodir":
            sc["name"] = "nothing/f.bp"
        elif k == "full":
            sc["name"] = "/dev/full"
            sc["size"] = sc["fill"] = n = max(n, 5)
            sc["raw"] = fill(n)
        elif k == "over":
            with open(d + "/f.bp", "wb") as fh:
                fh.write(fill(2 * n + 3))
        elif k == "isdir":
            os.mkdir(d + "/f.bp")
            os.mkdir(d + "/f.bp/f.bp")
    return sc


def record(sc, r):
    """What happened, for module ScpTrace."""
    clear = not sc.get("refuse") and not sc.get("reject")
    ev = r["events"] or []
    cmds = [e["cmd"].split("\n")[0] for e in ev if e["ev"] == "exec"]
    kinds = []
    for x in cmds:
        f = x.split(" ")
        kinds.append(("f" if "f" in f[1] else "t" if "t" in f[1] else "?") if len(f) == 3 and f[0] == "scp" and f[1][0] == "-" and f[2] == sc["name"] else "?")
    e = {"dir": sc["op"], "clear": clear, "ok": r["ok"], "nf": r["notfound"], "cmds": kinds}
    fair = not sc.get("hangup") and not sc.get("loose") and not any("drop" in s for s in sc.get("steps", []))
    raw = sc.get("raw", b"")
    if "root" in sc:
        rc = [x["rc"] for x in ev if x["ev"] == "done"]
        rc = rc[0] if rc else -1
    else:
        rc = sc["rc"]
    if sc["op"] == "recv":
        if "root" in sc:
            if sc["kind"] == "recv":
                stream = b"C0600 %d f.bp\n" % len(raw) + raw + b"\0"
            elif sc["kind"] == "missing":
                stream = b"\1scp: nothing/here.bp: No such file or directory\n"
            else:
                stream = b"\1scp: f.bp: not a regular file\n"
        else:
            stream = sc["stream"]
        line, rest = split(stream)
        n = announced(line)
        got = base64.b64decode(r["content"] or "")
        if r["n"] != len(got):
            # it was too much to be shown
            want = rest[:n]
            grun = [[r["n"], tag(want) if hashlib.sha256(want).hexdigest()[:16] == r["sum"] and len(want) == r["n"] else 1]]
            if n <= 64:
                grun = [[r["n"], 1]]
        else:
            grun = runs(got, n)
        if not r["ok"]:
            grun = []
        if len(line) > 200:
            line = line[:100] + line[-100:]
        e.update(line=list(line), rest=runs(rest, n), rc=rc, fair=fair, got=grun, nofile=b"no such file or directory" in line.lower())
        return e
    x = [v for v in ev if v["ev"] == "exec"]
    e.update(answers=sc.get("answers", []), rc=rc, fair=fair, size=sc["size"], mode="", stray=r["stray"], sline=[], srest=[], data=[], whole=False)
    data = raw or base64.b64decode(sc.get("data", ""))
    e["mode"] = list(b"0%o" % sc["mode"])
    e["data"] = runs(data, sc["size"])
    if "root" in sc:
        # what it did is seen by what is there
        k = sc["kind"]
        good = k in ("send", "over", "denied")
        e["answers"] = [0, 0, 0] if good else [0, 1] if k == "nodir" else [0, 0, 1] if k == "full" else [0, 1]
        e["whole"] = good
        try:
            there = open(os.path.join(sc["root"], sc["name"]), "rb").read() if good else b""
        except OSError:
            there = None
        h = b"C0600 %d f.bp\n" % len(data)
        e["sline"] = list(h if there is not None else b"")
        e["srest"] = runs((there or b"") + b"\0", sc["size"])
        return e
    e["whole"] = bool(sc.get("whole"))
    if x:
        got = base64.b64decode(x[0].get("got") or "")
        tail = x[0]["cmd"].split("\n")
        line, rest = split(got)
        e["sline"] = list(line)
        if len(tail) > 1:
            total, s = tail[1].split(" ")
            want = data + b"\0"
            ok = hashlib.sha256(want).hexdigest()[:16] == s and int(total) == len(line) + len(want)
            e["srest"] = runs(want, sc["size"]) if ok else [[int(total) - len(line), 1]]
        else:
            e["srest"] = runs(rest, sc["size"])
    return e


MODELS = (("recv", ["Exact", "Accepts", "Decides"]), ("send", ["Acked", "Stored", "Sends", "Decides"]))


def cfg(d, n, acks, inv, view=True):
    return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n%sCONSTANTS Dir = "%s" MaxOut = %d Acks = %d\n%s' % (
        "VIEW View\n" if view else "", d, n, acks, "".join("INVARIANT %s\n" % i for i in inv))


def run(c):
    big = TIER == "thorough"
    for d, inv in MODELS:
        c.design("ScpModel", cfg(d, 6 if big else 4, 3, inv))
    for inv in ("Acked", "Stored"):
        r = tlc("ScpModel", cfg("send", 4, 1, [inv]))
        if "Invariant %s is violated" % inv not in r.out:
            raise Broken("negative control of ScpModel does not break %s:\n%s" % (inv, r.out[-2000:]))
    c.count("negative_controls", 2)
    rng = c.rng
    scs = []
    for d in ("recv", "send"):
        hs, _ = scenarios_of("ScpModel", cfg(d, 3, 3, ["MEnd"]))
        seen, out = set(), []
        for h in hs:
            k = json.dumps(h, sort_keys=True)
            if k not in seen:
                seen.add(k)
                out.append(of_model(h, rng))
        n = len(out) if big else 2000
        scs += rng.sample(out, min(n, len(out)))
    c.count("model_histories", len(scs))
    for i in range(20000 if big else 2500):
        scs.append(rand_recv(rng, big))
        scs.append(rand_send(rng, big))
    for sc in scs:
        x = rng.random()
        if x < .01:
            sc["refuse"] = True
        elif x < .02:
            sc["reject"] = True
        elif x < .05:
            sc["hangup"] = True
    with Dir() as d:
        for i in range(2000 if big else 250):
            scs.append(real(rng, d, i))
        rng.shuffle(scs)
        judge_scp(c, scs)


def judge_scp(c, scs, par=8):
    b = build("scp")
    wire = [{k: v for k, v in sc.items() if k in ("op", "name", "mode", "data", "fill", "steps", "hangup", "refuse", "root", "reject")} for sc in scs]
    size = -(-len(wire) // (par * 4))
    parts = [wire[i:i + size] for i in range(0, len(wire), size)]
    res = [r for rs in pmap(lambda p: l1(b["scp"], p), parts, par) for r in rs]
    traces, idx, t = [], [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        if "dead" in r:
            c.violation("a transfer crashed or never ended: " + r["dead"][-400:], {"scenario": wire[i]})
            continue
        t.append(record(sc, r))
        idx.append(i)
    traces = [{"t": t[i:i + 50]} for i in range(0, len(t), 50)]
    bad, st = judge("ScpTrace", traces, "ScpTrace.cfg")
    c.cov["states"] += st["states"]
    c.cov["transitions"] += st["generated"]
    for ti, at, w in sorted(bad):
        k = ti * 50 + at - 1
        c.violation("%s: not as specified (%s); said %s" % (t[k]["dir"], ", ".join(w), "ok" if t[k]["ok"] else res[idx[k]]["err"][:200]),
                    {"wrong": w, "event": t[k], "scenario": wire[idx[k]], "result": res[idx[k]]})
    c.traces(len(t) - len(bad))
    for e in t:
        c.count("%s_%s" % (e["dir"], "ok" if e["ok"] else "refused"))
    c.count("real_scp", sum(1 for sc in scs if "root" in sc))
    for k in range(0, len(t), max(1, len(t) // 6)):
        c.sample({"event": {x: y for x, y in t[k].items() if x not in ("rest", "srest", "got", "data")}, "err": res[idx[k]]["err"][:100]})
