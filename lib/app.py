"""The program as a black box: sessions over a socket, files through the codec."""
import base64, json, os, re, select, shutil, socket, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import vf
from vf import Hang, Odd

HANG = 40          # seconds without any sign of life
MAXPROMPTS = 400   # in one command

_sem = threading.Semaphore(24)


class Codec:
    """A pool of processes that open and make files independently of the code under test."""

    def __init__(self, binary, n=4):
        self.free = []
        self.sem = threading.Semaphore(n)
        self.lock = threading.Lock()
        self.binary = binary
        for _ in range(n):
            self.free.append(subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE))

    def call(self, **req):
        with self.sem:
            with self.lock:
                p = self.free.pop()
            try:
                p.stdin.write((json.dumps(req) + "\n").encode())
                p.stdin.flush()
                line = p.stdout.readline()
            finally:
                with self.lock:
                    self.free.append(p)
        if not line:
            raise vf.Broken("codec died on %r" % req)
        return json.loads(line)

    def open(self, path, user="", passwd=""):
        r = self.call(op="open", path=path, user=user, **{"pass": passwd})
        if r["ok"]:
            r["text"] = base64.b64decode(r["text"])
        return r

    def log(self, path, user="", passwd=""):
        """The history in a file, or None if it does not open."""
        r = self.open(path, user, passwd)
        return parse_log(r["text"]) if r["ok"] else None

    def seal(self, path, passwd, text, users=None, **kw):
        if not isinstance(text, bytes):
            text = json.dumps(text).encode()
        r = self.call(op="seal", path=path, text=base64.b64encode(text).decode(), users=users or [], **{"pass": passwd}, **kw)
        if not r["ok"]:
            raise vf.Broken("codec cannot seal: " + r["err"])

    def close(self):
        for p in self.free:
            p.kill()


def parse_log(text):
    try:
        d = json.loads(text) or {}
    except ValueError:
        raise Odd("the file holds no history: " + repr(text)[:500])
    return changes((d.get("log") if isinstance(d, dict) else d) or [])


def changes(log):
    """A history with every field there."""
    if not isinstance(log, list) or not all(isinstance(t, dict) for t in log):
        raise Odd("this is no history: " + repr(log)[:500])
    for t in log:
        t.setdefault("uuid", "")
        t.setdefault("kind", "")
    return log


class Prompt:
    def __init__(self, text, hidden, out, events, main):
        self.text, self.hidden, self.out, self.events, self.main = text, hidden, out, events, main

    def clips(self):
        return [e["line"] for e in self.events if e["ev"] == "clip"]


class App:
    """One run of the program."""

    def __init__(self, binary, directory, args=(), file="f.bp", env=None, nosync=True, wrap=(), nocolor=True, clear=True, tty=False, names=("f.bp",)):
        self.dir = directory
        self.mainre = re.compile(r"^\([^)]*(%s)[^)]*\)(:.*)?> $" % "|".join(map(re.escape, names)), re.S)
        self.file = os.path.join(directory, file) if file else None
        self.buf = b""
        self.events = []
        self.rc = None
        self.n = 0
        self.hist = []
        tag = "%x" % (threading.get_ident() & 0xffffff) + "%x" % (time.monotonic_ns() & 0xffffffff)
        self.sockpath = os.path.join(vf.work(), "s" + tag)
        self.srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.srv.bind(self.sockpath)
        os.chmod(self.sockpath, 0o777)
        self.srv.listen(1)
        self.outpath = os.path.join(directory, ".out" + tag)
        self.errpath = os.path.join(directory, ".err" + tag)
        self.outf = open(self.outpath, "wb")
        self.errf = open(self.errpath, "wb")
        e = {"HOME": directory, "TMPDIR": directory, "PINENTRY": "none", "TZ": "UTC", "PATH": "/usr/bin:/bin",
             "BPV_SOCK": self.sockpath, "LANG": "C.UTF-8", "GOTRACEBACK": "all"}
        for k, v in (env or {}).items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
        cmd = [*wrap, binary]
        if nocolor:
            cmd.append("--no-color")
        if nosync:
            cmd.append("--no-sync")
        if not clear:
            cmd.append("--no-clear-clip")
        if self.file:
            cmd += ["-f", self.file]
        cmd += list(args)
        self.cmd = cmd
        self.pos = 0
        self.rpos = open(self.outpath, "rb")
        self.conn = None
        self.pty = None
        stdin = subprocess.DEVNULL
        if tty:
            # a terminal of its own, which some commands want to leave
            self.pty, stdin = os.openpty()
            cmd = ["setsid", "-c", *cmd]
        self.p = subprocess.Popen(cmd, cwd=directory, env=e, stdin=stdin, stdout=self.outf, stderr=self.errf)
        if tty:
            os.close(stdin)

    # ---- conversation

    def _take_out(self):
        self.rpos.seek(self.pos)
        b = self.rpos.read()
        self.pos += len(b)
        return b.decode("utf-8", "surrogateescape")

    def _accept(self):
        end = time.monotonic() + hang()
        self.srv.settimeout(0.05)
        while self.conn is None:
            try:
                self.conn, _ = self.srv.accept()
            except socket.timeout:
                if self.p.poll() is not None:
                    return False
                if time.monotonic() > end:
                    self.kill()
                    raise Hang("no sign of life from %s" % self.cmd)
        self.conn.settimeout(hang())
        return True

    def next(self):
        """The next prompt, or None when the program has ended (rc, out set)."""
        if self.rc is not None:
            return None
        if self.conn is None and not self._accept():
            return self._ended()
        events = []
        while True:
            while b"\n" not in self.buf:
                try:
                    d = self.conn.recv(1 << 16)
                except socket.timeout:
                    self.kill()
                    raise Hang("no sign of life from %s" % self.cmd)
                except ConnectionResetError:
                    d = b""
                if not d:
                    self.last_events = events
                    return self._ended()
                self.buf += d
            line, self.buf = self.buf.split(b"\n", 1)
            m = json.loads(line)
            m.setdefault("line", "")
            if m["ev"] == "prompt":
                self.n += 1
                t = m.get("prompt", "")
                main = bool(self.mainre.match(t))
                return Prompt(t, m.get("hidden", False), self._take_out(), events, main)
            if m["ev"] == "tab":
                self.tabs = m.get("names") or []
                continue
            events.append(m)

    def _ended(self):
        try:
            self.rc = self.p.wait(hang())
        except subprocess.TimeoutExpired:
            self.kill()
            raise Hang("does not end: %s" % self.cmd)
        self.out = self._take_out()
        self.err = open(self.errpath, "rb").read().decode("utf-8", "replace")
        self._cleanup()
        return None

    def _cleanup(self):
        for f in (self.outf, self.errf, self.rpos, self.srv, self.conn):
            if f:
                f.close()
        if self.pty is not None:
            os.close(self.pty)
            self.pty = None
        for p in (self.outpath, self.errpath, self.sockpath):
            if os.path.exists(p):
                os.unlink(p)

    def say(self, a):
        """Answer the prompt: a string, bytes, or EOF / INT / TAB."""
        if a is EOF:
            m = {"err": "eof"}
        elif a is INT:
            m = {"err": "interrupt"}
        elif a is TAB:
            m = {"tab": True}
        elif isinstance(a, bytes):
            m = {"hex": a.hex()} if a else {"line": ""}
        else:
            m = {"line": a}
        try:
            self.conn.sendall((json.dumps(m) + "\n").encode())
        except OSError:
            pass

    def crashed(self):
        return self.rc is not None and (self.rc < 0 or "goroutine " in self.err or "panic:" in self.err)

    def kill(self):
        if self.rc is None:
            self.p.kill()
            self.p.wait()
            self.rc = -9
            self.out, self.err = "", ""
            self._cleanup()

    # ---- commands

    def open(self, *answers):
        """Answer the prompts before the main one.  True if the session is open."""
        self.opening = []
        todo = list(answers)
        while True:
            p = self.next()
            if p is None:
                return False
            self.opening.append({"prompt": p.text, "hidden": p.hidden, "out": p.out})
            if p.main:
                self.hello = p
                return True
            if len(self.opening) > MAXPROMPTS:
                self.kill()
                self.endless = True
                return False
            self.say(todo.pop(0) if todo else EOF)

    endless = False

    def run(self, line, answers=(), more=None):
        """Run one command.  Answers beyond those given come from more(prompt), else end of input."""
        r = {"line": line, "out": "", "asked": [], "clips": [], "open": True}
        todo = list(answers)
        self.say(line)
        while True:
            p = self.next()
            if p is None:
                r["open"] = False
                r["out"] += self.out
                r["clips"] += [e["line"] for e in getattr(self, "last_events", []) if e["ev"] == "clip"]
                r["rc"] = self.rc
                r["crash"] = self.err[:1500] if self.crashed() else ""
                return r
            r["clips"] += p.clips()
            if p.main:
                r["out"] += p.out
                r["prompt"] = p.text
                return r
            if todo:
                a = todo.pop(0)
            elif more:
                a = more(p)
            else:
                a = EOF
            r["out"] += p.out
            r["asked"].append({"prompt": p.text, "hidden": p.hidden, "out": p.out, "ans": a})
            if len(r["asked"]) > MAXPROMPTS:
                self.kill()
                self.endless = True
                r["open"], r["endless"], r["rc"], r["crash"] = False, True, -9, ""
                return r
            self.say(a)

    def dumpall(self):
        r = self.run("dumpall")
        if not r["open"]:
            return None
        try:
            d = json.loads(r["out"])
            return d if isinstance(d, dict) else {}
        except ValueError:
            raise Odd("dumpall does not show the history: " + r["out"][:300])

    def log(self):
        d = self.dumpall()
        return None if d is None else changes(d.get("log", d.get("Log")) or [])

    def must_log(self):
        l = self.log()
        if l is None:
            raise Odd("dumpall ends the session: " + (self.err or self.out)[-500:])
        return l


class _Tok:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


EOF, INT, TAB = _Tok("EOF"), _Tok("INT"), _Tok("TAB")


def plain(x):
    """Answers etc. as JSON."""
    if isinstance(x, _Tok):
        return "<%s>" % x.n
    if isinstance(x, bytes):
        return "hex:" + x.hex()
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


_hung = []          # hangs that happened twice in a row


def hang():
    """How long to wait. A program that was seen to hang is not given long any more."""
    return HANG if len(_hung) < 2 else 6


def pmap(fn, items, par=8):
    """fn over items in parallel; a hang that happens twice in a row is a result, once is retried."""
    def one(it):
        if len(_hung) >= 12:
            return {"hang": "not run, as so many before hung"}
        for k in range(2 if len(_hung) < 2 else 1):
            try:
                return fn(it)
            except Hang as e:
                last = e
        _hung.append(1)
        return {"hang": str(last)}
    with ThreadPoolExecutor(par) as ex:
        return list(ex.map(one, items))


class Dir:
    """A scratch directory of its own."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="d-", dir=vf.work())
        return self.d

    def __exit__(self, *a):
        subprocess.run(["chmod", "-R", "u+rwx", self.d], capture_output=True)
        shutil.rmtree(self.d, ignore_errors=True)
