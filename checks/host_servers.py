"""Ssh servers that show the keys they are told to, and watch."""
import threading
from vf import *


class Servers:
    """The ssh servers there are, by one process each pool."""

    def __init__(self, binary, wrap=()):
        self.p = subprocess.Popen([*wrap, binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.lock, self.types = threading.Lock(), {}

    def call(self, **q):
        with self.lock:
            self.p.stdin.write((json.dumps(q) + "\n").encode())
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        if not l:
            raise Broken("the ssh server is gone")
        r = json.loads(l)
        if not r["ok"]:
            raise Broken("ssh server: " + r["err"])
        return r

    def close(self):
        self.p.stdin.close()
        self.p.wait()


class Host:
    """A server and what is known about the connections to it."""

    def __init__(self, srv, root, name="127.0.0.1"):
        r = srv.call(op="listen", kind="ed25519", seed="k1", root=root, user="u", **{"pass": "secret%d:@/ü"})
        self.srv, self.id, self.port = srv, r["id"], r["port"]
        self.host, self.addr = "%s:%d" % (name, r["port"]), "127.0.0.1:%d" % r["port"]
        self.conns = []

    # how the one user who may logs in
    login = "u:secret%25d%3A%40%2F%C3%BC"

    def close(self):
        self.srv.call(op="close", id=self.id)

    def keys(self, ks, refuse=False):
        self.srv.call(op="key", id=self.id, kind=ks[0][0], seed=ks[0][1], more=[list(k) for k in ks[1:]])
        self.srv.call(op="do", id=self.id, refuse=refuse)
        self.update()
        self.conns = []

    def update(self):
        for e in self.srv.call(op="take", id=self.id)["events"]:
            if e["ev"] == "conn":
                self.conns.append({"type": e["type"], "hash": e["hash"], "usable": e["type"] in ("ssh-ed25519", "ssh-rsa"), "asks": [], "auth": False, "cmds": []})
            elif e["ev"] in ("auth", "authkey"):
                self.conns[-1]["auth"] = True
            elif e["ev"] == "exec":
                self.conns[-1]["cmds"].append(e["cmd"])


def ident(srv, k):
    """Type and hash of a key. RSA keys are not the same in every process, whatever they are made from."""
    if k not in srv.types:
        r = srv.call(op="listen", kind=k[0], seed=k[1])
        srv.types[k] = (r["type"], r["hash"])
        srv.call(op="close", id=r["id"])
    return srv.types[k]
