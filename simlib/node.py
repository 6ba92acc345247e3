"""Another process of the simulated deployment: same code, its own interpreter, hash seed and caches.

The parent starts one per worker and talks to it over pipes; it can crash it and start it again at
any message boundary."""

from __future__ import annotations

import atexit
import os
import pickle
import struct
import subprocess
import sys

_NODES: dict = {}


class Node:
    def __init__(self, name="n", hash_seed="4242", env=None):
        self.name, self.hash_seed, self.env = name, hash_seed, env or {}
        self.proc = None
        self.starts = 0

    def start(self):
        env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
        env["PYTHONHASHSEED"] = str(self.hash_seed)
        env.update(self.env)
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.proc = subprocess.Popen([sys.executable, "-m", "simlib.node", str(r1), str(w2)], env=env, pass_fds=(r1, w2),
                                     stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                     stderr=None if os.environ.get("SIM_DEBUG") else subprocess.DEVNULL)
        os.close(r1)
        os.close(w2)
        self.tx, self.rx = os.fdopen(w1, "wb"), os.fdopen(r2, "rb")
        self.starts += 1

    def kill(self):
        if self.proc:
            self.proc.kill()
            self.proc.wait()
            self.tx.close()
            self.rx.close()
            self.proc = None

    def post(self, what, /, **kw):
        """Send a request and do not wait for the answer."""
        if self.proc is None:
            self.start()
        send(self.tx, (what, kw))

    def call(self, what, /, **kw):
        self.post(what, **kw)
        try:
            return recv(self.rx)
        except EOFError:
            self.proc = None
            return {"error": "the process died"}


def node(name="n", hash_seed="4242", env=None):
    if name not in _NODES:
        _NODES[name] = Node(name, hash_seed, env)
        atexit.register(_NODES[name].kill)
    return _NODES[name]


def send(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack("<Q", len(b)) + b)
    f.flush()


def recv(f):
    h = f.read(8)
    if len(h) < 8:
        raise EOFError
    n = struct.unpack("<Q", h)[0]
    b = f.read(n)
    if len(b) < n:
        raise EOFError
    return pickle.loads(b)


# ----------------------------------------------------------------------------- in the node


def load_and_resave(path, out, packed):
    from xtructure.io.io import load, save

    save(out, load(path), packed=packed)
    return {}


def hashes(cls, leaves, seeds):
    from .worlds.hashing import all_hashes

    return {"hashes": all_hashes(cls, leaves, seeds)}


def history_step(**kw):
    from .worlds.cluster import serve

    return serve(**kw)


def values(**kw):
    from .worlds.values import serve

    return serve(**kw)


HANDLERS = {"values": values, "load_and_resave": load_and_resave, "hashes": hashes, "history_step": history_step}


def main():
    from .engine import _prepare_process

    rx, tx = os.fdopen(int(sys.argv[1]), "rb"), os.fdopen(int(sys.argv[2]), "wb")
    _prepare_process()
    import simlib.classes  # noqa: F401 - makes the value classes importable

    while True:
        try:
            what, kw = recv(rx)
        except EOFError:
            return
        try:
            res = HANDLERS[what](**kw)
            res.setdefault("error", None)
        except Exception as e:  # noqa: BLE001
            res = {"error": f"{type(e).__name__}: {str(e)[:400]}"}
        send(tx, res)


if __name__ == "__main__":
    main()
