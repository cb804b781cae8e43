"""Simulated processes: forked interpreters of which exactly one runs at a time.

Every file, network, sleep and exit event of a node, and a drawn number of its executed
lines, is a step at which the coordinator decides who continues.  A kill is a real process
exit without any clean-up; only the shared (scratch) file system survives it.
"""

import hashlib
import json
import os
import random
import select
import signal
import struct
import sys
import time
import traceback

from . import engine as E
from . import env
from . import fs as F
from . import ops
from . import sched as S


def _put(fd, obj):
    b = json.dumps(obj).encode()
    b = struct.pack(">I", len(b)) + b
    while b:
        n = F._real.os_write(fd, b)
        b = b[n:]


class Silent(E.HarnessError):
    pass


def _take(fd, timeout=None):
    def exact(n):
        out = b""
        while len(out) < n:
            if timeout is not None and not select.select([fd], [], [], timeout)[0]:
                raise Silent("node silent for %g s of wall time" % timeout)
            c = F._real.os_read(fd, n - len(out))
            if not c:
                return None
            out += c
        return out

    h = exact(4)
    if h is None:
        return None
    b = exact(struct.unpack(">I", h)[0])
    return None if b is None else json.loads(b)


class NodeSched(S.Scheduler):
    """The scheduler inside a node: one thread, steps granted by the coordinator."""

    remote = True

    def __init__(self, rd, wr, codeset, faults, kill_at, **k):
        super().__init__(S.SerialPolicy(), codeset, "line", faults=faults, **k)
        self.rd, self.wr = rd, wr
        self.budget = 0
        self.kill_at = kill_at
        self.extra = {}

    def _event(self, t, code, pos, store):
        super()._event(t, code, pos, store)
        if self.kill_at is not None and self.steps == self.kill_at:
            self.die("line")
        ev = isinstance(code, F.Pt)
        self.budget -= 1
        if ev or self.budget <= 0:
            t.in_cb = True
            try:
                self.report({"e": code.co_qualname if ev else "line", "n": pos})
            finally:
                t.in_cb = False

    def report(self, m):
        m["steps"] = self.steps
        _put(self.wr, m)
        r = _take(self.rd)
        if r is None:
            os._exit(138)
        self.budget = r["go"]
        self.now = r["now"]

    def sleep(self, dt):
        t = self.me()
        self.sleeps += 1
        old = t.in_cb
        t.in_cb = True
        try:
            self.report({"e": "sleep", "dt": max(float(dt), 1e-6)})
        finally:
            t.in_cb = old

    def die(self, why):
        _put(self.wr, {"e": "died", "why": why, "steps": self.steps, "fs": F.FSOBJ.counts})
        os._exit(137)


def node_main(rd, wr, nid, cfg, body, scratch):
    """Runs in the forked node process."""
    import ctypes

    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    fs = F.FSOBJ
    fs.n = 0
    fs.plan = {int(k): v for k, v in (cfg.get("plan") or {}).items()}
    fs.sticky = cfg.get("sticky")
    fs.nodes = {0: F.Node(nid)}
    fs.armed = True
    F.tempfile._name_sequence = F._Names("n%d_" % nid)
    env.reseed(1000 + nid)
    sc = NodeSched(rd, wr, E.CODESET, {(1, int(k)): v for k, v in (cfg.get("faults") or {}).items()}, cfg.get("kill"),
                   max_steps=200000, op_limit=150000)
    fs.on_kill = lambda: sc.die("fs")
    F.set_net(F.Net(cfg["body"], cfg.get("net") or ()))
    result = {}

    def run(t):
        t.in_cb = True
        sc.report({"e": "start"})
        t.in_cb = False
        sc.begin_op(t, 1)
        try:
            body(result, t, sc)
        finally:
            sc.end_op(t)

    sc.install()
    try:
        sc.run([run], main=True)
    except BaseException:
        result["harness"] = traceback.format_exc()[-1500:]
    finally:
        sc.uninstall()
    fs.armed = False
    if sc.stop is not None and sc.stop[0] == "harness":
        result.setdefault("harness", "node stopped: %r" % (sc.stop,))
    stuck = sc.stop is not None and "harness" not in result
    _put(wr, {"e": "stuck" if stuck else "done", "why": str(sc.stop), "out": result, "fs": fs.counts, "net": F.NET.log, "fired": [f[0] for f in sc.fired],
              "steps": sc.steps, "hash": sc.hash.hexdigest(), "stop": sc.stop})


class Coordinator:
    def __init__(self, rng, policy, check):
        self.rng = rng
        self.policy = policy
        self.check = check
        self.now = 0.0
        self.decisions = []
        self.given = list(policy.get("sw") or ()) if policy["k"] == "list" else None
        self.hash = hashlib.blake2b(digest_size=10)
        self.ilhash = hashlib.blake2b(digest_size=10)
        self.steps = 0
        self.switches = 0
        self.log = []

    def phase(self, nodes, scratch, make_body, first_nid):
        live = {}
        res = {}
        for i, cfg in enumerate(nodes):
            nid = first_nid + i
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    F._real.os_close(r1)
                    F._real.os_close(w2)
                    node_main(r2, w1, nid, cfg, make_body(cfg), scratch)
                finally:
                    os._exit(0)
            F._real.os_close(w1)
            F._real.os_close(r2)
            live[nid] = {"pid": pid, "rd": r1, "wr": w2, "wake": None, "m": _take(r1, 60)}
        cur = None
        steps0, now0 = self.steps, self.now
        while live:
            ready = [n for n, x in live.items() if x["wake"] is None or x["wake"] <= self.now]
            if not ready:
                self.now = min(x["wake"] for x in live.values())
                continue
            nid, go = self.choose(cur, sorted(ready))
            if cur is not None and nid != cur:
                self.switches += 1
            x = live[nid]
            x["wake"] = None
            cur = nid
            before = self.check(None, None)
            if not x.get("begun"):
                x["begun"] = True
                x["present"] = before
            _put(x["wr"], {"go": go, "now": self.now})
            try:
                m = _take(x["rd"], 40)
            except Silent:
                m = {"e": "stuck", "why": "no progress although it may run"}
            self.steps += 1
            if self.steps - steps0 > 20000:
                m = {"e": "stuck", "why": "not finished after 20000 steps, %g simulated s" % (self.now - now0)}
            if m is None:
                raise E.HarnessError("node %d died silently" % nid)
            self.hash.update(json.dumps([nid, m.get("e"), m.get("n"), m.get("steps")]).encode())
            self.ilhash.update(json.dumps([nid, m.get("e")]).encode())
            if len(self.log) < 300:
                self.log.append([nid, m.get("e"), m.get("n")])
            self.check(nid, x)
            if m["e"] == "sleep":
                x["wake"] = self.now + m["dt"]
            elif m["e"] in ("done", "died", "stuck"):
                if m["e"] == "stuck":
                    os.kill(x["pid"], signal.SIGKILL)
                m["present"] = x.get("present")
                os.waitpid(x["pid"], 0)
                F._real.os_close(x["rd"])
                F._real.os_close(x["wr"])
                del live[nid]
                res[nid] = m
                cur = None
        return res

    def choose(self, cur, ready):
        if self.given is not None:
            if self.given:
                nid, go = self.given.pop(0)
                if nid in ready:
                    self.decisions.append([nid, go])
                    return nid, go
            nid = cur if cur in ready else ready[0]
            self.decisions.append([nid, 1000000])
            return nid, 1000000
        if self.policy["k"] == "serial":
            nid, go = (cur if cur in ready else ready[0]), 1000000
        else:
            p = self.policy["p"]
            if cur in ready and self.rng.random() > p:
                nid = cur
            else:
                nid = self.rng.choice(ready)
            go = self.rng.choice([1, 3, 10, 30, 100, 1000000])
        self.decisions.append([nid, go])
        return nid, go
