"""A freshly started interpreter that serves simulated process lifetimes.

Started by props/c12.py with drawn options and environment; every lifetime is a fork of it
made before the library was imported."""

import os
import sys

sys.path[0] = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from dst import engine as E  # noqa: E402
from dst import env  # noqa: E402
from dst import fs as F  # noqa: E402
from dst import norm  # noqa: E402
from dst import ops  # noqa: E402
from dst import procs  # noqa: E402
from dst import sched as S  # noqa: E402


def believe(f):
    """The machine that this process finds itself on."""
    import platform
    import posix
    import socket

    n = f["cpu"]
    os.cpu_count = lambda: n
    os.sched_getaffinity = lambda pid: set(range(n or 1))
    if hasattr(os, "process_cpu_count"):
        os.process_cpu_count = os.cpu_count
    un = posix.uname_result(("Linux", f["host"], "6.1.0", "#1", f["machine"]))
    os.uname = lambda: un
    platform._uname_cache = None
    socket.gethostname = lambda: f["host"]
    os.getpid = lambda: f["pid"]
    os.getppid = lambda: f["pid"] // 2
    for k in ("getuid", "geteuid", "getgid", "getegid"):
        setattr(os, k, lambda: f["uid"])
    os.getloadavg = lambda: (f["load"],) * 3

    def getlogin():
        if f["login"] is None:
            raise OSError(6, "No such device or address")
        return f["login"]

    def get_terminal_size(fd=1):
        if f["tty"] is None:
            raise OSError(25, "Inappropriate ioctl for device")
        return os.terminal_size(f["tty"])

    os.getlogin, os.get_terminal_size = getlogin, get_terminal_size
    os.isatty = lambda fd: f["tty"] is not None


def lifetime(cfg, wr):
    import importlib

    d = cfg["d"]
    F._real.makedirs(os.path.join(d, "home"))
    if cfg["cwd"] == "gone":
        p = os.path.join(d, "gone%d" % cfg["n"])
        os.mkdir(p)
        os.chdir(p)
        os.rmdir(p)
    else:
        os.chdir(cfg["cwd"])
    fs = F.activate(os.path.join(d, "fs"))
    fs.root = env.REPO
    fs.whiteouts = F.DiskSet(os.path.join(d, "wh"))
    fs.plan = {int(k): v for k, v in (cfg.get("plan") or {}).items()}
    fs.wplan = {int(k): v for k, v in (cfg.get("wplan") or {}).items()}
    fs.order = cfg["entropy"] % 7919
    F.tempfile._name_sequence = F._Names("l%d_" % cfg["n"])
    env.reseed(cfg["entropy"])
    os.environ.update(cfg["env"])
    sys.argv[:] = cfg.get("argv", sys.argv)
    for k in cfg.get("unset", ()):
        os.environ.pop(k, None)
    if cfg.get("facts"):
        believe(cfg["facts"])
    ops.capture()
    if cfg.get("nostd"):
        sys.stdout = sys.stderr = sys.stdin = None

    app = cfg.get("app")
    if app:
        from dst import settings

        settings.apply(app)

    def die(t=None):
        procs._put(wr, {"died": True, "steps": sc.steps, "fsn": fs.n})
        os._exit(137)

    sc = S.Scheduler(S.SerialPolicy(), E.CODESET, "line", faults={(a, b): "kill" for a, b in cfg.get("kill", ())},
                     max_steps=400000, op_limit=200000)
    sc.now = cfg["t0"]
    sc.on_kill = die
    fs.on_kill = die

    def body(t):
        if app:
            settings.apply_own(app)
        sc.begin_op(t, 1)
        try:
            for n in cfg["order"]:
                importlib.import_module(n)
        except S.SimStop:
            raise
        except BaseException as e:
            procs._put(wr, {"import": norm.exc(e)})
            return
        finally:
            sc.end_op(t)
        procs._put(wr, {"import": None, "steps": sc.steps})
        ctx = ops.Ctx(cfg["world"])
        for op in cfg["ops"]:
            r = ops.perform(op, ctx, sc, t)
            procs._put(wr, {"op": op["id"], "out": r["out"], "diag": r["diag"], "n": r["n"]})

    sc.install()
    try:
        fs.nodes = {0: F.Node(0)}
        fs.armed = True
        stop = sc.run([body], main=True)
    finally:
        sc.uninstall()
    fs.armed = False
    procs._put(wr, {"end": True, "stop": stop, "steps": sc.steps, "fsn": fs.n})


def main():
    import ctypes
    import traceback

    ctypes.CDLL(None).prctl(1, 9)
    rd, wr = int(sys.argv[1]), int(sys.argv[2])
    bare = sys.argv[3] == "bare"
    if not bare:
        env.third_party()
    sys.dont_write_bytecode = True
    env.fresh_sources()
    env.seams()
    env.precompile()
    E.CODESET = S.CodeSet([env.PKG + "/"], [])
    env.npz_bytes() if not bare else None
    procs._put(wr, {"ready": [sys.flags.hash_randomization, sys.flags.optimize, sys.flags.utf8_mode]})
    while True:
        cfg = procs._take(rd)
        if cfg is None:
            os._exit(0)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                ctypes.CDLL(None).prctl(1, 9)
                lifetime(cfg, w)
            except BaseException:
                procs._put(w, {"harness": traceback.format_exc()[-2500:]})
            finally:
                os._exit(0)
        F._real.os_close(w)
        msgs = []
        while True:
            m = procs._take(r)
            if m is None:
                break
            msgs.append(m)
        F._real.os_close(r)
        os.waitpid(pid, 0)
        procs._put(wr, msgs)


main()
