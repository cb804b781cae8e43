"""Running specifications in forked children of a pristine interpreter; references;
judging; minimisation; replay files; evidence."""

import hashlib
import json
import os
import random
import select
import shutil
import signal
import sys
import time
import traceback

from . import env
from . import fs as F
from . import gen
from . import norm
from . import ops
from . import sched as S
from . import settings

CODESET = None
IMPORT_DIFF = None
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ set-up

BASE = None  # scratch directory of this invocation


def scratch_base():
    global BASE
    if BASE is None:
        import tempfile

        BASE = "/tmp/dst-%d-%s" % (os.getpid(), hashlib.blake2b(repr(time.time_ns()).encode(), digest_size=4).hexdigest())
        os.makedirs(BASE)
    return BASE


def codeset():
    import collections
    import collections.abc
    import functools

    extra = []
    for c in (collections.UserDict, collections.abc.MutableMapping, collections.abc.Mapping, functools.cached_property):
        for v in vars(c).values():
            f = getattr(v, "__func__", v)
            if hasattr(f, "__code__"):
                extra.append(f.__code__)
    cs = S.CodeSet([env.PKG + "/"], extra)
    cs.scan_modules([m for m in sorted(sys.modules) if m == "pygmm" or m.startswith("pygmm.")])
    return cs


def setup(import_lib=True):
    """Build the zygote in this process."""
    global CODESET, IMPORT_DIFF
    env.third_party()
    env.fresh_sources()
    env.seams()
    scratch_base()
    if import_lib:
        fs = F.activate(os.path.join(BASE, "zygote"))
        fs.root = env.REPO
        fs.put(env.NPZ, env.npz_bytes())
        s0 = settings.own_snapshot(), settings.shared_snapshot(False)
        env.watch_environ()
        env.import_library()
        IMPORT_DIFF = settings.diff(s0[0], settings.own_snapshot()) or settings.diff(s0[1], settings.shared_snapshot(False))
        F.FSOBJ = None
        CODESET = codeset()
        for m in gen.C.values():  # every name must resolve
            getattr(ops.module(m["mod"]), m["name"])
    else:
        env.precompile()
        CODESET = S.CodeSet([env.PKG + "/"], [])
    import gc

    gc.collect()
    gc.freeze()


def cleanup():
    if BASE and os.path.isdir(BASE) and BASE.startswith("/tmp/dst-"):
        shutil.rmtree(BASE, ignore_errors=True)


# ------------------------------------------------------------------ forking

TIMEOUT = 90.0


def forkrun(fn, arg, timeout=None, quiet=True):
    """fn(arg) in a forked child; returns its JSON-able result."""
    timeout = timeout or TIMEOUT
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            F._real.os_close(r)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            if quiet:
                d = F._real.os_open("/dev/null", os.O_RDWR)
                os.dup2(d, 1)
                if not os.environ.get("DST_DEBUG"):
                    os.dup2(d, 2)
            try:
                env.reseed(int.from_bytes(hashlib.blake2b(json.dumps(arg, sort_keys=True, default=str).encode(), digest_size=8).digest(), "big"))
                res = {"ok": fn(arg)}
            except S.Deadlock as e:
                res = {"deadlock": str(e)}
            except BaseException:
                res = {"err": traceback.format_exc()[-3000:]}
            data = json.dumps(res).encode()
            F.FSOBJ = None
            n = 0
            while n < len(data):
                n += F._real.os_write(w, data[n:n + 65536])
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    F._real.os_close(w)
    chunks = []
    end = time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise HarnessError("run exceeded %g s of wall time" % timeout)
            b = F._real.os_read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    finally:
        F._real.os_close(r)
    _, st = os.waitpid(pid, 0)
    if not chunks:
        raise HarnessError("child died: status %d" % st)
    res = json.loads(b"".join(chunks))
    if "err" in res:
        raise HarnessError("child failed:\n" + res["err"])
    if "deadlock" in res:
        return {"ops": {}, "stop": ["deadlock", res["deadlock"]], "switches": [], "steps": 0, "hash": "", "il": "", "fired": []}
    return res["ok"]


def forkmap(fn, args, n=8):
    """fn(arg) for every arg, each in its own forked child; the results (or None) in order."""
    pipes = []
    sys.stdout.flush()
    for i in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                for q, _ in pipes:
                    F._real.os_close(q)
                F._real.os_close(r)
                out = []
                for a in args[i::n]:
                    try:
                        out.append(forkrun(fn, a, 60))
                    except HarnessError as e:
                        if os.environ.get("DST_DEBUG"):
                            print(a, e, file=sys.stderr)
                        out.append(None)
                data = json.dumps(out).encode()
                k = 0
                while k < len(data):
                    k += F._real.os_write(w, data[k:k + 65536])
            finally:
                os._exit(0)
        F._real.os_close(w)
        pipes.append((r, pid))
    res = [None] * len(args)
    for i, (r, pid) in enumerate(pipes):
        buf = []
        while True:
            b = F._real.os_read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
        F._real.os_close(r)
        os.waitpid(pid, 0)
        try:
            for j, x in zip(range(i, len(args), n), json.loads(b"".join(buf))):
                res[j] = x
        except ValueError:
            pass
    return res


# ------------------------------------------------------------------ executing a specification


def make_policy(p, seed, nthreads):
    rng = random.Random(seed)
    k = p["k"]
    if k == "random":
        return S.RandomPolicy(rng, p["p"], p.get("sp"), p.get("hp"), p.get("hn", ()))
    if k == "pct":
        return S.PctPolicy(rng, nthreads, p["d"], p["h"])
    if k == "replay":
        return S.ReplayPolicy(p["sw"])
    return S.SerialPolicy()


def new_fs(spec):
    f = spec.get("fs") or {}
    d = os.path.join(BASE, "r%d" % F._real.getpid())
    fs = F.activate(d)
    fs.root = env.REPO
    fs.armed = False
    n = f.get("npz", "ok")
    if n == "ok":
        fs.put(env.NPZ, env.npz_bytes())
    elif n == "absent":
        fs.whiteouts.add(env.NPZ)
    else:
        b = bytearray(env.npz_bytes())
        for off, x in n.get("flip", ()):
            b[off % len(b)] ^= x
        if "zero" in n:
            a, k = n["zero"]
            b[a:a + k] = bytes(len(b[a:a + k]))
        if "trunc" in n:
            b = b[: n["trunc"] % len(b)]
        fs.put(env.NPZ, bytes(b))
    fs.plan = {int(k): v for k, v in (f.get("plan") or {}).items()}
    fs.sticky = f.get("sticky")
    return fs, d


def in_main(spec):
    """Whether the first thread is the main thread of the process (where signals can be handled)."""
    return bool(spec.get("main", spec.get("pseed", 0) & 8 == 0))


def execute(spec):
    """Run one thread-simulation specification (in a forked child)."""
    ops.capture(root=not spec.get("noroot"))
    fs, d = new_fs(spec)
    try:
        own0, sh0 = None, None
        app = spec.get("app") or {}
        settings.apply(app)
        settings.apply_own(app)
        if spec.get("settings"):
            own0, sh0 = settings.own_snapshot(), settings.shared_snapshot()
        ctx = ops.Ctx(spec["world"])
        nth = len(spec["threads"])
        pol = make_policy(spec["policy"], spec.get("pseed", 0), nth)
        faults = {(a, b): k for a, b, k in spec.get("faults", ())}
        sc = S.Scheduler(pol, CODESET, spec.get("gran", "line"), faults=faults,
                         replaying=spec["policy"]["k"] == "replay",
                         max_steps=spec.get("max_steps", 400000), op_limit=spec.get("op_limit", 150000))
        sc.daemons = spec.get("daemon", ())
        recs = {}
        log = []
        if spec.get("trace"):
            sc.trace = []
            sc.names = frozenset(hot_names())
        watch = spec.get("watch")
        if watch:
            sc.guide = make_guide(watch, ctx, spec, sc)
        hooks = spec.get("hooks")
        if hooks:
            ops.HOOK = make_hook(hooks, ctx, sc, recs)
        if spec.get("ints"):
            sc.ints = {(i["op"], i["at"]): i["do"] for i in spec["ints"]}

            def on_int(t, do):
                recs[do["id"]] = ops.perform(do, ctx, sc, t)

            sc.on_int = on_int

        def body(thread_ops, tid):
            def run(t):
                settings.apply_own(app)
                for op in thread_ops:
                    if op["k"] == "arm":
                        fs.armed = op["on"]
                        continue
                    if op["k"] == "heal":
                        fs.plan, fs.sticky = {}, None
                        if op.get("npz"):
                            fs.put(env.NPZ, env.npz_bytes())
                        continue
                    if op["k"] == "join":
                        while any(x.state != "done" for x in sc.threads[:sc.nmain] if x is not t):
                            sc.sleep(1.0)
                        continue
                    if op["k"] == "fork":
                        if op.get("when"):
                            sc.dates[tuple(op["when"])] = t.tid
                            sc.await_date(t)
                        recs[op["id"]] = {"out": {}, "diag": [], "child": forked(op, ctx, sc, t)}
                        continue
                    if op["k"] == "atexit":
                        env.ATEXIT.append(("app", op["do"], None))
                        continue
                    if op["k"] == "exit":
                        recs[op["id"]] = rec = {"out": {}, "diag": []}
                        ending(op, ctx, sc, t, recs, rec, spec)
                        return
                    mine = settings.own_snapshot() if spec.get("settings") else None
                    log.append(["s", op["id"]])
                    try:
                        recs[op["id"]] = rec = ops.perform(op, ctx, sc, t)
                    except S.SimStop:
                        recs[op["id"]] = {"out": {}, "diag": [], "stopped": True}
                        raise
                    finally:
                        log.append(["e", op["id"]])
                    if mine is not None:
                        dd = settings.diff(mine, settings.own_snapshot())
                        if dd:
                            rec["own"] = dd
                    if op["k"] in ("observe", "settings") and sc.nmain > 1:
                        sc.step_aside(t)
            return run

        sc.install()
        try:
            if fs.plan or fs.sticky:
                fs.armed = True
            stop = sc.run([body(x, i) for i, x in enumerate(spec["threads"])], main=in_main(spec))
        finally:
            sc.uninstall()
            fs.armed = False
        res = {
            "ops": {str(k): v for k, v in recs.items()}, "stop": stop, "switches": sc.switches, "steps": sc.steps,
            "inted": sc.inted, "nsw": sc.nswitch, "hash": sc.hash.hexdigest(), "il": sc.ilhash.hexdigest(), "fired": sc.fired,
            "guided": sc.guided, "waits": sc.lock_waits, "sleeps": sc.sleeps, "now": sc.now, "sites": len(sc.sites),
            "fsn": fs.n, "fsc": fs.counts, "fsh": fs.hit, "log": log,
        }
        if spec.get("trace"):
            res["trace"] = [e for e, s, _ in sc.trace if s]
            res["hot"] = [e for e, _, h in sc.trace if h]
            res["n"] = sc.steps
        if stop and stop[0] == "harness":
            raise HarnessError("thread body failed: %s" % (stop,))
        # inputs after the run
        res["final"] = {
            "scn": [norm.given(x) for x in ctx.scn],
            "arr": [norm.given(a) for a in ctx.arr],
        }
        if own0 is not None:
            dd = settings.diff(own0, settings.own_snapshot())
            ds = settings.diff(sh0, settings.shared_snapshot())
            res["set"] = [x for x in (dd, ds) if x]
            res["set0"] = json.loads(json.dumps(sh0))
        return res
    finally:
        F.FSOBJ = None
        shutil.rmtree(d, ignore_errors=True)


def forked(op, ctx, sc, t):
    """A child process, forked while the other threads are wherever they are, performs calls."""
    busy = [[x.tid, x.opid, x.evt] for x in sc.threads if x is not t and x.active and x.state != "done"]
    sc.hash.update(repr(("fork", t.tid, op["id"], busy)).encode())
    r, w = os.pipe()
    pid = env.fork()
    if pid == 0:
        try:
            F._real.os_close(r)
            try:
                sc.uninstall()
                ops.HOOK = None
                sc2 = S.Scheduler(S.SerialPolicy(), sc.codeset, "line", op_limit=sc.op_limit)
                sc2.who0 = 1000
                recs = {}

                def body(t2):
                    for do in op["do"]:
                        try:
                            recs[str(do["id"])] = ops.perform(do, ctx, sc2, t2)
                        except S.SimStop:
                            recs[str(do["id"])] = {"out": {}, "diag": [], "stopped": True}
                            raise

                end = {}

                def whole(t2):
                    body(t2)
                    if op.get("ends"):
                        # the child does not leave by os._exit: what the library registered for the end runs
                        ending({"id": op["id"], "do": []}, ctx, sc2, t2, recs, end, {})

                sc2.install()
                stop = sc2.run([whole], main=True, who=t.who)
                res = {"ops": recs, "stop": stop, "steps": sc2.steps}
                res.update(end)
            except BaseException:
                res = {"err": traceback.format_exc()[-3000:]}
            data = json.dumps(res).encode()
            n = 0
            while n < len(data):
                n += F._real.os_write(w, data[n:n + 65536])
        finally:
            os._exit(0)
    F._real.os_close(w)
    buf = []
    end = time_left(60.0)
    try:
        while True:
            left = end()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                break
            b = F._real.os_read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
    finally:
        F._real.os_close(r)
        os.waitpid(pid, 0)
    try:
        res = json.loads(b"".join(buf))
    except ValueError:
        raise HarnessError("the forked child did not answer")
    if "err" in res:
        raise HarnessError("forked child failed:\n" + res["err"])
    res["busy"] = busy
    return res


def ending(op, ctx, sc, t, recs, rec, spec):
    """The main thread has finished and the process ends, in the interpreter's own order."""
    import io
    import threading

    if op.get("when"):
        sc.dates[tuple(op["when"])] = t.tid
        sc.await_date(t)
    end = rec["end"] = {"errors": [], "held": [], "slow": 0.0, "handlers": 0,
                        "busy": [[x.tid, x.opid, x.evt] for x in sc.threads if x is not t and x.active and x.state != "done"]}
    sc.hash.update(repr(("exit", end["busy"])).encode())
    text = io.StringIO()
    std = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = text

    def library(f, *a, **k):
        sc.begin_op(t, op["id"])
        end["handlers"] += 1
        try:
            f(*a, **k)
        except S.SimStop:
            raise
        except BaseException as e:
            end["errors"].append(norm.exc(e))
        finally:
            sc.end_op(t)

    def application(do):
        for o in do:
            try:
                recs[o["id"]] = ops.perform(o, ctx, sc, t)
            except S.SimStop:
                recs[o["id"]] = {"out": {}, "diag": [], "stopped": True}
                raise

    def waited(x):
        return x is not t and x.state != "done" and (x.waited if x.tid >= sc.nmain else x.tid not in spec.get("daemon", ()))

    try:
        for f in reversed(list(threading._threading_atexits)):
            library(f)
        for x in list(sc.threads):
            t0 = sc.now
            n = 0
            while waited(x) and n < 400:
                sc.sleep(0.25)
                n += 1
            if waited(x):
                end["held"].append([x.tid, x.opid])
            elif x.tid >= sc.nmain:
                end["slow"] = max(end["slow"], sc.now - t0)
        for f, a, k in list(reversed(env.ATEXIT)):
            if f == "app":
                application(a)
            else:
                library(f, *a, **k)
        application(op["do"])
    finally:
        sys.stdout, sys.stderr = std
        end["text"] = text.getvalue()[:2000]
    sc.halt(("end",))


def time_left(s):
    """Wall time, whatever the simulated clock says."""
    t0 = time.clock_gettime(time.CLOCK_MONOTONIC)
    return lambda: s - (time.clock_gettime(time.CLOCK_MONOTONIC) - t0)


def make_guide(watch, ctx, spec, sc):
    """Notices (without judging) that something watched looks different right now, and
    hands the processor to the observer thread so that it can look for itself."""
    obs = watch["tid"]
    budget = [watch.get("max", 6)]
    if watch["what"] == "inputs":
        import numpy as np

        def look(x):
            return np.array(x).tobytes(), x.flags.num if isinstance(x, np.ndarray) else None

        s0 = [dict(ctx.scn[i].items()) for i in watch["ss"]]
        a0 = [look(ctx.arr[i]) for i in watch["aa"]]

        def guide(t):
            if budget[0] <= 0 or t.tid == obs:
                return None
            try:
                for i, d in zip(watch["ss"], s0):
                    if dict(ctx.scn[i].items()) != d:
                        budget[0] -= 1
                        return obs
                for i, b in zip(watch["aa"], a0):
                    if look(ctx.arr[i]) != b:
                        budget[0] -= 1
                        return obs
            except Exception:
                budget[0] -= 1
                return obs
            return None
    else:
        c0 = settings.cheap()

        def guide(t):
            if budget[0] <= 0 or t.tid == obs:
                return None
            if settings.cheap() != c0:
                budget[0] -= 1
                return obs
            return None
    return guide


def make_hook(hooks, ctx, sc, recs):
    """Warning/log hooks that call back into the library or raise.

    hooks: list of {"op": outer id, "at": n-th report, "do": inner op or {"raise": kind}}"""
    count = {}
    depth = {}

    def hook(kind, cat, msg):
        t = sc.me()
        if t is None:
            return
        cur = t.opid
        n = count[cur] = count.get(cur, 0) + 1
        for h in hooks:
            if h["op"] == cur and h["at"] == n and depth.get(t.tid, 0) < 2:
                do = h["do"]
                if "raise" in do:
                    recs.setdefault("hookfired", []).append([cur, n, do["raise"]])
                    raise HOOK_ERRORS[do["raise"]]("hook")
                depth[t.tid] = depth.get(t.tid, 0) + 1
                saved = (t.opid, t.evt, t.active)
                recs.setdefault("hookfired", []).append([cur, n, do["id"]])
                try:
                    recs[do["id"]] = ops.perform(do, ctx, sc, t)
                finally:
                    t.opid, t.evt, t.active = saved
                    depth[t.tid] -= 1
    return hook


# ------------------------------------------------------------------ references


class Engine:
    def __init__(self):
        self.memo = {}
        self.nref = 0
        self.runs = 0

    def run(self, spec, timeout=None):
        self.runs += 1
        return forkrun(execute, spec, timeout)

    def ref(self, op, world):
        """Record of the call performed alone in a pristine process."""
        w, o = ops.isolate(op, world)
        k = ops.key(w, o)
        r = self.memo.get(k)
        if r is None:
            self.nref += 1
            o = dict(o, id=1)
            spec = {"world": w, "threads": [[o]], "policy": {"k": "serial"}, "trace": True}
            res = forkrun(execute, spec)
            if res["stop"]:
                r = {"out": None, "diag": [], "n": res.get("n", 0), "stop": res["stop"], "stores": []}
            else:
                r = res["ops"]["1"]
                r["n"] = res["n"]
                r["stores"] = res["trace"]
                r["hot"] = res["hot"]
            if len(self.memo) > 60000:
                self.memo.clear()
            self.memo[k] = r
        return r

    def ref_instr(self, op, world):
        w, o = ops.isolate(op, world)
        k = "I" + ops.key(w, o)
        r = self.memo.get(k)
        if r is None:
            self.nref += 1
            spec = {"world": w, "threads": [[dict(o, id=1)]], "policy": {"k": "serial"}, "trace": True, "gran": "instr"}
            res = forkrun(execute, spec)
            r = {"n": res.get("n", 0), "stores": res.get("trace", []), "hot": res.get("hot", [])}
            self.memo[k] = r
        return r


def hot_names():
    return sorted({p.split(".")[-1] for h in gen.HOT for p in h["places"]})


def place(rng, eng, op, world, gran="line"):
    """An abort position inside a call: often right after it wrote something."""
    r = eng.ref(op, world) if gran == "line" else eng.ref_instr(op, world)
    n = max(1, r["n"])
    if gran == "line" and op.get("at") and rng.random() < 0.6:
        # where the survey saw something changed for the time being
        return min(n, rng.choice(op["at"]) + rng.choice([0, 0, 0, 1]))
    if r.get("hot") and rng.random() < 0.5:
        # at or just after a line that mentions what the survey saw being written
        return min(n, rng.choice(r["hot"]))
    if r["stores"] and rng.random() < 0.6:
        return min(n, rng.choice(r["stores"]))
    if rng.random() < 0.15:
        return rng.randint(max(1, n - 6), n)
    return rng.randint(1, n)


# ------------------------------------------------------------------ judging

ABORTS = ("KeyboardInterrupt", "MemoryError", "SystemExit", "TimeoutError", "RecursionError")


HOOK_ERRORS = {"Warning": UserWarning, "RuntimeError": RuntimeError, "ValueError": ValueError, "kbd": KeyboardInterrupt,
               "KeyError": KeyError, "TypeError": TypeError, "AttributeError": AttributeError, "IndexError": IndexError, "OSError": OSError,
               "ImportError": ImportError, "sysexit": SystemExit, "ArithmeticError": FloatingPointError, "NotImplementedError": NotImplementedError}


def hook_error(rng):
    return rng.choice(["Warning", "Warning", "ValueError", "kbd", "RuntimeError"]) if rng.random() < 0.6 else rng.choice(sorted(HOOK_ERRORS))


def abort_kind(rng):
    return rng.choice(["kbd", "kbd", "kbd", "mem", "mem", "alarm", "rec", "sysexit"])



def is_injected(p):
    return isinstance(p, list) and p and p[0] == "exc" and p[1] in ABORTS and p[2] == "injected"


def all_ops(spec):
    for th in spec.get("threads", ()):
        for op in th:
            if op["k"] in ("atexit", "exit"):
                yield from op["do"]
            elif op["k"] not in ("arm", "heal", "join", "fork"):
                yield op
    for h in list(spec.get("hooks") or ()) + list(spec.get("ints") or ()):
        if "k" in h["do"]:
            yield h["do"]


def describe(op, spec):
    k = op["k"]
    if k == "build":
        return "%s(scenario %d)" % (op["cls"], op["s"])
    if k == "read":
        return "read of prebuilt %s" % spec["world"]["mdl"][op["m"]]["cls"]
    if k == "fn":
        return op["fn"]
    if k == "misc":
        return {"repr": "text of scenario %s", "param": "check of a parameter of %s", "load": "load_data_file(%s)", "tables": "tables of %s",
                "scnops": "use of scenario %s"}[op["what"]] % (op.get("cls") or op.get("name") or op.get("s"))
    if k == "again":
        return "%s(scenario kept by prebuilt %s)" % (op["cls"], spec["world"]["mdl"][op["m"]]["cls"])
    if k == "clone":
        return "copy (%s) of %s" % (op["how"], "prebuilt " + spec["world"]["mdl"][op["m"]]["cls"] if "m" in op else "scenario %d" % op["s"])
    return k


def part_name(op, p):
    if op["k"] in ("build", "read", "clone", "again") and p[0] in "rq" and p[1:].isdigit():
        r = op["reads"][int(p[1:])]
        return (r if isinstance(r, str) else r[0] + "()") + (" after in-place change" if p[0] == "q" else "")
    return p


def expected_records(op, spec, eng):
    alts = op.get("alts")
    if not alts:
        return [eng.ref(op, spec["world"])]
    return [eng.ref(op, patched(spec["world"], a)) for a in alts]


def patched(world, a):
    """The world with some scenarios or arrays replaced."""
    w = dict(world)
    for part in ("scn", "arr"):
        if part in a:
            w[part] = list(w[part])
            for i, x in a[part].items():
                w[part][int(i)] = x
    return w


def compare(op, rec, ref, fired, spec):
    """First difference between a record and its reference, or None."""
    out = rec["out"]
    if ref["out"] is None:
        return None  # the call cannot finish even alone; judged elsewhere
    surfaced = any(is_injected(x) for x in out.values())
    exp = dict(ref["out"])
    for p in list(exp):
        if p[0] == "r" and p[1:].isdigit():
            exp.setdefault("q" + p[1:], exp[p])
    if "fn" in exp:
        exp.setdefault("q", exp["fn"])
    for p, v in out.items():
        if p == "_abort":
            continue
        if fired and isinstance(v, list) and v and v[0] == "exc" and (
                fired == "io" or surfaced or not (p[0] in "rq" and p[1:].isdigit())):
            continue  # an aborted call may raise (but a model it returned must be whole)
        if p not in exp:
            return "%s of %s: unexpected outcome %s" % (part_name(op, p), describe(op, spec), norm.short(v))
        d = norm.diff(v, exp[p])
        if d:
            return "%s of %s: %s" % (part_name(op, p), describe(op, spec), d)
    if not fired and not rec.get("stopped") and not rec.get("oplimit"):
        for p in ref["out"]:
            if p not in out and p != "_abort":
                return "%s of %s: no outcome, expected %s" % (part_name(op, p), describe(op, spec), norm.short(ref["out"][p]))
    return None


def judge_outcomes(spec, res, eng, only=None):
    v = []
    tracked = gen.tracked(spec) if spec.get("track") else {}
    fired = {f[2] for f in res["fired"]}
    soft = {x[0] for x in res["ops"].get("hookfired", []) if isinstance(x[2], str)} | set(res.get("fsh", ()))
    for op in all_ops(spec):
        rec = res["ops"].get(str(op["id"]))
        if rec is None or op["k"] in ("mutate", "mutarr", "settings", "bulk") or (only and op["k"] not in only):
            continue
        if op["k"] == "observe":
            for p, x in rec["out"].items():
                i = int(p[1:])
                e = initial(spec, p[0], i)
                d = norm.diff0(x, e)
                if d:
                    v.append({"sig": "input-seen", "op": op["id"],
                              "msg": "another thread saw %s %d changed: %s" % ("scenario" if p[0] == "s" else "array", i, d)})
            continue
        if rec.get("oplimit"):
            continue
        best = None
        refs = [eng.ref(op, patched(spec["world"], tracked[op["id"]]))] if op["id"] in tracked else expected_records(op, spec, eng)
        for ref in refs:
            d = compare(op, rec, ref, "io" if op["id"] in soft else op["id"] in fired, spec)
            if d is None:
                best = None
                break
            best = best or d
        if best:
            v.append({"sig": "outcome", "op": op["id"], "msg": best})
    return v


_init_memo = {}


def initial(spec, kind, i):
    """Plain-data form of an input as the caller made it."""
    w = spec["world"]
    k = kind + json.dumps(w["scn"][i] if kind == "s" else w["arr"][i], sort_keys=True)
    r = _init_memo.get(k)
    if r is None:
        if kind == "s":
            r = norm.given(ops.make_scenario(w["scn"][i]))
        else:
            r = norm.given(ops.make_array(w["arr"][i]))
        r = json.loads(json.dumps(r))
        if len(_init_memo) > 20000:
            _init_memo.clear()
        _init_memo[k] = r
    return r


def judge_inputs_after(spec, res):
    v = []
    for op in all_ops(spec):
        rec = (res.get("ops") or {}).get(str(op["id"]))
        if rec and rec["out"].get("unchanged") is False:
            v.append({"sig": "input-after", "op": op["id"], "msg": "%s changed that scenario" % describe(op, spec)})
    mut_s = {op["s"] for op in all_ops(spec) if op["k"] == "mutate"}
    mut_a = {op["a"]["a"] if isinstance(op["a"], dict) else op["a"] for op in all_ops(spec) if op["k"] == "mutarr"}
    f = res.get("final")
    if not f:
        return v
    for i, x in enumerate(f["scn"]):
        if i in mut_s:
            continue
        d = norm.diff0(x, initial(spec, "s", i))
        if d:
            v.append({"sig": "input-after", "op": -1, "msg": "scenario %d changed: %s" % (i, d)})
    for i, x in enumerate(f["arr"]):
        if i in mut_a:
            continue
        d = norm.diff0(x, initial(spec, "a", i))
        if d:
            v.append({"sig": "input-after", "op": -1, "msg": "array %d changed: %s" % (i, d)})
    return v


def judge_diag(spec, res, eng):
    """Warnings and log messages of each call against those of the call alone."""
    v = []
    fired = {f[2] for f in res["fired"]} | set(res.get("fsh", ()))
    hookraised = {x[0] for x in res["ops"].get("hookfired", []) if isinstance(x[2], str)}
    for op in all_ops(spec):
        rec = res["ops"].get(str(op["id"]))
        if rec is None or op["k"] in ("mutate", "mutarr", "settings", "observe", "bulk") or rec.get("oplimit") or rec.get("stopped"):
            continue
        ref = eng.ref(op, spec["world"])
        if ref["out"] is None:
            continue
        got, exp = rec["diag"], ref["diag"]
        if spec.get("faults") or spec.get("fs") or spec.get("hooks"):
            # an abort between opening a file and entering its *with* leaves it to be closed by the collector
            got = [x for x in got if x[1] != "ResourceWarning" or x in exp]
        if op["id"] in fired or op["id"] in hookraised:
            if "_abort" in rec["out"] or op["id"] in hookraised or any(isinstance(x, list) and x and x[0] == "exc" for x in rec["out"].values()):
                # what was reported before the abort must be a prefix of the full report
                ok = got == exp[: len(got)]
                if ok:
                    continue
            elif got == exp:
                continue
        elif got == exp:
            continue
        lost = [x for x in exp if exp.count(x) > got.count(x)]
        extra = [x for x in got if got.count(x) > exp.count(x)]
        what = "lost %s" % (lost[0],) if lost else "unexpected %s" % (extra[0],) if extra else "order changed"
        v.append({"sig": "diag", "op": op["id"], "msg": "reports of %s: %s (%d, expected %d)" % (describe(op, spec), what, len(got), len(exp))})
    return v


def judge_deadlock(spec, res):
    """A call that can never return has no outcome (bounds on steps are C13's)."""
    stop = res["stop"]
    if stop and stop[0] == "deadlock":
        return [{"sig": "deadlock", "op": -1, "msg": "calls can never return: %s" % (stop[1:],)}]
    return []


def judge_progress(spec, res, eng):
    v = []
    stop = res["stop"]
    if stop and stop[0] in ("deadlock", "steps"):
        v.append({"sig": "deadlock" if stop[0] == "deadlock" else "no-progress", "op": -1,
                  "msg": "%s: %s" % (stop[0], stop[1:])})
    healed = {}
    for i, th in enumerate(spec["threads"]):
        h = False
        for op in th:
            h = h or op["k"] == "heal"
            healed[op["id"]] = h
    for op in all_ops(spec):
        rec = res["ops"].get(str(op["id"]))
        if rec and rec.get("oplimit"):
            v.append({"sig": "no-progress", "op": op["id"], "msg": "%s did not finish within its step bound" % describe(op, spec)})
        elif rec and not rec.get("stopped") and op["k"] in ("build", "fn", "read", "copy_with", "clone", "again", "misc") and healed.get(op["id"]) and not stop:
            # it finished: with a proper outcome, not with a timeout or "busy" error
            ref = eng.ref(op, spec["world"])
            if ref["out"] is None:
                continue
            for p, x in rec["out"].items():
                if p != "_abort" and isinstance(x, list) and x and x[0] == "exc" and not (
                        isinstance(ref["out"].get(p), list) and ref["out"][p][0] == "exc") and "_abort" not in rec["out"] \
                        and op["id"] not in set(res.get("fsh", ())):
                    v.append({"sig": "refused", "op": op["id"], "msg": "%s of %s failed after faults stopped: %s" % (
                        part_name(op, p), describe(op, spec), norm.short(x))})
                    break
    return v


def judge_hook_raises(spec, res):
    """An error raised by the application's hook comes out of the outer call."""
    v = []
    exp = {k: x.__name__ for k, x in HOOK_ERRORS.items()}
    for oid, n, what in res["ops"].get("hookfired", []):
        if not isinstance(what, str):
            continue
        rec = res["ops"].get(str(oid))
        if rec is None or rec.get("stopped"):
            continue
        if not any(isinstance(x, list) and x[:1] == ["exc"] and x[1] == exp[what] and x[2] in ("hook", "'hook'")
                   for p, x in rec["out"].items() if p != "_abort"):
            v.append({"sig": "hook-raise", "op": oid, "msg": "an error (%s) raised by the application's hook during call %s was lost: %s" % (
                exp[what], oid, norm.short(rec["out"]))})
    return v


# ------------------------------------------------------------------ minimisation


def shrink(prop, spec, eng, sig, budget_s=45.0, max_runs=400):
    """Smallest specification found that still violates with the same signature."""
    t0 = time.monotonic()
    runs = [0]

    def bad(s):
        if runs[0] >= max_runs or time.monotonic() - t0 > budget_s:
            return False
        runs[0] += 1
        try:
            r = prop.run(s, eng)
            return any(x["sig"] == sig for x in prop.judge(s, r, eng))
        except HarnessError:
            return False

    cur = spec
    # 1. turn the seeded schedule into an explicit one
    if "threads" in cur and cur["policy"]["k"] != "replay":
        r = prop.run(cur, eng)
        c = dict(cur, policy={"k": "replay", "sw": r["switches"]})
        if bad(c):
            cur = c
    for _ in range(3):
        before = json.dumps(cur, sort_keys=True)
        cur = prop.shrink_steps(cur, bad)
        if json.dumps(cur, sort_keys=True) == before:
            break
    return cur, runs[0]


def ddmin(items, test):
    """Greedy delta-debugging of a list; test(list) -> still failing."""
    n = 2
    items = list(items)
    if items and test([]):
        return []
    while len(items) >= 2:
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items):
            cand = items[:i] + items[i + size:]
            if cand != items and test(cand):
                items = cand
                reduced = True
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
        else:
            n = max(2, n - 1)
    return items


def shrink_threads(cur, bad):
    """Generic reductions of a thread specification."""
    # threads
    for i in reversed(range(len(cur["threads"]))):
        if cur["threads"][i]:
            c = dict(cur, threads=[[] if j == i else t for j, t in enumerate(cur["threads"])])
            if bad(c):
                cur = c
    # calls
    for i in range(len(cur["threads"])):
        def test(lst, i=i):
            return bad(dict(cur, threads=[lst if j == i else t for j, t in enumerate(cur["threads"])]))
        lst = ddmin(cur["threads"][i], test)
        cur = dict(cur, threads=[lst if j == i else t for j, t in enumerate(cur["threads"])])
    if cur.get("faults"):
        cur = dict(cur, faults=ddmin(cur["faults"], lambda l: bad(dict(cur, faults=l))))
    if cur.get("hooks"):
        cur = dict(cur, hooks=ddmin(cur["hooks"], lambda l: bad(dict(cur, hooks=l))))
    if cur.get("ints"):
        cur = dict(cur, ints=ddmin(cur["ints"], lambda l: bad(dict(cur, ints=l))))
    for i, th in enumerate(cur["threads"]):
        for j, op in enumerate(th):
            if op["k"] in ("fork", "atexit", "exit") and op["do"]:
                def put(lst, i=i, j=j):
                    return dict(cur, threads=[[dict(o, do=lst) if (a, b) == (i, j) else o for b, o in enumerate(x)]
                                              for a, x in enumerate(cur["threads"])])
                cur = put(ddmin(op["do"], lambda l: bad(put(l))))
    f = cur.get("fs") or {}
    if f.get("plan"):
        its = ddmin(sorted(f["plan"].items()), lambda l: bad(dict(cur, fs=dict(f, plan=dict(l)))))
        cur = dict(cur, fs=dict(f, plan=dict(its)))
    if cur["policy"]["k"] == "replay":
        sw = ddmin(cur["policy"]["sw"], lambda l: bad(dict(cur, policy={"k": "replay", "sw": l})))
        cur = dict(cur, policy={"k": "replay", "sw": sw})
    # reads
    for i, th in enumerate(cur["threads"]):
        for j, op in enumerate(th):
            if op.get("reads") and len(op["reads"]) > 1:
                def test(lst, i=i, j=j):
                    t2 = [[dict(o, reads=lst) if (a, b) == (i, j) else o for b, o in enumerate(x)] for a, x in enumerate(cur["threads"])]
                    return bad(dict(cur, threads=t2))
                lst = ddmin(op["reads"], test)
                cur = dict(cur, threads=[[dict(o, reads=lst) if (a, b) == (i, j) else o for b, o in enumerate(x)]
                                         for a, x in enumerate(cur["threads"])])
    # prebuilt models nobody reads (keep numbering)
    used = {op["m"] for op in all_ops(cur) if "m" in op} | {o["m"] for th in cur["threads"] for op in th for o in op.get("do", ()) if "m" in o}
    m = (cur.get("world") or {}).get("mdl") or []
    if any(i not in used for i in range(len(m))):
        hi = max(used) + 1 if used else 0
        c = dict(cur, world=dict(cur["world"], mdl=m[:hi]))
        if len(c["world"]["mdl"]) < len(m) and bad(c):
            cur = c
    return cur


# ------------------------------------------------------------------ properties


class Prop:
    id = "?"
    runs = {"quick": 1600, "thorough": 60000}
    cap = {"quick": 75.0, "thorough": 820.0}
    zygote = True  # library imported before forking
    guided = True  # workloads dwell on calls that the survey saw leave something behind
    like = {}
    rule = ""
    real = "all of src/pygmm and its use of numpy/scipy/pandas run unmodified"
    stubs = "thread scheduling, locks, sleeps and clocks (simulated); file operations on the package directory (overlay)"
    assumptions = ()

    def start_worker(self):
        pass

    def stop_worker(self):
        pass

    def on_timeout(self, spec, msg):
        """A violation, if not finishing is one for this property."""
        return None

    def digest(self, spec, res):
        return "%s/%s" % (res.get("hash"), hashlib.blake2b(
            json.dumps([res.get("ops"), res.get("stop"), res.get("final")], sort_keys=True).encode(), digest_size=6).hexdigest())

    def explain(self, spec, res):
        """The schedule and fault trace in words."""
        out = []
        for s in res.get("switches") or []:
            out.append("thread %s, call %s, step %s: %s -> thread %s" % (
                s[0], s[1], s[2], {"e": "preempted", "b": "blocked", "x": "finished", "s": "start", "a": "yields"}.get(s[4], s[4]), s[3]))
        for f in res.get("fired") or []:
            out.append("fault %s in thread %s, call %s, step %s at %s:%s" % tuple(f))
        return out[:200]

    def gen(self, rng, eng, tier, index):
        raise NotImplementedError

    def run(self, spec, eng):
        return eng.run(spec)

    def judge(self, spec, res, eng):
        raise NotImplementedError

    def shrink_steps(self, spec, bad):
        return shrink_threads(spec, bad)

    def nontrivial(self, spec, res):
        """(is non-trivial, distinctness key)"""
        return res.get("nsw", 0) > 0 or bool(res.get("fired")), res["il"] + res["hash"]

    def stats(self, spec, res, acc):
        acc["steps"] = acc.get("steps", 0) + res.get("steps", 0)
        acc["switches"] = acc.get("switches", 0) + res.get("nsw", 0)
        acc["simulated_s"] = acc.get("simulated_s", 0.0) + res.get("now", 0.0)
        acc["lock_waits"] = acc.get("lock_waits", 0) + res.get("waits", 0)
        acc["guided_switches"] = acc.get("guided_switches", 0) + res.get("guided", 0)
        acc["calls"] = acc.get("calls", 0) + sum(1 for _ in all_ops(spec)) if "threads" in spec else acc.get("calls", 0)
        fk = acc.setdefault("faults", {})
        for f in res.get("fired", ()):
            fk[f[0]] = fk.get(f[0], 0) + 1
        for k, n in (res.get("fsc") or {}).items():
            fk[k] = fk.get(k, 0) + n
        cl = acc.setdefault("classes", {})
        if "threads" in spec:
            for op in all_ops(spec):
                c = op.get("cls") or op.get("fn") or op["k"]
                cl[c] = cl.get(c, 0) + 1

    def sample(self, spec, res):
        return {"spec": spec if len(json.dumps(spec)) < 3000 else json.dumps(spec)[:3000],
                "steps": res.get("steps"), "switches": (res.get("switches") or [])[:12],
                "fired": res.get("fired"), "hash": res.get("hash")}


def bump(acc, group, k, n=1):
    g = acc.setdefault(group, {})
    g[k] = g.get(k, 0) + n


def policy(rng, nthreads, est):
    """Swarm-style choice of a scheduling policy."""
    x = rng.random()
    if gen.HOT and x < 0.4:
        # around what the survey saw being written
        hn = hot_names()
        if hn:
            return {"k": "random", "p": rng.choice([0.001, 0.003, 0.01]), "hp": rng.choice([0.1, 0.3, 0.6]),
                    "hn": sorted(rng.sample(hn, min(8, len(hn))))}
        x = rng.random()
    if x < 0.25:
        return {"k": "pct", "d": rng.choice([1, 2, 3, 5]), "h": max(20, est)}
    if x < 0.55:
        return {"k": "random", "p": rng.choice([0.002, 0.01, 0.05]), "sp": rng.choice([0.05, 0.2, 0.5])}
    return {"k": "random", "p": rng.choice([0.003, 0.01, 0.03, 0.1, 0.3])}


def number(threads):
    """Give every call its id."""
    for i, th in enumerate(threads):
        for j, op in enumerate(th):
            op["id"] = (i + 1) * 1000 + j
    return threads


def seed_of(seed, pid, index):
    return int.from_bytes(hashlib.blake2b(("%s/%s/%s" % (seed, pid, index)).encode(), digest_size=8).digest(), "big")
