import array
import gc
import hashlib
import random
import sys
import threading
import weakref
import _thread

import numpy as np

from .. import engine as E
from .. import env
from .. import fs as F
from .. import gen
from .. import norm
from .. import ops
from .. import sched as S


# ------------------------------------------------------------------ what is watched


class Tracker:
    """Weak references to everything that went in or came out."""

    def __init__(self):
        self.refs = []

    def __call__(self, v, what, depth=0):
        if isinstance(v, (tuple, list)) and depth < 3:
            for x in v:
                self(x, what, depth + 1)
            return
        if isinstance(v, dict) or v is None or isinstance(v, (str, int, float, np.generic)):
            return
        try:
            self.refs.append((weakref.ref(v), "%s (%s)" % (type(v).__name__, what)))
        except TypeError:
            pass
        if isinstance(v, np.ndarray) and v.base is not None and depth < 3:
            self(v.base, what, depth + 1)

    def alive(self):
        out = []
        for r, w in self.refs:
            o = r()
            if o is not None:
                out.append([w, holder(o)])
            del o
        return out


def holder(o):
    """Who keeps o alive (type and, for containers of a module or class, the name)."""
    path = []
    cur = o
    skip = set()
    for _ in range(4):
        refs = [x for x in gc.get_referrers(cur) if id(x) not in skip and not isinstance(x, type(sys._getframe())) and x is not path]
        refs = [x for x in refs if type(x).__name__ not in ("list_iterator", "cell") or True]
        if not refs:
            break
        nxt = refs[0]
        skip.add(id(nxt))
        name = getattr(nxt, "__qualname__", None) or getattr(nxt, "__name__", "")
        path.append(type(nxt).__name__ + (" " + str(name) if name else ""))
        if isinstance(nxt, dict) and "__name__" in nxt and isinstance(nxt["__name__"], str):
            path[-1] = "module " + nxt["__name__"]
            break
        cur = nxt
    return " <- ".join(path[:4])


def descriptors():
    out = {}
    for n in F._real.listdir("/proc/self/fd"):
        try:
            out[n] = F._real.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    return {k: v for k, v in out.items() if not v.endswith("/fd")}


def libsize():
    """Bytes in containers reachable from the library's modules and classes."""
    seen = set()
    todo = [vars(m) for n, m in sorted(sys.modules.items()) if (n == "pygmm" or n.startswith("pygmm.")) and m is not None]
    tot = 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, (dict, list, set, frozenset, tuple)) or type(o).__name__ in ("deque", "OrderedDict", "WeakKeyDictionary"):
            try:
                tot += sys.getsizeof(o)
                todo.extend(o.values() if isinstance(o, dict) else o)
                if isinstance(o, dict):
                    todo.extend(k for k in o if isinstance(k, tuple))
            except (RuntimeError, TypeError):
                pass
        elif isinstance(o, type) and o.__module__.startswith("pygmm"):
            todo.append(dict(vars(o)))
        elif hasattr(o, "__dict__") and not isinstance(o, (type, type(sys))) and type(o).__module__.startswith("pygmm"):
            todo.append(o.__dict__)
        elif callable(o) and getattr(o, "__module__", None) and str(o.__module__).startswith("pygmm"):
            o = getattr(o, "__func__", o)
            todo.append([c.cell_contents for c in getattr(o, "__closure__", None) or () if _full(c)])
            todo.append(list(getattr(o, "__defaults__", None) or ()))
            d = getattr(o, "__dict__", None)
            if d:
                todo.append(dict(d))
    return tot


def _full(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


def measure():
    gc.collect()
    gc.collect()
    return sys.getallocatedblocks(), libsize()


# ------------------------------------------------------------------ executing


def perturb(world, k):
    """The same world with every number a little different, distinct for each k."""
    f = 1.0 + k * 1.7e-6

    def num(v):
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return v
        return v * f

    return {"scn": [dict(s, kw={a: num(b) for a, b in s["kw"].items()}) for s in world["scn"]],
            "arr": [dict(a, v=[num(x) for x in a["v"]]) for a in world["arr"]], "mdl": world["mdl"]}


def perturb_op(op, k):
    def p(x):
        if isinstance(x, float):
            return x * (1.0 + k * 1.7e-6)
        if isinstance(x, list):
            return [p(y) for y in x]
        return x

    if op["k"] == "fn":
        op = dict(op, args=p(op["args"]))
    elif op["k"] in ("copy_with", "new"):
        op = dict(op, kw={a: p(b) for a, b in op["kw"].items()})
    return op


def run_threads(spec, fs, tracker, deep):
    ctx = ops.Ctx(spec["world"])
    for x in ctx.scn:
        tracker(x, "scenario given")
    for x in ctx.arr:
        tracker(x, "array given")
    for x in ctx.mdl:
        if not isinstance(x, list):
            tracker(x, "model")
    recs = {}
    left = 0
    for n in range(spec.get("waves", 1) - 1):
        # the application starts other threads for the same work, again and again
        sc = S.Scheduler(S.SerialPolicy(), E.CODESET, "line", max_steps=400000, op_limit=150000)
        sc.on_thread = lambda th: tracker(th, "thread that has ended")
        sc.install()
        try:
            sc.run([(lambda t, th=th: [ops.perform(op, ctx, sc, t) for op in th] and None) for th in spec["threads"]])
        finally:
            sc.uninstall()
        left += sc.left
    sc = S.Scheduler(E.make_policy(spec["policy"], spec.get("pseed", 0), len(spec["threads"])), E.CODESET, spec.get("gran", "line"),
                     faults={(a, b): k for a, b, k in spec.get("faults", ())}, replaying=spec["policy"]["k"] == "replay",
                     max_steps=400000, op_limit=150000)
    sc.on_thread = lambda th: tracker(th, "thread that has ended")
    if spec.get("hooks"):
        ops.HOOK = E.make_hook(spec["hooks"], ctx, sc, recs)

    def body(th):
        def run(t):
            for op in th:
                recs[op["id"]] = ops.perform(op, ctx, sc, t)
        return run

    sc.install()
    try:
        fs.armed = bool(fs.plan or fs.sticky)
        stop = sc.run([body(th) for th in spec["threads"]], main=E.in_main(spec))
    finally:
        sc.uninstall()
        fs.armed = False
        ops.HOOK = None
    left += sc.left
    if stop and stop[0] == "harness":
        raise E.HarnessError("thread body failed: %s" % (stop,))
    return {"stop": stop, "switches": sc.switches, "steps": sc.steps, "nsw": sc.nswitch, "hash": sc.hash.hexdigest(), "il": sc.ilhash.hexdigest(),
            "fired": sc.fired, "fsc": fs.counts, "now": sc.now, "left": left, "ops": {str(k): v for k, v in recs.items() if isinstance(k, int)}}


def run_batches(spec, fs):
    box = {"steps": 0, "fired": [], "hash": hashlib.blake2b(digest_size=10)}

    def batch(k):
        world = perturb(spec["world"], k)
        ctx = ops.Ctx(world)
        sc = S.Scheduler(S.SerialPolicy(), E.CODESET, "line", faults={(a, b): c for a, b, c in spec.get("faults", ())},
                         max_steps=400000, op_limit=150000)

        def run(t):
            for op in spec["threads"][0]:
                ops.perform(perturb_op(op, k), ctx, sc, t)

        sc.install()
        try:
            stop = sc.run([run], main=True)
        finally:
            sc.uninstall()
        if stop and stop[0] == "harness":
            raise E.HarnessError("thread body failed: %s" % (stop,))
        box["left"] = box.get("left", 0) + sc.left
        box["steps"] += sc.steps
        if k == 1:  # the same in every batch
            box["fired"] = [list(f) for f in sc.fired]
        if k <= 60:  # how many more follow depends on allocation noise
            box["hash"].update(sc.hash.digest())

    # the interpreter and NumPy fill caches of their own during the first repetitions
    per = spec["batches"]
    blocks, libs = array.array("q", bytes(32)), array.array("q", bytes(32))
    k = 0
    for i in range(4):
        for _ in range(per if i else 2 * per):
            k += 1
            batch(k)
        gc.collect()
        blocks[i] = sys.getallocatedblocks()
        libs[i] = libsize()
        if i == 2 and blocks[2] - blocks[1] < per and libs[2] == libs[1]:
            break
    sizes = [list(x) for x in zip(blocks, libs)][:i + 1]
    sus = i == 3 and (min(blocks[3] - blocks[2], blocks[2] - blocks[1]) >= per or libs[3] > libs[2])
    confirmed = None
    if sus:
        for i, m in enumerate((250, 30, 30)):
            for _ in range(m):
                k += 1
                batch(k)
            gc.collect()
            blocks[i] = sys.getallocatedblocks()
            libs[i] = libsize()
        sus = min(blocks[2] - blocks[1], blocks[1] - blocks[0]) >= 30 or libs[2] > libs[1]
    if sus:
        # more of the same, until a cache of ordinary size would be full
        marks = []
        for i in range(6):
            for _ in range(spec["confirm"] // 6):
                k += 1
                batch(k)
            marks.append(measure())
        step = max(1, spec["confirm"] // 6)
        last = marks[-1][0] - marks[-3][0]
        prev = marks[-3][0] - marks[-5][0]
        lastb = marks[-1][1] - marks[-3][1]
        prevb = marks[-3][1] - marks[-5][1]
        if (last >= step and prev >= step and last >= 0.5 * prev) or (lastb >= 8 * step and prevb >= 4 * step):
            confirmed = "%d objects and %d bytes of library state more after %d further repetitions" % (last, lastb, 2 * step)
    return {"stop": None, "switches": [], "steps": box["steps"], "nsw": 0, "hash": box["hash"].hexdigest(), "il": "", "fired": box["fired"], "fsc": {},
            "now": 0.0, "left": box.get("left", 0), "ops": {}, "sizes": sizes, "suspicious": bool(sus), "grows": confirmed, "calls": (k + 1) * len(spec["threads"][0])}


def execute(spec):
    ops.capture()
    fs, d = E.new_fs(spec)
    try:
        if spec["mode"] == "batches":
            # first uses may load what stays for good
            run_warm(spec)
            gc.collect()
            fd0, th0, files0 = descriptors(), threads(), fs.listing()
            gc.freeze()
            res = run_batches(spec, fs)
            gc.unfreeze()
            tracker = None
        else:
            warm = spec.get("warm")
            if warm:
                run_warm(spec)
            gc.collect()
            fd0, th0, files0 = descriptors(), threads(), fs.listing()
            tracker = Tracker()
            ops.TRACK = tracker
            res = run_threads(spec, fs, tracker, False)
            ops.TRACK = None
        gc.collect()
        gc.collect()
        res["alive"] = tracker.alive()[:5] if tracker else []
        res["tracked"] = len(tracker.refs) if tracker else 0
        for _ in range(200):
            th1 = threads()
            if th1 <= th0:
                break
            E.time.sleep(0.01)
        res["threads"] = [th0, th1]
        fd1 = descriptors()
        res["fds"] = sorted(v for k, v in fd1.items() if fd0.get(k) != v)
        res["files"] = sorted(p for p in fs.listing() if p not in files0)
        try:
            res["children"] = list(E.os.waitpid(-1, E.os.WNOHANG))
        except ChildProcessError:
            res["children"] = None
        return res
    finally:
        F.FSOBJ = None
        E.shutil.rmtree(d, ignore_errors=True)


def threads():
    return len([x for x in F._real.listdir("/proc/self/task")])


def run_warm(spec):
    ctx = ops.Ctx(perturb(spec["world"], -3))
    for op in spec["threads"][0][:6]:
        ops.perform(perturb_op(op, -3), ctx)


class C14(E.Prop):
    id = "C14"
    runs = {"quick": 600, "thorough": 40000}
    rule = ("Four fifths of the runs perform calls in 1-3 simulated threads, some aborted at drawn points, failing, with raising hooks or with disk faults during first use of the "
            "on-demand model, then drop everything: every scenario, array, model and result seen (weak references) must be reclaimed, and open descriptors, threads, files "
            "and child processes must be as before. The others repeat a batch of calls 120-150 times with slightly different inputs and aborts; if allocated blocks or the library's "
            "containers keep growing, the batch is repeated another 1800 times, and steady growth to the end is a violation. Non-trivial: a fault fired, or calls were repeated; distinct by execution hash and calls.")

    def gen(self, rng, eng, tier, index):
        mode = "batches" if rng.random() < 0.2 else "objects"
        classes = None
        hkr = mode == "objects" and rng.random() < 0.12
        if hkr:
            classes = ["HKR14"]
        elif rng.random() < 0.25:
            classes = [rng.choice(gen.REPORTING)]
        w, classes, fams, fg = gen.setup(rng, classes=classes, prebuilt=0.3)
        for c in classes:
            if rng.random() < 0.5:
                fams[c].append(w.add_scn(gen.questionable(rng, w.scn[rng.choice(fams[c])]["kw"], c)))
        nth = 1 if mode == "batches" else rng.choice([1, 1, 2, 3])
        threads = [[gen.mixed_op(w, classes, fams, fg) for _ in range(rng.choice([2, 4, 6]) if nth == 1 else rng.choice([1, 2, 3]))]
                   for _ in range(nth)]
        world = w.data()
        E.number(threads)
        gran = "instr" if mode == "objects" and rng.random() < 0.2 else "line"
        faults = []
        for th in threads:
            for op in th:
                if rng.random() < 0.35:
                    faults.append([op["id"], E.place(rng, eng, op, world, gran), E.abort_kind(rng)])
        spec = {"mode": mode, "world": world, "threads": threads, "gran": gran, "faults": faults, "pseed": rng.getrandbits(48)}
        if mode == "batches":
            spec.update(batches=30, confirm=1500, policy={"k": "serial"})
            return spec
        if rng.random() < 0.15:
            hooks = [{"op": op["id"], "at": 1, "do": {"raise": E.hook_error(rng)}}
                     for th in threads for op in th if op["k"] in ("build", "fn") and eng.ref(op, world)["diag"]]
            if hooks:
                spec["hooks"] = hooks
        if hkr and rng.random() < 0.7:
            spec["fs"] = {"npz": "ok", "plan": {str(rng.randint(1, 22)): rng.choice(["EIO", "EMFILE", "EACCES", "short", "kbd", "mem"])
                                                for _ in range(rng.choice([1, 1, 2]))}}
        else:
            spec["warm"] = not hkr and rng.random() < 0.5
        if rng.random() < 0.2:
            spec["waves"] = rng.choice([2, 3, 6])
        est = sum(eng.ref(op, world)["n"] for th in threads for op in th) * (9 if gran == "instr" else 1)
        spec["policy"] = E.policy(rng, nth, est) if nth > 1 else {"k": "serial"}
        return spec

    def run(self, spec, eng):
        eng.runs += 1
        return E.forkrun(execute, spec)

    def nontrivial(self, spec, res):
        k = hashlib.blake2b(E.json.dumps([spec["world"], spec["threads"]]).encode(), digest_size=6).hexdigest()
        return bool(res["fired"] or res["fsc"] or res["nsw"] or spec["mode"] == "batches"), res["hash"] + k

    def digest(self, spec, res):
        return "%s/%s" % (res["hash"], hashlib.blake2b(E.json.dumps([res["ops"], res["alive"], res["files"], bool(res.get("grows"))],
                                                                   sort_keys=True).encode(), digest_size=6).hexdigest())

    def stats(self, spec, res, acc):
        super().stats(spec, res, acc)
        acc["objects_tracked"] = acc.get("objects_tracked", 0) + res["tracked"]
        acc["repeated_calls"] = acc.get("repeated_calls", 0) + res.get("calls", 0)
        acc["growth_followed_up"] = acc.get("growth_followed_up", 0) + int(bool(res.get("suspicious")))
        E.bump(acc, "mode", spec["mode"])

    def judge(self, spec, res, eng):
        v = []
        if res["stop"] and res["stop"][0] in ("deadlock", "steps"):
            v.append({"sig": "stop", "op": -1, "msg": "%s" % (res["stop"],)})
        if res["alive"] and not res["stop"]:
            w, h = res["alive"][0]
            v.append({"sig": "kept", "op": -1, "msg": "a dropped %s is still alive, held by %s" % (w, h)})
        if res.get("grows"):
            v.append({"sig": "growth", "op": -1, "msg": "memory grows with the number of evaluations: " + res["grows"]})
        if res["fds"]:
            v.append({"sig": "descriptor", "op": -1, "msg": "descriptors left open: %s" % res["fds"]})
        if res["left"]:
            v.append({"sig": "thread", "op": -1, "msg": "%d threads that the library started go on after the calls have ended" % res["left"]})
        if res["threads"][1] > res["threads"][0]:
            v.append({"sig": "thread", "op": -1, "msg": "%d threads before, %d after" % tuple(res["threads"])})
        if res["files"]:
            v.append({"sig": "file", "op": -1, "msg": "files left behind: %s" % res["files"]})
        if res["children"] is not None:
            v.append({"sig": "child", "op": -1, "msg": "a child process was left behind"})
        return v


PROP = C14()
