"""A look at what calls leave behind in the library (guidance for the search, never a verdict).

The survey performs a few calls of every model and function, once per invocation, and
notes which of them touch something that outlives the call: state of the library's
modules, classes, functions and caches, the file system, locks, or (while they run) the
caller's inputs.  Workloads then dwell on those calls.  On a tree where nothing is kept
the survey finds nothing and the workloads are as they would be without it."""

import contextvars
import decimal
import functools
import hashlib
import logging
import pickle
import sys
import threading
import types

import numpy as np

IGNORE_TYPES = (types.ModuleType, types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType,
                types.GetSetDescriptorType, types.MemberDescriptorType, types.CodeType, types.FrameType)
PLAIN = (str, bytes, int, float, bool, complex, type(None), np.generic)


class Walk:
    """A flat map of place -> digest of everything the library's modules hold."""

    def __init__(self, limit=60000):
        self.seen = {}
        self.out = {}
        self.left = limit
        self.arrays = []

    def modules(self, only=None):
        for n in sorted(sys.modules):
            if (n == "pygmm" or n.startswith("pygmm.")) and (only is None or n in only):
                m = sys.modules[n]
                if m is not None:
                    for k, v in list(vars(m).items()):
                        if k.startswith("__") and k.endswith("__") and k != "__getattr__":
                            continue
                        self.place(n[5:] + "." + k, v)
        return self.out

    def place(self, name, v):
        if isinstance(v, IGNORE_TYPES):
            return
        if isinstance(v, type):
            if not getattr(v, "__module__", "").startswith("pygmm") or id(v) in self.seen:
                return
            self.seen[id(v)] = v
            for k, x in list(vars(v).items()):
                if k not in ("__dict__", "__weakref__", "__doc__", "__module__", "__qualname__", "__annotations__", "_abc_impl", "__slotnames__"):
                    self.place(name + "." + k, x)
            return
        self.out[name] = self.digest(v, 0)

    def digest(self, v, depth):
        if isinstance(v, PLAIN):
            return repr(v)
        if isinstance(v, IGNORE_TYPES) or isinstance(v, type) or depth > 8 or self.left <= 0:
            return type(v).__name__
        if id(v) in self.seen:
            return "^"
        self.left -= 1
        self.seen[id(v)] = v
        d = depth + 1
        if isinstance(v, np.ndarray):
            self.arrays.append(v)
            h = hashlib.blake2b(digest_size=8)
            if v.dtype.hasobject:
                h.update(repr(v.tolist()).encode())
            else:
                h.update(np.ascontiguousarray(v).tobytes())
            return "%s%s%s" % (v.shape, v.flags.writeable, h.hexdigest())
        if (type(v).__module__ or "").startswith("pandas."):
            try:
                return type(v).__name__ + repr(v.to_dict() if hasattr(v, "to_dict") else list(v))
            except Exception:
                return type(v).__name__
        if isinstance(v, dict):
            return "{" + ",".join(self.digest(k, d) + ":" + self.digest(x, d) for k, x in list(v.items())) + "}"
        if isinstance(v, (list, tuple)) or type(v).__name__ == "deque":
            return "[" + ",".join(self.digest(x, d) for x in list(v)) + "]"
        if isinstance(v, (set, frozenset)):
            return "{" + ",".join(sorted(self.digest(x, d) for x in list(v))) + "}"
        if isinstance(v, (staticmethod, classmethod)):
            return self.digest(v.__func__, depth)
        if isinstance(v, property):
            return "".join(self.digest(f, d) for f in (v.fget, v.fset) if f is not None)
        if isinstance(v, types.FunctionType):
            r = ""
            if (v.__module__ or "").startswith("pygmm") or v.__code__.co_filename.find("pygmm") >= 0:
                for x in v.__defaults__ or ():
                    r += self.digest(x, d)
                for k, x in (v.__kwdefaults__ or {}).items():
                    r += self.digest(x, d)
                for k, x in list(v.__dict__.items()):
                    r += k + self.digest(x, d)
                for c in v.__closure__ or ():
                    try:
                        r += self.digest(c.cell_contents, d)
                    except ValueError:
                        r += "?"
            return "f" + r
        if isinstance(v, logging.Logger):
            return "log%s%s%s" % (v.level, len(v.handlers), v.disabled)
        info = getattr(v, "cache_info", None)
        if callable(info):
            try:
                return "cache%s" % (info(),) + self.digest(getattr(v, "__wrapped__", None), d)
            except Exception:
                return "cache?"
        if isinstance(v, threading.local):
            return "tl" + self.digest(dict(vars(v)), d)
        if isinstance(v, contextvars.ContextVar):
            return "cv" + self.digest(v.get(None), d)
        if isinstance(v, types.GeneratorType):
            f = v.gi_frame
            return "gen%s" % (f and (f.f_lasti, self.digest(dict(f.f_locals), d)),)
        if isinstance(v, functools.partial):
            return "p" + self.digest([v.func, v.args, v.keywords], d)
        owner = getattr(v, "_owner", 0)
        if type(v).__name__ in ("SimLock", "SimRLock"):
            return "lock%s" % (owner is not None)
        r = type(v).__name__
        try:
            x = vars(v)
        except TypeError:
            x = None
        if x:
            r += self.digest(dict(x), d)
        for c in type(v).__mro__:
            sl = vars(c).get("__slots__", ())
            for s in (sl,) if isinstance(sl, str) else sl:
                if isinstance(s, str) and s not in ("__dict__", "__weakref__") and not (x and s in x):
                    try:
                        r += s + self.digest(getattr(v, s), d)
                    except Exception:
                        pass
        if isinstance(v, types.MethodType):
            r += self.digest(v.__self__, d)
        if type(v).__name__ in ("count", "Random", "RandomState", "Generator"):
            try:
                r += repr(v) if type(v).__name__ == "count" else str(hash(str(v.__getstate__() if hasattr(v, "__getstate__") else "")))
            except Exception:
                pass
        return r


def state(only=None, keep=None):
    w = Walk()
    m = w.modules(only)
    if keep is not None:
        keep[:] = w.arrays
    return {k: hashlib.blake2b(v.encode(), digest_size=8).hexdigest() for k, v in m.items()}


def modules_of(target):
    """Modules that hold no model, and the target's own."""
    from . import env, gen, ops

    kind, name = target.split(":")
    own = gen.C[name]["mod"] if kind == "cls" else getattr(ops.function(name), "__module__", "pygmm.")[6:]
    models = {d["mod"] for d in gen.C.values()} | {a for a, _ in ops.FN.values()}
    return {"pygmm." + own} | {n for n in sys.modules if (n == "pygmm" or n.startswith("pygmm.")) and n[6:] not in models}


def changed(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


# ------------------------------------------------------------------ the survey

QUIET = {".hermkes_kuehn_riggelsen_2014.INTERPOLATOR"}  # the one thing the library keeps by design


def survey_one(arg):
    """In a forked child: a series of calls of one target; which of them left something behind."""
    import os
    import random
    import shutil

    from . import engine as E
    from . import env
    from . import fs as F
    from . import gen, ops
    from . import sched as S
    from . import settings

    target, n, mids = arg["target"], arg["n"], arg["mids"]
    rng = random.Random("survey " + target)
    ops.capture()
    for how in (0, 2, 4, 5):  # what unpickling imports
        pickle.loads(pickle.dumps([np.zeros(2), np.rec.array(np.zeros(2, dtype=[("a", float)])), np.float64(1)], how))
    fs, d = E.new_fs({})
    found = []
    try:
        w, calls = calls_for(rng, target, n)
        world = w.data()
        # first use is part of the survey: the model that is read later is built after it
        ctx = ops.Ctx(dict(world, mdl=[]))
        full = state()
        own_arrays = []
        given, held = [], []
        ops.TRACK = lambda v, what: given.extend(flat(v))
        only = modules_of(target) if arg.get("only", True) else None
        now = {}

        def own():
            return np.geterr(), np.geterrcall(), decimal.getcontext().prec

        def at(t, kind):
            now["kinds"].add(kind)
            if len(now["at"]) < 400:
                now["at"].append(t.evt)

        def look(t):
            if settings.cheap() != now["c0"] or own() != now["o0"]:
                at(t, "setting")
            if S.SimLock.held > now["held"]:
                at(t, "lock")
            if not now["on"]:
                return None
            now["left"] -= 1
            if now["left"] > 0:
                return None
            now["gap"] *= 1.12
            now["left"] = int(now["gap"])
            if places(now["s0"], state(only)):
                at(t, "mid")
            if inputs(ctx) != now["ins"]:
                at(t, "input")
            return None

        sc = S.Scheduler(S.SerialPolicy(), E.CODESET, "line", max_steps=4000000, op_limit=150000, invariant=look)

        def body(t):
            threading.current_thread()
            nonlocal ctx
            now["s0"] = state(only)
            for i, op in enumerate(calls):
                if i == 1:
                    ctx = ops.Ctx(world)
                    now["s0"] = state(only)
                    given.clear()
                if i < 2:
                    own_arrays[:] = [x for a in ctx.arr for x in flat(a)]
                kinds, libs = set(), []
                now.update(on=i < mids, left=0, gap=8, kinds=kinds, at=[], c0=settings.cheap(), o0=own(), ins=inputs(ctx), held=S.SimLock.held)
                w0 = fs.writes
                S.SimLock.used = 0
                rec = {"oplimit": True}
                try:
                    rec = ops.perform(dict(op, id=i + 1), ctx, sc, t)
                finally:
                    s1 = state(only, libs)
                    if op["k"] in ("fn", "build", "clone"):
                        if any(np.may_share_memory(x, y) for x in given for y in own_arrays + libs + held):
                            kinds.add("alias")
                        held.extend(given)
                    given.clear()
                    p = places(now["s0"], s1)
                    now["s0"] = s1
                    if p:
                        kinds.add("lazy" if i == 0 else "state")
                    if fs.writes != w0:
                        kinds.add("fsw")
                    if S.SimLock.used and i:
                        kinds.add("lock")
                    if inputs(ctx) != now["ins"]:
                        kinds.add("input")
                    if rec.get("oplimit"):
                        kinds.add("stuck")
                    if kinds:
                        mw, mo = ops.isolate(op, world)
                        found.append({"t": target, "kinds": sorted(kinds), "places": p, "world": mw, "op": mo,
                                      "at": sorted(set(now["at"]))})

        sc.install()
        try:
            sc.run([body], main=True)
        finally:
            sc.uninstall()
        if only is not None and any(x in p for p in [places(full, state())] for x in p if x not in {y for f in found for y in f["places"]}):
            return None  # something elsewhere is touched as well
        return {"found": found, "env": sorted(env.ENVREAD)}
    finally:
        ops.TRACK = None
        F.FSOBJ = None
        shutil.rmtree(d, ignore_errors=True)


def flat(v):
    """The arrays in a value that a call returned or took."""
    if isinstance(v, np.ndarray):
        return [v] if v.size else []
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat(x)]
    x = getattr(v, "values", None)
    if isinstance(x, np.ndarray):
        return flat(x)
    return []


def places(a, b):
    return [x for x in changed(a, b) if x not in QUIET]


def inputs(ctx):
    from . import norm

    return repr([[norm.given(s) for s in ctx.scn], [norm.given(a) for a in ctx.arr]])


def calls_for(rng, target, n):
    from . import gen

    kind, name = target.split(":")
    if kind == "fn":
        w = gen.W(rng)
        w.podd, w.pbad, w.pkind, w.share = 0.2, 0.3, 0.5, 0.3
        calls = []
        for _ in range(n):
            x = rng.random()
            if calls and x < 0.25:
                calls.append(dict(rng.choice(calls)))
            elif calls and x < 0.5:
                calls.append(gen.vary(w, rng.choice(calls)))
            else:
                calls.append(gen.fn(w, name))
        return w, calls
    w = gen.W(rng)
    fam = [w.add_scn(kw, "dict" if rng.random() < 0.2 else "S") for kw in gen.family(rng, name, 4)]
    for _ in range(n // 4):
        fam.append(w.add_scn(gen.base(rng, name)))
    for _ in range(2):
        fam.append(w.add_scn(gen.questionable(rng, gen.base(rng, name), name)))
    w.mdl.append({"cls": name, "s": fam[0], "kw": gen.ctor_kw(w, name)})
    calls = [gen.build(w, name, fam[0])]
    for _ in range(n):
        x = rng.random()
        if x < 0.15:
            calls.append(dict(rng.choice(calls)))
        elif x < 0.3:
            calls.append(gen.vary(w, rng.choice(calls)))
        elif x < 0.4:
            calls.append({"k": "read", "m": 0, "reads": gen.reads(w, name)})
        elif x < 0.5:
            calls.append(gen.clone(w, rng.choice(fam)))
        elif x < 0.57:
            calls.append(gen.scn_op(w, rng.choice(fam)))
        else:
            calls.append(gen.build(w, name, rng.choice(fam)))
    return w, calls


def survey(tier):
    """All targets, in forked children of this process; a pure function of the working tree."""
    from . import engine as E
    from . import env, gen

    n, mids = (28, 3) if tier == "quick" else (80, 8)
    targets = ["cls:" + c for c in gen.ALL] + ["fn:" + f for f in sorted(set(gen.FNS))]
    found = []
    args = [{"target": t, "n": n * (4 if t[0] == "f" else 1), "mids": mids} for t in targets]
    got = E.forkmap(survey_one, args)
    again = [i for i, r in enumerate(got) if r is None]
    if again:
        for i, r in zip(again, E.forkmap(survey_one, [dict(args[i], only=False) for i in again])):
            got[i] = r
    for res in got:
        if res:
            found += res["found"]
            env.ENVREAD.update(res["env"])
    return corpus(found)


def corpus(found):
    """A few calls for each target and set of touched places."""
    out, count = [], {}
    for f in found:
        if f["kinds"] == ["lazy"] and any(g["t"] == f["t"] and g["kinds"] != ["lazy"] for g in found):
            continue
        k = (f["t"], tuple(f["kinds"]), tuple(f["places"]))
        count[k] = count.get(k, 0) + 1
        if count[k] <= 3:
            out.append(f)
    return out
