"""Executing calls on the library and recording their outcomes."""

import collections
import importlib
import json
import logging
import sys
import threading
import types
import warnings

import numpy as np

from . import fs as F
from . import gen
from . import norm
from . import sched as S

FN = {
    "BA18": ("bayless_abrahamson_2018", "BaylessAbrahamson2018"),
    "S17": ("stafford_2017", "Stafford2017"),
    "BJ08": ("baker_jayaram_2008", None),
    "K17": ("kishida_2017", None),
    "AB20": ("abrahamson_bhasin_2020", "AbrahamsonBhasin2020"),
    "PR24.f": ("pinilla_ramos_et_al_2024", None),
}


def module(name):
    return importlib.import_module("pygmm." + name)


def klass(short):
    d = gen.C[short]
    return getattr(module(d["mod"]), d["name"])


def function(name):
    a, b = name.split(".")
    if name == "K17.cmsv":
        return module("kishida_2017").calc_cond_mean_spectrum_vector
    if name == "PR24.duration_model":
        return module("pinilla_ramos_et_al_2024").duration_model
    if a in FN:
        mod, cls = FN[a]
        m = module(mod)
        return getattr(m if cls is None else getattr(m, cls), b)
    return getattr(klass(a), b)


def decode(v):
    if isinstance(v, dict) and "t" in v:
        t, x = v["t"], v["v"]
        return {"f64": np.float64, "f32": np.float32, "i64": lambda y: np.int64(int(y) if abs(y) < 1e9 else 0)}[t](x)
    return v


def decode_kw(kw):
    return {k: decode(v) for k, v in kw.items()}


class _Labelled(np.ndarray):
    label = None

    def __array_finalize__(self, obj):
        self.label = getattr(obj, "label", None)


def make_array(a):
    k, v = a["k"], a["v"]
    if k == "list":
        return list(v)
    if k == "tuple":
        return tuple(v)
    if k == "f32":
        with np.errstate(all="ignore"):
            return np.array(v, dtype=np.float32)
    if k == "ro":
        x = np.array(v, dtype=float)
        x.flags.writeable = False
        return x
    if k == "view":  # every other element of a larger array
        x = np.full(2 * len(v), 9.25)
        x[::2] = v
        return x[::2]
    if k == "nd2":
        return np.array(v, dtype=float).reshape(2, -1)
    if k == "ser":
        import pandas as pd

        return pd.Series(np.array(v, dtype=float), index=["p%d" % i for i in range(len(v))])
    if k == "ser2":
        import pandas as pd

        return pd.Series(np.array(v, dtype=float), index=range(len(v), 0, -1), name="T")
    if k == "be":  # the other byte order
        return np.array(v, dtype=">f8")
    if k == "neg":  # read backwards
        return np.array(v[::-1], dtype=float)[::-1]
    if k == "sub":
        x = np.array(v, dtype=float).view(_Labelled)
        x.label = "mine"
        return x
    if k == "i64":
        return np.array([int(x) if abs(x) < 1e9 else 0 for x in v], dtype=np.int64)
    if k == "ma0":
        return np.ma.masked_array(np.array(v, dtype=float))
    if k == "ma":
        return np.ma.masked_array(np.array(v, dtype=float), mask=np.array(a["mask"], dtype=bool))
    return np.array(v, dtype=float)


# ------------------------------------------------------------------ diagnostics

_sinks = {}  # thread ident -> list
HOOK = None  # called with (kind, category, message) after recording
_orig_show = None


def _emit(kind, cat, msg):
    s = _sinks.get(threading.get_ident())
    if s is not None:
        s.append([kind, cat, norm._ADDR.sub("0x", msg)])
    h = HOOK
    if h is not None and s is not None:
        h(kind, cat, msg)


def _show(message, category, filename, lineno, file=None, line=None):
    if issubclass(category, (RuntimeWarning, DeprecationWarning, PendingDeprecationWarning)):
        return
    _emit("warning", category.__name__, str(message))


class _Handler(logging.Handler):
    def emit(self, record):
        _emit("log", record.levelname, record.getMessage())

    def handleError(self, record):
        raise

    def _at_fork_reinit(self):
        pass


HANDLER = None


def capture(root=True):
    """Install the warning collector and (unless told otherwise) a root log handler."""
    global HANDLER
    warnings.resetwarnings()
    warnings.simplefilter("always")
    warnings.showwarning = _show
    if root:
        HANDLER = _Handler(logging.WARNING)
        HANDLER.lock = None
        logging.getLogger().addHandler(HANDLER)


# ------------------------------------------------------------------ isolation of calls


def _walk(x, f):
    if isinstance(x, dict):
        if set(x) == {"a"} and isinstance(x["a"], int):
            return f(x)
        return {k: _walk(v, f) for k, v in x.items()}
    if isinstance(x, list):
        return [_walk(v, f) for v in x]
    return x


def isolate(op, world):
    """(mini world, op) with only what the call uses, in canonical numbering."""
    scn, arr, mdl = [], [], []
    smap, amap = {}, {}

    def s_(i):
        if i not in smap:
            smap[i] = len(scn)
            scn.append({"kw": world["scn"][i]["kw"], "t": world["scn"][i]["t"]})
        return smap[i]

    def a_(x):
        i = x["a"]
        if i not in amap:
            amap[i] = len(arr)
            arr.append({k: world["arr"][i][k] for k in ("k", "v", "mask") if k in world["arr"][i]})
        return {"a": amap[i]}

    op = {k: v for k, v in op.items() if k not in ("id", "keep", "scribble", "alts", "inner", "hook", "tag", "fresh", "at")}
    op = _walk(op, a_)
    if "s" in op:
        op["s"] = s_(op["s"])
    if "m" in op:
        m = world["mdl"][op["m"]]
        m = _walk(m, a_)
        m["s"] = s_(m["s"])
        mdl.append(m)
        op["m"] = 0
    return {"scn": scn, "arr": arr, "mdl": mdl}, op


def key(world, op):
    return json.dumps([world, op], sort_keys=True)


# ------------------------------------------------------------------ execution


def __getattr__(name):
    if name == "SubScenario":  # an application's own kind of scenario

        class SubScenario(module("model").Scenario):
            __module__ = __name__
            __qualname__ = "SubScenario"

        globals()[name] = SubScenario
        return SubScenario
    raise AttributeError(name)


def make_scenario(s):
    """What the caller passes: a Scenario or some other mapping."""
    kw = decode_kw(s["kw"])
    t = s["t"]
    if t == "S":
        return module("model").Scenario(**kw)
    if t == "sub":
        return getattr(sys.modules[__name__], "SubScenario")(**kw)
    if t == "od":
        return collections.OrderedDict(kw)
    if t == "dd":
        return collections.defaultdict(float, kw)
    if t == "ud":
        return collections.UserDict(kw)
    if t == "mp":
        return types.MappingProxyType(kw)
    if t == "chain":
        ks = sorted(kw)
        return collections.ChainMap({k: kw[k] for k in ks[::2]}, {k: kw[k] for k in ks[1::2]})
    return dict(kw)


def remake(s, kw):
    """The same kind of mapping with other entries."""
    if hasattr(s, "copy_with"):
        return type(s)(**kw)
    return dict(kw)


class Ctx:
    def __init__(self, world):
        self.world = world
        self.scn = [make_scenario(s) for s in world["scn"]]
        self.arr = [make_array(a) for a in world["arr"]]
        self.mdl = []
        self.kept = []
        self.extra = {}
        for m in world["mdl"]:
            try:
                self.mdl.append(klass(m["cls"])(self.scn[m["s"]], **self.args(m["kw"])))
            except Exception as e:
                self.mdl.append(norm.exc(e))

    def args(self, x):
        if isinstance(x, dict):
            if set(x) == {"a"} and isinstance(x["a"], int):
                return self.arr[x["a"]]
            if "t" in x and "v" in x:
                return decode(x)
            return {k: self.args(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self.args(v) for v in x]
        return x


TRACK = None  # called with every object that a call returns


def seen(v, what):
    if TRACK is not None:
        TRACK(v, what)
    return v


def do_read(m, r, ctx, raw=None):
    if isinstance(r, str):
        v = getattr(m, r)
    else:
        v = getattr(m, r[0])(*[ctx.args(x) for x in r[1:]])
    seen(v, r if isinstance(r, str) else r[0])
    if raw is not None:
        raw.append(v)
    return norm.value(v)


def attempt(out, k, f, fatal=(S.SimStop, F.NodeKilled)):
    try:
        out[k] = f()
        return True
    except fatal:
        raise
    except S.OpLimit:
        out[k] = ["exc", "OpLimit", ""]
        raise
    except BaseException as e:
        out[k] = norm.exc(e)
        if S.is_abort(e):
            out["_abort"] = k
        return False


def scribble(v):
    """Modify a returned value in place, if it can be modified."""
    try:
        if isinstance(v, np.ndarray):
            if v.dtype.names:
                for n in v.dtype.names:
                    v[n] = -77.0
            elif v.ndim == 0:
                v[...] = -77.0
            else:
                v.reshape(-1)[:] = -77.0 if v.flags.c_contiguous else -77.0
                v[...] = -77.0
        elif isinstance(v, (tuple, list)):
            for x in v:
                scribble(x)
            if isinstance(v, list) and v:
                v[0] = -77.0
        elif hasattr(v, "keys") and hasattr(v, "__setitem__"):
            for k in list(v.keys()):
                v[k] = 5.0 if not isinstance(v[k], str) else "RS"
    except (ValueError, TypeError, AttributeError):
        pass


def scaled(v, f):
    if isinstance(v, (bool, str)) or v is None:
        return v
    if isinstance(v, list):
        return [x * f for x in v]
    return v * f


def clone(m, how):
    import copy
    import pickle

    if how == "copy":
        return copy.copy(m)
    if how == "deepcopy":
        return copy.deepcopy(m)
    return pickle.loads(pickle.dumps(m, how))


def construct(op, ctx):
    s = ctx.scn[op["s"]]
    if op.get("kwform"):
        return klass(op["cls"])(**dict(s))
    if op.get("fresh"):
        return klass(op["cls"])(remake(s, dict(s)), **ctx.args(op["kw"]))
    return klass(op["cls"])(s, **ctx.args(op["kw"]))


PUBLIC = ["NAME", "ABBREV", "PERIODS", "INDICES_PSA", "INDEX_PGA", "INDEX_PGV", "INDEX_PGD", "PGV_SCALE", "PGD_SCALE"]


def param_facts(p):
    return {k: norm.value(getattr(p, k)) for k in ("name", "required", "default", "min", "max", "options") if hasattr(p, k)}


def misc(op, ctx, out):
    """Smaller parts of the public interface."""
    what = op["what"]
    if what == "repr":
        s = ctx.scn[op["s"]]
        attempt(out, "repr", lambda: norm._ADDR.sub("0x", repr(s) + str(s)))
        attempt(out, "dir", lambda: sorted(x for x in dir(s) if x[0] != "_")[:60] if hasattr(s, "copy_with") else None)
    elif what == "param":
        # a model's parameter used on its own
        p = [x for x in klass(op["cls"]).PARAMS if x.name == op["p"]]
        if p:
            attempt(out, "check", lambda: norm.value(p[0].check(op["v"])))
    elif what == "load":
        raw = []
        load = module("model").load_data_file
        attempt(out, "fn", lambda: norm.value(_keep(raw, load(op["name"], op["skip"]))))
        if raw and op.get("scribble"):
            scribble(raw[0])
            attempt(out, "q", lambda: norm.value(load(op["name"], op["skip"])))
    elif what == "tables":
        c = klass(op["cls"])
        for x in PUBLIC:
            if hasattr(c, x) and not isinstance(getattr(c, x), property):
                attempt(out, x, lambda: norm.value(np.array(getattr(c, x)) if x in ("PERIODS", "INDICES_PSA") else getattr(c, x)))
        attempt(out, "PARAMS", lambda: [param_facts(p) for p in c.PARAMS])
        attempt(out, "LIMITS", lambda: norm.value(getattr(c, "LIMITS", None)))
    elif what == "scnops":
        # what a mapping offers, on a scenario of its own
        s = ctx.scn[op["s"]]
        kw = decode_kw(op["kw"])
        box = []
        if not attempt(out, "new", lambda: box.append(module("model").Scenario(**dict(s)))):
            return
        b = box[0]
        for n, f in (
            ("eq", lambda: [b == s, b == dict(s), b != s, "mag" in b, "depth_bor" in b, len(b)]),
            ("or", lambda: norm.value(dict(b | kw))),
            ("ror", lambda: norm.value(dict(kw | b))),
            ("copy", lambda: norm.value(dict(b.copy()))),
            ("setdefault", lambda: norm.value(b.setdefault("dip", 45))),
            ("update", lambda: norm.value(b.update(kw))),
            ("pop", lambda: norm.value(b.pop("mag", None))),
            ("keys", lambda: [list(b), list(b.keys()), norm.value(list(b.values()))]),
            ("attr", lambda: norm.value(b.dip)),
            ("noattr", lambda: norm.value(getattr(b, "mag", "none"))),
            ("src", lambda: norm.value(dict(s))),
        ):
            if not attempt(out, n, f) and "_abort" in out:
                return


def run_op(op, ctx, out):
    k = op["k"]
    if k in ("build", "read"):
        if k == "build":
            ok = attempt(out, "build", lambda: ctx.extra.__setitem__(
                ("m", threading.get_ident()), seen(construct(op, ctx), op["cls"])))
            m = ctx.extra.pop(("m", threading.get_ident()), None) if ok else None
        else:
            m = ctx.mdl[op["m"]]
            if isinstance(m, list):
                out["build"] = m
                m = None
            else:
                out["build"] = None
        if m is None:
            return
        raw = []
        for i, r in enumerate(op["reads"]):
            if "_abort" in out:
                break
            attempt(out, "r%d" % i, lambda: do_read(m, r, ctx, raw if op.get("scribble") else None))
        if op.get("scribble"):
            keep_scn = [r for r in op["reads"] if r == "scenario"]
            for v in raw:
                if keep_scn and (isinstance(v, type(ctx.scn[0])) or hasattr(v, "keys")):
                    continue
                scribble(v)
            for i, r in enumerate(op["reads"]):
                attempt(out, "q%d" % i, lambda: do_read(m, r, ctx))
            if op["scribble"] == 2 and hasattr(m, "scenario"):
                # the scenario a model keeps belongs to that model only
                scribble(m.scenario)
        if op.get("keep"):
            ctx.kept.append(m)
    elif k == "fn":
        raw = []
        attempt(out, "fn", lambda: norm.value(_keep(raw, function(op["fn"])(*ctx.args(op["args"]), **ctx.args(op.get("kw", {}))))))
        if op.get("scribble") and raw:
            for v in raw:
                scribble(v)
            attempt(out, "q", lambda: norm.value(function(op["fn"])(*ctx.args(op["args"]), **ctx.args(op.get("kw", {})))))
    elif k == "copy_with":
        s = ctx.scn[op["s"]]
        attempt(out, "copy", lambda: norm.value(dict(
            seen((s if hasattr(s, "copy_with") else module("model").Scenario(**s)).copy_with(**decode_kw(op["kw"])), "copy_with"))))
    elif k == "new":
        attempt(out, "new", lambda: norm.value(dict(seen(module("model").Scenario(**decode_kw(op["kw"])), "Scenario"))))
    elif k == "items":
        s = ctx.scn[op["s"]]
        attempt(out, "items", lambda: norm.value(dict(s.items())))
        attempt(out, "len", lambda: norm.value(len(s)))
    elif k == "get":
        s = ctx.scn[op["s"]]
        for x in op["keys"]:
            attempt(out, "g." + x, lambda: norm.value(s.get(x, "absent")))
            attempt(out, "a." + x, lambda: norm.value(getattr(s, x)) if hasattr(s, "copy_with") and x in s else None)
    elif k == "misc":
        misc(op, ctx, out)
    elif k == "clone":
        # a copy of a model or scenario, by pickle or copy, read instead of the original
        m = ctx.mdl[op["m"]] if "m" in op else ctx.scn[op["s"]]
        if isinstance(m, list):
            out["build"] = m
            return
        box = []
        if attempt(out, "build", lambda: box.append(seen(clone(m, op["how"]), "copy of " + type(m).__name__))) and box:
            if "s" in op:
                attempt(out, "items", lambda: norm.value(dict(box[0].items())))
                attempt(out, "type", lambda: type(box[0]).__name__)
            raw = []
            for i, r in enumerate(op.get("reads", ())):
                if "_abort" in out:
                    break
                attempt(out, "r%d" % i, lambda: do_read(box[0], r, ctx, raw if op.get("scribble") else None))
            if op.get("scribble"):
                # changes to a copy and to what it returned reach neither the original nor later calls
                for v in raw:
                    if not hasattr(v, "keys"):
                        scribble(v)
                if "s" in op:
                    scribble(box[0])
                elif op["how"] != "copy" and hasattr(box[0], "scenario"):
                    scribble(box[0].scenario)
    elif k == "again":
        # a model built from the scenario that another model keeps
        m = ctx.mdl[op["m"]]
        if isinstance(m, list) or not hasattr(m, "scenario"):
            out["build"] = m if isinstance(m, list) else None
            return
        src = m.scenario
        before = norm.given(src)
        box = []
        if attempt(out, "build", lambda: box.append(seen(klass(op["cls"])(src), op["cls"]))):
            for i, r in enumerate(op["reads"]):
                if "_abort" in out:
                    break
                attempt(out, "r%d" % i, lambda: do_read(box[0], r, ctx))
        out["unchanged"] = norm.diff(norm.given(src), before) is None
    elif k == "reimport":
        # a module is executed again; the on-demand model finds its data missing and fetches it
        import importlib

        m = module(op["mod"])
        fs = F.FSOBJ
        if op.get("net") is not None:
            from . import env

            fs.remove(env.NPZ)
            F.set_net(F.Net(env.npz_bytes(), op["net"]))
        try:
            attempt(out, "import", lambda: importlib.reload(m).__name__)
        finally:
            if op.get("net") is not None:
                fs.put(env.NPZ, env.npz_bytes())
    elif k == "observe":
        for i in op["ss"]:
            attempt(out, "s%d" % i, lambda: norm.given(ctx.scn[i]))
        for i in op["aa"]:
            attempt(out, "a%d" % i, lambda: norm.given(ctx.arr[i]))
    elif k == "mutate":
        s = ctx.scn[op["s"]]
        for kk, vv in op["kw"].items():
            s[kk] = decode(vv)
        for kk in op.get("drop", ()):
            s.pop(kk, None)
        out["done"] = True
    elif k == "mutarr":
        a = ctx.arr[op["a"]["a"]] if isinstance(op["a"], dict) else ctx.arr[op["a"]]
        for i, x in enumerate(op["v"]):
            a[i] = x
        out["done"] = True
    elif k == "bulk":
        # the same call for many slightly different inputs, results dropped
        o = op["of"]
        for i in range(op["n"]):
            f = 1.0 + 0.0007 * (i + 1)
            try:
                if o["k"] == "build":
                    s = ctx.scn[o["s"]]
                    m = klass(o["cls"])(remake(s, {a: scaled(b, f) for a, b in s.items()}))
                    for r in o["reads"][:1]:
                        do_read(m, r, ctx)
                    m = None
                elif o["k"] == "fn":
                    function(o["fn"])(*[scaled(x, f) for x in ctx.args(o["args"])], **ctx.args(o.get("kw", {})))
            except (S.SimStop, S.OpLimit):
                raise
            except Exception as e:
                if S.is_abort(e):
                    raise
        out["done"] = True
    elif k == "settings":
        from . import settings

        out["set"] = settings.shared_snapshot()
    else:
        raise KeyError(k)


def _keep(raw, v):
    seen(v, "result")
    raw.append(v)
    return v


def perform(op, ctx, sched=None, t=None):
    """Run one call as thread t of the simulation; returns its record."""
    out = {}
    diag = []
    ident = threading.get_ident()
    prev = _sinks.get(ident)
    _sinks[ident] = diag
    rec = {"out": out, "diag": diag}
    if sched is not None:
        sched.begin_op(t, op["id"])
    try:
        run_op(op, ctx, out)
    except S.OpLimit:
        rec["oplimit"] = True
    except S.SimStop:
        rec["stopped"] = True
        raise
    except BaseException as e:
        if not S.is_abort(e):
            raise
        out["?"] = norm.exc(e)
        out["_abort"] = "?"
    finally:
        if sched is not None:
            sched.end_op(t)
            rec["n"] = t.evt
        if prev is None:
            _sinks.pop(ident, None)
        else:
            _sinks[ident] = prev
    return rec
