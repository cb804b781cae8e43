"""Snapshots of settings that belong to the application."""

import builtins
import csv
import decimal
import faulthandler
import gc
import hashlib
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import warnings

import numpy as np
import scipy.special


def _h(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()


_STREAMS = []


def _nth(x):
    for i, y in enumerate(_STREAMS):
        if x is y:
            return i
    _STREAMS.append(x)
    return len(_STREAMS) - 1


_SEEN = {}


def _same(tag, objs):
    """A number that stays the same while these are the same objects."""
    l = _SEEN.setdefault(tag, [])
    for i, x in enumerate(l):
        if len(x) == len(objs) and all(a is b for a, b in zip(x, objs)):
            return i
    l.append(objs)
    return len(l) - 1


def _opener():
    """The process-wide URL opener; not made yet equals the standard one."""
    import urllib.request as U

    def form(o):
        return repr((sorted(type(h).__name__ + repr(sorted((k, repr(v)) for k, v in vars(h).items() if isinstance(v, (int, float, str))))
                            for h in o.handlers), o.addheaders))

    if U._opener is None:
        return "standard"
    global _STD
    if _STD is None:
        _STD = form(U.build_opener())
    f = form(U._opener)
    return "standard" if f == _STD else f


_STD = None


def _limits():
    import resource as R

    return repr([R.getrlimit(x) for x in (R.RLIMIT_AS, R.RLIMIT_NOFILE, R.RLIMIT_CORE, R.RLIMIT_STACK, R.RLIMIT_FSIZE, R.RLIMIT_DATA,
                                          R.RLIMIT_CPU, R.RLIMIT_NPROC)]) + repr(os.getpriority(os.PRIO_PROCESS, 0))


def own_snapshot():
    """Settings private to a thread or context."""
    return {
        "numpy.geterr": repr(sorted(np.geterr().items())),
        "numpy.geterrcall": repr(np.geterrcall()),
        "numpy.printoptions": repr(sorted(np.get_printoptions().items(), key=str)),
        "numpy.bufsize": np.getbufsize(),
        "decimal": repr((decimal.getcontext().prec, decimal.getcontext().rounding, sorted(map(str, decimal.getcontext().traps.items())))),
        "scipy.special.errors": repr(sorted(scipy.special.geterr().items())),
    }


def shared_snapshot(calls=True):
    """Settings every thread of the process sees."""
    import pandas as pd

    lg = logging.getLogger()
    d = {
        "numpy.random": _h(np.random.get_state()),
        "random": _h(random.getstate()),
        "warnings.filters": _h([tuple(map(str, f)) for f in warnings.filters]),
        "warnings.showwarning": "%s.%s" % (getattr(warnings.showwarning, "__module__", ""),
                                           getattr(warnings.showwarning, "__qualname__", "")),
        "warnings.defaultaction": getattr(warnings, "defaultaction", None),
        "warnings.formatwarning": getattr(warnings.formatwarning, "__qualname__", ""),
        "logging.root.handlers": ",".join(type(h).__name__ for h in lg.handlers),
        "logging.pygmm": repr([(n, x.level, x.propagate, x.disabled, [type(h).__name__ for h in x.handlers], len(x.filters))
                               for n, x in sorted(lg.manager.loggerDict.items())
                               if n.split(".")[0] == "pygmm" and isinstance(x, logging.Logger)]) if calls else "",
        "logging.root.level": lg.level,
        "logging.root.filters": len(lg.filters),
        "logging.disable": lg.manager.disable,
        "logging.raiseExceptions": logging.raiseExceptions,
        "logging.captureWarnings": logging._warnings_showwarning is not None,
        "logging.pywarnings": ",".join(type(h).__name__ for h in logging.getLogger("py.warnings").handlers),
        "logging.class": logging.getLoggerClass().__name__,
        "logging.factory": getattr(logging.getLogRecordFactory(), "__name__", "?"),
        "locale": locale.setlocale(locale.LC_ALL),
        "cwd": os.getcwd(),
        "environ": _h(sorted(os.environ.items())),
        "recursionlimit": sys.getrecursionlimit(),
        "switchinterval": sys.getswitchinterval(),
        "stdout": _nth(sys.stdout), "stderr": _nth(sys.stderr), "stdin": _nth(sys.stdin),
        "excepthook": getattr(sys.excepthook, "__qualname__", "?"),
        "displayhook": getattr(sys.displayhook, "__qualname__", "?"),
        "threading.excepthook": getattr(threading.excepthook, "__qualname__", "?"),
        "gc": repr((gc.isenabled(), gc.get_threshold())),
        "umask": _umask(),
        "sys.path": _h(sys.path),
        "signals": repr([(s, getattr(signal.getsignal(s), "__qualname__", str(signal.getsignal(s))))
                         for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGALRM, signal.SIGPIPE, signal.SIGUSR1,
                                   signal.SIGCHLD)]),
        "itimer": repr(signal.getitimer(signal.ITIMER_REAL)[0] > 0),
        "pandas.precision": pd.get_option("display.precision"),
        "pandas.chained": pd.get_option("mode.chained_assignment"),
        "pandas.max_rows": pd.get_option("display.max_rows"),
        "pandas.options": _h(pd._config.config._global_config),
        "socket.timeout": socket.getdefaulttimeout(),
        "urllib.opener": _opener(),
        "ssl.context": getattr(__import__("ssl")._create_default_https_context, "__qualname__", "?"),
        "int_max_str_digits": sys.get_int_max_str_digits(),
        "thread.stack_size": threading.stack_size(),
        "threading.trace": (threading.gettrace() is not None, threading.getprofile() is not None),
        "faulthandler": faulthandler.is_enabled(),
        "csv.field_size": csv.field_size_limit(),
        "multiprocessing.start": __import__("multiprocessing").get_start_method(allow_none=True),
        "limits": _limits(),
        "numpy.ma.print": repr(np.ma.masked_print_option),
        "builtins": _same("builtins", [v for k, v in sorted(vars(builtins).items()) if k != "_"]),
        "other hooks": _same("hooks", [sys.unraisablehook, sys.breakpointhook]),
        "codecs.replace": _same("codecs", [__import__("codecs").lookup_error("strict"), __import__("codecs").lookup_error("replace")]),
        "dont_write_bytecode": sys.dont_write_bytecode,
        "tracing": (sys.gettrace() is not None, sys.getprofile() is not None),
    }
    return d


def _rng_pos():
    """Position of numpy's global generator, read without copying its state."""
    global _POS
    b = np.random.mtrand._rand._bit_generator
    if _POS is None or _POS[0] is not b:
        import ctypes

        try:
            x = ctypes.c_int.from_address(b.ctypes.state_address + 624 * 4)
            ok = x.value == np.random.get_state()[2]
        except Exception:
            ok = False
        _POS = (b, x if ok else None)
    return _POS[1].value if _POS[1] is not None else np.random.get_state()[2]


_POS = None


def cheap():
    """A quick fingerprint of the shared settings a call could plausibly touch."""
    lg = logging.getLogger()
    return (
        len(warnings.filters), warnings.filters[0] if warnings.filters else None, warnings.showwarning,
        len(lg.handlers), lg.level, lg.manager.disable, sys.getrecursionlimit(), sys.stdout, sys.stderr,
        os.getcwd(), len(os.environ), _rng_pos(), gc.isenabled(), warnings.formatwarning,
        sys.getswitchinterval(), socket.getdefaulttimeout(), len(sys.path), sys.excepthook, logging.raiseExceptions,
        warnings._filters_version if hasattr(warnings, "_filters_version") else 0, locale.setlocale(locale.LC_ALL),
    )


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return "%s: %s -> %s" % (k, a.get(k), b.get(k))
    return None


# ------------------------------------------------------------------ an application's own choices


def draw(rng):
    """Settings an application may have chosen before it uses the library."""
    a = {}
    p = rng.choice([0.1, 0.3, 0.6])

    def some(k, f):
        if rng.random() < p:
            a[k] = f()

    some("seterr", lambda: {k: rng.choice(["ignore", "warn", "raise", "call", "print"] if rng.random() < 0.4 else ["ignore", "warn"])
                            for k in rng.sample(["divide", "over", "under", "invalid"], rng.choice([1, 2, 4]))})
    some("print", lambda: {"precision": rng.choice([3, 12]), "suppress": rng.random() < 0.5, "threshold": rng.choice([5, 1000])})
    some("decimal", lambda: rng.choice([6, 50]))
    some("gc", lambda: rng.choice(["off", [50, 5, 5], [100000, 50, 50]]))
    some("recursion", lambda: rng.choice([700, 1500, 5000]))
    some("switch", lambda: rng.choice([0.001, 0.05]))
    some("umask", lambda: rng.choice([0o77, 0o2, 0]))
    some("timeout", lambda: rng.choice([3.0, 30.0, 60.0, 0.5]))
    some("filters", lambda: [[rng.choice(["ignore", "error", "once", "default", "module"]), rng.choice(["UserWarning", "Warning", "RuntimeWarning", "FutureWarning"])]
                             for _ in range(rng.choice([1, 2]))])
    some("logging", lambda: {"level": rng.choice([10, 20, 40]), "handlers": rng.choice([0, 1, 2]), "disable": rng.choice([0, 0, 30, 50]),
                             "pygmm": rng.choice([None, None, 10, 40, 60]), "capture": rng.random() < 0.3, "raise": rng.random() < 0.7})
    some("seed", lambda: rng.getrandbits(31))
    some("streams", lambda: True)
    some("cwd", lambda: rng.choice(["/", "/tmp"]))
    some("environ", lambda: {rng.choice(["OMP_NUM_THREADS", "HOME", "TZ", "LANG", "PYTHONWARNINGS", "X"]): rng.choice(["1", "/tmp", "C"])})
    some("excepthook", lambda: True)
    some("sigint", lambda: rng.choice(["ignore", "default"]))
    some("pandas", lambda: {"display.precision": rng.choice([3, 9]), "mode.chained_assignment": rng.choice([None, "raise"])})
    some("bufsize", lambda: rng.choice([4096, 16384]))
    some("locale", lambda: "C.UTF-8")
    return a


def _hook(*a):
    pass


def apply(a):
    """Process-wide choices (in a forked child)."""
    import gc as gc_
    import io

    import pandas as pd

    if "gc" in a:
        if a["gc"] == "off":
            gc_.disable()
        else:
            gc_.set_threshold(*a["gc"])
    if "recursion" in a:
        sys.setrecursionlimit(a["recursion"])
    if "switch" in a:
        sys.setswitchinterval(a["switch"])
    if "umask" in a:
        os.umask(a["umask"])
    if "timeout" in a:
        socket.setdefaulttimeout(a["timeout"])
    for act, cat in a.get("filters", ()):
        warnings.simplefilter(act, getattr(__import__("builtins"), cat))
    lg = a.get("logging")
    if lg:
        root = logging.getLogger()
        root.setLevel(lg["level"])
        for _ in range(lg["handlers"]):
            root.addHandler(logging.NullHandler())
        logging.disable(lg["disable"])
        if lg["pygmm"] is not None:
            logging.getLogger("pygmm").setLevel(lg["pygmm"])
        if lg["capture"]:
            logging.captureWarnings(True)
            logging.getLogger("py.warnings").addHandler(logging.NullHandler())  # else logging adds one at the first warning
        logging.raiseExceptions = lg["raise"]
    if "seed" in a:
        np.random.seed(a["seed"])
        random.seed(a["seed"])
    if a.get("streams"):
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    if "cwd" in a:
        os.chdir(a["cwd"])
    os.environ.update(a.get("environ", {}))
    if a.get("excepthook"):
        sys.excepthook = threading.excepthook = _hook
    if "sigint" in a:
        signal.signal(signal.SIGINT, signal.SIG_IGN if a["sigint"] == "ignore" else signal.SIG_DFL)
    if "locale" in a:
        locale.setlocale(locale.LC_ALL, a["locale"])
    for k, v in a.get("pandas", {}).items():
        pd.set_option(k, v)


def apply_own(a):
    """Choices that belong to one thread."""
    if "seterr" in a:
        np.seterr(**a["seterr"])
        if "call" in a["seterr"].values():
            np.seterrcall(_hook)
    if "bufsize" in a:
        np.setbufsize(a["bufsize"])
    if "print" in a:
        np.set_printoptions(**a["print"])
    if "decimal" in a:
        __import__("decimal").getcontext().prec = a["decimal"]
