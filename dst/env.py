"""Zygote set-up: third-party imports, seams, then the library under test."""

import atexit
import os
import sys

REPO = os.environ.get("DST_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "pygmm")
NPZ = os.path.join(PKG, "data", "hermkes_kuehn_riggelsen_2014.npz")

MODULES = [
    "abrahamson_bhasin_2020", "abrahamson_gregor_addo_2016", "abrahamson_silva_1996",
    "abrahamson_silva_kamai_2014", "afshari_stewart_2016", "akkar_sandikkaya_bommer_2014",
    "atkinson_boore_2006", "baker_jayaram_2008", "bayless_abrahamson_2018",
    "bayless_abrahamson_2019", "boore_stewart_seyhan_atkinson_2014", "campbell_2003",
    "campbell_bozorgnia_2014", "chiou_youngs_2014", "coppersmith_bommer_2014",
    "derras_bard_cotton_2014", "gulerce_abrahamson_2011", "hermkes_kuehn_riggelsen_2014",
    "idriss_2014", "kempton_stewart_2006", "kishida_2017", "model",
    "pezeshk_zandieh_tavakoli_2011", "pinilla_ramos_et_al_2023", "pinilla_ramos_et_al_2024",
    "stafford_2017", "tavakoli_pezeshk_2005", "types",
]


def third_party():
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ["MKL_NUM_THREADS"] = "1"
    sys.dont_write_bytecode = True
    import collections.abc  # noqa
    import concurrent.futures  # noqa
    import contextlib, copy, csv, fcntl, functools, gc, hashlib, http.client  # noqa
    import json, locale, logging, pathlib, pickle, shutil, tempfile, threading, time, urllib.request, weakref, zipfile  # noqa

    import numpy  # noqa
    import numpy.lib._datasource, numpy.lib._npyio_impl, numpy.lib.format, numpy.ma, numpy.rec  # noqa
    import numpy.typing  # noqa
    import pandas  # noqa
    import scipy.interpolate  # noqa
    import scipy.spatial  # noqa


ENVREAD = set()  # names of environment variables that the library asked for


def watch_environ():
    orig = os._Environ.__getitem__

    def getitem(self, key):
        f = sys._getframe(1)
        for _ in range(3):
            if f is None:
                break
            if f.f_code.co_filename.startswith(PKG):
                ENVREAD.add(str(key))
                break
            f = f.f_back
        return orig(self, key)

    os._Environ.__getitem__ = getitem


CODE = {}  # compiled working tree, shared with forked processes


def precompile():
    from importlib.machinery import SourceFileLoader

    for n in sorted(os.listdir(PKG)):
        if n.endswith(".py"):
            p = os.path.join(PKG, n)
            ld = SourceFileLoader("pygmm." + n[:-3], p)
            try:
                ld.source_to_code(ld.get_data(p), p)
            except SyntaxError:
                pass


def fresh_sources():
    """Always compile the working tree; never use or write cached bytecode."""
    import importlib._bootstrap_external as be

    def no_cache(path, *a, **k):
        if str(path).startswith(SRC):
            raise NotImplementedError
        return orig(path, *a, **k)

    orig = be.cache_from_source
    be.cache_from_source = no_cache
    import importlib.util

    importlib.util.cache_from_source = no_cache
    compile_ = be.SourceLoader.source_to_code

    def source_to_code(self, data, path, **k):
        if not str(path).startswith(SRC):
            return compile_(self, data, path, **k)
        key = (str(path), bytes(data))
        if key not in CODE:
            CODE[key] = compile_(self, data, path, **k)
        return CODE[key]

    be.SourceLoader.source_to_code = source_to_code
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    elif sys.path[0] != SRC:
        sys.path.remove(SRC)
        sys.path.insert(0, SRC)
    # the editable install may have added a finder; ours must win
    for n in list(sys.modules):
        if n == "pygmm" or n.startswith("pygmm."):
            del sys.modules[n]


ATFORK = []  # what the library registers; runs when the simulated application forks, not when the simulator does


def register_at_fork(*, before=None, after_in_child=None, after_in_parent=None):
    n = sys._getframe(1).f_globals.get("__name__") or ""
    if n == "pygmm" or n.startswith("pygmm."):
        ATFORK.append((before, after_in_child, after_in_parent))
    else:
        _real_register(before=before, after_in_child=after_in_child, after_in_parent=after_in_parent)


def _real_register(**k):
    REAL_REGISTER(**{a: f for a, f in k.items() if f is not None})


REAL_REGISTER = os.register_at_fork


ATEXIT = []  # exit handlers of the library (and of a simulated application), in the order of registration


def _by_library():
    f = sys._getframe(2)
    for _ in range(15):
        if f is None:
            return False
        n = f.f_globals.get("__name__") or ""
        if n == "pygmm" or n.startswith("pygmm."):
            return True
        f = f.f_back
    return False


def at_exit(func, *args, **kwargs):
    """What the library registers runs when the simulated process ends."""
    if _by_library():
        ATEXIT.append((func, args, kwargs))
    else:
        REAL_ATEXIT(func, *args, **kwargs)
    return func


def no_exit(func):
    ATEXIT[:] = [x for x in ATEXIT if x[0] != func]
    REAL_NOEXIT(func)


REAL_ATEXIT, REAL_NOEXIT = atexit.register, atexit.unregister


def fork():
    """The application forks."""
    def each(fs):
        for f in fs:
            if f is not None:
                try:
                    f()
                except Exception:
                    pass  # reported and ignored, as the interpreter does

    each([a[0] for a in reversed(ATFORK)])
    pid = os.fork()
    each([a[2 if pid else 1] for a in ATFORK])
    return pid


def seams(locks=True):
    from . import fs, sched

    os.register_at_fork = register_at_fork
    atexit.register, atexit.unregister = at_exit, no_exit

    fs.install()
    if locks:
        sched.install_locks_and_clock()
        import logging

        logging._lock = sched.LOGGING = sched.SimRLock()
        if logging.lastResort is not None:
            logging.lastResort.lock = sched.SimRLock()
        for ref in logging._handlerList:
            h = ref()
            if h is not None:
                h.lock = sched.SimRLock()
    import random as _r

    import builtins  # noqa

    global _ENTROPY
    _ENTROPY = _r.Random(12345)

    def urandom(n):
        return bytes(_ENTROPY.getrandbits(8) for _ in range(n))

    os.urandom = urandom
    _r._urandom = urandom
    import numpy.random.bit_generator as bg

    bg.randbits = lambda k: _ENTROPY.getrandbits(k)


_ENTROPY = None


def reseed(x):
    """Give a simulated process its own source of entropy."""
    import random

    _ENTROPY.seed(x)
    random.seed(x)
    import numpy as np

    np.random.seed(x & 0xFFFFFFFF)


NPZ_BYTES = None


def npz_bytes():
    """A deterministic synthetic archive for the on-demand model."""
    global NPZ_BYTES
    if NPZ_BYTES is not None:
        return NPZ_BYTES
    import io
    import zipfile

    import numpy as np

    r = np.random.RandomState(7)
    n = 160
    flags = np.eye(3)[np.arange(n) % 3]
    ev = np.c_[
        r.uniform(4, 8, n), r.uniform(0, 40, n), flags, r.uniform(0, 200, n), r.uniform(100, 1200, n)
    ]
    pr = np.empty((n, 12))
    pr[:, 0::2] = r.uniform(-8, 1, (n, 6))
    pr[:, 1::2] = r.uniform(0.2, 0.9, (n, 6))
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as z:
        for name, a in (("events", ev), ("predictions", pr)):
            b = io.BytesIO()
            np.lib.format.write_array(b, np.ascontiguousarray(a))
            zi = zipfile.ZipInfo(name + ".npy", (2014, 1, 1, 0, 0, 0))
            zi.compress_type = zipfile.ZIP_DEFLATED
            z.writestr(zi, b.getvalue())
    NPZ_BYTES = out.getvalue()
    return NPZ_BYTES


def import_library(order=None):
    import importlib

    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if order is None:
            importlib.import_module("pygmm")
            order = MODULES
        for m in order:
            importlib.import_module("pygmm." + m if m else "pygmm")
    import pygmm

    f = os.path.realpath(pygmm.__file__)
    if not f.startswith(os.path.realpath(PKG)):
        raise RuntimeError("wrong pygmm imported: " + f)
    return pygmm
