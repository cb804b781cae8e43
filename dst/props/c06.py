import hashlib
import importlib
import random
import sys

from .. import engine as E
from .. import env
from .. import fs as F
from .. import gen
from .. import norm
from .. import ops
from .. import sched as S

SLOW = ["hermkes_kuehn_riggelsen_2014"]
BATTERY = None


def battery():
    """Fixed calls that use every model and function (independent of the run)."""
    global BATTERY
    if BATTERY is None:
        rng = random.Random(20140206)
        w = gen.W(rng)
        out = []
        for cls in sorted(gen.C):
            for _ in range(3):
                op = gen.build(w, cls, w.add_scn(gen.base(rng, cls)))
                if gen.C[cls]["kind"] == "gmm":
                    op["reads"] = ["periods", "spec_accels", "ln_stds", "pga", "pgv", "pgd"] + [r for r in op["reads"] if isinstance(r, list)]
                out.append(op)
        for _ in range(60):
            out.append(gen.fn(w))
        for i, op in enumerate(out):
            op["id"] = i + 1
        BATTERY = out, w.data()
    return BATTERY


def modname(op):
    if op["k"] == "build":
        return gen.C[op["cls"]]["mod"]
    a = op["fn"].split(".")[0]
    if op["fn"] in ("K17.cmsv",):
        return "kishida_2017"
    if op["fn"] == "PR24.duration_model":
        return "pinilla_ramos_et_al_2024"
    return ops.FN[a][0] if a in ops.FN else gen.C[a]["mod"]


def tables(m):
    """Published tables: upper-case attributes of a module's classes and the module itself."""
    out = {}

    def take(where, ns):
        for k, v in ns.items():
            if k.isupper() and not k.startswith("_"):
                x = norm.value(v)
                if not (x and x[0] == "r"):
                    out[where + k] = hashlib.blake2b(E.json.dumps(x, sort_keys=True).encode(), digest_size=6).hexdigest()

    take("", {k: v for k, v in vars(m).items() if k != "INTERPOLATOR"})
    for n, c in sorted(vars(m).items()):
        if isinstance(c, type) and c.__module__ == m.__name__:
            take(n + ".", {k: v for k, v in vars(c).items() if not isinstance(v, (property, type(tables), staticmethod, classmethod))})
    return out


def check(mods):
    """Outcome of the battery on the modules named."""
    ops_, world = battery()
    out = {}
    for n in sorted(mods):
        out["t:" + n] = tables(importlib.import_module("pygmm." + n))
    ctx = ops.Ctx(world)
    for op in ops_:
        if modname(op) in mods:
            out[str(op["id"])] = ops.perform(op, ctx)["out"]
    return out


def public():
    p = sys.modules["pygmm"]
    d = {"all": sorted(p.__all__), "missing": [n for n in p.__all__ if not hasattr(p, n)],
         "models": [getattr(m, "__name__", str(m)) for m in p.models], "version": p.__version__,
         "foreign": [n for n in p.__all__ if hasattr(p, n) and getattr(p, n) is not getattr(
             sys.modules.get(getattr(getattr(p, n), "__module__", None) or "?"), n, "absent")]}
    return d


def loaded():
    return {n[6:] for n in list(sys.modules) if n.startswith("pygmm.") and n[6:] in env.MODULES}


def imp(name):
    try:
        m = importlib.import_module(name)
    except (S.SimStop, S.OpLimit):
        raise
    except BaseException as e:
        return norm.exc(e)
    return None if m is sys.modules.get(name) else ["stale"]


def execute(spec):
    ops.capture()
    fs, d = E.new_fs(spec)
    try:
        sc = S.Scheduler(E.make_policy(spec["policy"], spec.get("pseed", 0), len(spec["threads"])), E.CODESET, "line",
                         faults={(a, b): k for a, b, k in spec.get("faults", ())}, replaying=spec["policy"]["k"] == "replay",
                         max_steps=300000, op_limit=150000)
        recs = {}
        count = {}
        if spec.get("marks"):
            sc.marks = {}

        def body(th):
            def run(t):
                for op in th:
                    sc.begin_op(t, op["id"])
                    try:
                        recs[op["id"]] = imp(op["name"])
                    except S.OpLimit:
                        recs[op["id"]] = ["oplimit"]
                    finally:
                        count[op["id"]] = t.evt
                        sc.end_op(t)
            return run

        sc.install()
        try:
            fs.armed = True
            stop = sc.run([body(th) for th in spec["threads"]], main=E.in_main(spec))
        finally:
            sc.uninstall()
            fs.armed = False
        if stop and stop[0] == "harness":
            raise E.HarnessError("thread body failed: %s" % (stop,))
        good = [op["name"] for th in spec["threads"] for op in th if recs.get(op["id"], 1) is None]
        res = {"ops": {str(k): v for k, v in recs.items()}, "stop": stop, "switches": sc.switches, "steps": sc.steps, "nsw": sc.nswitch,
               "hash": sc.hash.hexdigest(), "il": sc.ilhash.hexdigest(), "fired": sc.fired, "waits": sc.lock_waits, "fsn": fs.n,
               "fsc": fs.counts, "now": sc.now, "mid": None}
        if spec.get("marks"):
            res["marks"] = {op["name"][6:]: [count[op["id"]], sc.marks.get(op["id"], [])] for th in spec["threads"] for op in th}
        fs.plan, fs.sticky = {}, None
        if spec.get("mid", True) and good and not stop:
            mods = loaded() if "pygmm" in good else {n[6:] for n in good}
            res["mid"] = check(mods)
            if "pygmm" in good:
                res["midpub"] = public()
        res["again"] = [x for x in [imp("pygmm")] + [imp("pygmm." + n) for n in env.MODULES] if x is not None]
        if not res["again"]:
            res["end"] = check(env.MODULES)
            res["endpub"] = public()
        return res
    finally:
        F.FSOBJ = None
        E.shutil.rmtree(d, ignore_errors=True)


class C06(E.Prop):
    id = "C06"
    zygote = False
    runs = {"quick": 1000, "thorough": 40000}
    rule = ("A run starts a process without the library and imports the package, or modules of it in a drawn order, in 1-3 threads, while the simulated disk "
            "fails drawn opens or reads of the bundled files (EIO, EMFILE, EACCES, ENOENT, ESTALE; once or persistently) or splits reads, and "
            "interrupts or allocation failures strike at drawn file operations or executed lines. Whatever an import that returned made available is compared with a "
            "clean process (tables of all classes, and a battery of calls of every model and function); then faults stop and everything is imported again in the same process and "
            "compared in full. Non-trivial: a fault fired or imports overlapped; distinct by execution hash.")
    real = "all of src/pygmm, the import system, numpy/pandas file parsing, real files"
    stubs = "thread scheduling, locks and clocks; open/read/stat of package files (faults); the HKR14 archive (synthetic)"

    def clean(self, eng):
        c = getattr(eng, "_c06", None)
        if c is None:
            spec = {"threads": [[{"k": "imp", "name": "pygmm", "id": 1001}]], "policy": {"k": "serial"}}
            r = E.forkrun(execute, spec)
            if r["again"] or r["ops"]["1001"] is not None:
                raise E.HarnessError("clean import fails: %s %s" % (r["ops"], r["again"]))
            s2 = E.forkrun(execute, {"threads": [[{"k": "imp", "name": "pygmm" + n, "id": 1001 + i} for i, n in enumerate(
                [""] + ["." + n for n in env.MODULES])]], "policy": {"k": "serial"}, "marks": True})
            if any(x is not None for x in s2["ops"].values()):
                raise E.HarnessError("clean import fails: %s" % (s2["ops"],))
            c = eng._c06 = dict(r, all=s2)
            # where a module has just executed something, in its outermost code
            s2["late"] = {m: [e for e, x in ev if x] for m, (n, ev) in s2["marks"].items()}
            s2["marks"] = {m: (n, [e for e, _ in ev]) for m, (n, ev) in s2["marks"].items()}
        return c

    def gen(self, rng, eng, tier, index):
        c = self.clean(eng)
        nth = rng.choice([1, 1, 1, 1, 2, 3])
        threads = []
        for i in range(nth):
            x = rng.random()
            if x < 0.5 or nth > 1:
                # (modules of one package imported from several threads can meet CPython's
                # own import deadlock avoidance, which is not the library's doing)
                names = ["pygmm"] * rng.choice([1, 1, 1, 2])
            else:
                from_ = env.MODULES
                if rng.random() < 0.4:  # those that the package itself does not load
                    from_ = [m for m, (n, _) in sorted(c["all"]["marks"].items()) if n and m] or from_
                names = ["pygmm." + n for n in rng.sample(from_, min(len(from_), rng.choice([1, 2, 4, len(env.MODULES)])))]
                if rng.random() < 0.3:
                    names.insert(rng.randrange(len(names) + 1), "pygmm")
            threads.append([{"k": "imp", "name": n} for n in names])
        E.number(threads)
        a = c["all"]
        fs = {}
        N = max(2, a["fsn"])
        kinds = ["EIO", "EIO", "EIO", "EMFILE", "EACCES", "ENOENT", "ESTALE", "short", "kbd", "mem"]
        x = rng.random()
        faults = []
        if x < 0.5:
            fs["plan"] = {str(rng.randint(1, N)): rng.choice(kinds) for _ in range(rng.choice([1, 1, 1, 2, 4]))}
        elif x < 0.62:
            s = rng.randint(1, N)
            fs["sticky"] = [rng.choice(["EIO", "EMFILE", "EACCES", "ENOENT"]), s, s + rng.choice([1, 3, 10, 1000000])]
        elif x < 0.75:
            s = rng.choice([1, rng.randint(1, N)])
            fs["sticky"] = ["short", s, s + rng.choice([100, 1000000])]
        if x > 0.7 or rng.random() < 0.15:
            for th in threads:
                for op in th[:3]:
                    if rng.random() < 0.6:
                        top = a["steps"] if rng.random() < 0.5 else rng.choice([40, 300, a["steps"]])
                        at = rng.randint(1, top)
                        if rng.random() < 0.5:
                            # in the outermost code of a module, rather just after a definition
                            def point(m):
                                late = a["late"][m]
                                return rng.choice(late) if late and rng.random() < 0.5 else rng.choice(a["marks"][m][1])

                            m = op["name"][6:]
                            outside = m and a["marks"][m][1]
                            if op is not th[0]:
                                at = point(m) if outside else at
                            elif outside and rng.random() < 0.6:
                                at = a["marks"][""][0] + point(m)
                            else:
                                at = point("")
                        faults.append([op["id"], at, E.abort_kind(rng)])
        return {"threads": threads, "faults": faults, "fs": fs, "mid": rng.random() < 0.5,
                "policy": {"k": "serial"} if nth == 1 else E.policy(rng, nth, a["steps"]), "pseed": rng.getrandbits(48)}

    def run(self, spec, eng):
        eng.runs += 1
        return E.forkrun(execute, spec)

    def nontrivial(self, spec, res):
        return bool(res["fired"] or res["fsc"] or res["nsw"]), res["hash"] + E.json.dumps([spec["threads"], res["fsc"]])

    def digest(self, spec, res):
        return "%s/%s" % (res["hash"], hashlib.blake2b(E.json.dumps([res["ops"], res["again"], res.get("end"), res.get("mid")],
                                                                   sort_keys=True).encode(), digest_size=6).hexdigest())

    def stats(self, spec, res, acc):
        super().stats(dict(spec, threads=[]), res, acc)
        for v in res["ops"].values():
            E.bump(acc, "imports", "returned" if v is None else v[1] if len(v) > 1 else v[0])

    def judge(self, spec, res, eng):
        c = self.clean(eng)
        v = []
        hit = bool(res["fired"] or res["fsc"])
        if res["stop"]:
            v.append({"sig": "stop", "op": -1, "msg": "import never finished: %s" % (res["stop"],)})
            return v
        for th in spec["threads"]:
            for op in th:
                r = res["ops"].get(str(op["id"]))
                if r == ["oplimit"]:
                    v.append({"sig": "endless", "op": op["id"], "msg": "import of %s never finished" % op["name"]})
                elif r is not None and not hit:
                    v.append({"sig": "raised", "op": op["id"], "msg": "import of %s raised %s although nothing failed" % (op["name"], norm.short(r))})
        hard = [k for k in res["fsc"] if k.split("@")[0] in ("EIO", "EMFILE", "EACCES", "ENOENT", "ESTALE", "kbd", "mem") and
                k.split("@")[1] in ("open_r", "read")]
        if hard and not res["fired"] and all(x is None for x in res["ops"].values()):
            v.append({"sig": "silent", "op": -1, "msg": "every import returned although %s" % ", ".join(
                "%s failed with %s" % tuple(k.split("@")[::-1]) for k in hard)})
        for what, pub, sig in (("mid", "midpub", "incomplete"), ("end", "endpub", "again")):
            got = res.get(what)
            if got is None:
                continue
            when = "an import that returned" if what == "mid" else "importing again after the faults stopped"
            for k in sorted(got):
                d = norm.diff(got[k], c["end"][k])
                if d:
                    w = k[2:] if k[:2] == "t:" else "call %s" % E.describe(battery()[0][int(k) - 1], {"world": battery()[1]})
                    v.append({"sig": sig, "op": -1, "msg": "%s left %s different from a clean import: %s" % (when, w, d)})
                    break
            if pub in res:
                d = norm.diff(norm.value(res[pub]), norm.value(c["endpub"]))
                if d:
                    v.append({"sig": sig, "op": -1, "msg": "%s gives an incomplete package: %s" % (when, d)})
        if res["again"]:
            v.append({"sig": "again", "op": -1, "msg": "importing again after the faults stopped raised %s" % norm.short(res["again"][0])})
        return v


PROP = C06()
