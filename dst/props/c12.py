import hashlib
import subprocess
import sys

from .. import engine as E
from .. import env
from .. import fs as F
from .. import gen
from .. import norm
from .. import ops
from .. import procs
from .. import settings

# interpreters: hash seed, options, environment fixed when the process starts
CONFIGS = [
    {"PYTHONHASHSEED": "0", "opt": [], "env": {"LC_ALL": "C.UTF-8"}},
    {"PYTHONHASHSEED": "1", "opt": ["-O"], "env": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}},
    {"PYTHONHASHSEED": "77", "opt": [], "env": {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "TZ": "Asia/Kolkata"}},
    {"PYTHONHASHSEED": "4242", "opt": ["-OO"], "env": {"LC_ALL": "C.UTF-8", "PYTHONUTF8": "1", "TZ": "America/St_Johns"}},
    {"PYTHONHASHSEED": "90210", "opt": ["-O", "-b"], "env": {"LANG": "de_DE.UTF-8"}},
    {"PYTHONHASHSEED": "31337", "opt": ["-I", "-X", "int_max_str_digits=0"], "env": {"LC_ALL": "C.UTF-8"}},
    {"PYTHONHASHSEED": "5", "opt": [], "env": {"LC_ALL": "C.UTF-8"}, "bare": True},
    {"PYTHONHASHSEED": "2718281", "opt": ["-O"], "env": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, "bare": True},
    # the library installed elsewhere
    {"PYTHONHASHSEED": "12", "opt": [], "env": {"LC_ALL": "C.UTF-8"}, "where": "copy of [lib] 100%25 #1"},
    {"PYTHONHASHSEED": "13", "opt": ["-O"], "env": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, "where": "k\u00f6pi\u00eb.csv", "link": True},
]
MANY = [{"PYTHONHASHSEED": str(1000 + 7 * i), "opt": [[], ["-O"], ["-OO"]][i % 3], "env": [{"LC_ALL": "C.UTF-8"}, {
    "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}][i % 2]} for i in range(10)]


class Interp:
    def __init__(self, c):
        r1, w1 = E.os.pipe()
        r2, w2 = E.os.pipe()
        e = {"PATH": "/usr/bin:/bin", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "DST_REPO": env.REPO,
             "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1", "PYTHONHASHSEED": c["PYTHONHASHSEED"]}
        e.update(c["env"])
        if "where" in c:
            e["DST_REPO"] = home = where(c)
            F._real.makedirs(E.os.path.dirname(home), exist_ok=True)
            if c.get("link"):
                E.os.symlink(env.REPO, home)
            else:
                E.shutil.copytree(E.os.path.join(env.REPO, "src"), E.os.path.join(home, "src"), ignore=E.shutil.ignore_patterns("__pycache__", "*.pyc"))
        # -I ignores PYTHON* variables; its hash seed is random unless set this way
        opt = [o for o in c["opt"] if o != "-I"] + (["-s", "-P"] if "-I" in c["opt"] else [])
        self.p = subprocess.Popen([sys.executable, "-X", "frozen_modules=on"] + opt + [E.os.path.join(E.VERIF, "dst", "fresh.py"), str(r2), str(w1),
                                  "bare" if c.get("bare") else "full"], pass_fds=(r2, w1), env=e, close_fds=True,
                                  stdout=subprocess.DEVNULL, stderr=None if E.os.environ.get("DST_DEBUG") else subprocess.DEVNULL)
        F._real.os_close(w1)
        F._real.os_close(r2)
        self.rd, self.wr = r1, w2
        m = procs._take(r1, 120)
        if m is None or "ready" not in m:
            raise E.HarnessError("interpreter did not start: %s" % m)

    def call(self, cfg):
        procs._put(self.wr, cfg)
        m = procs._take(self.rd, 120)
        if m is None:
            raise E.HarnessError("interpreter ended")
        return m

    def end(self):
        F._real.os_close(self.wr)
        F._real.os_close(self.rd)
        self.p.kill()
        self.p.wait()


def where(c):
    return E.os.path.join(E.BASE, "w%d" % F._real.getpid(), c["where"])


INTERPS = {}


class C12(E.Prop):
    id = "C12"
    runs = {"quick": 400, "thorough": 20000}
    rule = ("A run is 2-4 process lifetimes on one simulated disk (package directory, home, temporary directory, a working directory with decoy files). "
            "Each lifetime belongs to a freshly started interpreter with one of 10 (thorough: 20) combinations of hash seed, -O/-OO, locale, text encoding and place of installation, "
            "and draws the machine it believes to be on (processors, names, users), its import order, working directory (also a deleted one), home, clock, entropy and standard streams; some are killed at a drawn executed line or file operation while importing or "
            "evaluating. Every outcome and message is compared with the same call alone in a fresh process. Non-trivial: a kill happened or two configurations differ; "
            "distinct by lifetime configurations, kill points and calls.")
    real = "all of src/pygmm and third-party packages in real interpreters started with real options and environment"
    like = {"fsw": 4}
    stubs = "clock, entropy, file operations on the package, home and temporary directories (overlay), the HKR14 archive (synthetic)"
    assumptions = ("one machine, one Python and one set of third-party versions",)

    def stop_worker(self):
        for x in INTERPS.values():
            x.end()
        E.shutil.rmtree(E.os.path.join(E.BASE, "w%d" % F._real.getpid()), ignore_errors=True)
        INTERPS.clear()

    def gen(self, rng, eng, tier, index):
        w, classes, fams, fg = gen.setup(rng, prebuilt=0.2, dicts=0.2)
        if rng.random() < 0.4:
            for c in classes:
                fams[c].append(w.add_scn(gen.questionable(rng, w.scn[rng.choice(fams[c])]["kw"], c)))
        pool = [gen.mixed_op(w, classes, fams, fg) for _ in range(rng.choice([3, 5, 8]))]
        if rng.random() < 0.5:
            # reports list what is offered: the same text in every interpreter
            for c in rng.sample(gen.ALL, 5):
                op = gen.build(w, c, w.add_scn(gen.badcat(rng, gen.base(rng, c), c)), 2)
                op["reads"] = op["reads"][:2]
                pool.append(op)
        world = w.data()
        nconf = len(CONFIGS) if tier == "quick" else len(CONFIGS) + len(MANY)
        lives = []
        n = rng.choice([2, 2, 3, 4])
        for i in range(n):
            c = rng.randrange(nconf)
            if c in (6, 7) and rng.random() < 0.6:
                c = rng.randrange(6)
            x = rng.random()
            if x < 0.4:
                order = ["pygmm"]
            else:
                ms = list(env.MODULES)
                rng.shuffle(ms)
                order = ["pygmm." + m for m in ms[:rng.choice([1, 3, len(ms)])]] + ["pygmm"]
            ops_ = [dict(o) for o in rng.sample(pool, rng.randint(1, len(pool)))]
            if w.hot:
                # calls that leave something behind (perhaps on the disk): in every lifetime
                ops_[rng.randrange(len(ops_)):0] = [dict(o) for o in w.hot[:2]]
            for j, o in enumerate(ops_):
                o["id"] = 1000 * (i + 1) + j
            li = {"n": i, "conf": c, "order": order, "ops": ops_, "entropy": rng.getrandbits(32),
                  "cwd": rng.choice(["gone", "/", "$decoy", "$decoy", "$home", "/tmp"]), "nostd": rng.random() < 0.15,
                  "facts": gen.facts(rng) if rng.random() < 0.7 else None,
                  "t0": rng.choice([0.0, -1.7e9, 4.4e8, 9e9, 123.456]), "unset": rng.choice([[], [], ["HOME"], ["USER", "TMPDIR"]]),
                  "env": {"HOME": rng.choice(["$home", "$home", "/nonexistent"]), "USER": rng.choice(["sim", "root"]), "COLUMNS": rng.choice(["80", "1"])}}
            for k in sorted(env.ENVREAD):
                # variables that the library asks for
                if rng.random() < 0.6:
                    li["env"][k] = rng.choice(["", "0", "1", "true", "x", "25", "$home", "$decoy", "/nonexistent", "C"])
            if rng.random() < 0.5:
                li["argv"] = rng.choice([["prog"], ["prog", "--debug", "-v"], ["-c"], ["pytest", "-x"], [""]])
            if rng.random() < 0.5 and not (CONFIGS + MANY)[c].get("bare"):
                # choices of the application that results must not depend on
                li["app"] = {k: v for k, v in settings.draw(rng).items() if k in (
                    "print", "decimal", "gc", "switch", "umask", "timeout", "seed", "excepthook", "sigint", "pandas", "bufsize")}
            if i < n - 1 and rng.random() < 0.6:
                x = rng.random()
                if x < (0.55 if w.hot else 0.08):
                    li["wplan"] = {str(rng.randint(1, rng.choice([3, 8, 30]))): "kill"}
                elif x < 0.35 or w.hot and x < 0.65:
                    li["plan"] = {str(rng.randint(1, 60)): "kill"}
                elif x < 0.7:
                    li["kill"] = [[1, rng.randint(1, rng.choice([60, 600, 2600]))]]
                else:
                    o = rng.choice(ops_)
                    li["kill"] = [[o["id"], rng.randint(1, max(2, eng.ref(o, world)["n"]))]]
            lives.append(li)
        return {"world": world, "lives": lives, "policy": {"k": "serial"}, "pseed": 0}

    def run(self, spec, eng):
        eng.runs += 1
        d = E.os.path.join(E.BASE, "c12-%d-%d" % (F._real.getpid(), eng.runs))
        decoy = E.os.path.join(d, "decoy")
        F._real.makedirs(E.os.path.join(decoy, "data"))
        F._real.makedirs(E.os.path.join(d, "home"))
        try:
            fs = F.FS(E.os.path.join(d, "fs"))
            fs.root = env.REPO
            fs.whiteouts = F.DiskSet(E.os.path.join(d, "wh"))
            fs.put(env.NPZ, env.npz_bytes())
            for c in {li["conf"] for li in spec["lives"]}:
                c = (CONFIGS + MANY)[c]
                if "where" in c:
                    fs.put(E.os.path.join(where(c), E.os.path.relpath(env.NPZ, env.REPO)), env.npz_bytes())
            for n in ("campbell_2003.csv", "idriss_2014-small.csv", "stafford_2017.json"):
                for q in (decoy, E.os.path.join(decoy, "data")):
                    with F._real.open(E.os.path.join(q, n), "w") as f:
                        f.write("1,2\n3,4\n")
            out = []
            confs = CONFIGS + MANY
            for li in spec["lives"]:
                c = li["conf"]
                if c not in INTERPS:
                    INTERPS[c] = Interp(confs[c])
                cfg = E.json.loads(E.json.dumps(li).replace("$decoy", decoy).replace("$home", E.os.path.join(d, "home")))
                cfg.update(d=d, world=spec["world"])
                out.append(INTERPS[c].call(cfg))
            left = sorted(F.FS.listing(fs))
            return {"lives": out, "left": [p.replace(d, "") for p in left if not p.endswith(E.os.path.relpath(env.NPZ, env.REPO))]}
        finally:
            E.shutil.rmtree(d, ignore_errors=True)

    def summary(self, res):
        return [[m.get("died"), m.get("op"), m.get("n"), m.get("steps"), m.get("import")] for l in res["lives"] for m in l]

    def nontrivial(self, spec, res):
        k = E.json.dumps([[li["conf"], li["order"], li.get("kill"), li.get("plan"), li.get("wplan"), li["cwd"], li["ops"]] for li in spec["lives"]])
        return (any(m.get("died") for l in res["lives"] for m in l) or len({li["conf"] for li in spec["lives"]}) > 1,
                hashlib.blake2b(k.encode(), digest_size=10).hexdigest())

    def digest(self, spec, res):
        return hashlib.blake2b(E.json.dumps([self.summary(res), res["lives"], res["left"]], sort_keys=True).encode(), digest_size=10).hexdigest()

    def stats(self, spec, res, acc):
        for li, l in zip(spec["lives"], res["lives"]):
            acc["processes"] = acc.get("processes", 0) + 1
            acc["calls"] = acc.get("calls", 0) + sum(1 for m in l if "op" in m)
            acc["steps"] = acc.get("steps", 0) + max([m.get("steps", 0) for m in l] or [0])
            E.bump(acc, "configuration", str(li["conf"]))
            E.bump(acc, "cwd", li["cwd"])
            for m in l:
                if m.get("died"):
                    E.bump(acc, "faults", "kill@" + ("fs write" if li.get("wplan") else "fs" if li.get("plan") else "import" if li["kill"][0][0] == 1 else "call"))
        for o in [o for li in spec["lives"] for o in li["ops"]]:
            E.bump(acc, "classes", o.get("cls") or o.get("fn") or o["k"])

    def explain(self, spec, res):
        out = []
        for li, l in zip(spec["lives"], res["lives"]):
            out.append("process %d: %s, cwd %s, order %s: %s" % (li["n"], (CONFIGS + MANY)[li["conf"]], li["cwd"], ",".join(li["order"])[:200],
                       "killed" if any(m.get("died") for m in l) else "ended"))
        return out

    def sample(self, spec, res):
        return {"lives": [{k: v for k, v in li.items() if k not in ("ops",)} for li in spec["lives"]], "summary": self.summary(res)}

    def judge(self, spec, res, eng):
        norm.exact()
        v = []
        for li, l in zip(spec["lives"], res["lives"]):
            where = "in process %d (%s)" % (li["n"], (CONFIGS + MANY)[li["conf"]])
            for m in l:
                if "harness" in m:
                    raise E.HarnessError(m["harness"])
                if m.get("import") is not None:
                    v.append({"sig": "import", "op": -1, "msg": "import failed %s: %s" % (where, norm.short(m["import"]))})
                if m.get("stop"):
                    v.append({"sig": "stop", "op": -1, "msg": "%s %s" % (m["stop"], where)})
                if "op" in m:
                    op = next(o for o in li["ops"] if o["id"] == m["op"])
                    ref = eng.ref(op, spec["world"])
                    if ref["out"] is None:
                        continue
                    # (what is read again after an in-place change is C05's business)
                    d = norm.diff({k: x for k, x in m["out"].items() if k[0] != "q"}, ref["out"])
                    if d:
                        v.append({"sig": "outcome", "op": op["id"], "msg": "%s differs %s: %s" % (E.describe(op, spec), where, d)})
                    elif m["diag"] != ref["diag"]:
                        v.append({"sig": "diag", "op": op["id"], "msg": "reports of %s differ %s: %s, expected %s" % (
                            E.describe(op, spec), where, norm.short(m["diag"]), norm.short(ref["diag"]))})
            if not any(m.get("died") or m.get("end") or m.get("import") for m in l):
                v.append({"sig": "crash", "op": -1, "msg": "the interpreter crashed %s" % where})
        return v

    def shrink_steps(self, spec, bad):
        cur = spec
        cur = dict(cur, lives=E.ddmin(cur["lives"], lambda x: bad(dict(cur, lives=x))))
        for i in range(len(cur["lives"])):
            def put(**k):
                return dict(cur, lives=[dict(x, **k) if j == i else x for j, x in enumerate(cur["lives"])])
            cur = put(ops=E.ddmin(cur["lives"][i]["ops"], lambda x: bad(put(ops=x))))
            for k, z in (("kill", []), ("plan", {}), ("wplan", {}), ("order", ["pygmm"]), ("cwd", "/"), ("app", {}), ("nostd", False), ("facts", None), ("argv", ["prog"]), ("unset", []), ("conf", 0), ("t0", 0.0)):
                if cur["lives"][i].get(k, z) != z and bad(put(**{k: z})):
                    cur = put(**{k: z})
        return cur


PROP = C12()
