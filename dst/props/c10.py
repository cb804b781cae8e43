from .. import engine as E
from .. import env
from .. import gen
from .. import settings


class C10(E.Prop):
    id = "C10"
    like = {"setting": 4}
    runs = {"quick": 1000, "thorough": 40000}
    rule = ("A run evaluates valid, questionable and invalid calls in 1-3 threads, some aborted, and compares about 45 process-wide settings "
            "before and after, the thread-local ones around every call, and what a separate observer thread sees whenever the "
            "scheduler notices a difference at a control point. Run 0 also compares the settings around importing the package in a process that "
            "has not imported it. Non-trivial: at least one call ran to an outcome while settings were observed; distinct by execution hash.")

    def gen(self, rng, eng, tier, index):
        c = rng.random()
        classes = [rng.choice(gen.REPORTING)] + ([rng.choice(gen.ALL)] if rng.random() < 0.5 else []) if c < 0.5 else None
        if classes:
            classes = list(dict.fromkeys(classes))
        w, classes, fams, fg = gen.setup(rng, classes=classes, prebuilt=0.3)
        for c in classes:
            kw = w.scn[rng.choice(fams[c])]["kw"]
            for _ in range(2):
                kw = gen.questionable(rng, kw, c)
                fams[c].append(w.add_scn(kw))
        nth = rng.choice([1, 1, 2, 3])
        gran = "instr" if rng.random() < 0.2 else "line"
        threads = []
        for i in range(nth):
            threads.append([gen.mixed_op(w, classes, fams, fg, p_fn=0.35) for _ in range(rng.choice([1, 2, 4]))])
            if rng.random() < 0.12:
                threads[-1].insert(rng.randrange(len(threads[-1]) + 1), self.reimport(rng))
        world = w.data()
        threads.append([{"k": "settings"} for _ in range(rng.choice([2, 4]))])
        E.number(threads)
        faults = []
        if rng.random() < 0.4:
            for th in threads[:-1]:
                for op in th:
                    if rng.random() < 0.5:
                        faults.append([op["id"], E.place(rng, eng, op, world, gran), E.abort_kind(rng)])
        est = sum(eng.ref(op, world)["n"] for th in threads[:-1] for op in th) * (9 if gran == "instr" else 1)
        spec = {"world": world, "threads": threads, "gran": gran, "faults": faults, "settings": True, "noroot": True,
                "policy": E.policy(rng, nth + 1, est), "pseed": rng.getrandbits(48),
                "watch": {"what": "settings", "tid": nth}}
        if any(op["k"] == "reimport" for th in threads for op in th) and rng.random() < 0.5:
            spec["fs"] = {"npz": "ok", "plan": {str(rng.randint(1, rng.choice([4, 12]))): rng.choice(["EIO", "EMFILE", "ENOENT", "kbd", "mem", "short"])
                                                for _ in range(rng.choice([1, 1, 2]))}}
        if rng.random() < 0.6:
            spec["app"] = settings.draw(rng)
        if index == 0:
            spec["import"] = True
        return spec

    def reimport(self, rng):
        if rng.random() < 0.6:
            net = [{"k": rng.choice(["refused", "dns", "timeout", "http", "reset", "short", "rtimeout"]), "frac": round(rng.random(), 2)}]
            if rng.random() < 0.3:
                net[0]["always"] = 1
            return {"k": "reimport", "mod": "hermkes_kuehn_riggelsen_2014", "net": net if rng.random() < 0.6 else []}
        return {"k": "reimport", "mod": rng.choice([m for m in env.MODULES if m not in ("model", "types")])}

    def nontrivial(self, spec, res):
        return True, res["hash"] + res["il"]

    def stats(self, spec, res, acc):
        super().stats(spec, res, acc)
        acc["settings_compared"] = len(res.get("set0") or {})

    def shrink_steps(self, spec, bad):
        if spec.get("import"):
            c = dict(spec, threads=[[] for _ in spec["threads"]], faults=[])
            if bad(c):
                return c
        return E.shrink_threads(spec, bad)

    def judge(self, spec, res, eng):
        v = []
        if spec.get("import") and E.IMPORT_DIFF:
            v.append({"sig": "import", "op": -1, "msg": "importing the package changed " + E.IMPORT_DIFF})
        for op in E.all_ops(spec):
            rec = res["ops"].get(str(op["id"]))
            if not rec:
                continue
            if rec.get("own"):
                v.append({"sig": "own-setting", "op": op["id"], "msg": "after %s: %s" % (E.describe(op, spec), rec["own"])})
            if op["k"] == "settings" and "set" in rec["out"]:
                d = settings.diff(res["set0"], rec["out"]["set"])
                if d:
                    v.append({"sig": "setting-seen", "op": op["id"], "msg": "another thread saw " + d})
        for d in res.get("set") or ():
            v.append({"sig": "setting", "op": -1, "msg": "left changed: " + d})
        return v


PROP = C10()
