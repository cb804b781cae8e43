from .. import engine as E
from .. import gen


class C03(E.Prop):
    id = "C03"
    like = {"mid": 2}
    runs = {"quick": 1100, "thorough": 40000}
    rule = ("A run is 1-3 threads of calls in which a third to a half of the calls are aborted (KeyboardInterrupt, MemoryError, RecursionError, TimeoutError, SystemExit) at a "
            "drawn control point (line or bytecode; biased to just after a store and to the end of the call), by an error raised from a "
            "warning hook, or by an I/O error during first use of the on-demand model; aborted calls are repeated, and the history ends with fault-free "
            "calls of every kind used. Non-trivial: at least one fault fired; distinct by execution hash.")

    def gen(self, rng, eng, tier, index):
        classes = None
        if rng.random() < 0.12:
            classes = ["HKR14"] + ([rng.choice(gen.ALL)] if rng.random() < 0.3 else [])
        w, classes, fams, fg = gen.setup(rng, classes=classes, prebuilt=0.6)
        nth = rng.choice([1, 1, 1, 2, 2, 3])
        gran = "instr" if rng.random() < 0.3 else "line"
        threads, todo = [], []
        for i in range(nth):
            ops = []
            for _ in range(rng.choice([1, 2, 3, 4] if nth == 1 else [1, 2])):
                op = gen.mixed_op(w, classes, fams, fg, p_scn=0.2)
                if rng.random() < 0.55:
                    todo.append(op)
                    ops.append(op)
                    if rng.random() < 0.7:
                        ops.append(dict(op))
                else:
                    ops.append(op)
            if i == 0 and rng.random() < (0.35 if w.hot else 0.06):
                b = gen.burst(w, classes, fams, fg)
                todo += [o for o in b[:-1] if rng.random() < 0.9]
                ops += b
            threads.append(ops)
        if not todo:
            todo.append(threads[0][0])
        # fault-free calls at the end
        last = threads[rng.randrange(nth)]
        for c in classes:
            last.append(gen.build(w, c, rng.choice(fams[c])))
        for op in rng.sample(todo, min(3, len(todo))):
            last.append(dict(op))
        for j in range(len(w.mdl)):
            last.append({"k": "read", "m": j, "reads": gen.reads(w, w.mdl[j]["cls"])})
        ident = [id(o) for o in todo]
        world = w.data()
        E.number(threads)
        faults = []
        for th in threads:
            for op in th:
                if id(op) in ident:
                    ident.remove(id(op))
                    faults.append([op["id"], E.place(rng, eng, op, world, gran), E.abort_kind(rng)])
        spec = {"world": world, "threads": threads, "gran": gran, "faults": faults}
        if rng.random() < 0.15:
            hooks = []
            for th in threads:
                for op in th[: len(th) // 2 + 1]:
                    if op["k"] in ("build", "fn") and eng.ref(op, world)["diag"]:
                        hooks.append({"op": op["id"], "at": 1, "do": {"raise": E.hook_error(rng)}})
            if hooks:
                spec["hooks"] = hooks
        if "HKR14" in classes and rng.random() < 0.6:
            n = rng.randint(1, 22)
            spec["fs"] = {"npz": "ok", "plan": {str(n): rng.choice(["EIO", "EMFILE", "EACCES", "short", "kbd", "mem", "ENOENT"])}}
        est = sum(eng.ref(op, world)["n"] for th in threads for op in th) * (9 if gran == "instr" else 1)
        spec["policy"] = E.policy(rng, nth, est) if nth > 1 else {"k": "serial"}
        spec["pseed"] = rng.getrandbits(48)
        return spec

    def nontrivial(self, spec, res):
        return bool(res["fired"] or res["fsc"] or res["ops"].get("hookfired")), res["hash"] + E.json.dumps(res["fsc"])

    def judge(self, spec, res, eng):
        return E.judge_outcomes(spec, res, eng) + E.judge_inputs_after(spec, res) + E.judge_deadlock(spec, res)


PROP = C03()
