from .. import engine as E
from .. import gen


class C09(E.Prop):
    id = "C09"
    runs = {"quick": 1300, "thorough": 45000}
    rule = ("A run is 1-3 threads evaluating models on scenarios with out-of-range, unknown, missing and borderline entries, repeatedly and "
            "near-identically, some calls aborted or rejected; the warnings (filter 'always') and log records of each call are collected "
            "per thread and compared, as are the errors, with those of the same call alone in a fresh process. Non-trivial: "
            "some call must report something and at least two calls run; distinct by execution and interleaving hash.")

    def gen(self, rng, eng, tier, index):
        n = rng.choice([1, 1, 2, 2])
        classes = [rng.choice(gen.REPORTING) for _ in range(n)] if rng.random() < 0.8 else gen.pick_classes(rng, n)
        classes = list(dict.fromkeys(classes))
        w, classes, fams, fg = gen.setup(rng, classes=classes, nfam=(2, 5), prebuilt=0.1)
        # push entries out of range
        for c in classes:
            for _ in range(rng.choice([1, 2, 3])):
                kw = dict(w.scn[rng.choice(fams[c])]["kw"])
                for _ in range(rng.choice([1, 2, 3])):
                    kw = gen.questionable(rng, kw, c)
                fams[c].append(w.add_scn(kw, rng.choice(["S", "S", "dict"])))
        nth = rng.choice([1, 1, 2, 2, 3])
        gran = "instr" if rng.random() < 0.2 else "line"
        threads = []
        for i in range(nth):
            ops = []
            for _ in range(rng.choice([3, 5, 8]) if nth == 1 else rng.choice([1, 2, 3])):
                if ops and rng.random() < 0.3:
                    ops.append(dict(rng.choice(ops)))
                elif rng.random() < 0.85:
                    c = rng.choice(classes)
                    ops.append(gen.build(w, c, rng.choice(fams[c]), None))
                    if rng.random() < 0.6:
                        ops[-1]["reads"] = ops[-1]["reads"][:1]
                else:
                    ops.append(gen.mixed_op(w, classes, fams, fg, p_fn=0.5, p_scn=0.3))
            threads.append(ops)
        world = w.data()
        E.number(threads)
        faults = []
        if rng.random() < 0.3:
            for th in threads:
                for op in th:
                    if rng.random() < 0.35:
                        faults.append([op["id"], E.place(rng, eng, op, world, gran), E.abort_kind(rng)])
        est = sum(eng.ref(op, world)["n"] for th in threads for op in th) * (9 if gran == "instr" else 1)
        return {"world": world, "threads": threads, "gran": gran, "faults": faults,
                "policy": E.policy(rng, nth, est) if nth > 1 else {"k": "serial"}, "pseed": rng.getrandbits(48)}

    def nontrivial(self, spec, res):
        n = sum(1 for op in E.all_ops(spec))
        d = any(r.get("diag") for r in res["ops"].values() if isinstance(r, dict))
        return n > 1 and d, res["hash"] + res["il"] + E.json.dumps(spec["threads"])[:2000]

    def stats(self, spec, res, acc):
        super().stats(spec, res, acc)
        acc["reports"] = acc.get("reports", 0) + sum(len(r.get("diag", [])) for r in res["ops"].values() if isinstance(r, dict))

    def judge(self, spec, res, eng):
        v = E.judge_diag(spec, res, eng) + E.judge_deadlock(spec, res)
        for x in E.judge_outcomes(spec, res, eng):
            if "'exc'" in x["msg"]:
                v.append(dict(x, sig="error"))
        return v


PROP = C09()
