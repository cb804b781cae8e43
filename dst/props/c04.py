from .. import engine as E
from .. import gen


class C04(E.Prop):
    id = "C04"
    like = {"input": 3}
    runs = {"quick": 1500, "thorough": 50000}
    rule = ("A run is 1-3 worker threads whose calls share scenarios, mappings, lists and arrays (valid, out-of-range, invalid; float64, "
            "float32, read-only, masked, list), possibly aborted, and an observer thread that looks at every input; besides seeded "
            "preemption, the scheduler runs the observer whenever an input differs from its original at a control point. All inputs "
            "are compared once more at the end. Non-trivial: an input was observed during, or a call was aborted in, another call; distinct by "
            "interleaving and execution hash.")

    def gen(self, rng, eng, tier, index):
        w, classes, fams, fg = gen.setup(rng, dicts=0.35, prebuilt=0.3)
        w.pkind = rng.choice([0.2, 0.5])
        nth = rng.choice([1, 1, 2, 3])
        gran = "instr" if rng.random() < 0.3 else "line"
        threads = []
        for i in range(nth):
            threads.append([gen.mixed_op(w, classes, fams, fg, p_fn=0.4, p_scn=0.15)
                            for _ in range(rng.choice([1, 2, 3]))])
        world = w.data()
        ss, aa = list(range(len(w.scn))), list(range(len(w.arr)))
        obs = [{"k": "observe", "ss": ss, "aa": aa} for _ in range(rng.choice([3, 5, 8]))]
        threads.append(obs)
        E.number(threads)
        faults = []
        if rng.random() < 0.35:
            for th in threads[:-1]:
                for op in th:
                    if rng.random() < 0.5:
                        faults.append([op["id"], E.place(rng, eng, op, world, gran), E.abort_kind(rng)])
        est = sum(eng.ref(op, world)["n"] for th in threads[:-1] for op in th) * (9 if gran == "instr" else 1)
        return {"world": world, "threads": threads, "gran": gran, "faults": faults,
                "policy": E.policy(rng, nth + 1, est), "pseed": rng.getrandbits(48),
                "watch": {"what": "inputs", "tid": nth, "ss": ss, "aa": aa}}

    def judge(self, spec, res, eng):
        return [v for v in E.judge_outcomes(spec, res, eng, only=("observe",))] + E.judge_inputs_after(spec, res)


PROP = C04()
