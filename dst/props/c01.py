from .. import engine as E
from .. import gen


class C01(E.Prop):
    id = "C01"
    runs = {"quick": 1800, "thorough": 60000}
    rule = ("A run draws 1-3 model classes, near-identical scenarios, shared arrays and pre-built models, gives 2-4 threads 1-3 calls "
            "each (first use included: every run starts from a process that has evaluated nothing), and schedules them at line or "
            "bytecode granularity with random, store-biased or PCT policies. Non-trivial: at least one preemption inside a call; "
            "distinct by the sequence of (thread, code position, next thread).")

    def gen(self, rng, eng, tier, index):
        w, classes, fams, fg = gen.setup(rng)
        nth = rng.choice([2, 2, 2, 3, 3, 4])
        same = rng.random() < 0.3
        proto = None
        threads = []
        for i in range(nth):
            ops = []
            for j in range(rng.choice([1, 1, 2, 2, 3])):
                op = gen.mixed_op(w, classes, fams, fg)
                if same and j == 0:
                    # everybody starts with the same kind of call on different inputs
                    proto = proto or op
                    if proto["k"] == "build":
                        op = gen.build(w, proto["cls"], rng.choice(fams[proto["cls"]]))
                    elif proto["k"] == "fn":
                        op = gen.fn(w, proto["fn"])
                ops.append(op)
            threads.append(ops)
        world = w.data()
        E.number(threads)
        spec = {"world": world, "threads": threads, "gran": "instr" if rng.random() < 0.25 else "line"}
        est = sum(eng.ref(op, world)["n"] for th in threads for op in th)
        if spec["gran"] == "instr":
            est *= 9
        spec["policy"] = E.policy(rng, nth, est)
        spec["pseed"] = rng.getrandbits(48)
        return spec

    def judge(self, spec, res, eng):
        return E.judge_outcomes(spec, res, eng) + E.judge_deadlock(spec, res)


PROP = C01()
