from .. import engine as E
from .. import gen


class C17(E.Prop):
    id = "C17"
    runs = {"quick": 1400, "thorough": 45000}
    like = {"mid": 2, "lock": 2, "lazy": 2}
    rule = ("A run has 1-2 threads of calls (first use of the on-demand model in a sixth of the runs); at drawn control points (lines or bytecodes, biased to just after a store) the "
            "application's own code, standing for a signal handler, finalizer or weak-reference callback, runs in the middle of the call and performs "
            "another library call (the same, nearly the same, or another one; nested up to three deep; some of them aborted). Inner, outer and later outcomes and reports are "
            "compared with the calls in isolation, and no call may wait for ever. Non-trivial: an inner call ran; distinct by execution hash.")

    def gen(self, rng, eng, tier, index):
        classes = None
        if rng.random() < 0.17:
            classes = ["HKR14"] + ([rng.choice(gen.ALL)] if rng.random() < 0.4 else [])
        w, classes, fams, fg = gen.setup(rng, classes=classes, prebuilt=0.4)
        nth = rng.choice([1, 1, 1, 2])
        threads = []
        for i in range(nth):
            threads.append([gen.mixed_op(w, classes, fams, fg, p_fn=0.3, p_scn=0.1) for _ in range(rng.choice([1, 2, 3]))])
        E.number(threads)
        gran = "instr" if rng.random() < 0.25 else "line"
        ints, faults, nid = [], [], 90000
        level = [op for th in threads for op in th]
        for depth in range(3):
            nxt = []
            for op in level:
                if rng.random() < (0.15 if depth == 0 else 0.7):
                    continue
                for _ in range(rng.choice([1, 1, 2, 3]) if depth == 0 else 1):
                    nid += 1
                    x = rng.random()
                    if x < 0.3:
                        do = dict(op)
                    elif x < 0.55:
                        do = gen.vary(w, op)
                    elif x < 0.75 and op["k"] == "build":
                        do = gen.build(w, op["cls"], rng.choice(fams.get(op["cls"]) or [op["s"]]))
                    else:
                        do = gen.mixed_op(w, classes, fams, fg, p_fn=0.3, p_scn=0.1)
                    do = {k: v for k, v in do.items() if k not in ("alts", "keep")}
                    do["id"] = nid
                    ints.append({"op": op["id"], "at": E.place(rng, eng, op, w.data(), gran), "do": do})
                    nxt.append(do)
                    if rng.random() < 0.12:
                        faults.append([nid, E.place(rng, eng, do, w.data(), gran), E.abort_kind(rng)])
            level = nxt
        world = w.data()
        if rng.random() < 0.15:
            op = rng.choice(threads[rng.randrange(nth)])
            faults.append([op["id"], E.place(rng, eng, op, world, gran), E.abort_kind(rng)])
        est = sum(eng.ref(op, world)["n"] for th in threads for op in th) * (9 if gran == "instr" else 1)
        return {"world": world, "threads": threads, "ints": ints, "faults": faults, "gran": gran,
                "policy": E.policy(rng, nth, est) if nth > 1 else {"k": "serial"}, "pseed": rng.getrandbits(48)}

    def nontrivial(self, spec, res):
        return bool(res["inted"]), res["hash"] + res["il"]

    def stats(self, spec, res, acc):
        super().stats(spec, res, acc)
        if res["inted"]:
            E.bump(acc, "faults", "application_code_in_the_middle", len(res["inted"]))

    def explain(self, spec, res):
        return ["the application's code ran in thread %s, call %s, step %s at %s:%s" % tuple(x) for x in res["inted"]] + super().explain(spec, res)

    def judge(self, spec, res, eng):
        v = E.judge_outcomes(spec, res, eng) + E.judge_inputs_after(spec, res) + E.judge_deadlock(spec, res)
        if not v:
            v = E.judge_diag(spec, res, eng)
        for op in E.all_ops(spec):
            rec = res["ops"].get(str(op["id"]))
            if rec and rec.get("oplimit"):
                v.append({"sig": "no-progress", "op": op["id"], "msg": "%s did not finish within its step bound" % E.describe(op, spec)})
        return v


PROP = C17()
