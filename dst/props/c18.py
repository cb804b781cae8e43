from .. import engine as E
from .. import gen


class C18(E.Prop):
    id = "C18"
    runs = {"quick": 1500, "thorough": 45000}
    like = {"mid": 1.5, "lock": 2, "lazy": 2}
    rule = ("A run has 1-3 threads of calls (some aborted); the main one then ends the process, at times just when another thread's call has got to a drawn point: "
            "exit functions of the threading module, waiting for the threads that are not daemons, exit handlers in reverse order of registration, those of the application "
            "registered before the library was imported, and between its calls, performing calls themselves. Every outcome and report is compared with the call in a fresh process; the end must come within "
            "5 simulated seconds of the application's own threads, and no handler may raise or print. Non-trivial: calls ran before and in handlers, or others were in the middle of theirs; "
            "distinct by execution hash.")
    real = "all of src/pygmm and its use of numpy/scipy/pandas; exit handlers of the library and of concurrent.futures"
    assumptions = ("the tear-down of modules after the exit handlers is not simulated",)

    def gen(self, rng, eng, tier, index):
        classes = None
        if rng.random() < 0.15:
            classes = ["HKR14"] + ([rng.choice(gen.ALL)] if rng.random() < 0.4 else [])
        w, classes, fams, fg = gen.setup(rng, classes=classes, prebuilt=0.5)
        nth = rng.choice([1, 2, 2, 2, 3])
        new = lambda: gen.mixed_op(w, classes, fams, fg, p_fn=0.3, p_scn=0.1)
        threads = [[new() for _ in range(rng.choice([1, 2, 3]))] for _ in range(nth)]
        calls = [op for th in threads for op in th]

        def handler(n):
            do = []
            for _ in range(n):
                x = rng.random()
                op = rng.choice(calls)
                o = dict(op) if x < 0.5 else gen.vary(w, op) if x < 0.7 else new()
                do.append({k: v for k, v in o.items() if k not in ("alts", "keep")})
            return do

        if nth > 1 and rng.random() < 0.6:
            threads[0] = threads[0][:rng.choice([0, 0, 1])]
        for _ in range(rng.choice([0, 1, 1, 2])):
            threads[0].insert(rng.randint(0, len(threads[0])), {"k": "atexit", "do": handler(rng.choice([1, 2]))})
        threads[0].append({"k": "exit", "do": handler(rng.choice([0, 1, 2, 3]))})
        E.number(threads)
        nid = 90000
        for op in threads[0]:
            for o in op.get("do", ()):
                nid += 1
                o["id"] = nid
        world = w.data()
        gran = "instr" if rng.random() < 0.2 else "line"
        others = [op for th in threads[1:] for op in th]
        if others and rng.random() < 0.7:
            o = rng.choice(others)
            threads[0][-1]["when"] = [o["id"], E.place(rng, eng, o, world, gran)]
        own = [op for th in threads for op in th if op["k"] not in ("atexit", "exit")]
        faults = []
        if rng.random() < 0.35:
            for op in own:
                if rng.random() < 0.5:
                    faults.append([op["id"], E.place(rng, eng, op, world, gran), E.abort_kind(rng)])
        est = sum(eng.ref(op, world)["n"] for op in own) * (9 if gran == "instr" else 1)
        return {"world": world, "threads": threads, "faults": faults, "gran": gran, "main": True,
                "daemon": [i for i in range(1, nth) if rng.random() < 0.5], "policy": E.policy(rng, nth, est), "pseed": rng.getrandbits(48)}

    def end(self, res):
        return next((r["end"] for r in res["ops"].values() if isinstance(r, dict) and "end" in r), None)

    def nontrivial(self, spec, res):
        e = self.end(res)
        return bool(e and (e["busy"] or len(res["ops"]) > 2)), res["hash"] + res["il"]

    def stats(self, spec, res, acc):
        super().stats(spec, res, acc)
        e = self.end(res)
        if e:
            E.bump(acc, "faults", "exit_in_the_middle" if e["busy"] else "exit_between_calls")
            acc["library_exit_handlers"] = acc.get("library_exit_handlers", 0) + e["handlers"]

    def explain(self, spec, res):
        e = self.end(res)
        return (["the process ended while these calls were in the middle: %s" % [b[1:] for b in e["busy"]]] if e else []) + super().explain(spec, res)

    def judge(self, spec, res, eng):
        v = E.judge_outcomes(spec, res, eng) + E.judge_inputs_after(spec, res) + E.judge_deadlock(spec, res)
        if not v:
            v = E.judge_diag(spec, res, eng)
        for o in E.all_ops(spec):
            if (res["ops"].get(str(o["id"])) or {}).get("oplimit"):
                v.append({"sig": "no-progress", "op": o["id"], "msg": "%s did not finish within its step bound" % E.describe(o, spec)})
        e = self.end(res)
        if e:
            for x in e["errors"]:
                v.append({"sig": "handler", "op": -1, "msg": "an exit handler of the library raised %s" % (x,)})
            for x in e["held"]:
                v.append({"sig": "held", "op": -1, "msg": "the process cannot end, it waits for thread %s" % (x,)})
            if e["slow"] > 5:
                v.append({"sig": "slow", "op": -1, "msg": "the process waits %.1f s for a thread of the library" % e["slow"]})
            if e.get("text"):
                v.append({"sig": "text", "op": -1, "msg": "printed while the process ended: %r" % e["text"][:300]})
        return v


PROP = C18()
