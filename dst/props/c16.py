from .. import engine as E
from .. import gen


class C16(E.Prop):
    id = "C16"
    runs = {"quick": 1300, "thorough": 42000}
    like = {"mid": 2, "lock": 2, "lazy": 2}
    rule = ("A run has 1-3 threads of calls (first use of the on-demand model in a quarter of the runs, some calls aborted), and one of them forks "
            "the process between its calls, once to three times, while the others are in the middle of theirs, at points chosen by the scheduler. Each child, a "
            "real forked process with only the forking thread in it, performs 2-5 calls (the ones in flight in the parent, nearly the same, or others) and in 2 of 5 cases then ends in the interpreter's order, with the exit handlers and finalizers of the library, while the parent goes on. Every outcome and report "
            "in the children and in the parent is compared with the call in a fresh process, and no call may wait for ever. Non-trivial: a child was forked while another "
            "thread was in the middle of a call, or after calls; distinct by execution hash.")
    real = "all of src/pygmm and its use of numpy/scipy/pandas; fork and the child processes; at-fork handlers of the library"

    def gen(self, rng, eng, tier, index):
        classes = None
        if rng.random() < 0.25:
            classes = ["HKR14"] + ([rng.choice(gen.ALL)] if rng.random() < 0.4 else [])
        w, classes, fams, fg = gen.setup(rng, classes=classes, prebuilt=0.5)
        nth = rng.choice([1, 2, 2, 2, 3])
        threads = [[gen.mixed_op(w, classes, fams, fg, p_fn=0.3, p_scn=0.1) for _ in range(rng.choice([1, 2, 3]))] for _ in range(nth)]
        calls = [op for th in threads for op in th]
        tid = rng.randrange(nth)
        if rng.random() < 0.4 and nth > 1:
            threads[tid] = threads[tid][:rng.choice([0, 0, 1])]
        for _ in range(rng.choice([1, 1, 2, 3])):
            do = []
            for _ in range(rng.choice([2, 3, 4, 5])):
                x = rng.random()
                op = rng.choice(calls)
                o = dict(op) if x < 0.5 else gen.vary(w, op) if x < 0.7 else gen.mixed_op(w, classes, fams, fg, p_fn=0.3, p_scn=0.1)
                do.append({k: v for k, v in o.items() if k not in ("alts", "keep")})
            threads[tid].insert(rng.randint(0, len(threads[tid])), {"k": "fork", "do": do, "ends": rng.random() < 0.4})
        E.number(threads)
        nid = 90000
        for op in threads[tid]:
            for o in op.get("do", ()):
                nid += 1
                o["id"] = nid
        world = w.data()
        gran = "instr" if rng.random() < 0.25 else "line"
        others = [op for i, th in enumerate(threads) for op in th if i != tid]
        for op in threads[tid]:
            if op["k"] == "fork" and others and rng.random() < 0.7:
                # when another call has got to a certain point
                o = rng.choice(others)
                op["when"] = [o["id"], E.place(rng, eng, o, world, gran)]
        faults = []
        own = [op for th in threads for op in th if op["k"] != "fork"]
        if rng.random() < 0.35:
            for op in own:
                if rng.random() < 0.5:
                    faults.append([op["id"], E.place(rng, eng, op, world, gran), E.abort_kind(rng)])
        est = sum(eng.ref(op, world)["n"] for op in own) * (9 if gran == "instr" else 1)
        return {"world": world, "threads": threads, "faults": faults, "gran": gran,
                "policy": E.policy(rng, nth, est), "pseed": rng.getrandbits(48)}

    def nontrivial(self, spec, res):
        ok = any(r.get("child") and (r["child"]["busy"] or len(res["ops"]) > 1) for r in res["ops"].values())
        return ok, res["hash"] + res["il"]

    def stats(self, spec, res, acc):
        super().stats(spec, res, acc)
        for r in res["ops"].values():
            if r.get("child"):
                E.bump(acc, "faults", "fork_in_the_middle" if r["child"]["busy"] else "fork_between_calls")
                if "end" in r["child"]:
                    E.bump(acc, "faults", "child_ended_with_exit_handlers")
                acc["child_steps"] = acc.get("child_steps", 0) + r["child"]["steps"]

    def explain(self, spec, res):
        return ["call %s forked a child while these calls were in the middle: %s" % (k, [b[1:] for b in r["child"]["busy"]])
                for k, r in res["ops"].items() if r.get("child")] + super().explain(spec, res)

    def judge(self, spec, res, eng):
        v = E.judge_outcomes(spec, res, eng) + E.judge_inputs_after(spec, res) + E.judge_deadlock(spec, res)
        if not v:
            v = E.judge_diag(spec, res, eng)
        for th in spec["threads"]:
            for op in th:
                rec = res["ops"].get(str(op["id"]))
                if op["k"] != "fork" or not rec or "child" not in rec:
                    continue
                sub = dict(spec, threads=[op["do"]])
                r = {"ops": rec["child"]["ops"], "stop": rec["child"]["stop"], "fired": []}
                got = E.judge_outcomes(sub, r, eng) + E.judge_deadlock(sub, r)
                if not got:
                    got = E.judge_diag(sub, r, eng)
                e = rec["child"].get("end") or {}
                for x in e.get("errors", ()):
                    got.append({"sig": "end", "op": op["id"], "msg": "an exit handler of the library raised %s" % (x,)})
                if e.get("text"):
                    got.append({"sig": "end", "op": op["id"], "msg": "printed while it ended: %r" % e["text"][:300]})
                if e.get("held") or e.get("slow", 0) > 5:
                    got.append({"sig": "end", "op": op["id"], "msg": "cannot end, it waits for a thread of the library"})
                for o in op["do"]:
                    if (r["ops"].get(str(o["id"])) or {}).get("oplimit"):
                        got.append({"sig": "no-progress", "op": o["id"], "msg": "%s did not finish within its step bound" % E.describe(o, sub)})
                v += [dict(x, sig="child-" + x["sig"], msg="in a forked child: " + x["msg"]) for x in got]
        return v


PROP = C16()
