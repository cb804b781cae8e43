from .. import engine as E
from .. import env
from .. import gen


def reimport(rng):
    """A module is executed again; the on-demand model's archive is missing and its server fails for as long as it is asked."""
    if rng.random() < 0.3:
        return {"k": "reimport", "mod": rng.choice([m for m in env.MODULES if m not in ("model", "types")])}
    net = {"k": rng.choice(["refused", "dns", "timeout", "http", "reset", "short", "rtimeout"]), "frac": round(rng.random(), 2)}
    if rng.random() < 0.8:
        net["always"] = 1
    return {"k": "reimport", "mod": "hermkes_kuehn_riggelsen_2014", "net": [net]}


class C13(E.Prop):
    id = "C13"
    like = {"lock": 3, "stuck": 2}
    runs = {"quick": 1300, "thorough": 45000}
    rule = ("A run is 1-4 threads of calls (first use of the on-demand model under read faults in a sixth of the runs), half of them aborted at drawn control "
            "points or raising from hooks, or executing modules again (the on-demand one with its archive missing and a server that keeps failing), followed in every thread by fault-free calls of the same kinds. Locks, waits and sleeps are simulated: the run must not "
            "deadlock, no call may exceed 150000 control points (the longest needs about 3000), and every fault-free call must finish. "
            "Non-trivial: a fault fired or a preemption happened; distinct by execution and interleaving hash.")

    def gen(self, rng, eng, tier, index):
        classes = None
        hkr = rng.random() < 0.17
        if hkr:
            classes = ["HKR14"] + ([rng.choice(gen.ALL)] if rng.random() < 0.3 else [])
        elif rng.random() < 0.3:
            classes = list(dict.fromkeys([rng.choice(gen.REPORTING)] + gen.pick_classes(rng, 1)))
        w, classes, fams, fg = gen.setup(rng, classes=classes, prebuilt=0.3)
        if rng.random() < 0.3:
            for c in classes:
                kw = gen.questionable(rng, w.scn[rng.choice(fams[c])]["kw"], c)
                fams[c].append(w.add_scn(kw))
        nth = rng.choice([1, 2, 2, 3, 4])
        gran = "instr" if rng.random() < 0.25 else "line"
        threads, ab = [], []
        for i in range(nth):
            ops = []
            for _ in range(rng.choice([1, 2, 3] if nth < 3 else [1, 2])):
                op = gen.mixed_op(w, classes, fams, fg, p_scn=0.18)
                if rng.random() < 0.5:
                    ab.append(id(op))
                ops.append(op)
            if nth == 1 and rng.random() < 0.15:
                ops.insert(rng.randrange(len(ops) + 1), reimport(rng))
            if i == 0 and rng.random() < (0.35 if w.hot else 0.08):
                b = gen.burst(w, classes, fams, fg)
                ab += [id(o) for o in b[:-1] if rng.random() < 0.9]
                ops += b
            threads.append(ops)
        tail = [gen.build(w, c, rng.choice(fams[c])) for c in classes]
        for op in rng.sample([o for th in threads for o in th], min(4, sum(map(len, threads)))):
            tail.append(dict(op))
        for th in threads:
            th.append({"k": "heal"})
            for op in rng.sample(tail, min(len(tail), rng.choice([1, 2, 3]))):
                th.append(dict(op))
        world = w.data()
        E.number(threads)
        faults = []
        for th in threads:
            for op in th:
                if id(op) in ab:
                    faults.append([op["id"], E.place(rng, eng, op, world, gran), E.abort_kind(rng)])
        spec = {"world": world, "threads": threads, "gran": gran, "faults": faults}
        if rng.random() < 0.15:
            hooks = []
            for th in threads:
                for op in th:
                    if op["k"] == "heal":
                        break
                    if op["k"] in ("build", "fn") and eng.ref(op, world)["diag"] and rng.random() < 0.7:
                        hooks.append({"op": op["id"], "at": 1, "do": {"raise": E.hook_error(rng)}})
            if hooks:
                spec["hooks"] = hooks
        if hkr and rng.random() < 0.7:
            if rng.random() < 0.5:
                spec["fs"] = {"npz": "ok", "plan": {str(rng.randint(1, 22)): rng.choice(["EIO", "EMFILE", "EACCES", "short", "kbd", "mem"])
                                                    for _ in range(rng.choice([1, 1, 2]))}}
            else:
                spec["fs"] = {"npz": "ok", "sticky": [rng.choice(["EIO", "EMFILE", "short"]), 1, 100000]}
        est = sum(eng.ref(op, world)["n"] for th in threads for op in th if op["k"] != "heal") * (9 if gran == "instr" else 1)
        spec["policy"] = E.policy(rng, nth, est) if nth > 1 else {"k": "serial"}
        if nth > 1 and rng.random() < 0.3:
            spec["policy"] = {"k": "random", "p": 0.1, "sp": 0.5}
        spec["pseed"] = rng.getrandbits(48)
        return spec

    def on_timeout(self, spec, msg):
        if spec is not None and "wall time" in msg:
            return {"sig": "hang", "op": -1, "msg": "the run did not finish: " + msg}
        return None

    def judge(self, spec, res, eng):
        if not res:
            return []
        return E.judge_progress(spec, res, eng)


PROP = C13()
