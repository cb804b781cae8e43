from .. import engine as E
from .. import gen


class C15(E.Prop):
    id = "C15"
    runs = {"quick": 1300, "thorough": 45000}
    rule = ("A run has 1-2 threads of calls that report warnings or log messages; the application's warning hook and log handler, invoked "
            "in the middle of the call, either performs another library call (same or other model, same or near-identical scenario; "
            "nested up to two deep) or raises. Inner, outer and later outcomes and reports are compared with the calls in isolation. Non-trivial: "
            "a hook acted; distinct by execution hash.")

    def gen(self, rng, eng, tier, index):
        for _ in range(8):
            spec = self.try_(rng, eng)
            if spec["hooks"]:
                break
        return spec

    def try_(self, rng, eng):
        classes = list(dict.fromkeys(rng.choice(gen.REPORTING) for _ in range(rng.choice([1, 1, 2]))))
        w, classes, fams, fg = gen.setup(rng, classes=classes, nfam=(1, 3), prebuilt=0.4)
        for c in classes:
            for _ in range(3):
                kw = dict(w.scn[rng.choice(fams[c])]["kw"])
                for _ in range(rng.choice([1, 2, 3])):
                    kw = gen.questionable(rng, kw, c)
                fams[c].append(w.add_scn(kw))
        nth = rng.choice([1, 1, 1, 2])
        threads = []
        for i in range(nth):
            ops = []
            for _ in range(rng.choice([2, 3, 4])):
                c = rng.choice(classes)
                ops.append(gen.build(w, c, rng.choice(fams[c])) if rng.random() < 0.9 else gen.mixed_op(w, classes, fams, fg))
            threads.append(ops)
        E.number(threads)
        hooks = []
        nid = 90000
        inner = []
        world = w.data()
        for th in threads:
            for op in th:
                n = len(eng.ref(op, world)["diag"])
                if not n or rng.random() < 0.25:
                    continue
                for at in sorted(rng.sample(range(1, n + 1), min(n, rng.choice([1, 1, 2])))):
                    if rng.random() < 0.25:
                        hooks.append({"op": op["id"], "at": at, "do": {"raise": E.hook_error(rng)}})
                        continue
                    nid += 1
                    x = rng.random()
                    if x < 0.3 and op["k"] == "build":
                        do = dict(op, id=nid)  # exactly the same call
                    elif x < 0.75 and op["k"] == "build":
                        do = dict(gen.build(w, op["cls"], rng.choice(fams[op["cls"]])), id=nid)
                    else:
                        do = dict(gen.mixed_op(w, classes, fams, fg), id=nid)
                    inner.append(do)
                    hooks.append({"op": op["id"], "at": at, "do": do})
        # one more level
        for do in list(inner):
            if rng.random() < 0.3:
                c = rng.choice(classes)
                nid += 1
                d2 = dict(gen.build(w, c, rng.choice(fams[c])), id=nid)
                hooks.append({"op": do["id"], "at": 1, "do": d2})
        world = w.data()
        est = sum(eng.ref(op, world)["n"] for th in threads for op in th)
        return {"world": world, "threads": threads, "hooks": hooks, "gran": "line",
                "policy": E.policy(rng, nth, est) if nth > 1 else {"k": "serial"}, "pseed": rng.getrandbits(48)}

    def nontrivial(self, spec, res):
        return bool(res["ops"].get("hookfired")), res["hash"] + res["il"] + E.json.dumps(res["ops"].get("hookfired"))

    def stats(self, spec, res, acc):
        super().stats(spec, res, acc)
        for x in res["ops"].get("hookfired", []):
            k = "hook_raise_" + x[2] if isinstance(x[2], str) else "hook_call"
            E.bump(acc, "faults", k)

    def judge(self, spec, res, eng):
        return E.judge_outcomes(spec, res, eng) + E.judge_inputs_after(spec, res) + E.judge_diag(spec, res, eng) + \
            E.judge_hook_raises(spec, res) + E.judge_deadlock(spec, res)


PROP = C15()
