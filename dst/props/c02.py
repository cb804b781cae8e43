from .. import engine as E
from .. import gen


class C02(E.Prop):
    id = "C02"
    runs = {"quick": 800, "thorough": 40000}
    rule = ("A run is one process evaluating a history of 6-30 (sometimes 150) calls drawn from few model classes on families of "
            "near-identical scenarios (one entry changed a little, a lot, to another type, removed, or made invalid), with models kept "
            "or dropped; every call is compared with the same call as the first of a fresh process. Non-trivial: at least two calls; "
            "distinct by execution hash.")

    def gen(self, rng, eng, tier, index):
        long = rng.random() < 0.04
        w, classes, fams, fg = gen.setup(rng, nfam=(2, 6), prebuilt=0.25)
        n = rng.randint(60, 150) if long else rng.choice([6, 10, 15, 22, 30])
        keep = rng.choice([0.0, 0.3, 1.0])
        ops = []
        mut = rng.choice([0, 0, 0.1, 0.25])
        state = {"scn": {}, "arr": {}}
        for _ in range(n):
            if rng.random() < mut:
                # the caller changes an input it passed before, in place
                op = gen.mutation(w, classes, fams, state)
                if op is None:
                    continue
            elif ops and rng.random() < 0.2:
                op = dict(rng.choice([o for o in ops if o["k"] not in ("mutate", "mutarr")] or [gen.mixed_op(w, classes, fams, fg)]))  # the same call again
            else:
                op = gen.mixed_op(w, classes, fams, fg)
                if long and op["k"] == "build":
                    op["reads"] = op["reads"][:2]
            if op["k"] == "build" and rng.random() < keep:
                op["keep"] = True
            ops.append(op)
        if rng.random() < 0.25 and not long:
            # the same model for several numeric types and tiny changes of a single value
            cls = rng.choice(classes)
            kw = w.scn[rng.choice(fams[cls])]["kw"]
            for _ in range(4):
                si = w.add_scn(gen.tweak(rng, kw, cls))
                ops.insert(rng.randrange(len(ops) + 1), gen.build(w, cls, si))
        if rng.random() < 0.06:
            # enough different inputs to fill a cache of ordinary size, between two rounds of the same calls
            of = [op for op in ops if op["k"] in ("build", "fn")]
            if of:
                of = rng.choice(of)
                ops = ops[:10] + [of, {"k": "bulk", "of": {k: v for k, v in of.items() if k != "keep"}, "n": rng.choice([140, 270])}, dict(of)] + ops[:10]
        return {"world": w.data(), "threads": E.number([[dict(op) for op in ops]]), "policy": {"k": "serial"}, "track": True}

    def nontrivial(self, spec, res):
        return len(spec["threads"][0]) > 1, res["hash"] + E.json.dumps(spec["threads"])[:4000]

    def judge(self, spec, res, eng):
        return E.judge_outcomes(spec, res, eng) + E.judge_deadlock(spec, res)


PROP = C02()
