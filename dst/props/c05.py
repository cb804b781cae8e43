import itertools

from .. import engine as E
from .. import gen


class C05(E.Prop):
    id = "C05"
    runs = {"quick": 1300, "thorough": 45000}
    rule = ("Sequential runs (60%) build and pre-build models, overwrite every returned array in place and read again, change entries of the "
            "input scenarios and arrays, overwrite the scenario a dropped model kept, and read/build more; concurrent runs replace one or two "
            "entries of a scenario in one thread while others build from it (admissible: the outcome for some mix of old and new "
            "entries) and read models built before. Non-trivial: at least one in-place change happened before a later observation; "
            "distinct by execution hash.")

    like = {"alias": 6, "input": 2}

    def gen(self, rng, eng, tier, index):
        cl = None
        if rng.random() < 0.12:
            cl = ["AGA16"] + ([rng.choice(gen.ALL)] if rng.random() < 0.5 else [])
        w, classes, fams, fg = gen.setup(rng, classes=cl, nfam=(1, 2), prebuilt=0.9, dicts=0.3)
        return self.seq(rng, eng, w, classes, fams, fg) if rng.random() < 0.6 else self.conc(rng, eng, w, classes, fams, fg)

    def seq(self, rng, eng, w, classes, fams, fg):
        ops = []
        state = {"scn": {}, "arr": {}}
        for _ in range(rng.choice([4, 6, 9])):
            x = rng.random()
            if w.hot and rng.random() < 0.4:
                op = dict(rng.choice(w.hot)) if rng.random() < 0.7 else gen.vary(w, rng.choice(w.hot))
                op["scribble"] = 1
                ops.append(op)
            elif x < 0.30:
                c = rng.choice(classes)
                op = gen.build(w, c, rng.choice(fams[c]))
                op["scribble"] = rng.choice([1, 1, 2])
                ops.append(op)
            elif x < 0.42:
                op = gen.fn(w, rng.choice(fg) if rng.random() < 0.7 else None)
                op["scribble"] = 1
                ops.append(op)
            elif x < 0.62 and w.mdl:
                j = rng.randrange(len(w.mdl))
                ops.append({"k": "read", "m": j, "reads": gen.reads(w, w.mdl[j]["cls"]), "scribble": rng.choice([0, 1, 1])})
            elif x < 0.67:
                o = gen.clone(w, rng.choice(rng.choice(list(fams.values()))))
                o["scribble"] = 1
                ops.append(o)
            elif x < 0.74:
                ops.append(gen.scn_op(w, rng.choice(rng.choice(list(fams.values())))))
            else:
                op = gen.mutation(w, classes, fams, state)
                if op:
                    ops.append(op)
        for j in range(len(w.mdl)):
            ops.append({"k": "read", "m": j, "reads": gen.reads(w, w.mdl[j]["cls"])})
        for c in classes:
            ops.append(gen.build(w, c, rng.choice(fams[c])))
        return {"world": w.data(), "threads": E.number([ops]), "policy": {"k": "serial"}, "track": True}

    def conc(self, rng, eng, w, classes, fams, fg):
        c = rng.choice(classes)
        si = rng.choice(fams[c])
        if w.scn[si]["t"] in ("mp", "chain"):
            w.scn[si]["t"] = "dict"
        kw = w.scn[si]["kw"]
        ks = [k for k in kw if k in gen.C[c]["keys"]] or list(kw)[:1]
        ks = rng.sample(ks, min(len(ks), rng.choice([1, 2, 2])))
        new = {k: gen.other_value(rng, k, kw[k], c) for k in ks}
        mut = [{"k": "mutate", "s": si, "kw": {k: new[k]}} for k in ks]
        alts = []
        for mix in itertools.product([0, 1], repeat=len(ks)):
            alts.append({"scn": {str(si): {"kw": dict(kw, **{k: new[k] for k, b in zip(ks, mix) if b}), "t": w.scn[si]["t"]}}})
        threads = [mut]
        for i in range(rng.choice([1, 1, 2])):
            ops = []
            for _ in range(rng.choice([1, 2])):
                op = gen.build(w, c, si)
                op["alts"] = alts
                if rng.random() < 0.3:
                    op["scribble"] = 1
                ops.append(op)
            mine = [j for j, m in enumerate(w.mdl)]
            if mine and rng.random() < 0.5:
                j = rng.choice(mine)
                ops.insert(rng.randrange(len(ops) + 1), {"k": "read", "m": j, "reads": gen.reads(w, w.mdl[j]["cls"])})
            threads.append(ops)
        gran = "instr" if rng.random() < 0.3 else "line"
        world = w.data()
        E.number(threads)
        est = sum(eng.ref(op, world)["n"] for th in threads[1:] for op in th) * (9 if gran == "instr" else 1)
        pol = E.policy(rng, len(threads), est)
        if rng.random() < 0.5:
            pol = {"k": "random", "p": rng.choice([0.03, 0.1]), "sp": rng.choice([0.2, 0.5])}
        return {"world": world, "threads": threads, "gran": gran, "policy": pol, "pseed": rng.getrandbits(48)}

    def nontrivial(self, spec, res):
        ok = any(op.get("scribble") or op["k"] in ("mutate", "mutarr") for op in E.all_ops(spec))
        return ok, res["hash"] + res["il"] + E.json.dumps(spec["threads"])[:3000]

    def judge(self, spec, res, eng):
        return E.judge_outcomes(spec, res, eng) + E.judge_inputs_after(spec, res) + E.judge_deadlock(spec, res)


PROP = C05()
