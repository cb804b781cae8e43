from .. import engine as E
from .. import env
from .. import gen


class C07(E.Prop):
    id = "C07"
    guided = False
    runs = {"quick": 1500, "thorough": 60000}
    rule = ("A run uses the on-demand model for the first time in a process, in 1-3 threads, while the simulated disk fails opens or reads (EIO, EMFILE, "
            "EACCES, ENOENT, ESTALE; once or persistently), splits reads, interrupts or kills allocations in the middle, or serves an archive "
            "with flipped, zeroed or missing bytes; calls may also be aborted at a control point. Each call must raise or return the "
            "prediction of the intact archive; afterwards the disk is healed and every call must succeed. Non-trivial: a fault fired, the archive was damaged, or "
            "first uses overlapped; distinct by execution hash and damage.")
    assumptions = ("the archive in the sandbox is a Git-LFS pointer, so runs use a synthetic archive of the same layout",)
    _n = None

    def events(self, eng):
        if self._n is None:
            w = {"scn": [{"kw": {"mag": 6, "v_s30": 500, "mechanism": "SS", "dist_jb": 10}, "t": "S"}], "arr": [], "mdl": []}
            op = {"k": "build", "cls": "HKR14", "s": 0, "kw": {}, "reads": ["pga"], "id": 1}
            r = eng.run({"world": w, "threads": [[op]], "policy": {"k": "serial"}, "fs": {"npz": "ok", "plan": {"9999999": "EIO"}}})
            self._n = max(4, r["fsn"])
        return self._n

    def gen(self, rng, eng, tier, index):
        n = self.events(eng)
        w = gen.W(rng)
        fam = [w.add_scn(kw, rng.choice(["S", "S", "dict"])) for kw in gen.family(rng, "HKR14", rng.choice([1, 2, 3]))]
        nth = rng.choice([1, 1, 2, 2, 3])
        gran = "instr" if rng.random() < 0.2 else "line"
        threads = []
        for i in range(nth):
            ops = [gen.build(w, "HKR14", rng.choice(fam)) for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.1:
                ops.append(gen.build(w, "CB14", w.add_scn(gen.base(rng, "CB14"))))
            threads.append(ops)
        tail = [{"k": "join"}, {"k": "heal", "npz": True}] + [gen.build(w, "HKR14", s) for s in fam]
        first = [op for th in threads for op in th]
        threads[0] += tail
        world = w.data()
        E.number(threads)
        fs = {"npz": "ok"}
        x = rng.random()
        kinds = ["EIO", "EIO", "EMFILE", "EACCES", "ENOENT", "ESTALE", "short", "kbd", "mem", "ENOSPC"]
        if x < 0.4:
            fs["plan"] = {str(rng.randint(1, n)): rng.choice(kinds) for _ in range(rng.choice([1, 1, 2, 4]))}
        elif x < 0.52:
            a = rng.randint(1, n)
            fs["sticky"] = [rng.choice(["EIO", "short", "short", "EMFILE", "EACCES"]), a, a + rng.choice([1, 3, 1000])]
        elif x < 0.85:
            size = len(env.npz_bytes())
            d = {}
            y = rng.random()
            if y < 0.65:
                d["flip"] = [[rng.randrange(size) if rng.random() < 0.5 else rng.choice([rng.randrange(200), size - 1 - rng.randrange(260)]),
                              rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 255, 0xFF])] for _ in range(rng.choice([1, 1, 2, 3]))]
            elif y < 0.85:
                d["trunc"] = rng.randrange(size)
            else:
                a = rng.randrange(size)
                d["zero"] = [a, rng.choice([1, 16, 512, 4096])]
            fs["npz"] = d
            if rng.random() < 0.2:
                fs["plan"] = {str(rng.randint(1, n)): rng.choice(kinds)}
        elif x < 0.92:
            fs["npz"] = "absent"
        faults = []
        if rng.random() < 0.3:
            for op in first:
                if rng.random() < 0.6:
                    faults.append([op["id"], E.place(rng, eng, op, world, gran), E.abort_kind(rng)])
        est = sum(eng.ref(op, world)["n"] for op in first) * (9 if gran == "instr" else 1)
        return {"world": world, "threads": threads, "gran": gran, "faults": faults, "fs": fs,
                "policy": E.policy(rng, nth, est) if nth > 1 else {"k": "serial"}, "pseed": rng.getrandbits(48)}

    def nontrivial(self, spec, res):
        ok = res["fired"] or res["fsc"] or spec["fs"]["npz"] != "ok" or res["nsw"]
        return bool(ok), res["hash"] + E.json.dumps([spec["fs"], res["fsc"]])

    def stats(self, spec, res, acc):
        super().stats(spec, res, acc)
        n = spec["fs"]["npz"]
        k = n if isinstance(n, str) else "+".join(sorted(n))
        E.bump(acc, "archive", k)
        good = bad = 0
        for op in E.all_ops(spec):
            r = res["ops"].get(str(op["id"]))
            if r and op["k"] == "build" and r["out"].get("build") is None:
                good += 1
            else:
                bad += 1
        acc["first_use_ok"] = acc.get("first_use_ok", 0) + good
        acc["first_use_raised"] = acc.get("first_use_raised", 0) + bad

    def judge(self, spec, res, eng):
        lenient = spec["fs"]["npz"] != "ok"
        pre = set()
        for th in spec["threads"]:
            for op in th:
                if op["k"] == "join":
                    break
                pre.add(op["id"])
        res = dict(res)
        if lenient:
            res["fsh"] = list(res.get("fsh", ())) + sorted(pre)
        v = E.judge_outcomes(spec, res, eng)
        if res["stop"]:
            v.append({"sig": "stop", "op": -1, "msg": "%s" % (res["stop"],)})
        return v


PROP = C07()
