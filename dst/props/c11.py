import base64
import copy
import hashlib
import heapq
import pickle
import random
import signal

from .. import engine as E
from .. import env
from .. import fs as F
from .. import gen
from .. import norm
from .. import ops
from .. import procs
from .. import sched as S


# ------------------------------------------------------------------ worker process


def serve(data, fault, die):
    """One job in the worker: decode, evaluate, encode the answer."""
    box = {}

    def body(t):
        sc.begin_op(t, 1)
        try:
            job = pickle.loads(data)
            ans = {"id": job["id"], "seq": job["seq"]}
            ctx = ops.Ctx({"scn": [], "arr": [], "mdl": []})
            op = job["op"]
            out = {}
            m = None
            if "scn" in job:
                s = job["scn"]
                ans["type"] = type(s).__name__
                ans["items"] = norm.value(dict(s.items()))
                ctx.scn.append(s)
                if not isinstance(s, dict):
                    ans["attrs"] = norm.value({k: getattr(s, k) for k in s})
                    ans["none"] = hasattr(s, "nonesuch")
            ctx.arr = job.get("arr", [])
            if op["k"] == "build":
                if "mdl" in job:
                    ctx.mdl.append(job["mdl"])
                    ops.run_op(dict(op, k="read", m=0), ctx, out)
                    m = job["mdl"]
                else:
                    ops.run_op(dict(op, s=0, keep=True), ctx, out)
                    m = ctx.kept[0] if ctx.kept else None
            else:
                ops.run_op(op, ctx, out)
            ans["out"] = out
            ans["model"] = m
            if "_abort" in out:
                raise KeyboardInterrupt("injected")
            box["data"] = pickle.dumps(ans, job["proto"])
        except S.SimStop:
            raise
        except BaseException as e:
            box["fail"] = norm.exc(e)
        finally:
            sc.end_op(t)
            box["n"] = t.evt

    sc = S.Scheduler(S.SerialPolicy(), E.CODESET, "line", faults={(1, fault[0]): fault[1]} if fault else {},
                     max_steps=300000, op_limit=150000)
    sc.on_kill = die
    sc.install()
    try:
        stop = sc.run([body], main=True)
    finally:
        sc.uninstall()
    if stop:
        box["fail"] = ["stop", repr(stop)]
    box["fired"] = [f[0] for f in sc.fired]
    box["steps"] = sc.steps
    return box


def worker_main(rd, wr):
    ops.capture()
    while True:
        m = procs._take(rd)
        if m is None:
            E.os._exit(0)
        b = serve(base64.b64decode(m["data"]), m.get("fault"), lambda t: E.os._exit(137))
        procs._put(wr, {"data": base64.b64encode(b["data"]).decode() if "data" in b else None, "fail": b.get("fail"), "n": b["n"],
                        "fired": b["fired"], "steps": b["steps"]})


class Worker:
    def __init__(self):
        r1, w1 = E.os.pipe()
        r2, w2 = E.os.pipe()
        self.pid = E.env.fork()
        if self.pid == 0:
            try:
                import ctypes

                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                F._real.os_close(r1)
                F._real.os_close(w2)
                worker_main(r2, w1)
            finally:
                E.os._exit(0)
        F._real.os_close(w1)
        F._real.os_close(r2)
        self.rd, self.wr = r1, w2
        self.jobs = 0

    def call(self, data, fault):
        self.jobs += 1
        procs._put(self.wr, {"data": base64.b64encode(data).decode(), "fault": fault})
        return procs._take(self.rd, 60)

    def end(self):
        F._real.os_close(self.wr)
        F._real.os_close(self.rd)
        try:
            E.os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        E.os.waitpid(self.pid, 0)


# ------------------------------------------------------------------ master and network


class Net:
    """Decides the fate of every message; replayable."""

    def __init__(self, spec):
        self.p = spec["net"]
        self.rng = random.Random(spec["pseed"])
        self.given = {int(k): v for k, v in spec["fate"].items()} if "fate" in spec else None
        self.made = {}
        self.n = 0
        self.counts = {}

    def fate(self, now):
        """Delays of the copies that arrive (none: lost)."""
        self.n += 1
        if self.given is not None:
            f = self.given.get(self.n, [1.0])
        elif now >= self.p["until"]:
            f = [1.0]
        else:
            r = self.rng
            if r.random() < self.p["drop"]:
                f = []
            else:
                f = [round(1.0 + r.expovariate(1.0) * self.p["spread"], 3)]
                if r.random() < self.p["dup"]:
                    f.append(round(1.0 + r.expovariate(1.0) * self.p["spread"] * 3, 3))
        if f != [1.0]:
            self.made[str(self.n)] = f
        k = "lost" if not f else "duplicated" if len(f) > 1 else "delayed" if f[0] > 1.0 else "plain"
        self.counts[k] = self.counts.get(k, 0) + 1
        return f


def execute(spec):
    ops.capture()
    fs, d = E.new_fs(spec)
    pool = [Worker() for _ in range(spec["workers"] + len(spec["kills"]))]
    spare = list(pool)
    try:
        h = hashlib.blake2b(digest_size=10)
        ctx = ops.Ctx(spec["world"])
        slots = [spare.pop(0) for _ in range(spec["workers"])]
        busy = [0.0] * len(slots)
        net = Net(spec)
        kills = {(k["w"], k["n"]): k["evt"] for k in spec["kills"]}
        ab = {(k["w"], k["n"]): [k["evt"], k["kind"]] for k in spec["aborts"]}
        nth = [0] * len(slots)
        q, cnt = [], [0]
        jobs = {j["id"]: dict(j) for j in spec["jobs"]}
        answers = {i: [] for i in jobs}
        models = {}
        local = {}
        bad = []
        log = []
        fired = {}
        now = 0.0
        steps = 0
        deadline = spec["net"]["until"] + 40.0 * (len(jobs) + 4)

        def push(t, *e):
            cnt[0] += 1
            heapq.heappush(q, (t, cnt[0]) + e)

        def wants(j, how):
            """The arguments of a call the way the job ships them."""
            job = {"id": j["id"], "seq": cnt[0], "op": j["op"], "proto": j["proto"], "arr": ctx.arr}
            if j["op"]["k"] == "build":
                if how == "scn":
                    job["scn"] = ctx.scn[j["op"]["s"]]
                elif how == "mdl":
                    job["mdl"] = models[j["id"]]
                else:
                    job["mdl"] = models[j["after"]]
            return job

        # what is copied or built locally before anything is sent
        for j in spec["jobs"]:
            op = j["op"]
            if op["k"] == "build" and j["how"] in ("mdl", "copy", "deepcopy"):
                out = {}
                c2 = ops.Ctx({"scn": [], "arr": [], "mdl": []})
                c2.scn, c2.arr = ctx.scn, ctx.arr
                ops.run_op(dict(op, keep=True, reads=[]), c2, out)
                if not c2.kept:
                    local[j["id"]] = {"k": "raised", "out": out}
                    continue
                models[j["id"]] = c2.kept[0]
                if j["how"] != "mdl":
                    rec = {"k": j["how"]}
                    try:
                        f = copy.deepcopy if j["how"] == "deepcopy" else copy.copy
                        m2 = f(c2.kept[0])
                        s = ctx.scn[op["s"]]
                        s2 = f(s)
                        rec["items"] = norm.value(dict(s2.items()))
                        rec["type"] = type(s2).__name__
                        c3 = ops.Ctx({"scn": [], "arr": [], "mdl": []})
                        c3.arr = ctx.arr
                        c3.mdl.append(m2)
                        o = {}
                        ops.run_op(dict(op, k="read", m=0), c3, o)
                        rec["out"] = o
                        s2["mag"] = 3.75
                        if j["how"] == "deepcopy":
                            for r in op["reads"]:
                                try:
                                    ops.scribble(getattr(m2, r) if isinstance(r, str) else None)
                                except Exception:
                                    pass
                        c3.mdl[0] = c2.kept[0]
                        o = {}
                        ops.run_op(dict(op, k="read", m=0), c3, o)
                        rec["after"] = o
                    except BaseException as e:
                        rec["fail"] = norm.exc(e)
                    local[j["id"]] = rec
        todo = [i for i in jobs if jobs[i]["how"] not in ("copy", "deepcopy") and local.get(i, {}).get("k") != "raised"]
        for n, i in enumerate(todo):
            push(0.1 * n, "try", i)
        while q:
            e = heapq.heappop(q)
            now = max(now, e[0])
            kind = e[2]
            h.update(repr((round(now, 3), kind, e[3])).encode())
            if len(log) < 250:
                log.append([round(now, 3), kind, e[3] if kind != "work" else [e[3], e[5]]])
            if now > deadline:
                bad.append(["liveness", "jobs %s unanswered long after faults stopped" % [i for i in todo if not answers[i]]])
                break
            if kind == "try":
                i = e[3]
                if answers[i]:
                    continue
                j = jobs[i]
                push(now + j["retry"], "try", i)
                if j["how"] == "hop" and j["after"] not in models:
                    if answers.get(j["after"]):
                        todo.remove(i)  # the first leg raised (as it must); nothing to forward
                        answers[i].append(None)
                    continue
                try:
                    data = pickle.dumps(wants(j, j["how"]), j["proto"])
                except BaseException as x:
                    bad.append(["send", "job %d (%s) cannot be sent: %s" % (i, j["how"], norm.short(norm.exc(x)))])
                    answers[i].append(None)
                    continue
                w = j["w"] % len(slots)
                j["w"] += 1
                for dt in net.fate(now):
                    push(now + dt, "work", w, data, i)
            elif kind == "work":
                w, data, i = e[3], e[4], e[5]
                if slots[w] is None:
                    continue
                if busy[w] > now:
                    push(busy[w], "work", w, data, i)
                    continue
                nth[w] += 1
                k = (w, nth[w])
                fault = [kills.pop(k), "kill"] if k in kills else ab.pop(k, None)
                r = slots[w].call(data, fault)
                if r is None:
                    fired["kill"] = fired.get("kill", 0) + 1
                    h.update(b"died")
                    slots[w] = None
                    push(now + 2.0, "restart", w)
                    continue
                steps += r["steps"]
                busy[w] = now + 0.01 + r["n"] * 0.001
                h.update(repr(r["n"]).encode())
                for f in r["fired"]:
                    fired[f] = fired.get(f, 0) + 1
                if r["data"] is None:
                    if not r["fired"]:
                        bad.append(["refused", "worker could not take or answer job %d (%s): %s" % (i, jobs[i]["how"], norm.short(r["fail"]))])
                        answers[i].append(None)
                    continue
                for dt in net.fate(now):
                    push(busy[w] + dt, "answer", i, base64.b64decode(r["data"]), w)
            elif kind == "restart":
                slots[e[3]] = spare.pop(0)
            elif kind == "answer":
                i = e[3]
                try:
                    a = pickle.loads(e[4])
                    c3 = ops.Ctx({"scn": [], "arr": [], "mdl": []})
                    c3.arr = ctx.arr
                    if a.get("model") is not None:
                        c3.mdl.append(a["model"])
                        o = {}
                        ops.run_op(dict(jobs[i]["op"], k="read", m=0), c3, o)
                        a["back"] = o
                        if i not in models:
                            models[i] = a["model"]
                    a.pop("model")
                    answers[i].append(a)
                except BaseException as x:
                    bad.append(["answer", "the answer to job %d (%s) cannot be read: %s" % (i, jobs[i]["how"], norm.short(norm.exc(x)))])
                    answers[i].append(None)
        return {"answers": {str(k): v for k, v in answers.items()}, "local": {str(k): v for k, v in local.items()}, "bad": bad,
                "hash": h.hexdigest(), "log": log, "now": now, "net": net.counts, "fate": net.made, "fired": fired, "steps": steps,
                "todo": todo, "messages": net.n,
                "final": {"scn": [norm.given(x) for x in ctx.scn], "arr": [norm.given(a) for a in ctx.arr]}}
    finally:
        for w in pool:
            w.end()
        F.FSOBJ = None
        E.shutil.rmtree(d, ignore_errors=True)


class C11(E.Prop):
    id = "C11"
    guided = False
    runs = {"quick": 900, "thorough": 40000}
    rule = ("A run has a master and 1-3 worker processes (forked interpreters with separate memory) joined by a simulated network that loses, "
            "duplicates, delays and so reorders messages until a drawn time; workers are killed at a drawn executed line of a job and restarted empty, "
            "or interrupted. 3-8 jobs ship a scenario, a built model, a model received from another worker, or the arrays of a function call, pickled with "
            "a drawn protocol; the master retries until each is answered. Every answer, received scenario and received model is compared with the local "
            "result in a fresh process; copy and deepcopy are compared too. All jobs must be answered within a bounded time after faults stop. Non-trivial: a message met a "
            "fault or a worker died; distinct by event history.")
    real = "all of src/pygmm, pickle and copy; workers are real forked processes"
    stubs = "the network, time, retries (simulated), thread scheduling"

    def gen(self, rng, eng, tier, index):
        w = gen.W(rng)
        classes = rng.sample(sorted(gen.C), rng.choice([1, 2, 3]))
        fams = {c: [w.add_scn(kw) for kw in gen.family(rng, c, rng.choice([1, 2]))] for c in classes}
        jobs = []
        for i in range(rng.choice([3, 4, 6, 8])):
            j = {"id": len(jobs) + 1, "proto": rng.choice([0, 1, 2, 3, 4, 5, 5]), "retry": rng.choice([3.0, 5.0, 9.0]), "w": rng.randrange(3)}
            if rng.random() < 0.2:
                j.update(op=gen.fn(w), how="fn")
            else:
                c = rng.choice(classes)
                j.update(op=gen.build(w, c, rng.choice(fams[c])), how=rng.choice(["scn", "scn", "scn", "mdl", "mdl", "copy", "deepcopy"]))
            jobs.append(j)
            if j["how"] == "scn" and rng.random() < 0.4:
                jobs.append(dict(j, id=len(jobs) + 1, how="hop", after=j["id"], proto=rng.choice([0, 2, 4, 5]), w=rng.randrange(3)))
        nw = rng.choice([1, 2, 2, 3])
        world = w.data()
        for a in world["arr"]:
            if a["k"] == "ma0":  # NumPy itself does not preserve an absent mask when an array is sent
                a.update(k="ma", mask=[False] * len(a["v"]))
        est = {j["id"]: max(30, eng.ref(j["op"], world)["n"] * 3) for j in jobs}

        def at():
            return rng.randint(1, rng.choice(list(est.values())) if rng.random() < 0.6 else 25)

        kills = [{"w": rng.randrange(nw), "n": rng.randint(1, 6), "evt": at()} for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        aborts = [{"w": rng.randrange(nw), "n": rng.randint(1, 6), "evt": at(), "kind": rng.choice(["kbd", "mem"])}
                  for _ in range(rng.choice([0, 0, 1, 2]))]
        return {"world": world, "jobs": jobs, "workers": nw, "kills": kills, "aborts": aborts,
                "net": {"drop": rng.choice([0, 0.1, 0.3, 0.6]), "dup": rng.choice([0, 0.2, 0.5]), "spread": rng.choice([0.1, 2.0, 8.0]),
                        "until": rng.choice([10.0, 30.0, 80.0])}, "pseed": rng.getrandbits(48), "policy": {"k": "net"}}

    def run(self, spec, eng):
        eng.runs += 1
        return E.forkrun(execute, spec)

    def nontrivial(self, spec, res):
        return bool(res["fired"] or set(res["net"]) - {"plain"}), res["hash"]

    def digest(self, spec, res):
        return "%s/%s" % (res["hash"], hashlib.blake2b(E.json.dumps([res["answers"], res["local"], res["bad"], res["final"]],
                                                                   sort_keys=True).encode(), digest_size=6).hexdigest())

    def explain(self, spec, res):
        return ["%.3f s: %s %s" % tuple(x) for x in res["log"]][:150]

    def stats(self, spec, res, acc):
        acc["steps"] = acc.get("steps", 0) + res["steps"]
        acc["simulated_s"] = acc.get("simulated_s", 0.0) + res["now"]
        acc["messages"] = acc.get("messages", 0) + res["messages"]
        acc["calls"] = acc.get("calls", 0) + len(spec["jobs"])
        for k, n in res["net"].items():
            if k != "plain":
                E.bump(acc, "faults", "message_" + k, n)
        for k, n in res["fired"].items():
            E.bump(acc, "faults", k, n)
        for j in spec["jobs"]:
            E.bump(acc, "shipped", j["how"])
            E.bump(acc, "classes", j["op"].get("cls") or j["op"].get("fn"))

    def judge(self, spec, res, eng):
        v = [{"sig": s, "op": -1, "msg": m} for s, m in res["bad"]]
        for j in spec["jobs"]:
            op = j["op"]
            ref = eng.ref(op, spec["world"])
            if ref["out"] is None:
                continue

            def cmp(out, what, reads_only=False):
                exp = ref["out"]
                if reads_only:
                    exp = {k: x for k, x in exp.items()}
                    exp["build"] = None
                d = norm.diff(out, exp)
                if d:
                    v.append({"sig": "result", "op": j["id"], "msg": "%s for %s differs from the local result: %s" % (
                        what, E.describe(op, spec), d)})

            loc = res["local"].get(str(j["id"]))
            src = E.initial(spec, "s", op["s"])[3] if op["k"] == "build" else None
            kind = "SubScenario" if op["k"] == "build" and spec["world"]["scn"][op["s"]]["t"] == "sub" else "Scenario"
            if loc is not None and loc["k"] != "raised":
                if "fail" in loc:
                    v.append({"sig": "copy", "op": j["id"], "msg": "%s of a %s or its scenario raised %s" % (loc["k"], op["cls"], norm.short(loc["fail"]))})
                else:
                    cmp(loc["out"], loc["k"], True)
                    cmp(loc["after"], "the original after its %s was changed" % loc["k"], True)
                    if loc["type"] != kind or norm.diff0(loc["items"], src):
                        v.append({"sig": "copy", "op": j["id"], "msg": "%s of a scenario gives %s: %s" % (
                            loc["k"], loc["type"], norm.diff0(loc["items"], src))})
                continue
            for a in res["answers"][str(j["id"])]:
                if a is None:
                    continue
                cmp(a["out"], "the answer from a worker (%s shipped)" % j["how"])
                if a.get("back") is not None:
                    cmp(a["back"], "the model sent back by a worker")
                if "items" in a:
                    if a["type"] != kind or norm.diff0(a["items"], src) or norm.diff0(a["attrs"], src) or a["none"]:
                        v.append({"sig": "entries", "op": j["id"], "msg": "the scenario arrived as %s: %s" % (
                            a["type"], norm.diff0(a["items"], src) or norm.diff0(a["attrs"], src))})
        v += E.judge_inputs_after(spec, res)
        return v

    def shrink_steps(self, spec, bad):
        cur = spec
        if "fate" not in cur:
            r = self.run(cur, E.Engine())
            c = dict(cur, fate=r["fate"])
            if bad(c):
                cur = c
        if cur.get("fate"):
            its = E.ddmin(sorted(cur["fate"].items()), lambda x: bad(dict(cur, fate=dict(x))))
            cur = dict(cur, fate=dict(its))
        for k in ("kills", "aborts"):
            cur = dict(cur, **{k: E.ddmin(cur[k], lambda x: bad(dict(cur, **{k: x})))})

        def closed(js):
            ids = {j["id"] for j in js}
            return [j for j in js if j["how"] != "hop" or j["after"] in ids]
        js = E.ddmin(cur["jobs"], lambda x: bad(dict(cur, jobs=closed(x))))
        cur = dict(cur, jobs=closed(js))
        for i, j in enumerate(cur["jobs"]):
            if len(j["op"].get("reads") or ()) > 1:
                def put(x, i=i):
                    return dict(cur, jobs=[dict(y, op=dict(y["op"], reads=x)) if n == i else y for n, y in enumerate(cur["jobs"])])
                cur = put(E.ddmin(j["op"]["reads"], lambda x: bad(put(x))))
        return cur


PROP = C11()
