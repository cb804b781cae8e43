import hashlib
import random
import shutil
import sys

from .. import engine as E
from .. import env
from .. import fs as F
from .. import gen
from .. import norm
from .. import ops
from .. import procs
from .. import sched as S

MOD = "pygmm.hermkes_kuehn_riggelsen_2014"
SCN = {"mag": 6.1, "v_s30": 480.0, "mechanism": "RS", "dist_jb": 22.0, "depth_hyp": 9.0}
OP = {"k": "build", "cls": "HKR14", "s": 0, "kw": {}, "reads": ["spec_accels", "ln_stds", "pga"]}


def bodies():
    """Distinct complete archives with the same content (different zip comments)."""
    import struct

    b = env.npz_bytes()
    out = []
    for i in range(8):
        c = b"copy %03d" % i
        out.append(b[:-2] + struct.pack("<H", len(c)) + c)
    return out


def node_body(cfg):
    def body(result, t, sc):
        import importlib

        sys.modules.pop(MOD, None)
        if cfg.get("delay"):
            sc.sleep(cfg["delay"])
        for n in cfg.get("times", [1]):
            try:
                m = importlib.import_module(MOD)
                result["import"] = None
            except BaseException as e:
                result["import"] = norm.exc(e)
                if isinstance(e, (F.NodeKilled, S.SimStop)):
                    raise
                sys.modules.pop(MOD, None)
                continue
            try:
                M = ops.module("model").Scenario(**SCN)
                x = m.HermkesKuehnRiggelsen2014(M)
                result["value"] = [norm.value(x.spec_accels), norm.value(x.ln_stds), norm.value(x.pga)]
            except BaseException as e:
                if isinstance(e, S.SimStop):
                    raise
                result["value"] = norm.exc(e)
    return body


def execute(spec):
    ops.capture()
    d = E.os.path.join(E.BASE, "r%d" % F._real.getpid())
    fs = F.activate(d)
    fs.root = env.REPO
    fs.whiteouts = F.DiskSet(d + "/wh")
    bs = bodies()
    hs = {hashlib.blake2b(b, digest_size=8).hexdigest(): i for i, b in enumerate(bs)}
    if spec.get("present") is None:
        fs.whiteouts.add(env.NPZ)
    else:
        fs.put(env.NPZ, bs[spec["present"]])
        if "age" in spec:
            fs.stamp(fs.o(env.NPZ), spec["age"])
            F._real.chmod(fs.o(env.NPZ), spec["mode"])
    bad = []

    def state():
        c = fs.content(env.NPZ)
        if c is None:
            return "absent"
        i = hs.get(hashlib.blake2b(c, digest_size=8).hexdigest())
        return "partial:%d" % len(c) if i is None else "complete:%d" % i

    last = [state()]

    def check(nid, x):
        s = state()
        if nid is None:
            return s
        if s.startswith("partial") and not last[0].startswith("partial"):
            bad.append([nid, "partial", "node %d left %s of %d bytes at the final path" % (nid, s[8:], len(bs[0]))])
        elif s != last[0] and last[0].startswith("complete"):
            if s == "absent":
                bad.append([nid, "removed", "node %d removed the complete data file" % nid])
            elif str(x.get("present")).startswith("complete"):
                bad.append([nid, "replaced", "node %d replaced a data file that was present when it started" % nid])
        last[0] = s
        return s

    co = procs.Coordinator(random.Random(spec.get("pseed", 0)), spec["policy"], check)
    out = []
    nid = 1
    try:
        co.now = spec.get("t0", 0.0)
        gaps = spec.get("gaps") or []
        for k, ph in enumerate(spec["phases"]):
            if k and k <= len(gaps):
                co.now += gaps[k - 1]
            nodes = [dict(c, body=bs[(nid + i) % len(bs)]) for i, c in enumerate(ph)]
            r = co.phase(nodes, d, node_body, nid)
            out.append([r[k] for k in sorted(r)])
            nid += len(ph)
        return {"phases": out, "bad": bad, "final": state(), "decisions": co.decisions, "hash": co.hash.hexdigest(), "il": co.ilhash.hexdigest(),
                "steps": co.steps, "nsw": co.switches, "now": co.now, "log": co.log,
                "left": sorted(p for p in fs.listing() if not p.endswith("hermkes_kuehn_riggelsen_2014.npz"))}
    finally:
        F.FSOBJ = None
        shutil.rmtree(d, ignore_errors=True)


class C08(E.Prop):
    id = "C08"
    guided = False
    runs = {"quick": 1100, "thorough": 40000}
    rule = ("A run starts without the data file (or, in a tenth, with it) and has 1-3 phases of 1-3 simulated processes that import the "
            "on-demand module and build the model, each with its own server behaviour (refused, DNS, timeout, HTTP error, reset or stall after a "
            "fraction, short body, small segments), disk faults (ENOSPC, EIO, EACCES) at drawn operations, interrupts, and kills at a drawn "
            "file/network operation or executed line; then one fault-free process. After every step the final path must be absent or complete; the last process "
            "must work. Every server answer is a distinct complete archive. Non-trivial: some fault fired or processes overlapped; distinct by the event history.")
    real = "the on-demand module, urllib.request.urlretrieve, numpy.load and the real file system under a scratch overlay; each process is a real forked interpreter"
    stubs = "the server and sockets (urllib's opener), process scheduling, sleeps and clocks"
    assumptions = ("a process kill loses nothing already written to the file system; power loss is not simulated",
                   "servers announce the length of what they send")

    def gen(self, rng, eng, tier, index):
        def net():
            k = rng.choice(["refused", "dns", "timeout", "http", "reset", "reset", "short", "short", "rtimeout"])
            d = {"k": k, "frac": rng.choice([0.0, 0.01, 0.3, 0.6, 0.9, 0.999])}
            if rng.random() < 0.3:
                d["mss"] = rng.choice([500, 1460, 4000])
            if k == "http":
                d["code"] = rng.choice([404, 500, 503, 429])
            return d

        def node(faulty):
            c = {}
            if rng.random() < 0.35:
                c["net"] = [{"k": "ok", "mss": rng.choice([700, 1460, 4096]), "lat": rng.choice([0.01, 0.5])}]
            if not faulty:
                return c
            for _ in range(rng.choice([1, 1, 2])):
                x = rng.random()
                if x < 0.4:
                    c["net"] = [net() for _ in range(rng.choice([1, 1, 2, 4]))]
                elif x < 0.62:
                    c["plan"] = dict(c.get("plan") or {}, **{str(rng.randint(1, 40)): rng.choice(
                        ["ENOSPC", "ENOSPC", "EIO", "EACCES", "kbd", "mem", "ENOENT"])})
                elif x < 0.68:
                    a = rng.randint(1, 15)
                    c["sticky"] = [rng.choice(["ENOSPC", "EIO", "EACCES"]), a, a + rng.choice([2, 1000])]
                elif x < 0.85:
                    c["plan"] = dict(c.get("plan") or {}, **{str(rng.randint(1, 40)): "kill"})
                elif x < 0.93:
                    c["kill"] = rng.randint(1, 120)
                else:
                    c["faults"] = {str(rng.randint(1, 90)): rng.choice(["kbd", "mem"])}
            if rng.random() < 0.12:
                c["times"] = [1, 2]
            return c

        phases = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            phases.append([node(rng.random() < 0.7) for _ in range(rng.choice([1, 1, 2, 2, 3]))])
        for ph in phases:
            if len(ph) > 1 and rng.random() < 0.45:
                # one process starts while another is in the middle of its download
                slow = rng.choice(ph)
                if "net" not in slow:
                    slow["net"] = [{"k": "ok", "mss": rng.choice([700, 1460, 4096]), "lat": rng.choice([0.01, 0.1, 0.5])}]
                for c in ph:
                    if c is not slow:
                        c["delay"] = round(10 ** rng.uniform(-3, 1.3), 4)
        phases.append([{}])
        spec = {"phases": phases, "present": None}
        if rng.random() < 0.18:
            spec.update(present=rng.randrange(8), age=rng.choice([0.0, 86400.0, 1.0e9, 1.39e9, 1.69e9, 1.7e9, 4.0e9]),
                        mode=rng.choice([0o644, 0o644, 0o444, 0o600]))
        if rng.random() < 0.4:
            # time between the process lifetimes; the clock may also be set
            spec["t0"] = rng.choice([0.0, 0.0, -1.65e9, 3.0e8])
            spec["gaps"] = [rng.choice([0.0, 60.0, 3600.0, 9.0e4, 4.0e7, -7200.0, -4.0e7]) for _ in phases[1:]]
        return {**spec,
                "policy": {"k": "random", "p": rng.choice([0.05, 0.2, 0.5])}, "pseed": rng.getrandbits(48)}

    def run(self, spec, eng):
        eng.runs += 1
        return E.forkrun(execute, spec)

    def nontrivial(self, spec, res):
        f = any(m.get("e") == "died" or m.get("fired") or m.get("fs") or any(x != "ok" for x in m.get("net", [])) for ph in res["phases"] for m in ph)
        return bool(f or res["nsw"]), res["hash"]

    def digest(self, spec, res):
        return "%s/%s" % (res.get("hash"), hashlib.blake2b(E.json.dumps([res.get("phases"), res.get("bad"), res.get("final")],
                                                                       sort_keys=True).encode(), digest_size=6).hexdigest())

    def explain(self, spec, res):
        return ["process %s: %s %s" % tuple(x) for x in res.get("log", [])][:120] + ["final path: %s" % res.get("final")]

    def stats(self, spec, res, acc):
        acc["steps"] = acc.get("steps", 0) + res["steps"]
        acc["switches"] = acc.get("switches", 0) + res["nsw"]
        acc["simulated_s"] = acc.get("simulated_s", 0.0) + res["now"]
        acc["processes"] = acc.get("processes", 0) + sum(len(p) for p in res["phases"])
        for ph in res["phases"]:
            for m in ph:
                if m["e"] == "died":
                    E.bump(acc, "faults", "kill@" + m["why"])
                for k, n in (m.get("fs") or {}).items():
                    if not k.startswith("kill@"):
                        E.bump(acc, "faults", k, n)
                for k in m.get("fired") or ():
                    E.bump(acc, "faults", k)
                for k in m.get("net") or ():
                    if k != "ok":
                        E.bump(acc, "faults", "net_" + k)
        E.bump(acc, "final", res["final"].split(":")[0])

    def judge(self, spec, res, eng):
        # a process that was told the file is not there (or could not look) may fetch it
        ms = [m for ph in res["phases"] for m in ph]
        blind = [i + 1 for i, m in enumerate(ms) if any(k.split("@")[1:] in (["stat"], ["open_r"]) for k in m.get("fs") or ())]
        v = [{"sig": s, "op": -1, "msg": m} for n, s, m in res["bad"] if not (s == "replaced" and n in blind)]
        world = {"scn": [{"kw": SCN, "t": "S"}], "arr": [], "mdl": []}
        ref = eng.ref(OP, world)["out"]
        exp = [ref["r0"], ref["r1"], ref["r2"]]
        for i, ph in enumerate(res["phases"]):
            quiet = all(m["e"] == "done" and not m.get("fs") and not m.get("fired") and all(x == "ok" for x in m.get("net") or ()) for m in ph)
            for j, m in enumerate(ph):
                if m["e"] == "stuck":
                    v.append({"sig": "stuck", "op": -1, "msg": "process %d of phase %d never finished: %s" % (j, i, m["why"])})
                if m["e"] != "done":
                    continue
                o = m["out"]
                if o.get("harness"):
                    raise E.HarnessError(o["harness"])
                x = o.get("value")
                bad = o.get("import") or (x if isinstance(x, list) and x[:1] == ["exc"] else None)
                if bad and str(m.get("present")).startswith("complete") and not m.get("fs") and not m.get("fired"):
                    v.append({"sig": "unusable", "op": -1, "msg": "a process that found the complete data file could not use it: %s" % norm.short(bad)})
                elif str(m.get("present")).startswith("complete") and m.get("net") and not m.get("fs") and not m.get("fired"):
                    v.append({"sig": "network", "op": -1, "msg": "a process that found the complete data file went to the network: %s" % m["net"]})
                elif quiet and (bad or x is None):
                    v.append({"sig": "quiet", "op": -1, "msg": "process %d of phase %d failed although no fault hit any process running with it: %s" % (j, i, norm.short(bad))})
                if x is not None and not (x and x[0] == "exc") and norm.diff(x, exp):
                    v.append({"sig": "value", "op": -1, "msg": "a process predicted from incomplete data: %s" % norm.diff(x, exp)})
        last = res["phases"][-1][0]
        o = last.get("out", {})
        if last["e"] != "done" or o.get("import") is not None or o.get("value") is None or norm.diff(o["value"], exp):
            v.append({"sig": "last", "op": -1, "msg": "the fault-free process at the end failed: import %s, model %s" % (
                norm.short(o.get("import")), norm.short(o.get("value")))})
        elif not res["final"].startswith("complete"):
            v.append({"sig": "last", "op": -1, "msg": "the fault-free process at the end left the data file " + res["final"]})
        return v

    def shrink_steps(self, spec, bad):
        cur = spec
        for k in ("gaps", "t0"):
            if k in cur and bad({a: b for a, b in cur.items() if a != k}):
                cur = {a: b for a, b in cur.items() if a != k}
        if cur["policy"]["k"] == "random":
            c = dict(cur, policy={"k": "serial"})
            if bad(c):
                cur = c
        for i in reversed(range(len(cur["phases"]) - 1)):
            c = dict(cur, phases=cur["phases"][:i] + cur["phases"][i + 1:])
            if bad(c):
                cur = c
        for i in range(len(cur["phases"]) - 1):
            for j in reversed(range(len(cur["phases"][i]))):
                if len(cur["phases"][i]) > 1:
                    ph = cur["phases"][i][:j] + cur["phases"][i][j + 1:]
                    c = dict(cur, phases=cur["phases"][:i] + [ph] + cur["phases"][i + 1:])
                    if bad(c):
                        cur = c
        for i in range(len(cur["phases"])):
            for j in range(len(cur["phases"][i])):
                for k in sorted(cur["phases"][i][j]):
                    nd = {a: b for a, b in cur["phases"][i][j].items() if a != k}
                    ph = cur["phases"][i][:j] + [nd] + cur["phases"][i][j + 1:]
                    c = dict(cur, phases=cur["phases"][:i] + [ph] + cur["phases"][i + 1:])
                    if bad(c):
                        cur = c
        return cur


PROP = C08()
