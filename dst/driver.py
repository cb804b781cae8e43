"""Runs a property's seeded simulations over worker processes and reports."""

import importlib
import json
import mmap
import os
import random
import re
import select
import struct
import subprocess
import sys
import time
import traceback

from . import engine as E
from . import env
from . import fs as F

VERIF = E.VERIF


def load(pid):
    return importlib.import_module("dst.props.%s" % pid.lower()).PROP


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [x for x in d.get("findings", []) if x["property"] == pid and x.get("status") == "known"]


def is_known(v, ks):
    for k in ks:
        if v["sig"] == k["sig"] and re.search(k["match"], v["msg"]):
            return k
    return None


def send(w, obj):
    b = json.dumps(obj).encode()
    b = struct.pack(">I", len(b)) + b
    n = 0
    while n < len(b):
        n += F._real.os_write(w, b[n:]) if hasattr(F._real, "os_write") else os.write(w, b[n:])


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, list):
            a[k] = (a.get(k) or []) + v
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v


def worker(prop, tier, seed, jobs, w, deadline, flag, ks, hashes, keep_going):
    eng = E.Engine()
    acc = {}
    keys = set()
    lines = []
    samples = []
    done = 0
    known_hits = {}
    errs = 0
    for i in jobs:
        low = struct.unpack(">q", flag[:8])[0]
        if time.monotonic() > deadline or (low >= 0 and i > low):
            break
        rng = random.Random(E.seed_of(seed, prop.id, i))
        spec = None
        try:
            for attempt in (0, 1, 2):
                try:
                    rng = random.Random(E.seed_of(seed, prop.id, i))
                    spec = prop.gen(rng, eng, tier, i)
                    res = prop.run(spec, eng)
                    vs = prop.judge(spec, res, eng)
                    break
                except E.HarnessError:
                    if attempt == 2:
                        raise
                    time.sleep(0.2)
        except E.HarnessError as e:
            v = prop.on_timeout(spec, str(e))
            if v is None:
                errs += 1
                send(w, {"t": "err", "i": i, "msg": str(e), "spec": spec})
                if errs > 3:
                    break
                continue
            vs, res = [v], {}
        except Exception:
            send(w, {"t": "err", "i": i, "msg": traceback.format_exc(), "spec": spec})
            errs += 1
            if errs > 3:
                break
            continue
        done += 1
        if hashes:
            lines.append([i, prop.digest(spec, res)])
        prop.stats(spec, res, acc)
        nt, k = prop.nontrivial(spec, res)
        if nt:
            keys.add(k)
            if len(samples) < 2:
                samples.append(prop.sample(spec, res))
        bad = []
        for v in vs:
            kf = is_known(v, ks)
            if kf:
                known_hits[kf["id"]] = known_hits.get(kf["id"], 0) + 1
            else:
                bad.append(v)
        if bad:
            send(w, {"t": "viol", "i": i, "spec": spec, "vs": bad[:5]})
            if not keep_going:
                low = struct.unpack(">q", flag[:8])[0]
                if low < 0 or i < low:
                    flag[:8] = struct.pack(">q", i)
                break
    send(w, {"t": "end", "done": done, "acc": acc, "keys": sorted(keys), "refs": eng.nref, "samples": samples,
             "lines": lines, "known": known_hits})


SURVEY = None


def survey(prop, tier):
    """Which calls leave something behind (decides only where the search looks)."""
    global SURVEY
    from . import gen, probe

    t0 = time.monotonic()
    try:
        gen.HOT = probe.survey(tier)
    except Exception:
        if os.environ.get("DST_DEBUG"):
            traceback.print_exc()
        gen.HOT = []
    gen.LIKE = dict(prop.like)
    SURVEY = {"targets_with_traces": sorted({h["t"] for h in gen.HOT}), "places": sorted({p for h in gen.HOT for p in h["places"]})[:40],
              "environment_variables_read": sorted(env.ENVREAD),
              "wall_s": round(time.monotonic() - t0, 2)}
    print("survey: %s" % json.dumps(SURVEY), flush=True)


def main(args):
    prop = load(args.prop)
    tier = args.tier
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    if args.replay:
        return replay(prop, args.replay)
    t0 = time.monotonic()
    seed = args.seed
    print("property=%s tier=%s seed=%d repo=%s" % (prop.id, tier, seed, env.REPO), flush=True)
    W = args.workers or int(os.environ.get("DST_WORKERS") or 0) or max(2, min(8, os.cpu_count() or 2))
    try:
        E.setup(import_lib=prop.zygote)
        if prop.zygote and prop.guided:
            survey(prop, tier)
        total = args.runs or prop.runs[tier]
        deadline = t0 + (args.cap or prop.cap[tier])
        ks = known(prop.id)
        flag = mmap.mmap(-1, 8)
        flag[:8] = struct.pack(">q", -1)
        procs = {}
        sys.stdout.flush()
        master = os.getpid()
        for w in range(W):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    for q in procs:
                        F._real.os_close(q)
                    prop.start_worker()
                    worker(prop, tier, seed, range(w, total, W), wr, deadline, flag, ks, bool(args.hashes), args.keep_going)
                except BaseException:
                    traceback.print_exc()
                    code = 4
                finally:
                    try:
                        prop.stop_worker()
                    finally:
                        sys.stdout.flush()
                        os._exit(code)
            F._real.os_close(wr)
            procs[r] = (pid, bytearray())
        acc, keys, viols, errs, samples, lines, kh = {}, set(), [], [], [], [], {}
        runs = refs = ended = 0
        hard = deadline + 240
        while procs:
            rl = select.select(list(procs), [], [], max(0.0, hard - time.monotonic()))[0]
            if not rl:
                for r, (pid, _) in procs.items():
                    os.kill(pid, 9)
                errs.append({"msg": "workers did not stop"})
                break
            for r in rl:
                b = F._real.os_read(r, 1 << 20)
                pid, buf = procs[r]
                if not b:
                    os.waitpid(pid, 0)
                    F._real.os_close(r)
                    del procs[r]
                    continue
                buf += b
                while len(buf) >= 4:
                    n = struct.unpack(">I", buf[:4])[0]
                    if len(buf) < 4 + n:
                        break
                    m = json.loads(bytes(buf[4:4 + n]))
                    del buf[:4 + n]
                    if m["t"] == "viol":
                        viols.append(m)
                    elif m["t"] == "err":
                        errs.append(m)
                    else:
                        ended += 1
                        runs += m["done"]
                        refs += m["refs"]
                        merge(acc, m["acc"])
                        keys.update(m["keys"])
                        samples += m["samples"]
                        lines += m["lines"]
                        merge(kh, m["known"])
        if ended < W:
            errs.append({"msg": "%d of %d workers died" % (W - ended, W)})
        wall = time.monotonic() - t0
        code, replay_path = 0, None
        if args.hashes:
            with F._real.open(args.hashes, "w") as f:
                for ln in sorted(lines):
                    f.write("%d %s\n" % tuple(ln))
        viols.sort(key=lambda m: m["i"])
        if args.keep_going:
            for m in viols:
                print("run %d: %s" % (m["i"], m["vs"][0]["msg"]))
            code = 1 if viols else 0
        elif viols:
            code, replay_path = report(prop, seed, tier, viols)
            wall = time.monotonic() - t0
        for e in errs[:4]:
            print("HARNESS ERROR run=%s\n%s" % (e.get("i"), e["msg"]))
            if os.environ.get("DST_DEBUG"):
                print(json.dumps(e.get("spec"))[:3000])
        if errs and code == 0:
            code = 2
        evidence(prop, tier, seed, runs, refs, keys, samples, acc, viols, errs, wall, W, kh, replay_path)
        for k in ks:
            print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]))
        print("runs=%d distinct=%d references=%d violations=%d wall=%.1fs" % (runs, len(keys), refs, len(viols), wall))
        print("faults=%s" % json.dumps(acc.get("faults", {}), sort_keys=True))
        if code == 1 and replay_path:
            print("VIOLATION property=%s replay=%s" % (prop.id, replay_path))
        return code
    finally:
        E.cleanup()


def report(prop, seed, tier, viols):
    """Minimise, write the replay file, confirm it in a fresh process."""
    eng = E.Engine()
    prop.start_worker()
    try:
        for n, m in enumerate(viols[:4]):
            sig = m["vs"][0]["sig"]
            spec = m["spec"]
            try:
                small, nruns = E.shrink(prop, spec, eng, sig)
            except Exception:
                traceback.print_exc()
                small, nruns = spec, 0
            for cand, label in ((small, "minimised"), (spec, "as found")):
                try:
                    res = prop.run(cand, eng)
                    vs = [v for v in prop.judge(cand, res, eng) if v["sig"] == sig]
                except E.HarnessError as e:
                    v = prop.on_timeout(cand, str(e))
                    vs, res = ([v] if v else []), {}
                if not vs:
                    continue
                path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop.id, seed, m["i"]))
                with F._real.open(path, "w") as f:
                    json.dump({"property": prop.id, "seed": seed, "tier": tier, "run": m["i"], "form": label,
                               "minimisation_runs": nruns, "violation": vs[0], "digest": prop.digest(cand, res),
                               "events": prop.explain(cand, res), "spec": cand}, f, indent=1, sort_keys=True)
                if confirm(prop, path):
                    print("violation: %s" % vs[0]["msg"])
                    print("run %d, %s, %d minimisation runs" % (m["i"], label, nruns))
                    return 1, path
        print("HARNESS ERROR: a violation did not replay: %s" % json.dumps(viols[0]["vs"][0]))
        return 2, None
    finally:
        prop.stop_worker()


def confirm(prop, path):
    for _ in range(2):
        e = {k: v for k, v in os.environ.items() if k != "DST_CHILD"}
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), prop.id, "--replay", path], env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 1 and "VIOLATION property=%s" % prop.id in p.stdout:
            return True
        if os.environ.get("DST_DEBUG"):
            print("replay said:", p.returncode, p.stdout[-2000:])
    return False


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    try:
        E.setup(import_lib=prop.zygote)
        eng = E.Engine()
        prop.start_worker()
        spec = d["spec"]
        try:
            res = prop.run(spec, eng)
            vs = prop.judge(spec, res, eng)
        except E.HarnessError as e:
            v = prop.on_timeout(spec, str(e))
            if v is None:
                raise
            vs, res = [v], {}
        for v in vs:
            print("violation: %s" % v["msg"])
        for x in prop.explain(spec, res):
            print("  " + str(x))
        dig = prop.digest(spec, res)
        print("digest=%s recorded=%s %s" % (dig, d.get("digest"), "same execution" if dig == d.get("digest") else "DIFFERENT execution"))
        if any(v["sig"] == d["violation"]["sig"] for v in vs):
            print("VIOLATION property=%s replay=%s" % (prop.id, os.path.abspath(path)))
            return 1
        print("not reproduced")
        return 0
    finally:
        prop.stop_worker()
        E.cleanup()


def evidence(prop, tier, seed, runs, refs, keys, samples, acc, viols, errs, wall, W, kh, replay_path):
    hours = max(wall, 1e-6) / 3600
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(keys),
        "rule": prop.rule,
        "samples": samples[:4],
        "reference_executions": refs,
        "runs_per_hour": int(runs / hours),
        "seeds_per_hour": int(runs / hours),
        "workers": W,
        "real_code": prop.real,
        "stubbed": prop.stubs,
        "known_findings_hit": kh,
        "harness_errors": len(errs),
    }
    if SURVEY is not None:
        cov["survey"] = SURVEY
    cov.update(acc)
    if "faults" in acc:
        cov["faults"] = dict(sorted(acc["faults"].items()))
    if acc.get("simulated_s") is not None:
        cov["simulated_s"] = round(acc["simulated_s"], 3)
    d = {"property": prop.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": list(prop.assumptions) + [
             "sampling: a clean batch is evidence, not proof",
             "thread switches happen at line or bytecode boundaries of the library's own code, never inside numpy/scipy/pandas",
         ], "wall_s": round(wall, 2), "violations": len(viols)}
    if replay_path:
        d["coverage"]["replay"] = replay_path
    with F._real.open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write("\n")
