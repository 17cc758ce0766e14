"""Seeded search, minimisation, replay, evidence."""
import copy
import gc
import hashlib
import importlib
import json
import os
import random
import select as real_select
import signal
import subprocess
import sys
import time
import traceback

from . import kernel as kmod
from .kernel import Kernel, HarnessError, Violation, SEC
from .loader import World, compile_all

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("DST_WORKERS", "8"))


class _Quiet(object):
    def write(self, *a):
        pass

    def flush(self):
        pass


def quiet_process():
    sys.unraisablehook = lambda *a: None
    import _thread
    import threading
    threading.stack_size(512 * 1024)
    gc.disable()


def load_prop(pid):
    return importlib.import_module("props.%s" % pid.lower())


_since_gc = [0]


def execute(prop, plan, seed=None, replay=None, tracing=False):
    """one simulated run -> dict"""
    cfg = dict(plan.get("cfg", {}))
    k = Kernel(seed or 0, cfg, replay=replay, tracing=tracing)
    holder = {}
    k.ops_done = 0
    try:
        w = World(k, plan.get("net"), getattr(prop, "REAL_LOGGING", False))
    except HarnessError as exc:
        return _result(k, harness="%s" % exc)
    except Exception as exc:
        # the package cannot even be imported
        return _result(k, violation=("import", traceback.format_exc()))

    def main():
        try:
            prop.run(k, w, plan)
        except Violation:
            raise
        except kmod.SimExit:
            raise
        except HarnessError:
            raise

    k.lines_on = bool(cfg.get("lines", True))
    k.run(main, wall_limit=float(os.environ.get("DST_RUN_WALL", "100")))
    res = _result(k)
    _since_gc[0] += 1
    k.timers = []
    k.on_end = []
    if _since_gc[0] >= 50:
        _since_gc[0] = 0
        del w
        gc.collect()
    return res


def _result(k, harness=None, violation=None):
    return {
        "violation": violation or k.violation,
        "harness": harness or k.harness_error,
        "steps": k.step, "now": k.now, "digest": k.digest, "ilv": k.ilv,
        "faults": k.fault_counts, "probes": k.probe_counts, "used": k.used(),
        "stall": k.stall_total, "pre": k.preemptions, "switches": k.switches,
        "ops": getattr(k, "ops_done", 0), "trace": k.trace, "threads": k.thread_exceptions,
    }


# ---------------------------------------------------------------------- seeds
def run_seed(pid, base, i):
    h = hashlib.sha256(("%s/%s/%s" % (pid, base, i)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def make_plan(prop, seed, tier):
    rng = random.Random("plan%d" % seed)
    plan = prop.gen(rng, tier)
    cfg = plan.setdefault("cfg", {})
    base = default_cfg(rng, tier)
    stall = getattr(prop, "STALL", None)       # (share of the runs, longest level)
    if stall and rng.random() < stall[0]:
        base["stall_p"] = rng.choice([0.05, 0.3, 1.0])
        base["stall_max"] = stall[1]
        base["stall_n"] = rng.choice([1, 1, 2, 3])
        if not base["gap"]:
            base["gap"] = rng.choice([100, 400])
        elif rng.random() < 0.3:
            base["gap"] = rng.choice([200, 1000])
    for key, val in base.items():
        cfg.setdefault(key, val)
    return json.loads(json.dumps(plan))


def default_cfg(rng, tier):
    """swarm configuration of the scheduler"""
    mode = rng.random()
    cfg = {}
    if mode < 0.15:
        cfg["gap"] = 0                       # cooperative: only blocking operations switch
        cfg["blk_p"] = rng.choice([0.0, 0.5, 1.0])
    elif mode < 0.45:
        cfg["gap"] = rng.choice([3, 8, 20])
        cfg["blk_p"] = 0.5
    elif mode < 0.75:
        cfg["gap"] = rng.choice([40, 100, 300])
        cfg["blk_p"] = rng.choice([0.2, 0.5])
    else:
        cfg["gap"] = rng.choice([15, 60, 200])
        cfg["preempts"] = rng.choice([1, 2, 3, 5])   # few, well separated preemptions
        cfg["blk_p"] = rng.choice([0.1, 0.5])
    cfg["line_cost"] = rng.choice([200, 1000, 1000, 5000])
    cfg["sys_cost"] = rng.choice([2000, 10000, 10000, 40000])
    return cfg


# ---------------------------------------------------------------------- batch
class Agg(object):
    def __init__(self):
        self.runs = 0
        self.nontrivial = set()
        self.ilvs = set()
        self.faults = {}
        self.probes = {}
        self.sim = 0
        self.steps = 0
        self.ops = 0
        self.pre = 0
        self.switches = 0
        self.fault_runs = {}
        self.samples = []
        self.digests = {}
        self.known = {}

    def add(self, i, plan, res, seed):
        self.runs += 1
        self.sim += res["now"]
        self.steps += res["steps"]
        self.ops += res["ops"]
        self.pre += res["pre"]
        self.switches += res["switches"]
        for kf, n in res["faults"].items():
            self.faults[kf] = self.faults.get(kf, 0) + n
            self.fault_runs[kf] = self.fault_runs.get(kf, 0) + 1
        for kf, n in res["probes"].items():
            self.probes[kf] = self.probes.get(kf, 0) + n
        self.ilvs.add(res["ilv"])
        if res["ops"] > 0 and (res["pre"] or res["faults"] or res["used"]["net"] or res["used"]["blk"]):
            self.nontrivial.add((res["ilv"], res["digest"]))
        if len(self.samples) < 2 and res["ops"]:
            self.samples.append({"run": i, "seed": seed, "plan": _short(plan), "steps": res["steps"],
                                 "simulated_ms": res["now"] / 1e6,
                                 "preemptions": res["pre"], "faults": res["faults"]})
        if i < 64:
            self.digests[i] = (res["digest"], res["ilv"], res["steps"])

    def merge(self, o):
        self.runs += o.runs
        self.nontrivial |= o.nontrivial
        self.ilvs |= o.ilvs
        for name in ("faults", "probes", "fault_runs", "known"):
            d = getattr(self, name)
            for kf, n in getattr(o, name).items():
                d[kf] = d.get(kf, 0) + n
        self.sim += o.sim
        self.steps += o.steps
        self.ops += o.ops
        self.pre += o.pre
        self.switches += o.switches
        self.samples = (self.samples + o.samples)[:3]
        self.digests.update(o.digests)


def _valid(prop, plan):
    try:
        return not hasattr(prop, "valid") or prop.valid(plan)
    except Exception:
        return False


def _short(plan):
    s = json.dumps(plan)
    return plan if len(s) < 4000 else s[:4000] + "..."


def load_known(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e.get("property") == pid and e.get("status") == "open"]


def known_match(known, violation):
    import re
    for e in known:
        if e["kind"] == violation[0] and re.search(e["detail"], violation[1], re.S):
            return e
    return None


def worker(pid, base, tier, indices, out_fd, deadline, known):
    import pickle
    quiet_process()
    prop = load_prop(pid)
    agg = Agg()
    out = os.fdopen(out_fd, "wb")
    result = {"violation": None, "harness": None, "capped": False}
    for n, i in enumerate(indices):
        if time.time() > deadline:
            result["capped"] = True
            break
        seed = run_seed(pid, base, i)
        try:
            plan = make_plan(prop, seed, tier)
            res = execute(prop, plan, seed)
        except BaseException:
            result["harness"] = (i, traceback.format_exc())
            break
        if res["harness"]:
            result["harness"] = (i, res["harness"])
            break
        agg.add(i, plan, res, seed)
        if res["violation"]:
            e = known_match(known, res["violation"])
            if e:
                agg.known[e["id"]] = agg.known.get(e["id"], 0) + 1
                continue
            result["violation"] = (i, seed, plan, res["violation"], res["used"])
            break
    pickle.dump((agg, result), out)
    out.close()
    os._exit(0)


def batch(pid, base, tier, count, wall, known, workers=None):
    """run `count` seeds on all cores; (Agg, violation or None, harness or None, capped)"""
    import pickle
    workers = workers or WORKERS
    compile_all()
    deadline = time.time() + wall
    procs = []
    for j in range(workers):
        idx = list(range(j, count, workers))
        if not idx:
            continue
        r, w = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            try:
                os.close(r)
                for rr, _, _ in procs:
                    os.close(rr)
                worker(pid, base, tier, idx, w, deadline, known)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(3)
        os.close(w)
        procs.append((r, pid_, bytearray()))
    agg = Agg()
    viol, harness, capped = [], [], False
    live = {r: (p, buf) for r, p, buf in procs}
    hard = deadline + 150
    while live:
        ready = real_select.select(list(live), [], [], 1.0)[0]
        if time.time() > hard:
            for r, (p, buf) in live.items():
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            harness.append((-1, "a worker did not end in time"))
            break
        for r in ready:
            p, buf = live[r]
            data = os.read(r, 1 << 20)
            if data:
                buf += data
                continue
            os.close(r)
            del live[r]
            _, status = os.waitpid(p, 0)
            if not buf:
                harness.append((-1, "worker died with status %s" % status))
                continue
            a, res = pickle.loads(bytes(buf))
            agg.merge(a)
            capped = capped or res["capped"]
            if res["violation"]:
                viol.append(res["violation"])
                # no need to let the others finish
                deadline = 0
                for rr, (pp, bb) in live.items():
                    pass
                if len(viol) == 1:
                    stop_at = time.time() + 2.0
                    # give the others a short time, then stop them
                    end_workers(live, stop_at, agg, viol)
                    live = {}
                    break
            if res["harness"]:
                harness.append(res["harness"])
    viol.sort(key=lambda v: v[0])
    return agg, (viol[0] if viol else None), (harness[0] if harness else None), capped


def end_workers(live, stop_at, agg, viol):
    import pickle
    while live and time.time() < stop_at:
        ready = real_select.select(list(live), [], [], 0.1)[0]
        for r in ready:
            p, buf = live[r]
            data = os.read(r, 1 << 20)
            if data:
                buf += data
                continue
            os.close(r)
            del live[r]
            os.waitpid(p, 0)
            if buf:
                a, res = pickle.loads(bytes(buf))
                agg.merge(a)
                if res["violation"]:
                    viol.append(res["violation"])
    for r, (p, buf) in live.items():
        os.kill(p, signal.SIGKILL)
        os.waitpid(p, 0)
        os.close(r)


# ---------------------------------------------------------------------- minimisation
def _lists(plan, path=()):
    """paths of all lists of dicts/lists in the plan (candidates for dropping elements)"""
    out = []
    if isinstance(plan, dict):
        for key in sorted(plan):
            if key in ("cfg", "fixed"):
                continue
            out += _lists(plan[key], path + (key,))
    elif isinstance(plan, list):
        if plan:
            out.append(path)
        for i, v in enumerate(plan):
            if isinstance(v, (dict, list)):
                out += _lists(v, path + (i,))
    return out


def _get(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def minimise(prop, plan, seed, violation, used, budget, known=()):
    """(plan, replay dict, violation)"""
    end = time.time() + budget
    kind = violation[0]
    cur_plan, cur_used, cur_v = plan, used, violation

    def attempt(cand, tries=12):
        """explore the candidate plan; returns (used, violation) or None"""
        for n in range(tries):
            if time.time() > end:
                return None
            try:
                if n == 0:
                    res = execute(prop, cand, replay=cur_used)
                elif n == 1:
                    res = execute(prop, cand, replay={})
                else:
                    res = execute(prop, cand, seed if n == 2 else seed + n)
            except Exception:
                return None
            if res["harness"]:
                return None
            if res["violation"] and res["violation"][0] == kind and not known_match(known, res["violation"]):
                return res["used"], res["violation"]
        return None

    protect = getattr(prop, "KEEP", ())
    changed = True
    rounds = 0
    while changed and time.time() < end and rounds < 6:
        changed = False
        rounds += 1
        for path in sorted(_lists(cur_plan), key=lambda p: (len(p), str(p))):
            if path and path[-1] in protect or any(p in protect for p in path):
                continue
            try:
                lst = _get(cur_plan, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            size = max(1, len(lst) // 2)
            while size >= 1 and time.time() < end:
                i = 0
                while time.time() < end:
                    lst = _get(cur_plan, path)
                    if i >= len(lst):
                        break
                    cand = copy.deepcopy(cur_plan)
                    l2 = _get(cand, path)
                    del l2[i:i + size]
                    if not _valid(prop, cand):
                        i += size
                        continue
                    got = attempt(cand)
                    if got:
                        cur_plan, (cur_used, cur_v) = cand, got
                        changed = True
                    else:
                        i += size
                size //= 2
        for key, simple in (("preempts", 3), ("gap", 0), ("stall_p", 0)):
            if key in cur_plan.get("cfg", {}) or key == "preempts":
                if cur_plan["cfg"].get(key) == simple:
                    continue
                cand = copy.deepcopy(cur_plan)
                cand["cfg"][key] = simple
                got = attempt(cand, 25)
                if got:
                    cur_plan, (cur_used, cur_v) = cand, got
                    changed = True
    # schedule and environment choices
    def try_used(u):
        res = execute(prop, cur_plan, replay=u)
        if not res["harness"] and res["violation"] and res["violation"][0] == kind \
                and not known_match(known, res["violation"]):
            return res
        return None

    items = [(c, s, v) for c in ("net", "pre", "blk") for s, v in cur_used[c].items()]

    def build(its):
        u = {"pre": {}, "blk": {}, "net": {}}
        for c, s, v in its:
            u[c][s] = v
        return u

    size = max(1, len(items))
    while size >= 1 and items and time.time() < end + 15:
        i = 0
        while i < len(items) and time.time() < end + 15:
            cand = items[:i] + items[i + size:]
            res = try_used(build(cand))
            if res:
                items = cand
                cur_v = res["violation"]
            else:
                i += size
        if size == 1:
            break
        size //= 2
    final = build(items)
    res = try_used(final)
    if not res:
        final = cur_used
    return cur_plan, final, cur_v


# ---------------------------------------------------------------------- replay files
def write_replay(pid, plan, used, violation, seed, base, index, orig):
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (pid, seed))
    prop = load_prop(pid)
    res = execute(prop, plan, replay=used, tracing=True)
    data = {
        "property": pid, "verif_seed": base, "run": index, "run_seed": seed,
        "violation": {"kind": violation[0], "detail": violation[1]},
        "plan": plan, "choices": used, "digest": res["digest"], "steps": res["steps"],
        "choices_meaning": "pre: step -> task switched to at that preemption point (negative: the task is "
                           "stalled); blk: step -> which runnable task continues when one blocks; "
                           "net: index -> value of an environment choice; everything else takes choice 0",
        "original_choices": orig,
        "trace": res["trace"][-400:],
    }
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path, res


def replay_file(path, verbose=True):
    with open(path) as f:
        data = json.load(f)
    quiet_process()
    prop = load_prop(data["property"])
    compile_all()
    res = execute(prop, data["plan"], replay=data["choices"], tracing=True)
    same = (res["violation"] is not None and res["violation"][0] == data["violation"]["kind"]
            and res["digest"] == data["digest"])
    if verbose:
        for line in res["trace"]:
            print(line)
        print("violation:", res["violation"])
        print("harness:", res["harness"])
        print("reproduced exactly:", same)
    return res, same


# ---------------------------------------------------------------------- main entry
def check(pid, tier, base):
    t0 = time.time()
    prop = load_prop(pid)
    count = prop.RUNS[tier]
    wall = prop.WALL[tier] if hasattr(prop, "WALL") else {"quick": 150, "thorough": 3000}[tier]
    if os.environ.get("DST_RUNS"):
        count = int(os.environ["DST_RUNS"])
    print("%s %s: VERIF_SEED=%s, %d runs on %d workers" % (pid, tier, base, count, WORKERS), flush=True)
    known = load_known(pid)
    for e in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    agg, viol, harness, capped = batch(pid, base, tier, count, wall, known)
    wall_s = time.time() - t0
    rc = 0
    lines = []
    if viol:
        i, seed, plan, v, used = viol
        quiet_process()
        print("run %d (seed %d): %s: %s" % (i, seed, v[0], v[1]), flush=True)
        rc, lines = report(prop, pid, tier, base, i, seed, plan, v, used, known)
    elif harness:
        print("HARNESS ERROR in run %s:\n%s" % harness)
        rc = 2
    elif capped and agg.runs < max(50, count // 20):
        print("only %d of %d runs fitted in the time" % (agg.runs, count))
        rc = 2
    det = None
    if rc == 0 and not viol:
        det = determinism(pid, base, tier, agg, 8 if tier == "quick" else 48)
        if det["mismatches"]:
            print("DETERMINISM: %s" % det)
            if not det.get("tolerated"):
                rc = 2
    write_evidence(prop, pid, tier, base, agg, time.time() - t0, wall_s, 1 if rc == 1 else 0, capped, det, count)
    for ln in lines:
        print(ln)
    print("%s %s: %d runs, %d distinct, %.1f s, exit %d" % (
        pid, tier, agg.runs, len(agg.nontrivial), time.time() - t0, rc), flush=True)
    return rc


def report(prop, pid, tier, base, i, seed, plan, v, used, known):
    # 1. does the recorded run reproduce here?
    res = execute(prop, plan, replay=used)
    if not (res["violation"] and res["violation"][0] == v[0]):
        # the run depended on something outside the simulation: search again nearby
        ok = False
        for n in range(40):
            res = execute(prop, plan, seed + n)
            if res["violation"] and res["violation"][0] == v[0]:
                v, used, seed, ok = res["violation"], res["used"], seed + n, True
                break
        if not ok:
            print("HARNESS ERROR: run %d does not reproduce (%s)" % (i, v))
            return 2, []
    budget = float(os.environ.get("DST_MINIMISE", "40" if tier == "quick" else "180"))
    try:
        mplan, mused, mv = minimise(prop, plan, seed, v, used, budget, known)
    except Exception:
        traceback.print_exc()
        mplan, mused, mv = plan, used, v
    for attempt in ((mplan, mused, mv), (plan, used, v)):
        path, res = write_replay(pid, attempt[0], attempt[1], attempt[2], seed, base, i, used)
        p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "--replay", path, "--quiet"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, PYTHONHASHSEED="77"))
        if p.returncode == 1:
            print("minimised: %s" % json.dumps(attempt[0])[:1500])
            print("choices: %s" % json.dumps(attempt[1])[:600])
            print("violation: %s: %s" % (attempt[2][0], attempt[2][1][:1500]))
            return 1, ["VIOLATION property=%s replay=%s" % (pid, path)]
    print("HARNESS ERROR: replay %s does not reproduce in a fresh process: %s" % (path, p.stdout[-500:]))
    return 2, []


def determinism(pid, base, tier, agg, n):
    """re-run the first seeds in fresh processes with other hash seeds and compare event digests"""
    idx = sorted(agg.digests)[:n]
    bad = []
    ps = []
    for hs in ("1", "4242"):
        half = idx[::2] if hs == "1" else idx[1::2]
        p = subprocess.Popen([sys.executable, os.path.join(HERE, "check.py"), "--digests", pid, "--tier", tier,
                              "--seed", str(base), "--indices", ",".join(map(str, half))],
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                             env=dict(os.environ, PYTHONHASHSEED=hs))
        ps.append((p, half))
    checked = 0
    for p, half in ps:
        out, _ = p.communicate(timeout=300)
        try:
            got = json.loads(out.strip().splitlines()[-1])
        except Exception:
            bad.append("no digests: %s" % out[-200:])
            continue
        for i in half:
            checked += 1
            if got.get(str(i)) != list(agg.digests[i]):
                bad.append(i)
    return {"runs_compared": checked, "mismatches": bad}


def digests(pid, tier, base, indices):
    quiet_process()
    prop = load_prop(pid)
    out = {}
    for i in indices:
        seed = run_seed(pid, base, i)
        res = execute(prop, make_plan(prop, seed, tier), seed)
        out[i] = [res["digest"], res["ilv"], res["steps"]]
    print(json.dumps(out))


def write_evidence(prop, pid, tier, base, agg, total_s, batch_s, violations, capped, det, count):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    hours = max(batch_s, 1e-6) / 3600.0
    cov = {
        "evaluations": agg.runs,
        "distinct_nontrivial": len(agg.nontrivial),
        "rule": "one case is one simulated run of a generated plan (%s); a run is non-trivial if it completed at "
                "least one operation under test and at least one choice of scheduler, network or fault "
                "injector differed from the default; distinct by the hash of its interleaving (sequence of task "
                "switches with their places) and the digest of its event log" % prop.WHAT,
        "samples": agg.samples[:2],
        "requested_runs": count,
        "stopped_by_wall_clock": capped,
        "runs_per_hour": int(agg.runs / hours),
        "seeds_per_hour": int(agg.runs / hours),
        "simulated_seconds": round(agg.sim / 1e9, 3),
        "steps": agg.steps,
        "operations_checked": agg.ops,
        "task_switches": agg.switches,
        "forced_preemptions": agg.pre,
        "distinct_interleavings": len(agg.ilvs),
        "faults_injected": dict(sorted(agg.faults.items())),
        "runs_with_fault": dict(sorted(agg.fault_runs.items())),
        "probes": dict(sorted(agg.probes.items())),
        "determinism_selftest": det,
        "real_code": "all of /repo/modbus_tk that the workload reaches, and the standard threading, queue, "
                     "selectors and socketserver modules, executed unmodified",
        "stubs": "thread primitives, clock, sleep, sockets, select, serial ports, logging sink, console; "
                 + getattr(prop, "STUBS", "no peer is a stub"),
        "known_findings_hit": agg.known,
    }
    ev = {
        "property": pid, "tier": tier, "seed": base, "level": "exploration", "coverage": cov,
        "assumptions": list(getattr(prop, "ASSUMES", [])) + [
            "the simulated sockets, serial ports and thread primitives behave as the Linux/CPython ones",
            "preemption happens between source lines and at blocking primitives, one thread at a time",
        ],
        "wall_s": round(total_s, 3), "violations": violations,
    }
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        cov["samples"] = [str(x)[:1500] for x in cov["samples"][:1]]
        s = json.dumps(ev, indent=1)
    tmp = os.path.join(d, ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        f.write(s)
    os.replace(tmp, os.path.join(d, "%s.json" % pid))
