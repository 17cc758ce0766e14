"""C16 WorkerThread runs init once, then main, then exit exactly once"""
from dst.kit import *

WHAT = ("1-3 WorkerThreads with init/main/exit functions that sleep, yield and raise at chosen calls, stopped at "
        "chosen instants by 1-3 threads")
RUNS = {"quick": 24000, "thorough": 500000}
KEEP = ("beh",)


def gen(rng, tier):
    workers = []
    slow = rng.random() < 0.04      # functions that take seconds: stop() waits for their end
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        beh = {}
        for f in ("init", "main", "exit"):
            b = {"dur": rng.choice([0, 0, 20, 500, 3000, 40000]) if f != "main"
                 else rng.choice([0, 5, 200, 3000, 50000])}     # microseconds
            if rng.random() < (0.25 if f == "main" else 0.12):
                b["raise_at"] = rng.choice([1, 1, 2, 3, 5])
                b["exc"] = rng.choice(["ValueError", "KeyError", "OSError", "SystemExit", "RuntimeError"])
                b["when"] = rng.choice(["before", "after"])
            beh[f] = b
        w = {"beh": beh, "init": rng.random() < 0.8, "exit": rng.random() < 0.85,
             "args": rng.choice([0, 0, 1, 2]), "ret": rng.choice(["none", "none", "false", "zero", "true", "text"]),
             "start_after": rng.choice([0, 0, 100, 4000]),
             "stops": [{"after": rng.choice([0, 0, 10, 150, 2500, 30000, 120000]),
                        "rel": rng.choice(["start", "begin", "start"]),
                        "again": rng.random() < 0.3} for _ in range(rng.choice([1, 1, 2, 3]))]}
        if slow:
            beh["main"]["dur"] = 500000
            beh[rng.choice(["main", "main", "exit", "init"])]["dur"] = rng.choice([1500000, 4000000, 9000000, 70000000])
        if beh["main"]["dur"] < 200:
            for st in w["stops"]:
                st["after"] = min(st["after"], 2500)
        workers.append(w)
    return {"workers": workers, "cfg": {"stall_p": rng.choice([0, 0, 0.05]), "stall_max": 4}}


class Case(object):
    pass


def run(k, w, plan):
    WT = w.utils.WorkerThread
    stalling(k)
    cases = []
    # a thread which never sleeps may keep the others waiting for a while
    patience = 500 * MS if any(s["beh"]["main"]["dur"] < 200 for s in plan["workers"]) else 60 * MS
    for n, spec in enumerate(plan["workers"]):
        c = Case()
        c.n = n
        c.log = []            # (stamp, 'begin'/'end', fn, task)
        c.count = {"init": 0, "main": 0, "exit": 0}
        c.inprog = None
        c.raised = False
        c.started = None
        c.begun = False
        c.maybe_stopped = False
        c.final_stop = None
        c.task = None
        c.spec = spec
        marker = [object() for _ in range(spec["args"])]
        c.marker = marker

        def make(fname, c=c, spec=spec, marker=marker):
            beh = spec["beh"][fname]

            def fn(*args):
                if len(args) != len(marker) or any(a is not b for a, b in zip(args, marker)):
                    raise Violation("wrong arguments", "%s of worker %d called with %r" % (fname, c.n, args))
                c.count[fname] += 1
                n_ = c.count[fname]
                me = k.current
                k.note("w%d %s %d" % (c.n, fname, n_))
                if c.inprog is not None:
                    k.fail("overlapping calls", "%s began during %s in worker %d" % (fname, c.inprog, c.n))
                    k.check_abort()
                if c.task is None:
                    c.task = me
                elif c.task is not me:
                    k.fail("wrong thread", "%s of worker %d called in another thread" % (fname, c.n))
                    k.check_abort()
                if me.harness:
                    k.fail("wrong thread", "%s of worker %d called in the thread of a caller" % (fname, c.n))
                    k.check_abort()
                c.log.append((stamp(k), "begin", fname))
                if fname == "main" and c.stop_called is not None and c.stop_called[1] == k.stall_total and \
                        k.now > c.stop_called[0] + patience:
                    k.fail("main called after stop", "worker %d: %.1f ms after stop() was called" % (
                        c.n, (k.now - c.stop_called[0]) / 1e6))
                    k.check_abort()
                if c.stopped_returned:
                    k.fail("call after stop", "%s of worker %d called after stop() returned" % (fname, c.n))
                    k.check_abort()
                c.inprog = fname
                try:
                    exc = None
                    if beh.get("raise_at") == n_:
                        exc = {"ValueError": ValueError, "KeyError": KeyError, "OSError": OSError,
                               "SystemExit": SystemExit, "RuntimeError": RuntimeError}[beh["exc"]]("injected")
                    if exc is not None and beh["when"] == "before":
                        c.raised = True
                        k.fault("worker function raises")
                        raise exc
                    if beh["dur"]:
                        k.sleep(beh["dur"] * US)
                    else:
                        k.point(0, 1000)
                    if exc is not None:
                        c.raised = True
                        k.fault("worker function raises")
                        raise exc
                finally:
                    c.inprog = None
                    c.log.append((stamp(k), "end", fname))
                    k.ops_done += 1
                return {"none": None, "false": False, "zero": 0, "true": True, "text": "x"}[spec["ret"]]
            return fn

        c.stopped_returned = False
        c.stop_called = None
        kw = {"args": tuple(marker)} if marker else {}
        if spec["init"]:
            kw["init_fct"] = make("init")
        if spec["exit"]:
            kw["exit_fct"] = make("exit")
        c.worker = WT(make("main"), **kw)
        cases.append(c)

    def starter(c):
        if c.spec["start_after"]:
            k.sleep(c.spec["start_after"] * US)
        c.begun = True
        c.worker.start()
        c.started = stamp(k)
        c.t_started = k.now

    def longest(c):
        return sum(b["dur"] for b in c.spec["beh"].values()) * US

    def stopper(c, s):
        if s["rel"] == "start":
            k.wait_until(lambda: c.started is not None, 10 * SEC, 20 * US)
        if s["after"]:
            k.sleep(s["after"] * US)
        for _ in range(2 if s["again"] else 1):
            was_started = c.started is not None
            if was_started and c.stop_called is None:
                c.stop_called = (k.now, k.stall_total)
            with Deadline(k, "WorkerThread.stop", longest(c) + 2 * SEC):
                _, exc = call(c.worker.stop)
            if exc is not None:
                raise Violation("stop raised", "%r" % exc)
            if was_started:
                check_stopped(c)
            elif c.begun:
                c.maybe_stopped = True        # stop during start: both outcomes are fine

    def check_stopped(c):
        if c.inprog is not None:
            raise Violation("stop returned early", "%s of worker %d in progress after stop()" % (c.inprog, c.n))
        if c.spec["exit"] and c.count["exit"] != 1:
            raise Violation("exit function", "worker %d: exit called %d times when stop() returned" % (
                c.n, c.count["exit"]))
        c.stopped_returned = True

    tasks = []
    for c in cases:
        tasks.append(k.spawn(starter, (c,), "start%d" % c.n, harness=True))
        for i, s in enumerate(c.spec["stops"]):
            tasks.append(k.spawn(stopper, (c, s), "stop%d.%d" % (c.n, i), harness=True))
    for t in tasks:
        k.join(t)
    for c in cases:
        if not c.stopped_returned:
            # every stop came before start: the worker must be running (or have failed)
            before = c.count["main"]
            dur = c.spec["beh"]["main"]["dur"] * US
            st0 = k.stall_total
            k.sleep(longest(c) + 3 * dur + 50 * MS)
            if k.stall_total == st0 and not c.raised and not c.maybe_stopped and c.count["main"] < before + 2:
                raise Violation("main not repeated", "worker %d: %d calls" % (c.n, c.count["main"]))
            with Deadline(k, "WorkerThread.stop", longest(c) + 2 * SEC):
                _, exc = call(c.worker.stop)
            if exc is not None:
                raise Violation("stop raised", "%r" % exc)
            check_stopped(c)
    k.sleep(200 * MS)
    for c in cases:
        seq = [f for _, e, f in c.log if e == "begin"]
        want_init = 1 if c.spec["init"] else 0
        want_exit = 1 if c.spec["exit"] else 0
        if c.count["init"] != want_init or c.count["exit"] != want_exit:
            raise Violation("wrong number of calls", "worker %d: %s" % (c.n, seq[:20]))
        if want_init and seq[0] != "init" or want_exit and seq[-1] != "exit":
            raise Violation("wrong order", "worker %d: %s" % (c.n, seq[:20]))
        # nothing runs between a function that raised and exit
        beh = c.spec["beh"]
        if want_init and beh["init"].get("raise_at") == 1 and c.count["main"]:
            raise Violation("main after failed init", "worker %d: %s" % (c.n, seq[:20]))
        r = beh["main"].get("raise_at")
        if r and c.count["main"] > r:
            raise Violation("main after failed main", "worker %d: %s" % (c.n, seq[:20]))
        # the worker ends by itself only when a function raised
    k.probe("workers ended", len(cases))
