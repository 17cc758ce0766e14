"""Deterministic kernel: tasks, clock, timers, scheduling choices, fault counters.

Tasks are real threads, each parked on its own gate lock; exactly one of them (the one holding the
baton) executes at any moment, and only the kernel decides which.  All time is simulated.
"""
import _thread
import heapq
import random
import sys
import zlib

US = 1000
MS = 1000 * US
SEC = 1000 * MS
FOREVER = 1 << 62

STALLS = (50 * US, 500 * US, 5 * MS, 50 * MS, 300 * MS, 1200 * MS, 3 * SEC)

_MASK = (1 << 64) - 1


class SimExit(BaseException):
    """unwinds a task when the run is over"""


class Violation(Exception):
    """raised by oracles"""

    def __init__(self, kind, detail=""):
        Exception.__init__(self, "%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    """the harness itself is wrong (never reported as a violation)"""


class Task(object):
    __slots__ = ("tid", "name", "gate", "state", "token", "wakeval", "fn", "args", "daemon",
                 "waiting", "sentinel", "exc", "end_lock", "timed_out", "harness", "stalled",
                 "joiners", "no_preempt", "result", "done")

    def __init__(self, tid, name, fn, args):
        self.tid = tid
        self.name = name
        self.fn = fn
        self.args = args
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.end_lock = _thread.allocate_lock()
        self.end_lock.acquire()
        self.state = "new"
        self.token = 0
        self.wakeval = None
        self.waiting = None
        self.sentinel = None
        self.exc = None
        self.harness = False
        self.stalled = 0
        self.joiners = []
        self.no_preempt = 0
        self.result = None
        self.done = False

    def __repr__(self):
        return "<%s>" % self.name


class Kernel(object):
    def __init__(self, seed=0, cfg=None, replay=None, tracing=False):
        cfg = cfg or {}
        self.cfg = cfg
        self.replay = replay is not None
        self.now = 0
        self.wall_offset = 1700000000 * SEC
        self.step = 0
        self.timers = []
        self.tseq = 0
        self.tasks = []
        self.runnable = []
        self.current = None
        self.alive = False           # between run() begin and the end of the run
        self.aborting = False
        self.violation = None
        self.harness_error = None
        self.thread_exceptions = []
        self.done_lock = _thread.allocate_lock()
        self.done_lock.acquire()
        self.ended = False
        self.fault_counts = {}
        self.probe_counts = {}
        self.stall_total = 0
        self.switches = 0
        self.preemptions = 0
        self.ilv = 0
        self.digest = 0
        self.lines_on = False
        self.tracing = tracing
        self.trace = []
        self.max_steps = cfg.get("max_steps", 3000000)
        self.line_cost = cfg.get("line_cost", 1000)
        self.fast_from = 400
        self.sys_cost = cfg.get("sys_cost", 10 * US)
        self.slice_steps = cfg.get("slice", 4000)
        self.slice_end = self.slice_steps
        self.horizon = cfg.get("horizon", 3600 * SEC)
        # choices
        if self.replay:
            self.pre = dict((int(k), v) for k, v in replay.get("pre", {}).items())
            self.blk = dict((int(k), v) for k, v in replay.get("blk", {}).items())
            self.netd = dict((int(k), v) for k, v in replay.get("net", {}).items())
            self.pre_keys = sorted(self.pre, reverse=True)
            self.rng = None
            self.nrng = None
        else:
            self.pre, self.blk, self.netd = {}, {}, {}
            self.rng = random.Random("s%d" % seed)
            self.nrng = random.Random("n%d" % seed)
        self.net_i = 0
        self.gap = float(cfg.get("gap", 50))       # mean steps between preemptions (0: none)
        self.stall_p = float(cfg.get("stall_p", 0.0))
        self.stall_max = int(cfg.get("stall_max", 3))
        self.stall_n = int(cfg.get("stall_n", 1000000))   # stalls allowed in exploration
        self.stalls = 0
        self.stalls_ok = False                            # the run is past its preparation
        self.blk_p = float(cfg.get("blk_p", 0.5))
        self.budget = int(cfg.get("preempts", 1000000))   # preemptions allowed in exploration
        self.used_pre, self.used_blk, self.used_net = {}, {}, {}
        self.next_step = 0
        self.next_due = FOREVER
        self._plan_next()
        self.log_tap = None                           # list which gets the text of every log record
        self.on_end = []
        self.ender = None

    # ------------------------------------------------------------------ choices
    def _plan_next(self):
        if self.replay:
            while self.pre_keys and self.pre_keys[-1] <= self.step:
                self.pre_keys.pop()
            self.next_step = self.pre_keys[-1] if self.pre_keys else FOREVER
        elif self.gap <= 0 or self.preemptions >= self.budget:
            self.next_step = FOREVER
        else:
            self.next_step = self.step + 1 + int(self.rng.expovariate(1.0 / self.gap))

    def net(self, n, p0=None):
        """environment choice among 0..n-1; 0 is the simplest.  p0: probability of 0 in exploration"""
        self.net_i += 1
        if n <= 1:
            return 0
        if self.replay:
            v = self.netd.get(self.net_i, 0)
            v = v % n
        elif p0 is not None and self.nrng.random() < p0:
            v = 0
        else:
            v = self.nrng.randrange(n)
        if v:
            self.used_net[self.net_i] = v
        return v

    def used(self):
        return {"pre": {str(k): v for k, v in self.used_pre.items()},
                "blk": {str(k): v for k, v in self.used_blk.items()},
                "net": {str(k): v for k, v in self.used_net.items()}}

    # ------------------------------------------------------------------ logs, counters
    def fault(self, kind, n=1):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + n
        if self.tracing:
            self.note("FAULT %s" % kind)

    def probe(self, kind, n=1):
        self.probe_counts[kind] = self.probe_counts.get(kind, 0) + n

    def note(self, text):
        """event that is part of the run's digest"""
        self.digest = zlib.crc32(("%d %d %s" % (self.now, self.step, text)).encode(), self.digest)
        if self.tracing:
            self.trace.append("%13.6f ms  step %-7d %-12s %s" % (
                self.now / 1e6, self.step, self.current.name if self.current else "-", text))

    # ------------------------------------------------------------------ violation / end
    def fail(self, kind, detail=""):
        if self.violation is None and not self.ended:
            self.violation = (kind, str(detail))
            self.note("VIOLATION %s %s" % (kind, detail))
        self._end()

    def _end(self):
        if not self.ended:
            self.ender = self.current
            self.ended = True
            self.alive = False
            self.aborting = True
            self.lines_on = False
            self.done_lock.release()

    def check_abort(self):
        if self.aborting:
            raise SimExit()

    # ------------------------------------------------------------------ timers
    def at(self, when, fn, *args):
        self.tseq += 1
        item = [max(when, self.now), self.tseq, fn, args]
        heapq.heappush(self.timers, item)
        if item[0] < self.next_due:
            self.next_due = item[0]
        return item

    def after(self, delay, fn, *args):
        return self.at(self.now + delay, fn, *args)

    @staticmethod
    def cancel(item):
        item[2] = None

    def _fire_due(self):
        timers = self.timers
        while timers and timers[0][0] <= self.now:
            item = heapq.heappop(timers)
            fn = item[2]
            if fn is not None:
                fn(*item[3])
        while timers and timers[0][2] is None:
            heapq.heappop(timers)
        self.next_due = timers[0][0] if timers else FOREVER

    # ------------------------------------------------------------------ tasks
    def spawn(self, fn, args=(), name=None, harness=False):
        tid = len(self.tasks) + 1
        task = Task(tid, name or ("t%d" % tid), fn, args)
        task.harness = harness
        self.tasks.append(task)
        task.state = "ready"
        self.runnable.append(task)
        _thread.start_new_thread(self._bootstrap, (task,))
        return task

    def _bootstrap(self, task):
        task.gate.acquire()
        try:
            if not self.aborting:
                try:
                    task.result = task.fn(*task.args)
                except SimExit:
                    pass
                except Violation as v:
                    if not self.aborting:
                        self.fail(v.kind, v.detail)
                except SystemExit:
                    pass
                except BaseException as exc:
                    task.exc = exc
                    if not self.aborting:
                        if task.harness:
                            import traceback
                            if type(exc).__name__ != "HarnessError" and self.from_package(exc):
                                self.fail("unexpected exception", "%r in %s: %s" % (
                                    exc, task.name, " < ".join(
                                        "%s:%d" % (f.filename.rpartition("/")[2], f.lineno)
                                        for f in reversed(traceback.extract_tb(exc.__traceback__)[-6:]))))
                            else:
                                self.harness_error = "".join(traceback.format_exception(exc))
                                self._end()
                        else:
                            self.thread_exceptions.append((task.name, repr(exc)))
        finally:
            task.fn = None
            task.args = None
            self._task_end(task)

    @staticmethod
    def from_package(exc):
        """was the exception raised inside code of the package (and not swallowed by it)?"""
        tb = exc.__traceback__
        while tb is not None:
            if "/modbus_tk/" in tb.tb_frame.f_code.co_filename:
                return True
            tb = tb.tb_next
        return False

    def _task_end(self, task):
        task.done = True
        task.state = "dead"
        if self.aborting:
            self.current = None
            task.end_lock.release()
            return
        try:
            if task.sentinel is not None:
                task.sentinel.force_release()
            for t, token in task.joiners:
                if t.token == token:
                    self.wake(t)
            if task.tid == 1:
                self._end()
                self.current = None
                return
            try:
                nxt = self._pick_blocked()
            except SimExit:
                self.current = None
                return
            self.current = nxt
            nxt.state = "run"
            self.switches += 1
            self._mix(task.tid, nxt.tid, 0)
            nxt.gate.release()
        except BaseException as exc:      # pragma: no cover
            import traceback
            self.harness_error = "".join(traceback.format_exception(exc))
            self._end()
        finally:
            task.end_lock.release()

    def join(self, task, timeout_ns=None):
        """harness-side join"""
        self.check_abort()
        if task.done:
            return True
        self.prepare_block()
        task.joiners.append((self.current, self.current.token))
        self.block(None if timeout_ns is None else self.now + timeout_ns, ("join", task.name))
        return task.done

    def _mix(self, a, b, loc):
        self.ilv = ((self.ilv ^ (a * 1000003 + b * 8191 + loc)) * 0x100000001b3) & _MASK

    # ------------------------------------------------------------------ blocking
    def prepare_block(self):
        self.current.token += 1

    def wake(self, task, val=True):
        if task.state == "blocked":
            task.state = "ready"
            task.token += 1
            task.wakeval = val
            task.waiting = None
            self.runnable.append(task)

    def _timer_wake(self, task, token):
        if task.token == token and task.state == "blocked":
            self.wake(task, None)

    def block(self, deadline=None, why=None):
        """block the current task until wake() or deadline; value given to wake, None on timeout.
        prepare_block() may be called first to obtain the token joined to wait lists."""
        cur = self.current
        if self.aborting:
            raise SimExit()
        cur.state = "blocked"
        cur.waiting = why
        cur.wakeval = None
        timer = None
        if deadline is not None:
            timer = self.at(deadline, self._timer_wake, cur, cur.token)
        nxt = self._pick_blocked()
        if nxt is not cur:
            self._transfer(cur, nxt)
        else:
            cur.state = "run"
            self.slice_end = self.step + self.slice_steps
        if timer is not None:
            timer[2] = None
        val = cur.wakeval
        cur.wakeval = None
        cur.waiting = None
        return val

    def _pick_blocked(self):
        """the current task cannot continue: choose the next one"""
        while not self.runnable:
            self._fire_due()
            if self.aborting:
                raise SimExit()
            if self.runnable:
                break
            if not self.timers:
                self.fail("deadlock", self.describe_blocked())
                raise SimExit()
            t = self.timers[0][0]
            if t > self.now:
                self.now = t
            if self.now > self.horizon:
                self.fail("hang", "no end after %.1f s of simulated time: %s" % (
                    self.now / 1e9, self.describe_blocked()))
                raise SimExit()
            self._fire_due()
            if self.aborting:
                raise SimExit()
        n = len(self.runnable)
        self.step += 1
        c = 0
        if n > 1:
            if self.replay:
                c = self.blk.get(self.step, 0) % n
            elif self.rng.random() < self.blk_p:
                c = self.rng.randrange(n)
            if c:
                self.used_blk[self.step] = c
        return self.runnable.pop(c)

    def describe_blocked(self):
        out = []
        for t in self.tasks:
            if not t.done:
                w = t.waiting
                out.append("%s:%s" % (t.name, w[0] if isinstance(w, tuple) else (w or t.state)))
        return " ".join(out)

    def _transfer(self, cur, nxt):
        self.current = nxt
        nxt.state = "run"
        self.switches += 1
        self._mix(cur.tid, nxt.tid, 1)
        self.slice_end = self.step + self.slice_steps
        nxt.gate.release()
        cur.gate.acquire()
        if self.aborting:
            raise SimExit()

    # ------------------------------------------------------------------ preemption
    def line(self, code, lineno):
        """sys.monitoring callback on every line of the package"""
        if not self.lines_on:
            if self.aborting and self.current is not None:
                raise SimExit()
            return
        self.step += 1
        # pure computation is fast: code which needs more lines for it must not look like a stall
        self.now += self.line_cost if self.step < self.fast_from else 100
        if self.step >= self.next_step or self.now >= self.next_due or self.step >= self.slice_end:
            self._point(lineno, True)

    def inner(self, code):
        """a call or a backward jump inside a line of the package"""
        if not self.lines_on:
            return
        self.step += 1
        if self.step >= self.next_step:
            self._point(0, True)

    def point(self, loc=0, cost=0):
        """preemption point of a primitive"""
        if self.aborting:
            raise SimExit()
        self.step += 1
        self.fast_from = self.step + 400
        self.now += self.line_cost + cost
        if self.step >= self.next_step or self.now >= self.next_due or self.step >= self.slice_end:
            self._point(loc)

    def _point(self, loc, line=False):
        cur = self.current
        if cur is None:
            return
        if self.now >= self.next_due:
            self._fire_due()
            if self.aborting:
                raise SimExit()
        if self.step > self.max_steps:
            self.fail("livelock", "no end after %d steps (%.1f ms simulated): running %s, %s" % (
                self.step, self.now / 1e6, cur.name, self.describe_blocked()))
            raise SimExit()
        if self.now > self.horizon:
            self.fail("hang", "no end after %.1f s of simulated time: running %s, %s" % (
                self.now / 1e9, cur.name, self.describe_blocked()))
            raise SimExit()
        run = self.runnable
        if self.step >= self.next_step:
            here = self.step
            if cur.no_preempt:
                c = 0
            elif self.replay:
                c = self.pre.get(here, 0)
                if c > 0 and run:
                    c = 1 + (c - 1) % len(run)
                elif c > 0:
                    c = 0
            elif self.stall_p and line and self.stalls_ok and self.stalls < self.stall_n and self.rng.random() < self.stall_p:
                # only in the code under test: the peers of the harness keep their timing
                c = -1 - self.rng.randrange(min(self.stall_max, len(STALLS)))
            elif run:
                c = 1 + self.rng.randrange(len(run))
            else:
                c = 0
            if c:
                self.preemptions += 1
                self.used_pre[here] = c
                self._plan_next()
                self._mix(cur.tid, c & 0xffff, loc)
                if c < 0:
                    d = STALLS[min(-c - 1, len(STALLS) - 1)]
                    self.stall_total += d
                    self.stalls += 1
                    self.fault("task stalled")
                    cur.token += 1
                    self.block(self.now + d, ("stall",))
                    return
                nxt = run.pop(c - 1)
                cur.state = "ready"
                run.append(cur)
                self._transfer(cur, nxt)
                return
            self._plan_next()
        if self.step >= self.slice_end:
            self.slice_end = self.step + self.slice_steps
            if run and not cur.no_preempt:
                nxt = run.pop(0)
                cur.state = "ready"
                run.append(cur)
                self._transfer(cur, nxt)

    def sleep(self, ns):
        self.check_abort()
        self.prepare_block()
        if ns <= 0:
            self.point()
            return
        self.block(self.now + ns, ("sleep",))

    def wait_until(self, cond, timeout_ns, poll=1 * MS):
        """harness-side polling wait"""
        end = self.now + timeout_ns
        while not cond():
            if self.now >= end:
                return False
            self.sleep(min(poll, end - self.now))
        return True

    # ------------------------------------------------------------------ lock cycles
    def find_lock_cycle(self, start):
        """start is about to block without deadline on an owner-released lock"""
        seen = []
        t = start
        while t is not None and t not in seen:
            seen.append(t)
            w = t.waiting
            if not (isinstance(w, tuple) and len(w) > 2 and w[2]):
                return None
            t = w[1].owner
            if t is None or t.done:
                return None
        if t is None or len(seen) < 2:
            return None
        return seen[seen.index(t):] if len(seen[seen.index(t):]) > 1 else None

    # ------------------------------------------------------------------ running
    def run(self, main_fn, wall_limit=120.0):
        task = self.spawn(main_fn, (), "main", harness=True)
        self.runnable.remove(task)
        self.alive = True
        self.current = task
        task.state = "run"
        task.gate.release()
        if not self.done_lock.acquire(timeout=wall_limit):
            self.harness_error = "run did not end within %ss of real time (step %d, now %d): %s" % (
                wall_limit, self.step, self.now, self.describe_blocked())
            self.ended = True
            self.aborting = True
            self.lines_on = False
            return
        # unwind all tasks, one at a time
        self.aborting = True
        self.lines_on = False
        order = list(self.tasks)
        if self.ender is not None:
            if not self.ender.end_lock.acquire(timeout=20):
                self.harness_error = self.harness_error or "ending task did not unwind"
                return
            order.remove(self.ender)
        for t in order:
            if t.done and t.end_lock.acquire(timeout=20):
                continue
            self.current = t
            try:
                t.gate.release()
            except RuntimeError:
                pass
            if not t.end_lock.acquire(timeout=20):
                if self.harness_error is None:
                    self.harness_error = "task %s did not unwind (%s)" % (t.name, t.waiting)
                return
        self.current = None
        self.alive = False
        for fn in self.on_end:
            fn()
        self.on_end = []
