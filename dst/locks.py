"""Simulated _thread and time modules."""
import _thread as real_thread
import functools
import types

from .kernel import SEC, SimExit


class SimLock(object):
    """plain lock.  `strict`: only its owner's end releases it (thread sentinel)."""

    def __init__(self, k, strict=False):
        self.k = k
        self.owner = None
        self.is_locked = False
        self.waiters = []
        self.strict = strict

    def acquire(self, blocking=True, timeout=-1):
        k = self.k
        cur = k.current
        if cur is None:
            if self.is_locked and not blocking:
                return False
            self.is_locked = True
            return True
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if timeout is None or (timeout < 0 and timeout != -1):
            raise ValueError("timeout value must be a non-negative number")
        k.point(11)
        cur = k.current
        if not self.is_locked:
            self.is_locked = True
            self.owner = cur
            return True
        if not blocking or timeout == 0:
            return False
        deadline = None if timeout == -1 else k.now + int(timeout * SEC)
        k.probe("lock contention")
        while self.is_locked:
            self.waiters.append(cur)
            if deadline is None and self.strict:
                cur.waiting = ("lock", self, True)
                cyc = k.find_lock_cycle(cur)
                if cyc:
                    k.fail("deadlock", "lock cycle: " + " -> ".join(t.name for t in cyc))
                    raise SimExit()
            val = k.block(deadline, ("lock", self, self.strict and deadline is None))
            if val is None and self.is_locked:
                if cur in self.waiters:
                    self.waiters.remove(cur)
                return False
            if cur in self.waiters:
                self.waiters.remove(cur)
        self.is_locked = True
        self.owner = cur
        return True

    acquire_lock = acquire

    def release(self):
        if not self.is_locked:
            if self.k.aborting:
                return
            raise RuntimeError("release unlocked lock")
        self.force_release()
        k = self.k
        if k.current is not None and not k.aborting:
            k.point(12)

    release_lock = release

    def force_release(self):
        self.is_locked = False
        self.owner = None
        if self.waiters:
            self.k.wake(self.waiters.pop(0))

    def locked(self):
        return self.is_locked

    locked_lock = locked

    def _at_fork_reinit(self):
        pass

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()


class SimRLock(object):
    strict = True

    def __init__(self, k):
        self.k = k
        self.owner = None
        self.count = 0
        self.waiters = []

    def acquire(self, blocking=True, timeout=-1):
        k = self.k
        cur = k.current
        if cur is None:
            self.count += 1
            return True
        k.point(13)
        cur = k.current
        if self.owner is cur:
            self.count += 1
            return True
        if self.owner is None:
            self.owner = cur
            self.count = 1
            return True
        if not blocking or timeout == 0:
            return False
        deadline = None if timeout == -1 else k.now + int(timeout * SEC)
        k.probe("lock contention")
        while self.owner is not None:
            self.waiters.append(cur)
            if deadline is None:
                cur.waiting = ("lock", self, True)
                cyc = k.find_lock_cycle(cur)
                if cyc:
                    k.fail("deadlock", "lock cycle: " + " -> ".join(t.name for t in cyc))
                    raise SimExit()
            val = k.block(deadline, ("lock", self, deadline is None))
            if cur in self.waiters:
                self.waiters.remove(cur)
            if val is None and self.owner is not None:
                return False
        self.owner = cur
        self.count = 1
        return True

    def release(self):
        k = self.k
        cur = k.current
        if cur is None:
            self.count = max(0, self.count - 1)
            return
        if self.owner is not cur:
            if k.aborting:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if self.waiters:
                k.wake(self.waiters.pop(0))
        if not k.aborting:
            k.point(14)

    def _is_owned(self):
        return self.owner is self.k.current

    def _release_save(self):
        count, owner = self.count, self.owner
        self.count = 0
        self.owner = None
        if self.waiters:
            self.k.wake(self.waiters.pop(0))
        return (count, owner)

    def _acquire_restore(self, state):
        self.acquire()
        self.count = state[0]

    def _recursion_count(self):
        return self.count if self.owner is self.k.current else 0

    def _at_fork_reinit(self):
        pass

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()


class SimLocal(object):
    """thread-local storage keyed by simulated task"""

    def __init__(self, *args, **kw):
        object.__setattr__(self, "_d", {})

    def _cur(self):
        k = SimLocal.kernel
        tid = k.current.tid if k.current else 0
        return object.__getattribute__(self, "_d").setdefault(tid, {})

    def __getattribute__(self, name):
        if name == "__dict__":
            return object.__getattribute__(self, "_cur")()
        if name.startswith("__") or name == "_cur":
            return object.__getattribute__(self, name)
        try:
            return object.__getattribute__(self, "_cur")()[name]
        except KeyError:
            return object.__getattribute__(self, name)

    def __setattr__(self, name, value):
        object.__getattribute__(self, "_cur")()[name] = value

    def __delattr__(self, name):
        try:
            del object.__getattribute__(self, "_cur")()[name]
        except KeyError:
            raise AttributeError(name)


def make_thread_module(k):
    m = types.ModuleType("_thread")
    SimLocal.kernel = k

    def allocate_lock():
        return SimLock(k)

    def rlock(*args, **kw):
        return SimRLock(k)

    def start_new_thread(fn, args=(), kwargs=None):
        k.check_abort()
        kw = kwargs or {}
        ok = True
        if ok:
            t = k.spawn(lambda: fn(*args, **kw), (), "thread%d" % (len(k.tasks) + 1))
        k.point(15)
        return t.tid

    def set_sentinel():
        lock = SimLock(k, strict=True)
        cur = k.current
        if cur is not None:
            cur.sentinel = lock
        return lock

    m.allocate_lock = m.allocate = allocate_lock
    m.LockType = SimLock
    m.RLock = rlock
    m.start_new_thread = m.start_new = start_new_thread
    m._set_sentinel = set_sentinel
    m.get_ident = lambda: k.current.tid if k.current else 0
    m.get_native_id = m.get_ident
    m.TIMEOUT_MAX = real_thread.TIMEOUT_MAX
    m.error = RuntimeError
    m._local = SimLocal
    m.stack_size = lambda *a: 0
    m.daemon_threads_allowed = lambda: True
    m._is_main_interpreter = lambda: True
    m._count = lambda: sum(1 for t in k.tasks if not t.done)
    m.interrupt_main = lambda *a: None
    m.exit = m.exit_thread = _exit

    class ExceptHookArgs(tuple):
        exc_type = property(lambda s: s[0])
        exc_value = property(lambda s: s[1])
        exc_traceback = property(lambda s: s[2])
        thread = property(lambda s: s[3])

    def excepthook(args):
        if args.exc_type in (SystemExit, SimExit):
            return
        k.thread_exceptions.append((k.current.name if k.current else "-", repr(args.exc_value)))
        k.note("THREAD DIED %r" % (args.exc_value,))

    m._ExceptHookArgs = ExceptHookArgs
    m._excepthook = excepthook
    return m


def _exit():
    raise SystemExit()


def make_time_module(k):
    import time as real
    m = types.ModuleType("time")

    def mono():
        if k.current is not None:
            k.point(21)
        return k.now / 1e9

    m.monotonic = mono
    m.perf_counter = mono
    m.monotonic_ns = lambda: (mono(), k.now)[1]
    m.perf_counter_ns = m.monotonic_ns
    m.process_time = mono
    m.thread_time = mono

    def wall():
        if k.current is not None:
            k.point(22)
        return (k.now + k.wall_offset) / 1e9

    m.time = wall
    m.time_ns = lambda: (wall(), k.now + k.wall_offset)[1]

    def sleep(secs):
        if secs < 0:
            raise ValueError("sleep length must be non-negative")
        if k.current is None:
            return
        k.sleep(int(secs * SEC))

    m.sleep = sleep

    def gmtime(t=None):
        return real.gmtime(wall() if t is None else t)

    # partial objects: like builtins, not bound to an instance when they are class attributes
    m.gmtime = m.localtime = functools.partial(gmtime)
    m.strftime = lambda fmt, t=None: real.strftime(fmt, gmtime() if t is None else t)
    m.ctime = lambda t=None: real.asctime(gmtime(t))
    m.asctime = lambda t=None: real.asctime(gmtime() if t is None else t)
    m.mktime = real.mktime
    m.struct_time = real.struct_time
    m.timezone = 0
    m.altzone = 0
    m.daylight = 0
    m.tzname = ("UTC", "UTC")
    return m
