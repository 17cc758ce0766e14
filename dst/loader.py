"""Executes the package of /repo in a simulated world (fresh modules for every run)."""
import builtins
import os
import sys
import types

from . import locks, net as netmod, ser as sermod
from .kernel import HarnessError

REPO = os.environ.get("DST_REPO", "/repo")
PKG = "modbus_tk"
CORE = ("defines", "hooks", "utils", "modbus", "modbus_tcp", "modbus_rtu", "modbus_rtu_over_tcp")

_codes = {}
_std_codes = {}
_lined = []

STD = ("threading", "queue", "selectors", "socketserver", "logging")
FORBIDDEN = ("asyncio", "multiprocessing", "concurrent", "subprocess", "_posixsubprocess", "ssl", "_socket",
             "signal", "trollius", "greenlet", "gevent")


def compile_all():
    """compile the package once per process and enable line events on it"""
    if _codes:
        return
    base = os.path.join(REPO, PKG)
    for root, dirs, files in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for fn in sorted(files):
            if not fn.endswith(".py"):
                continue
            path = os.path.join(root, fn)
            rel = os.path.relpath(path, REPO)[:-3].replace(os.sep, ".")
            is_pkg = rel.endswith(".__init__")
            name = rel[:-9] if is_pkg else rel
            with open(path, "rb") as f:
                src = f.read()
            _codes[name] = (compile(src, path, "exec", dont_inherit=True), path, is_pkg)
    if PKG not in _codes:
        raise HarnessError("no package %s in %s" % (PKG, REPO))
    for name in STD:
        mod = __import__(name)
        with open(mod.__file__, "rb") as f:
            _std_codes[name] = (compile(f.read(), mod.__file__, "exec", dont_inherit=True), mod.__file__)
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, "dst")
    for name in sorted(_codes):
        if name.endswith(".pymodbusclient"):
            continue
        _enable(_codes[name][0], tool, mon.events.LINE | mon.events.JUMP | mon.events.CALL, top=True)
    mon.register_callback(tool, mon.events.LINE, _on_line)
    # inside a line CPython switches threads at backward jumps (comprehensions) and calls
    mon.register_callback(tool, mon.events.JUMP, _on_jump)
    mon.register_callback(tool, mon.events.CALL, _on_call)


_current_kernel = [None]


def _on_line(code, lineno):
    k = _current_kernel[0]
    if k is not None:
        k.line(code, lineno)


def _on_jump(code, src, dst):
    k = _current_kernel[0]
    if k is not None and dst < src:
        k.inner(code)


def _on_call(code, offset, fn, arg0):
    k = _current_kernel[0]
    if k is not None:
        k.inner(code)


def _enable(code, tool, events, top=False):
    if not top:
        sys.monitoring.set_local_events(tool, code, events)
        _lined.append(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _enable(c, tool, events)


class FakeLogger(object):
    """stands for logging.Logger: formats eagerly, remembers the last messages"""

    def __init__(self, k, name):
        self._k = k
        self.name = name
        self.level = 0
        self.handlers = []
        self.disabled = False
        self.propagate = True
        self.parent = None
        self.filters = []

    def _log(self, lvl, msg, args):
        k = self._k
        try:
            text = str(msg) % args if args else str(msg)
        except Exception as exc:          # as logging: never raised to the caller
            text = "%s %r (%r)" % (msg, args, exc)
        if k.log_tap is not None:
            k.log_tap.append(text)
        if k.tracing:
            k.trace.append("%13.6f ms  step %-7d %-12s LOG %s %s" % (
                k.now / 1e6, k.step, k.current.name if k.current else "-", lvl, text[:200]))

    def debug(self, msg, *args, **kw):
        self._log("debug", msg, args)

    def info(self, msg, *args, **kw):
        self._log("info", msg, args)

    def warning(self, msg, *args, **kw):
        self._log("warning", msg, args)

    warn = warning

    def error(self, msg, *args, **kw):
        self._log("error", msg, args)

    exception = error
    critical = error
    fatal = error

    def log(self, level, msg, *args, **kw):
        self._log(str(level), msg, args)

    def setLevel(self, level):
        self.level = level

    def getEffectiveLevel(self):
        return self.level or 10

    def isEnabledFor(self, level):
        return True

    def addHandler(self, h):
        self.handlers.append(h)

    def removeHandler(self, h):
        if h in self.handlers:
            self.handlers.remove(h)

    def hasHandlers(self):
        return bool(self.handlers)

    def addFilter(self, f):
        pass

    def getChild(self, suffix):
        return FakeLogger(self._k, self.name + "." + suffix)


def make_logging(k):
    import logging as real
    m = types.ModuleType("logging")
    for name in dir(real):
        if not name.startswith("__"):
            setattr(m, name, getattr(real, name))
    loggers = {}

    class Handler(object):
        def __init__(self, level=0):
            self.level = level

        def setFormatter(self, f):
            self.formatter = f

        def setLevel(self, level):
            self.level = level

        def format(self, record):
            return str(record)

        def emit(self, record):
            pass

        def close(self):
            pass

        def handle(self, record):
            pass

        def flush(self):
            pass

    class NullHandler(Handler):
        pass

    class StreamHandler(Handler):
        def __init__(self, stream=None):
            Handler.__init__(self)

    def get_logger(name=None):
        if name not in loggers:
            loggers[name] = FakeLogger(k, name or "root")
        return loggers[name]

    m.getLogger = get_logger
    m.Handler = Handler
    m.NullHandler = NullHandler
    m.StreamHandler = StreamHandler
    root = get_logger(None)
    m.root = root
    for name in ("debug", "info", "warning", "error", "critical", "exception", "log"):
        setattr(m, name, getattr(root, name))
    m.basicConfig = lambda *a, **kw: None
    m.Logger = FakeLogger
    return m


class FakeSys(types.ModuleType):
    def __init__(self, console):
        types.ModuleType.__init__(self, "sys")
        self.stdin = console
        self.stdout = console
        self.stderr = _Null()

    def __getattr__(self, name):
        return getattr(sys, name)


class _Null(object):
    def write(self, *a):
        pass

    def flush(self):
        pass


class _FakeOs(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "os")

    def __getattr__(self, name):
        if name == "register_at_fork":
            raise AttributeError(name)
        return getattr(os, name)


class World(object):
    """one simulated process: kernel + network + serial lines + a fresh copy of the package"""

    def __init__(self, k, netcfg=None, real_logging=False):
        compile_all()
        self.k = k
        self.net = netmod.Net(k, netcfg)
        self.console = netmod.ConsolePipe(self.net)
        self.ser = sermod.SerialWorld(k)
        self.mods = {}
        self.fakes = {
            "_thread": locks.make_thread_module(k),
            "time": locks.make_time_module(k),
            "socket": netmod.make_socket_module(self.net),
            "select": netmod.make_select_module(self.net),
            "serial": self.ser.module,
            "logging": make_logging(k),
            "sys": FakeSys(self.console),
        }
        self._os = _FakeOs()
        tb = types.ModuleType("traceback")
        import traceback as real_tb
        for n in dir(real_tb):
            if not n.startswith("__"):
                setattr(tb, n, getattr(real_tb, n))
        tb.print_exc = lambda *a, **kw: None
        tb.print_stack = lambda *a, **kw: None
        tb.print_exception = lambda *a, **kw: None
        self.fakes["traceback"] = tb
        # the code under test uses neither today; a changed one stays deterministic
        rnd = types.ModuleType("random")
        import random as real_random
        gen = real_random.Random(20240)
        for n in dir(real_random):
            if not n.startswith("__"):
                setattr(rnd, n, getattr(gen, n) if hasattr(gen, n) and not isinstance(
                    getattr(real_random, n), type) else getattr(real_random, n))
        self.fakes["random"] = rnd
        at = types.ModuleType("atexit")
        at.register = at.unregister = lambda f, *a, **kw: f
        self.fakes["atexit"] = at
        self.print_out = None
        if real_logging:
            # the logging module itself over the simulated threads, clock and streams
            del self.fakes["logging"]
        _current_kernel[0] = k
        for name in CORE:
            if PKG + "." + name in _codes:
                self.load(PKG + "." + name)

    # ------------------------------------------------------------------ import machinery
    def _imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = (globals or {}).get("__package__") or PKG
            parts = pkg.split(".")
            parts = parts[:len(parts) - (level - 1)]
            name = ".".join(parts + ([name] if name else []))
        top = name.split(".")[0]
        if top == PKG:
            mod = self.load(name)
            if fromlist:
                for item in fromlist:
                    if item == "*":
                        continue
                    if not hasattr(mod, item) and (name + "." + item) in _codes:
                        self.load(name + "." + item)
                return mod
            return self.load(PKG)
        if name in self.fakes:
            return self.fakes[name]
        if top in self.fakes:
            # e.g. serial.serialutil
            sub = getattr(self.fakes[top], name.split(".")[1], None) if "." in name else None
            if sub is not None and isinstance(sub, types.ModuleType):
                return sub if fromlist else self.fakes[top]
            raise ImportError("No module named %r (simulated)" % name)
        if name in STD:
            return self.load_std(name)
        if top in FORBIDDEN:
            raise HarnessError("import of %s is not simulated" % name)
        if name == "_queue":
            raise ImportError(name)
        who = (globals or {}).get("__name__", "")
        if name == "os" and who in STD:
            return self._os
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _builtins(self):
        d = dict(builtins.__dict__)
        d["__import__"] = self._imp
        d["print"] = self._print
        return d

    def _print(self, *a, **kw):
        if self.print_out is not None:
            self.print_out(" ".join(str(x) for x in a) + kw.get("end", "\n"))
            return
        if self.k.tracing:
            self.k.trace.append("print %s" % " ".join(str(x) for x in a)[:80])

    def load_std(self, name):
        if name in self.fakes:
            return self.fakes[name]
        code, path = _std_codes[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self._builtins()
        if path.endswith("__init__.py"):
            m.__path__ = [os.path.dirname(path)]
        self.fakes[name] = m
        exec(code, m.__dict__)
        return m

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name not in _codes:
            raise ImportError("No module named %r" % name)
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
        code, path, is_pkg = _codes[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else parent
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self._builtins()
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if parent:
            setattr(self.mods[parent], name.rpartition(".")[2], m)
        return m

    def __getattr__(self, name):
        # world.modbus -> modbus_tk.modbus
        if name.startswith("_"):
            raise AttributeError(name)
        full = PKG + "." + name
        if full in _codes:
            m = self.load(full)
            setattr(self, name, m)
            return m
        raise AttributeError(name)

    @property
    def threading(self):
        return self.load_std("threading")
