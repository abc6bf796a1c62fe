"""Simulated processes: fresh import of the code under test, a run of its entry
point inside the VFS, and the interpreter's exit.

The real source files of /repo's working tree are compiled once per worker and
executed anew for every simulated process, so import-time behaviour (the log file
is set up on import) and module-level state are part of what is simulated.
"""
import atexit
import bdb
import contextvars
import errno
import gc
import importlib.machinery
import importlib.util
import io
import os
import sys
import traceback
import weakref

from . import seams
from .seams import CTX, REPO
from .vfs import HarnessError, SimCrash

SRC = REPO + "/src"
TOPS = ("spex", "spexsrv")
_code = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        c = _code.get(self.path)
        if c is None:
            with seams.REAL.get("open", open)(self.path, "rb") as fh:
                src = fh.read()
            c = _code[self.path] = compile(src, self.path, "exec", dont_inherit=True)
        return c


class RepoFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.partition(".")[0] not in TOPS:
            return None
        rel = SRC + "/" + name.replace(".", "/")
        if os.path.isfile(rel + "/__init__.py"):
            f = rel + "/__init__.py"
            return importlib.util.spec_from_file_location(
                name, f, loader=_Loader(name, f), submodule_search_locations=[rel])
        if os.path.isfile(rel + ".py"):
            return importlib.util.spec_from_file_location(name, rel + ".py", loader=_Loader(name, rel + ".py"))
        return None


def preload():
    """compile everything once; called before runs are forked"""
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    sys.meta_path.insert(0, RepoFinder)
    for base, dirs, files in sorted(os.walk(SRC)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(base, f)
                try:
                    _Loader("x", p).get_code("x")
                except SyntaxError:
                    pass


def drop_modules(clear=False):
    mods = [sys.modules.pop(k) for k in [k for k in sys.modules if k.partition(".")[0] in TOPS]]
    if clear:
        # what the interpreter does at exit: references held by typing caches and the
        # like must not keep the process's objects alive
        for m in reversed(mods):
            m.__dict__.clear()


class Console(io.StringIO):
    """stdout / stderr of a simulated process"""

    def __init__(self):
        super().__init__()
        self.encoding_ = "utf-8"
        self.fault = None       # {"nth", "count", "err"}: writes failing
        self.writes = 0
        self.fired = 0

    def write(self, s):
        f = self.fault
        if f is not None:
            self.writes += 1
            if f["nth"] <= self.writes < f["nth"] + f["count"]:
                self.fired += 1
                e = getattr(errno, f["err"])
                raise OSError(e, os.strerror(e))
        return super().write(s)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False


def _reset_loguru(stderr):
    import functools
    import loguru
    from loguru import _better_exceptions, _logger
    ef = _better_exceptions.ExceptionFormatter
    if not hasattr(ef._get_lib_dirs, "cache_info"):
        # constant for the life of an interpreter, and slow
        ef._get_lib_dirs = staticmethod(functools.lru_cache(None)(ef._get_lib_dirs))
    core = _logger.Core()
    lg = _logger.Logger(core, None, 0, False, False, False, False, True, [], {})
    loguru.logger = lg
    lg.add(stderr)
    return lg


class Exit:
    """how a simulated process ended"""
    __slots__ = ("code", "exc", "killed", "out", "err", "intr", "trace_hits", "exc_type", "con_fired")

    def __init__(self):
        self.code = None
        self.exc = None
        self.killed = False
        self.intr = False
        self.out = self.err = ""
        self.trace_hits = 0
        self.exc_type = None


class Process:
    """context of one simulated process: consoles, fresh logging, atexit registry"""

    def __init__(self, argv):
        self.argv = argv
        self.out, self.err = Console(), Console()
        self.at_exit = []

    def start(self):
        drop_modules()
        self.saved = (sys.argv, sys.stdout, sys.stderr, atexit.register, atexit.unregister, sys.unraisablehook,
                      sys.excepthook, sys.stdin, sys.breakpointhook)
        sys.argv = self.argv
        self.stdin = sys.stdin = Terminal()
        sys.breakpointhook = self._breakpoint
        sys.stdout, sys.stderr = self.out, self.err
        atexit.register = self._register
        atexit.unregister = self._unregister
        sys.unraisablehook = self._unraisable
        self.unraisable = []
        self.loguru = _reset_loguru(self.err)
        import logging
        self.handlers = list(logging.root.handlers)

    def _breakpoint(self, *a, **k):
        # the debugger's prompt, at end of input
        self.stdin.asked += 1
        raise bdb.BdbQuit

    def _register(self, fn, *a, **k):
        self.at_exit.append((fn, a, k))
        return fn

    def _unregister(self, fn):
        self.at_exit = [t for t in self.at_exit if t[0] != fn]

    def _unraisable(self, u):
        # printed to stderr by the interpreter, otherwise ignored
        if isinstance(u.exc_value, HarnessError):
            self.unraisable.append(u.exc_value)
        try:
            self.err.write("Exception ignored in: %s\n" % type(u.exc_value).__name__)
        except Exception:
            pass

    def finish(self, graceful=True):
        """interpreter exit: atexit callbacks, module teardown, finalizers"""
        try:
            if graceful and not CTX.vfs.frozen:
                for fn, a, k in reversed(self.at_exit):
                    try:
                        fn(*a, **k)
                    except (SimCrash, HarnessError):
                        raise
                    except BaseException:
                        echo(self.err, traceback.format_exc())
                self.loguru.remove()       # loguru's own exit hook
            self.at_exit = []
            self.loguru = None
            _reset_loguru(io.StringIO())
            drop_modules(clear=True)
            gc.collect()
            if graceful and not CTX.vfs.frozen and _run_finalizers():
                gc.collect()
        except SimCrash:
            pass
        finally:
            import logging
            for h in list(logging.root.handlers):
                if h not in self.handlers:
                    logging.root.removeHandler(h)
            (sys.argv, sys.stdout, sys.stderr, atexit.register, atexit.unregister, sys.unraisablehook,
             sys.excepthook, sys.stdin, sys.breakpointhook) = self.saved
        if self.unraisable:
            raise self.unraisable[0]


def _run_finalizers():
    """weakref.finalize objects with atexit=True still alive (as the interpreter does)"""
    reg = weakref.finalize._registry
    todo = [(f, i) for (f, i) in reg.items() if i.atexit]
    todo.sort(key=lambda t: t[1].index)
    n = 0
    for f, _ in reversed(todo):
        if getattr(f, "_sim_keep", False) or id(f) in KEEP_FINALIZERS:
            continue
        n += 1
        try:
            f()
        except (SimCrash, HarnessError):
            raise
        except Exception:
            pass
    return n


KEEP_FINALIZERS = set()


def mark_existing_finalizers():
    KEEP_FINALIZERS.update(id(f) for f in weakref.finalize._registry)


TOOL = 4


def _codes(c, out):
    out.append(c)
    for k in c.co_consts:
        if isinstance(k, type(c)):
            _codes(k, out)


class LineFault:
    """raise an exception at the n-th execution of one source line of the code under
    test (a failing allocation, an interrupt), or count executions (`counts`)"""

    def __init__(self, site=None, occ=1, exc=MemoryError, subdir="/spex/"):
        self.prefix = SRC + subdir
        self.site = site
        self.occ = occ
        self.exc = exc
        self.counts = {}
        self.seen = 0
        self.fired = None     # stack (innermost first) of (file, func) of spex frames

    def _rel(self, fn):
        return fn[len(SRC) + 1:] if fn.startswith(self.prefix) else ""

    def on(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, "spexsim")
        m.register_callback(TOOL, m.events.LINE, self._count if self.site is None else self._line)
        self.armed = []
        for path, c in sorted(_code.items()):
            rel = self._rel(path)
            if not rel or (self.site is not None and rel != self.site[0]):
                continue
            cs = []
            _codes(c, cs)
            for k in cs:
                if self.site is None or any(ln == self.site[1] for _, _, ln in k.co_lines()):
                    m.set_local_events(TOOL, k, m.events.LINE)
                    self.armed.append(k)
        m.restart_events()

    def off(self):
        m = sys.monitoring
        if m.get_tool(TOOL) is None:
            return
        for k in self.armed:
            m.set_local_events(TOOL, k, 0)
        self.armed = []
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)

    def _count(self, code, line):
        key = (code.co_filename[len(SRC) + 1:], line)
        self.counts[key] = self.counts.get(key, 0) + 1

    def _line(self, code, line):
        if line != self.site[1]:
            return sys.monitoring.DISABLE
        if self.fired is not None:
            return
        self.seen += 1
        if self.seen == self.occ:
            st, f = [], sys._getframe(1)
            while f is not None:
                r = self._rel(f.f_code.co_filename)
                if r:
                    st.append((r, f.f_code.co_name))
                elif "/loguru/" in f.f_code.co_filename:
                    st.append(("loguru", f.f_code.co_name))
                f = f.f_back
            self.fired = st
            raise self.exc


class Budget:
    """bound the lines of code executed in one go (`n` is reset by the event loop)"""

    def __init__(self, limit, over):
        self.limit, self.over, self.n, self.top = limit, over, 0, 0
        self.hit = False

    def reset(self):
        self.top = max(self.top, self.n)
        self.n = 0

    def on(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, "spexsim")
        m.register_callback(TOOL, m.events.LINE, self._line)
        self.armed = []
        for path, c in sorted(_code.items()):
            if path.startswith(SRC + "/spex/"):
                cs = []
                _codes(c, cs)
                for k in cs:
                    m.set_local_events(TOOL, k, m.events.LINE)
                    self.armed.append(k)
        m.restart_events()

    def off(self):
        m = sys.monitoring
        if m.get_tool(TOOL) is None:
            return
        for k in self.armed:
            m.set_local_events(TOOL, k, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)
        self.reset()

    def _line(self, code, line):
        self.n += 1
        if self.n >= self.limit and (self.n - self.limit) % 5000 == 0:
            if not self.hit:
                self.hit = True
                self.over("%s:%d" % (code.co_filename[len(SRC) + 1:], line))
            raise RuntimeError("cut short by the simulation")


class Terminal(io.StringIO):
    """stdin of a simulated process: nobody is there to type anything"""
    asked = 0

    def read(self, *a):
        self.asked += 1
        return ""

    readline = read

    def __next__(self):
        self.asked += 1
        raise StopIteration

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


def echo(con, s):
    """what the interpreter itself prints"""
    try:
        con.write(s)
    except OSError:
        pass


def run_cli(argv, tracer=None, con=()):
    """one run of the command line tool as a simulated process -> Exit"""
    ex = Exit()
    p = Process(["spex"] + argv)
    for f in con:
        (p.out if f["which"] == "out" else p.err).fault = f
    p.start()
    graceful = True

    def body():
        import importlib
        m = importlib.import_module("spex.__main__")
        if tracer is not None:
            tracer.on()
        try:
            m.main()
        finally:
            if tracer is not None:
                tracer.off()
    try:
        try:
            contextvars.copy_context().run(body)
            ex.code = 0
        except SystemExit as e:
            c = e.code
            ex.code = 0 if c is None else c if isinstance(c, int) else 1
            if c is not None and not isinstance(c, int):
                echo(p.err, str(c) + "\n")
            ex.exc_type = "SystemExit"
        except SimCrash:
            ex.killed = True
            graceful = False
        except HarnessError:
            raise
        except KeyboardInterrupt as e:
            ex.code, ex.intr, ex.exc_type = 130, True, "KeyboardInterrupt"
            echo(p.err, "KeyboardInterrupt\n")
            e.__traceback__ = None
        except BaseException as e:
            ex.code = 1
            ex.exc_type = type(e).__name__
            ex.exc = repr(e)
            if CTX.vfs.frozen:
                ex.killed = True
                graceful = False
            else:
                echo(p.err, traceback.format_exc())
            e.__traceback__ = None
            del e
        if CTX.vfs.frozen:
            ex.killed = True
            graceful = False
    finally:
        if tracer is not None:
            tracer.off()
        p.finish(graceful)
        if CTX.vfs.frozen:
            ex.killed = True
    ex.con_fired = [f["which"] for f in con if (p.out if f["which"] == "out" else p.err).fired]
    ex.out, ex.err = p.out.getvalue(), p.err.getvalue()
    return ex


def settle():
    """call once per worker after preloading: later collections skip what is loaded"""
    class Dummy:
        pass
    d = Dummy()
    weakref.finalize(d, int)     # registers the finalizers' own exit hook with the real atexit
    del d
    gc.collect()
    gc.freeze()
    mark_existing_finalizers()
