"""An asyncio event loop under the simulator's control: virtual time, no real
selector, and executor jobs ("threads") as seeded delays around an atomic call."""
import asyncio
import asyncio.base_events
import contextvars
import functools
import weakref

from .seams import CTX
from .vfs import HarnessError, SimCrash

OWNER = contextvars.ContextVar("sim_owner", default=None)


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        if timeout is None:
            raise HarnessError("simulated event loop has nothing left to wait for")
        if timeout > 0:
            CTX.clock.now += timeout
            self.loop.waited += timeout
            self.loop.jumps += 1
        return []

    def close(self):
        pass


class _SimTask(asyncio.Task):
    """tasks and futures sit in sets of asyncio and the service: order by creation, not address"""
    _n = 0

    def __new__(cls, *a, **k):
        t = super().__new__(cls)
        _SimTask._n += 1
        t._sim_n = _SimTask._n
        return t

    def __hash__(self):
        return self._sim_n

    def __eq__(self, other):
        return self is other


class _SimFuture(asyncio.Future):
    def __new__(cls, *a, **k):
        t = super().__new__(cls)
        _SimTask._n += 1
        t._sim_n = _SimTask._n
        return t

    __hash__ = _SimTask.__hash__

    def __eq__(self, other):
        return self is other


class _OrderedWeak:
    """the part of WeakSet the event loop uses on its async generators, in order of first use"""

    def __init__(self):
        self.refs = {}

    def add(self, o):
        self.refs[id(o)] = weakref.ref(o)

    def discard(self, o):
        self.refs.pop(id(o), None)

    def __iter__(self):
        return iter([o for o in (r() for r in list(self.refs.values())) if o is not None])

    def __len__(self):
        return sum(1 for _ in self)

    def clear(self):
        self.refs.clear()


class SimLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self, rnd, jobs="fast"):
        super().__init__()
        self._selector = _Selector(self)
        self._clock_resolution = 1e-7    # coarser than floats of any simulated time
        self.rnd = rnd
        self.jobs = jobs
        self.jumps = 0
        self.njobs = 0
        self.dropped = 0
        self.iterations = 0
        self.max_iterations = 400000
        self.waited = 0.0       # time passed while there was nothing to do
        self.blocked = 0.0      # longest time passed while the loop was kept from running
        self.job_owner = None
        self.budget = None
        self.set_exception_handler(self._quiet)
        self.reports = []
        self.job_time = {}      # owner -> simulated time its executor jobs took
        self._asyncgens = _OrderedWeak()
        _SimTask._n = 0
        self.set_task_factory(lambda loop, coro, **k: _SimTask(coro, loop=loop, **k))

    def create_future(self):
        return _SimFuture(loop=self)

    def _quiet(self, loop, context):
        self.reports.append(str(context.get("message")))
        e = context.get("exception")
        if isinstance(e, HarnessError):
            raise e

    def time(self):
        return CTX.clock.monotonic()

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        pass

    def _run_once(self):
        if CTX.vfs is not None and CTX.vfs.frozen:
            raise SimCrash("killed")
        self.iterations += 1
        if self.budget is not None:
            self.budget.reset()
        if self.iterations > self.max_iterations:
            raise HarnessError("event loop iteration budget exhausted")
        free = CTX.clock.now - self.waited
        super()._run_once()
        self.blocked = max(self.blocked, CTX.clock.now - self.waited - free)

    def getaddrinfo(self, *a, **k):
        raise HarnessError("network access is not simulated")

    def _delay(self):
        r = self.rnd
        if self.jobs == "fast":
            return r.random() * 0.002
        if self.jobs == "slow":
            return r.random() * 0.3
        return r.random() * 0.002 if r.random() < 0.92 else r.random() * 2.0

    def run_in_executor(self, executor, func, *args):
        self._check_closed()
        self.njobs += 1
        fut = self.create_future()
        owner = OWNER.get()
        d1, d2 = self._delay(), self._delay()
        self.job_time[owner] = self.job_time.get(owner, 0.0) + d1 + d2
        started = self.rnd.random() < 0.5     # "already picked up by a thread" when cancelled early

        def begin():
            if fut.cancelled() and not started:
                self.dropped += 1
                return
            res, exc = None, None
            t0 = CTX.clock.now
            tok = OWNER.set(owner)
            try:
                res = func(*args)
            except (SimCrash, HarnessError) as e:
                if isinstance(e, HarnessError):
                    raise SystemExit(e)
                return
            except (KeyboardInterrupt, SystemExit):
                raise
            except BaseException as e:
                exc = e
            finally:
                OWNER.reset(tok)
                # a thread that sleeps keeps nobody but itself waiting
                slept, CTX.clock.now = CTX.clock.now - t0, t0
                self.job_time[owner] += slept

            def deliver():
                if fut.cancelled():
                    return
                if exc is not None:
                    fut.set_exception(exc)
                else:
                    fut.set_result(res)
            self.call_later(d2 + slept, deliver, context=contextvars.Context())
        self.call_later(d1, begin, context=contextvars.Context())
        return fut

    async def shutdown_default_executor(self, timeout=None):
        return None


def as_owner(owner, coro_fn):
    """run coro_fn() as a task whose simulated requests are accounted to `owner`"""
    ctx = contextvars.copy_context()
    ctx.run(OWNER.set, owner)
    loop = asyncio.get_running_loop()
    return loop.create_task(coro_fn(), context=ctx)


def aclose_all(loop):
    """what asyncio.run does when the main coroutine is done"""
    async def fin():
        me = asyncio.current_task()
        rest = [t for t in asyncio.all_tasks(loop) if t is not me]
        for t in rest:
            t.cancel()
        if rest:
            await asyncio.gather(*rest, return_exceptions=True)
        await loop.shutdown_asyncgens()
    loop.run_until_complete(fin())


partial = functools.partial
