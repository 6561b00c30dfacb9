"""
Controlled scheduler: stateless model checking of the real, threaded code.

``install()`` (before orthority is imported) replaces the thread pool, futures helpers and the lock
types that orthority sees by cooperative versions.  While a ``Scheduler`` is active, the threads of the
code under test run one at a time, and control moves only at *scheduling points*:

- 'line'   every executed source line of orthority code (via sys.monitoring),
- 'lock'   lock / condition / event / semaphore operations,
- 'io'     entry to, and the inside of, dataset read / write operations,
- 'task'   a worker picking up a task, or finishing one,
- 'fut'    submit, result, as_completed, wait, shutdown.

Each point where more than one thread is enabled is a choice.  ``explore`` enumerates every schedule that
deviates from the default (keep running the current thread) at no more than ``bound`` points.
Two threads inside operations on the same dataset at the same time is reported as a race, whatever its
result (GDAL datasets must not be shared between threads without locking).
"""
from __future__ import annotations

import sys
import threading
import _thread
import collections
import concurrent.futures
import concurrent.futures._base as _fbase
import concurrent.futures.thread as _fthread

from mc import env as mcenv

RealThread = threading.Thread
RealTPE = _fthread.ThreadPoolExecutor
RealFuture = _fbase.Future
_real = {n: getattr(threading, n) for n in
         ('Lock', 'RLock', 'Condition', 'Semaphore', 'BoundedSemaphore', 'Event')}
_real_as_completed = _fbase.as_completed
_real_wait = _fbase.wait
_alloc = _thread.allocate_lock
ACTIVE: 'Scheduler | None' = None
IO_HOOK = None  # fault injector: called with (operation name, operation)
TOOL = 3
_PREFIX = mcenv.REPO + '/orthority/'


class Abort(BaseException):
    """Unwinds the threads of an execution that can not continue."""


class _T:
    __slots__ = ('id', 'go', 'pred', 'done', 'name')

    def __init__(self, tid, name):
        self.id = tid
        self.name = name
        self.go = _alloc()
        self.go.acquire()
        self.pred = None
        self.done = False

    def enabled(self):
        return not self.done and (self.pred is None or self.pred())


class Scheduler:
    def __init__(self, plan=(), kinds=('lock', 'io', 'task', 'fut'), max_workers=2):
        self.plan = list(plan)
        self.kinds = frozenset(kinds)
        self.max_workers = max_workers
        self.threads: list[_T] = []
        self.by_ident = {}
        self.trace = []  # (kind, number of options, chosen)
        self.aborted = None
        self.races = []
        self.busy = {}
        self.seq = 0
        self.switches = 0
        self.npoints = 0
        self.maxlive = 0

    # -- identity
    def me(self):
        return self.by_ident.get(_thread.get_ident())

    # -- choices
    def choose(self, kind, n):
        pos = len(self.trace)
        c = self.plan[pos] if pos < len(self.plan) else 0
        if c >= n:
            c = 0
        self.trace.append((kind, n, c))
        return c

    def _enabled(self, me):
        ts = self.threads
        out = [me] if me.enabled() else []
        k = me.id
        out += [t for t in ts[k + 1:] + ts[:k] if t.enabled()]
        return out

    def _next(self, me, kind):
        en = self._enabled(me)
        if not en:
            if all(t.done for t in self.threads):
                return None
            self.abort('deadlock: ' + ', '.join(
                f'{t.name}' for t in self.threads if not t.done) + ' all blocked')
            raise Abort()
        return en[self.choose(kind, len(en))] if len(en) > 1 else en[0]

    def abort(self, why):
        if not self.aborted:
            self.aborted = why
        for t in self.threads:
            try:
                t.go.release()
            except RuntimeError:
                pass

    def _switch(self, me, nxt):
        if nxt is not me:
            self.switches += 1
            nxt.go.release()
            me.go.acquire()
            if self.aborted:
                raise Abort()

    def point(self, kind):
        me = self.me()
        if me is None:
            return
        if self.aborted:
            raise Abort()
        self.npoints += 1
        if kind in self.kinds:
            self._switch(me, self._next(me, kind))

    def block(self, pred, kind='fut'):
        me = self.me()
        if me is None:
            return
        if self.aborted:
            raise Abort()
        me.pred = pred
        try:
            while not pred():
                self._switch(me, self._next(me, kind))
        finally:
            me.pred = None

    # -- threads
    def spawn(self, fn, name):
        t = _T(len(self.threads), name)
        self.threads.append(t)

        def main():
            t.go.acquire()
            self.by_ident[_thread.get_ident()] = t
            try:
                if not self.aborted:
                    fn()
            except Abort:
                pass
            finally:
                t.done = True
                self.by_ident.pop(_thread.get_ident(), None)
                if not self.aborted:
                    try:
                        nxt = self._next(t, 'task')
                    except Abort:
                        nxt = None
                    if nxt is not None:
                        nxt.go.release()

        th = RealThread(target=main, name=name, daemon=True)
        th.start()
        self._ths.append(th)
        return t

    def run(self, body):
        """Run ``body`` under control in the calling thread; return (result, exception)."""
        global ACTIVE
        self._ths = []
        self.stuck = []
        m = _T(0, 'main')
        self.threads.append(m)
        self.by_ident[_thread.get_ident()] = m
        ACTIVE = self
        res = exc = None
        line = 'line' in self.kinds
        try:
            if line:
                sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE)
            try:
                res = body()
                # threads that can still run after the call returned are run to completion
                self.block(lambda: not any(t.enabled() for t in self.threads[1:]))
            except Abort:
                pass
            except Exception as ex:
                exc = ex
                try:
                    self.block(lambda: not any(t.enabled() for t in self.threads[1:]))
                except Abort:
                    pass
            self.stuck = [t.name for t in self.threads[1:] if not t.done]
            self.verdict = self.aborted
        finally:
            if line:
                sys.monitoring.set_events(TOOL, 0)
            if any(not t.done for t in self.threads[1:]):
                self.abort('unwind')
            ACTIVE = None
            for th in self._ths:
                th.join(10)
            self.by_ident.clear()
        return res, exc


# ------------------------------------------------------------------------------ locks
class CoopLock:
    def __init__(self):
        self._owner = None
        self._real = _alloc()

    def acquire(self, blocking=True, timeout=-1):
        S = ACTIVE
        if S is None or S.me() is None:
            return self._real.acquire(blocking, timeout)
        S.point('lock')
        if not blocking:
            if self._real.locked():
                return False
        else:
            S.block(lambda: not self._real.locked(), 'lock')
        ok = self._real.acquire(False)
        assert ok
        return True

    def release(self):
        self._real.release()
        S = ACTIVE
        if S is not None and S.me() is not None and not S.aborted:
            S.point('lock')

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._real.locked()


class CoopRLock:
    def __init__(self):
        self._lock = CoopLock()
        self._own = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._own == me:
            self._n += 1
            return True
        ok = self._lock.acquire(blocking, timeout)
        if ok:
            self._own, self._n = me, 1
        return ok

    def release(self):
        if self._own != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._n -= 1
        if not self._n:
            self._own = None
            self._lock.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._own == _thread.get_ident()


class CoopCondition:
    def __init__(self, lock=None):
        self._lock = lock or CoopRLock()
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self._gen = 0
        self._tokens = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        S = ACTIVE
        tok = [False]
        self._tokens.append(tok)
        n = getattr(self._lock, '_n', 1)
        for _ in range(n):
            self._lock.release()
        if S is not None and S.me() is not None:
            S.block(lambda: tok[0] or timeout is not None, 'lock')
        else:
            import time

            while not tok[0]:
                time.sleep(1e-4)
        for _ in range(n):
            self._lock.acquire()
        if not tok[0] and tok in self._tokens:
            self._tokens.remove(tok)
        return tok[0]

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        while not r:
            self.wait(timeout)
            r = predicate()
        return r

    def notify(self, n=1):
        for tok in self._tokens[:n]:
            tok[0] = True
        del self._tokens[:n]

    def notify_all(self):
        self.notify(len(self._tokens))


class CoopSemaphore:
    def __init__(self, value=1):
        self._v = value
        self._cond = CoopCondition(CoopLock())

    def acquire(self, blocking=True, timeout=None):
        with self._cond:
            while self._v == 0:
                if not blocking:
                    return False
                self._cond.wait()
            self._v -= 1
            return True

    def release(self, n=1):
        with self._cond:
            self._v += n
            self._cond.notify(n)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class CoopEvent:
    def __init__(self):
        self._f = False

    def is_set(self):
        return self._f

    def set(self):
        self._f = True
        S = ACTIVE
        if S is not None:
            S.point('lock')

    def clear(self):
        self._f = False

    def wait(self, timeout=None):
        S = ACTIVE
        if S is not None and S.me() is not None:
            S.block(lambda: self._f or timeout is not None, 'lock')
        else:
            import time

            while not self._f:
                time.sleep(1e-4)
        return self._f


_coop = dict(Lock=CoopLock, RLock=CoopRLock, Condition=CoopCondition, Semaphore=CoopSemaphore,
             BoundedSemaphore=CoopSemaphore, Event=CoopEvent)


def _from_target() -> bool:
    f = sys._getframe(2)
    for _ in range(4):
        if f is None:
            return False
        name = f.f_code.co_filename
        if name.startswith(_PREFIX):
            return True
        base = name.rsplit('/', 1)[-1]
        if base not in ('queue.py', 'threading.py'):
            return False
        f = f.f_back
    return False


def _make_factory(name):
    real, coop = _real[name], _coop[name]

    def factory(*a, **k):
        return coop(*a, **k) if _from_target() else real(*a, **k)

    factory.__name__ = name
    return factory


# ------------------------------------------------------------------------------ futures
class CoopFuture(RealFuture):
    _seq = None

    def _sync(self):
        S = ACTIVE
        if S is not None and S.me() is not None and not self.done():
            S.point('fut')
            S.block(self.done, 'fut')

    def result(self, timeout=None):
        self._sync()
        return super().result(timeout)

    def exception(self, timeout=None):
        self._sync()
        return super().exception(timeout)

    def _stamp(self):
        S = ACTIVE
        if S is not None:
            S.seq += 1
            self._seq = S.seq

    def set_result(self, r):
        self._stamp()
        super().set_result(r)

    def set_exception(self, e):
        self._stamp()
        super().set_exception(e)

    def cancel(self):
        self._stamp()
        return super().cancel()


class CoopTPE(RealTPE):
    def __init__(self, max_workers=None, thread_name_prefix='', initializer=None, initargs=()):
        S = ACTIVE
        self._S = S if S is not None and S.me() is not None else None
        if self._S is None:
            super().__init__(max_workers, thread_name_prefix, initializer, initargs)
            return
        if max_workers is not None and max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        self._max_workers = max_workers or 32
        self._nw = min(self._max_workers, S.max_workers)
        self._q = collections.deque()
        self._ts = []
        self._down = False
        self._init = (initializer, initargs)

    def _loop(self):
        S = self._S
        if self._init[0]:
            self._init[0](*self._init[1])
        while True:
            S.block(lambda: self._q or self._down, 'task')
            if not self._q:
                return
            fut, fn, a, k = self._q.popleft()
            S.point('task')
            if not fut.set_running_or_notify_cancel():
                continue
            try:
                r = fn(*a, **k)
            except Abort:
                raise
            except BaseException as ex:
                fut.set_exception(ex)
                ex = None
            else:
                fut.set_result(r)
            del fn, a, k
            S.point('task')

    def submit(self, fn, /, *a, **k):
        if self._S is None:
            return super().submit(fn, *a, **k)
        if self._down:
            raise RuntimeError('cannot schedule new futures after shutdown')
        fut = CoopFuture()
        self._q.append((fut, fn, a, k))
        if len(self._ts) < self._nw:
            self._ts.append(self._S.spawn(self._loop, f'worker{len(self._ts)}'))
        self._S.point('fut')
        return fut

    def shutdown(self, wait=True, *, cancel_futures=False):
        if self._S is None:
            return super().shutdown(wait, cancel_futures=cancel_futures)
        self._down = True
        if cancel_futures:
            while self._q:
                self._q.popleft()[0].cancel()
        if wait and not self._S.aborted and self._S.me() is not None:
            self._S.block(lambda: all(t.done for t in self._ts), 'fut')

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False


def as_completed(fs, timeout=None):
    S = ACTIVE
    fs = list(dict.fromkeys(fs))
    if S is None or S.me() is None or not all(isinstance(f, CoopFuture) for f in fs):
        yield from _real_as_completed(fs, timeout)
        return
    # already finished futures come in arbitrary order, the rest in order of completion
    first = [f for f in fs if f.done()]
    rest = [f for f in fs if not f.done()]
    while first:
        i = S.choose('fut', len(first)) if len(first) > 1 else 0
        yield first.pop(i)
    while rest:
        S.block(lambda: any(f.done() for f in rest), 'fut')
        f = min((f for f in rest if f.done()), key=lambda f: f._seq)
        rest.remove(f)
        yield f


def wait(fs, timeout=None, return_when=_fbase.ALL_COMPLETED):
    S = ACTIVE
    fs = set(fs)
    if S is None or S.me() is None or not all(isinstance(f, CoopFuture) for f in fs):
        return _real_wait(fs, timeout, return_when)

    def ready():
        done = [f for f in fs if f.done()]
        if return_when == _fbase.FIRST_COMPLETED and done:
            return True
        if return_when == _fbase.FIRST_EXCEPTION and any(
            not f.cancelled() and RealFuture.exception(f) for f in done
        ):
            return True
        return len(done) == len(fs)

    S.block(ready, 'fut')
    done = {f for f in fs if f.done()}
    return _fbase.DoneAndNotDoneFutures(done, fs - done)


# ------------------------------------------------------------------------------ datasets
def _wrap_io(cls, name):
    orig = getattr(cls, name)

    def wrapper(self, *a, **k):
        S = ACTIVE
        me = S.me() if S is not None else None
        if me is None or S.busy.get(id(self)) == me.id:
            return orig(self, *a, **k)
        S.point('io')
        other = S.busy.get(id(self))
        if other is not None:
            S.races.append(f'{name} on a dataset another thread is using')
        S.busy[id(self)] = me.id
        try:
            S.point('io')
            if IO_HOOK is None:
                return orig(self, *a, **k)
            return IO_HOOK(name, lambda: orig(self, *a, **k))
        finally:
            if S.busy.get(id(self)) == me.id:
                del S.busy[id(self)]

    wrapper.__name__ = name
    wrapper.__wrapped__ = orig
    setattr(cls, name, wrapper)


def _on_line(code, line):
    if not code.co_filename.startswith(_PREFIX):
        return sys.monitoring.DISABLE
    S = ACTIVE
    if S is not None and not S.aborted:
        me = S.by_ident.get(_thread.get_ident())
        if me is not None:
            S.point('line')
    return None


_installed = False


def install():
    global _installed
    if _installed:
        return
    assert 'orthority' not in sys.modules, 'install() must come before orthority is imported'
    _installed = True
    import rasterio.io
    import rasterio.vrt

    for name in _coop:
        setattr(threading, name, _make_factory(name))
    for mod in (concurrent.futures, _fthread):
        mod.ThreadPoolExecutor = CoopTPE
    for mod in (concurrent.futures, _fbase):
        mod.as_completed = as_completed
        mod.wait = wait
    _wrap_io(rasterio.io.DatasetReader, 'read')
    _wrap_io(rasterio.io.DatasetReader, 'read_masks')
    for cls in (rasterio.io.DatasetWriter, rasterio.io.BufferedDatasetWriter):
        for name in ('read', 'write', 'write_mask', 'write_band', 'build_overviews'):
            if hasattr(cls, name):
                _wrap_io(cls, name)
    _wrap_io(rasterio.vrt.WarpedVRT, 'read')
    sys.monitoring.use_tool_id(TOOL, 'mc-sched')
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, _on_line)


# ------------------------------------------------------------------------------ exploration
class Result:
    __slots__ = ('outcome', 'races', 'aborted', 'trace', 'stuck', 'switches', 'points')


def execute(body, plan, kinds, max_workers) -> Result:
    """Run ``body`` (which returns a hashable outcome; exceptions become outcomes) under ``plan``."""
    S = Scheduler(plan, kinds, max_workers)
    res, exc = S.run(body)
    r = Result()
    r.outcome = ('raised', type(exc).__name__, str(exc)) if exc is not None else ('ok', res)
    r.races, r.trace = S.races, S.trace
    r.aborted = S.verdict
    r.stuck = S.stuck
    r.switches, r.points = S.switches, S.npoints
    return r


def explore(body, judge, tally, kinds, bound, max_workers=2, part=0, nparts=1, before=None):
    """
    Enumerate every schedule of ``body`` with at most ``bound`` deviations from the default schedule.

    ``part`` / ``nparts`` splits the tree at the first deviation.  ``judge(Result, plan)`` raises
    Violation.
    """
    stack = [((), 0)]
    first = True
    while stack:
        plan, used = stack.pop()
        if before:
            before()
        r = execute(body, plan, kinds, max_workers)
        root = first
        first = False
        if not root or part == 0:
            tally.add(executions=1, traces=1, states=len(r.trace) - len(plan) + 1,
                      transitions=len(r.trace) - len(plan) + (1 if plan else 0))
            tally.extra['switches'] = tally.extra.get('switches', 0) + r.switches
        judge(r, list(plan))
        if used >= bound:
            continue
        k = 0
        for p in range(len(plan), len(r.trace)):
            for alt in range(1, r.trace[p][1]):
                if root and nparts > 1:
                    k += 1
                    if k % nparts != part:
                        continue
                stack.append((tuple(c for _, _, c in r.trace[:p]) + (alt,), used + 1))
