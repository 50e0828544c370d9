"""
Deterministic thread scheduler.

Simulated threads are real threads of which exactly one runs at any time.  A
running thread offers to give up control at every scheduling point: every
executed source line of rf and obspyh5, every operation on the simulated disk
and the simulated data centre, and every contended lock.  Which thread runs
next is decided by the plan: a seed with a switching probability, or an
explicit list of (scheduling point, thread).  In the mode 'rare' the running
thread is preferably stopped at lines which were seldom executed so far and is
kept waiting for a seeded number of scheduling points.
"""
import contextlib
import os
import random
import sys
import threading

from dst.core import REPO

_real_lock = threading.Lock
_real_rlock = threading.RLock
_current = None     # active Scheduler


class SimLock(object):

    """Lock whose waiting is visible to the scheduler."""

    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._real = _real_rlock() if self._reentrant else _real_lock()

    def _me(self):
        return threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        if s is None or not s.is_sim():
            ok = self._real.acquire(blocking, timeout)
            if ok:
                self._owner = self._me()
                self._count += 1
            return ok
        s.point('lock')
        while self._count and not (self._reentrant and
                                   self._owner == self._me()):
            if not blocking or timeout >= 0:
                return False
            s.block(self)
        self._owner = self._me()
        self._count += 1
        return True

    def release(self):
        s = _current
        if s is None or not s.is_sim():
            self._count -= 1
            if not self._count:
                self._owner = None
            self._real.release()
            return
        if not self._count:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if not self._count:
            self._owner = None
        s.point('unlock')

    def locked(self):
        return bool(self._count)

    def _is_owned(self):
        return self._owner == self._me()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()


class SimRLock(SimLock):
    _reentrant = True


def _factory(real, sim):
    def make():
        f = sys._getframe(1)
        if f.f_code.co_filename == threading.__file__:
            f = f.f_back.f_back or f
        fn = f.f_code.co_filename
        # other libraries do not call back while they hold a lock
        return sim() if _watched(fn) else real()
    return make


def _watched(fname):
    return fname.startswith(REPO + '/rf/') or \
        os.path.basename(fname) == 'obspyh5.py'


@contextlib.contextmanager
def patched_locks():
    threading.Lock = _factory(_real_lock, SimLock)
    threading.RLock = _factory(_real_rlock, SimRLock)
    try:
        yield
    finally:
        threading.Lock, threading.RLock = _real_lock, _real_rlock


class Deadlock(Exception):
    pass


class Scheduler(object):

    def __init__(self, R, spec, lines=True, max_points=400000):
        self.R = R
        self.spec = spec
        self.rng = random.Random(spec.get('seed', 0))
        self.p = spec.get('p', 0.)
        self.mode = spec.get('mode')
        self.seen = {}
        self.held = {}
        self.switches = {int(k): int(v) for k, v in spec['switch']} \
            if 'switch' in spec else None
        self.lines = lines
        self.step = 0
        self.taken = []
        self.max_points = max_points
        self.threads = []
        self.current = None
        self.finished = set()
        self.blocked = {}
        self.results = {}
        self.done = threading.Event()
        self.deadlock = False
        self.trace = []
        self._ids = {}

    def is_sim(self):
        return threading.get_ident() in self._ids

    def me(self):
        return self._ids.get(threading.get_ident())

    # ------------------------------------------------------------------
    def _runnable(self):
        return [i for i in range(len(self.threads))
                if i not in self.finished and i not in self.blocked]

    def _switch_to(self, i, me):
        if i == me:
            return
        self.current = i
        self.trace.append(i)
        self.sems[i].release()
        if me is not None:
            self.sems[me].acquire()
            if self.deadlock:
                raise Deadlock()

    def point(self, what='', site=None):
        """Scheduling point of the running thread."""
        me = self.me()
        if me is None or me != self.current:
            return
        self.step += 1
        if self.step > self.max_points:
            return
        others = [i for i in self._runnable() if i != me]
        if not others:
            return
        nxt = None
        if self.switches is not None:
            nxt = self.switches.get(self.step)
            if nxt not in others:
                return
        elif self.mode == 'rare':
            n = self.seen[site] = self.seen.get(site, 0) + 1
            if self.rng.random() < self.p / n:
                others = [i for i in others
                          if self.held.get(i, 0) <= self.step] or others
                nxt = self.rng.choice(others)
                self.held[me] = self.step + int(
                    10 ** self.rng.uniform(1, 4.3))
        elif self.rng.random() < self.p:
            nxt = self.rng.choice(others)
        if nxt is None:
            return
        self.taken.append([self.step, nxt])
        self._switch_to(nxt, me)

    def block(self, lock):
        me = self.me()
        self.step += 1
        self.R.probes['lock_contended'] += 1
        self._wake()
        others = [i for i in self._runnable() if i != me]
        if not others:
            self.deadlock = True
            raise Deadlock('all threads are blocked')
        self.blocked[me] = lock
        nxt = others[self.step % len(others)]
        self._switch_to(nxt, me)
        self.blocked.pop(me, None)

    def _wake(self):
        for i, lk in list(self.blocked.items()):
            if not lk._count:
                self.blocked.pop(i)

    def _line(self, code, line):
        if not _watched(code.co_filename):
            return sys.monitoring.DISABLE
        self._wake()
        self.point('line', (code, line))

    def _body(self, i, func):
        self.sems[i].acquire()
        self._ids[threading.get_ident()] = i
        try:
            self.results[i] = ('ok', func())
        except BaseException as ex:
            self.results[i] = ('exc', ex)
        self._ids.pop(threading.get_ident(), None)
        self.finished.add(i)
        self._wake()
        nxt = self._runnable()
        if nxt:
            if self.switches is None:
                k = self.rng.choice(nxt)
            else:
                k = nxt[0]
            self.current = k
            self.trace.append(k)
            self.sems[k].release()
        elif len(self.finished) < len(self.threads):
            self.deadlock = True
            for j in range(len(self.threads)):
                if j not in self.finished:
                    self.sems[j].release()
            self.done.set()
        else:
            self.done.set()

    def run(self, funcs):
        """Run functions as simulated threads, return list of outcomes."""
        global _current
        self.sems = [threading.Semaphore(0) for _ in funcs]
        # real semaphores: created from the real lock factory
        self.threads = [threading.Thread(target=self._body, args=(i, f),
                                         daemon=True)
                        for i, f in enumerate(funcs)]
        mon = sys.monitoring
        tool = 4
        _current = self
        if self.lines:
            mon.use_tool_id(tool, 'rfdst')
            mon.register_callback(tool, mon.events.LINE, self._line)
            mon.set_events(tool, mon.events.LINE)
        for t in self.threads:
            t.start()
        with_locks = patched_locks()
        with_locks.__enter__()
        try:
            first = self.spec.get('first', 0) % len(funcs)
            self.current = first
            self.trace.append(first)
            self.sems[first].release()
            finished = self.done.wait(60)
            if not finished and os.environ.get('RFDST_DEBUG'):
                import faulthandler
                faulthandler.dump_traceback(all_threads=True)
        finally:
            with_locks.__exit__(None, None, None)
            if self.lines:
                mon.set_events(tool, 0)
                mon.free_tool_id(tool)
            _current = None
        if not finished:
            self.deadlock = True
        self.R.probes['sched_points'] += self.step
        self.R.probes['switches'] += len(self.taken)
        self.R.log('schedule', len(self.taken), 'switches in', self.step,
                   'points', self.trace[:200])
        return [self.results.get(i, ('exc', Deadlock('not finished')))
                for i in range(len(funcs))]
