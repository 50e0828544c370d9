"""
Deterministic process scheduler.

Simulated jobs are forked processes of which exactly one runs at any time.  A
job offers to give up control at every operation on the simulated disk, every
request to the simulated data centre and every executed source line of the
watched files.  The coordinator hands out turns: a number of such points a job
may pass before another job continues.  Turns come from a seed or from an
explicit list.
"""
import os
import pickle
import random
import select
import struct
import sys
import traceback

from dst.core import HarnessError, Recorder, REPO


class JobSide(object):

    """The scheduler seen from inside of a job."""

    def __init__(self, rfd, wfd, R, die_at=None):
        self.rfd, self.wfd, self.R = rfd, wfd, R
        self.left = 0
        self.n = 0
        self.nfs = 0
        self.die_at = die_at
        self.quiet = 0

    def _read(self, n):
        out = b''
        while len(out) < n:
            b = os.read(self.rfd, n - len(out))
            if not b:
                os._exit(3)
            out += b
        return out

    def wait(self):
        self.left = struct.unpack('<I', self._read(4))[0]

    def send(self, kind, payload=b''):
        data = kind + struct.pack('<I', len(payload)) + payload
        while data:
            data = data[os.write(self.wfd, data):]

    def point(self, what=''):
        if self.quiet:
            return
        self.n += 1
        if what.startswith('fs:'):
            self.nfs += 1
        if self.die_at is not None and self.die_at[1] == (
                self.nfs if self.die_at[0] == 'fs' else self.n):
            self.R.fault('kill@' + what)
            self.R.log('killed at point', self.n, what)
            self.finish('killed', what)
            os._exit(77)
        self.left -= 1
        if self.left <= 0:
            self.send(b'P')
            self.wait()

    def _line(self, code, line):
        if not code.co_filename.startswith(REPO + '/rf/'):
            return sys.monitoring.DISABLE
        if os.path.basename(code.co_filename) != 'batch.py':
            return sys.monitoring.DISABLE
        self.point('line')

    def finish(self, how, value):
        R = self.R
        self.send(b'E', pickle.dumps((
            how, value, (self.n, self.nfs), R.events, R.violations, dict(R.probes),
            dict(R.faults), R.sim_time, R.states)))


class Jobs(object):

    """spec: {'seed', 'p'} or {'turns': [[job, points], ...]}"""

    def __init__(self, R, spec):
        self.R = R
        self.spec = spec
        self.rng = random.Random(spec.get('seed', 0))
        self.taken = []

    def _start(self, func, die_at):
        r1, w1 = os.pipe()      # to the job
        r2, w2 = os.pipe()      # from the job
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                R2 = Recorder(self.R.base)
                side = JobSide(r1, w2, R2, die_at)
                side.wait()
                mon = sys.monitoring
                mon.use_tool_id(4, 'rfdst')
                mon.register_callback(4, mon.events.LINE, side._line)
                mon.set_events(4, mon.events.LINE)
                try:
                    res = 'ok', func(R2, side)
                except HarnessError:
                    traceback.print_exc()
                    os._exit(2)
                except BaseException as ex:
                    from dst.common import exc_info
                    if os.environ.get('RFDST_DEBUG'):
                        traceback.print_exc()
                    res = 'exit', exc_info(ex)
                mon.set_events(4, 0)
                side.finish(*res)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        return {'pid': pid, 'r': r2, 'w': w1, 'state': 'ready'}

    def _readn(self, j, n):
        out = b''
        while len(out) < n:
            b = os.read(j['r'], n - len(out))
            if not b:
                raise HarnessError('job ended without an answer')
            out += b
        return out

    def run(self, funcs, die_at=None):
        """Returns list of (how, value, numbers of points).

        die_at: {job: ('any' or 'fs', number of point)}
        """
        die_at = die_at or {}
        jobs = [self._start(f, die_at.get(i)) for i, f in enumerate(funcs)]
        results = [None] * len(jobs)
        turns = list(self.spec['turns']) if 'turns' in self.spec else None
        live = list(range(len(jobs)))
        stuck = set()
        last = None
        while live:
            free = [i for i in live if i not in stuck] or live
            if turns is not None:
                i, k = None, 10 ** 9
                while turns:
                    i, k = turns.pop(0)
                    if i in free:
                        break
                    i = None
                if i is None:
                    i, k = free[0], 10 ** 9
            else:
                other = [i for i in free if i != last] or free
                i = self.rng.choice(other)
                k = 1
                while self.rng.random() > self.spec.get('p', .2) and k < 4000:
                    k += 1
            last = i
            j = jobs[i]
            if i not in stuck:
                os.write(j['w'], struct.pack('<I', k))
            ready = select.select([j['r']], [], [],
                                  8. if len(free) > 1 or stuck else 120.)[0]
            if not ready:
                if i in stuck and len(free) == len(live) or len(live) == 1:
                    # nobody can continue
                    for q in live:
                        os.kill(jobs[q]['pid'], 9)
                        results[q] = ('stuck', None, (0, 0))
                    break
                stuck.add(i)    # waits for a real lock of another job
                continue
            stuck.discard(i)
            kind = self._readn(j, 1)
            n = struct.unpack('<I', self._readn(j, 4))[0]
            data = self._readn(j, n)
            self.taken.append([i, k])
            if kind == b'E':
                (how, value, npoints, events, viol, probes, faults, sim,
                 states) = pickle.loads(data)
                R = self.R
                R.log('--- job', i, how, npoints)
                R.events += events
                R.violations += viol
                R.probes.update(probes)
                R.faults.update(faults)
                R.sim_time += sim
                R.states |= states
                results[i] = (how, value, npoints)
                live.remove(i)
        for j in jobs:
            os.close(j['r'])
            os.close(j['w'])
            os.waitpid(j['pid'], 0)
        self.R.probes['job_switches'] += len(self.taken)
        self.R.log('turns', [t[0] for t in self.taken[:300]])
        return results
