"""
Deterministic simulation runner.

A *plan* is a JSON object which fixes everything about one simulated run:
workload, answers of the data source, fault sequence, thread schedule, process
history and the interpreter's hash seed.  `gen(rng, tier)` of a property module
draws a plan from a seeded generator, `execute(plan, R)` runs it against the
real code in a forked child of a warmed-up interpreter and reports violations
on the recorder `R`, `shrink(plan)` proposes simpler plans.
"""
import collections
import copy
import hashlib
import importlib
import json
import os
import random
import re
import select
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RFDST_REPO', '/repo')
PY = os.environ.get('RFDST_PY', '/opt/venv/bin/python')
LANES = 8
RUN_TIMEOUT = 90


class HarnessError(Exception):
    """Something is wrong with the simulator itself, not with rf."""


def lane_hashseed(lane):
    return (lane * 7919 + 1) % 4294967295


def run_seed(seed, prop, index):
    h = hashlib.sha256(('%s:%s:%s' % (seed, prop, index)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def prop_module(prop):
    return importlib.import_module('dst.props.%s' % prop.lower())


def make_plan(prop, seed, index, tier):
    mod = prop_module(prop)
    fixed = mod.fixed() if hasattr(mod, 'fixed') else ()
    if index < len(fixed):
        # histories of known findings are part of every check
        plan = fixed[index]
    else:
        rng = random.Random(run_seed(seed, prop, index))
        plan = mod.gen(rng, tier)
    plan['prop'] = prop
    plan['index'] = index
    plan['hashseed'] = lane_hashseed(index % LANES)
    return plan


class Recorder(object):

    """Collects what happened in one simulated run."""

    def __init__(self, base):
        self.base = base
        self.events = []
        self.violations = []
        self.probes = collections.Counter()
        self.faults = collections.Counter()
        self.sim_time = 0.
        self.states = set()
        self.nontrivial = False
        self.notes = {}
        self.seq = 0

    def log(self, *args):
        line = ' '.join(str(a) for a in args)
        if self.base:
            line = line.replace(self.base, '<scratch>')
        self.events.append(line)

    def probe(self, name, n=1):
        self.probes[name] += n

    def fault(self, name):
        self.faults[name] += 1
        self.log('FAULT', name)

    def state(self, *args):
        """Register a state/interleaving signature reached by the run."""
        self.states.add(hashlib.sha1(repr(args).encode()).hexdigest()[:12])

    def violation(self, cls, msg, key=None):
        msg = str(msg)
        if self.base:
            msg = msg.replace(self.base, '<scratch>')
        self.violations.append({'cls': cls, 'msg': msg[:1500], 'key': key})
        self.log('VIOLATION', cls)

    def result(self):
        digest = hashlib.sha256('\n'.join(self.events).encode()).hexdigest()
        return {'violations': self.violations, 'digest': digest,
                'probes': dict(self.probes), 'faults': dict(self.faults),
                'sim_time': self.sim_time, 'states': sorted(self.states),
                'nontrivial': bool(self.nontrivial), 'notes': self.notes,
                'n_events': len(self.events)}


# --------------------------------------------------------------------------
# lane process (one warmed-up interpreter, forks a child for every run)
# --------------------------------------------------------------------------

def _child_main(plan, base, wfd, want_log):
    os.setpgid(0, 0)
    import gc
    os.makedirs(base, exist_ok=True)
    os.chdir(base)
    rec = Recorder(base)
    devnull = os.open(os.path.join(base, '.out'), os.O_WRONLY | os.O_CREAT)
    os.dup2(devnull, 1)
    if not os.environ.get('RFDST_DEBUG'):
        os.dup2(devnull, 2)
    error = None
    try:
        from dst import env
        import numpy as np
        gc.disable()
        random.seed(12345)
        np.random.seed(12345)
        env.quiet()
        work = os.path.join(base, 'w')
        os.makedirs(work)
        os.chdir(work)
        prop_module(plan['prop']).execute(plan, rec)
    except HarnessError:
        error = traceback.format_exc()
    except MemoryError:
        error = traceback.format_exc()
    except BaseException as ex:
        # Nothing in a run raises on a tree where the property holds: the
        # library failed in a way no fault accounts for, or its results could
        # not even be interpreted.
        tb = traceback.format_exc()
        frames = traceback.extract_tb(ex.__traceback__)
        where = [f for f in frames if f.filename.startswith(REPO + '/rf/')]
        tag = where[-1].name if where else 'check'
        rec.violation('exception:%s:%s' % (type(ex).__name__, tag), tb[-1400:])
    res = rec.result()
    res['error'] = error
    if want_log:
        res['log'] = rec.events
    data = json.dumps(res).encode()
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)
    os._exit(0)


def _fork_run(plan, base, timeout, want_log=False):
    shutil.rmtree(base, ignore_errors=True)
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            _child_main(plan, base, wfd, want_log)
        finally:
            os._exit(99)
    os.close(wfd)
    chunks = []
    end = time.monotonic() + timeout
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        if select.select([rfd], [], [], min(left, 5))[0]:
            b = os.read(rfd, 1 << 20)
            if not b:
                break
            chunks.append(b)
    os.close(rfd)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(base, ignore_errors=True)
    if timed_out:
        return {'timeout': True}
    try:
        return json.loads(b''.join(chunks).decode())
    except ValueError:
        return {'crash': status}


def run_plan(plan, base, want_log=False):
    """Execute plan in a fork; repeated hangs/crashes become violations."""
    res = _fork_run(plan, base, RUN_TIMEOUT, want_log)
    for kind in ('timeout', 'crash'):
        if kind in res:
            res2 = _fork_run(plan, base, 2 * RUN_TIMEOUT, want_log)
            if kind in res2:
                return {'violations': [{
                    'cls': 'hang' if kind == 'timeout' else 'process-died',
                    'msg': '%s twice: %s' % (kind, res2), 'key': None}],
                    'digest': kind, 'probes': {}, 'faults': {}, 'sim_time': 0,
                    'states': [], 'nontrivial': False, 'notes': {},
                    'n_events': 0, 'error': None, 'log': []}
            return res2 if 'digest' in res2 else dict(
                res2, error='unstable outcome %s then %s' % (res, res2))
    return res


def _classes(res):
    return {v['cls'] for v in res.get('violations', ())}


def minimise(plan, cls, base, budget=60., maxruns=300):
    """Greedy minimisation: accept any simpler plan failing the same way."""
    mod = prop_module(plan['prop'])
    if hasattr(mod, 'concretise'):
        cand = mod.concretise(copy.deepcopy(plan), run_plan(plan, base))
        if cand is not None and cls in _classes(run_plan(cand, base)):
            plan = cand
    end = time.monotonic() + budget
    runs = 0
    progress = True
    while progress and time.monotonic() < end and runs < maxruns:
        progress = False
        for cand in mod.shrink(copy.deepcopy(plan)):
            if time.monotonic() > end or runs >= maxruns:
                break
            runs += 1
            try:
                ok = cls in _classes(_fork_run(cand, base, RUN_TIMEOUT))
            except Exception:
                ok = False
            if ok:
                plan = cand
                progress = True
                break
    return plan, runs


def _readmsg(f):
    head = f.read(4)
    if len(head) < 4:
        return None
    n, = struct.unpack('<I', head)
    return json.loads(f.read(n).decode())


def _writemsg(f, obj):
    data = json.dumps(obj).encode()
    f.write(struct.pack('<I', len(data)) + data)
    f.flush()


def lane_main(prop):
    inp = os.fdopen(os.dup(0), 'rb')
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
    base = os.environ['RFDST_SCRATCH'] + '/r'
    try:
        from dst import env
        env.warm(getattr(prop_module(prop), 'NEEDS', ()))
        # children inherit the warmed-up heap without touching it
        import gc
        gc.collect()
        gc.freeze()
    except BaseException:
        _writemsg(out, {'fatal': traceback.format_exc()})
        return
    _writemsg(out, {'ready': True})
    while True:
        msg = _readmsg(inp)
        if msg is None:
            return
        try:
            if msg['cmd'] == 'run':
                t = time.monotonic()
                plan = msg.get('plan') or make_plan(
                    prop, msg['seed'], msg['index'], msg['tier'])
                res = run_plan(plan, base, msg.get('log', False))
                res['index'] = msg.get('index')
                res['wall'] = time.monotonic() - t
                if (msg.get('sample') or res.get('violations') or
                        res.get('error') or 'digest' not in res):
                    res['plan'] = plan
            elif msg['cmd'] == 'minimise':
                plan, n = minimise(msg['plan'], msg['cls'], base,
                                   budget=msg['budget'])
                res = run_plan(plan, base, True)
                res['plan'] = plan
                res['minimise_runs'] = n
            else:
                res = {'fatal': 'unknown command'}
        except BaseException:
            res = {'fatal': traceback.format_exc()}
        _writemsg(out, res)


# --------------------------------------------------------------------------
# parent
# --------------------------------------------------------------------------

class Lane(object):

    def __init__(self, prop, hashseed, scratch):
        self.scratch = scratch
        os.makedirs(scratch, exist_ok=True)
        e = dict(os.environ)
        for k in list(e):
            if k.startswith(('PYTHON', 'VERIF_')):
                e.pop(k)
        e.update(PYTHONHASHSEED=str(hashseed), RFDST_SCRATCH=scratch,
                 PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1',
                 MPLBACKEND='Agg', MPLCONFIGDIR=scratch + '/mpl',
                 XDG_CACHE_HOME=scratch + '/cache',
                 OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TZ='UTC',
                 LC_ALL='C.UTF-8', HDF5_USE_FILE_LOCKING='FALSE',
                 PYTHONPATH=VERIF + ':' + REPO)
        self.proc = subprocess.Popen(
            [PY, '-W', 'ignore', '-m', 'dst.main', 'lane', prop],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e,
            cwd=scratch)
        self.busy = False

    def send(self, msg):
        _writemsg(self.proc.stdin, msg)
        self.busy = True

    def recv(self):
        res = _readmsg(self.proc.stdout)
        self.busy = False
        if res is None:
            raise HarnessError('lane process died')
        if 'fatal' in res:
            raise HarnessError(res['fatal'])
        return res

    def close(self):
        try:
            self.proc.stdin.close()
        except OSError:
            pass
        try:
            self.proc.wait(5)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
        shutil.rmtree(self.scratch, ignore_errors=True)


def scratch_root():
    return '/tmp/rfdst-%08d' % os.getpid()


def known_findings():
    fname = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fname):
        return []
    with open(fname) as f:
        return json.load(f)['findings']


def match_known(prop, v, known):
    for k in known:
        if (k['property'] == prop and
                re.fullmatch(k['cls'], v['cls']) and
                v.get('key') is not None and k['key'] == v['key']):
            return k


def write_replay(prop, plan, cls, res, seed):
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    name = '%s-%s-%s.json' % (prop, re.sub(r'[^A-Za-z0-9]+', '_', cls)[:50],
                              hashlib.sha1(json.dumps(
                                  plan, sort_keys=True).encode()
                              ).hexdigest()[:8])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'class': cls, 'seed': seed,
                   'hashseed': plan['hashseed'], 'digest': res['digest'],
                   'violations': res['violations'], 'plan': plan,
                   'trace': res.get('log', [])}, f, indent=1)
    return path


def replay(path, verbose=True):
    """Replay a file in a fresh interpreter; returns (classes, digest)."""
    with open(path) as f:
        rep = json.load(f)
    lane = Lane(rep['property'], rep['hashseed'], scratch_root() + '-replay')
    try:
        lane.recv()
        lane.send({'cmd': 'run', 'plan': rep['plan'], 'log': True})
        res = lane.recv()
    finally:
        lane.close()
    if verbose:
        for line in res.get('log', ()):
            print('  ' + line)
        for v in res['violations']:
            print('%s: %s' % (v['cls'], v['msg']))
    return rep, res


def check(prop, tier, seed):
    t0 = time.monotonic()
    mod = prop_module(prop)
    nruns = mod.RUNS[tier]
    cap = {'quick': 240., 'thorough': 3000.}[tier]
    if 'RFDST_RUNS' in os.environ:
        nruns = int(os.environ['RFDST_RUNS'])
    if 'RFDST_CAP' in os.environ:
        cap = float(os.environ['RFDST_CAP'])
    print('check %s tier=%s VERIF_SEED=%s runs=%d' % (prop, tier, seed, nruns),
          flush=True)
    root = scratch_root()
    known = known_findings()
    lanes = [Lane(prop, lane_hashseed(i), '%s/l%d' % (root, i))
             for i in range(min(LANES, nruns))]
    agg = {k: collections.Counter() for k in ('probes', 'faults', 'notes')}
    states, digests, samples = set(), set(), []
    nontrivial = set()
    sim_time = 0.
    events = 0
    done = 0
    failures = []   # (res)
    knownhit = {}
    errors = []
    code = 0
    try:
        for ln in lanes:
            ln.recv()
        t1 = time.monotonic()
        nxt = list(range(len(lanes)))
        failed_classes = set()

        def feed(i):
            if nxt[i] < nruns and time.monotonic() - t0 < cap and \
                    len(failed_classes) < 3 and not errors and not (
                    failures and time.monotonic() - tfail[0] > (
                        20 if 'RFDST_FAST' not in os.environ else 0)):
                lanes[i].send({'cmd': 'run', 'seed': seed, 'tier': tier,
                               'index': nxt[i], 'sample': nxt[i] < 3})
                nxt[i] += LANES
        tfail = [0]
        for i in range(len(lanes)):
            feed(i)
        while any(ln.busy for ln in lanes):
            fds = {ln.proc.stdout.fileno(): i
                   for i, ln in enumerate(lanes) if ln.busy}
            for fd in select.select(list(fds), [], [], 10)[0]:
                i = fds[fd]
                res = lanes[i].recv()
                if 'digest' not in res or res.get('error'):
                    errors.append(res)
                    continue
                done += 1
                for k in ('probes', 'faults'):
                    agg[k].update(res[k])
                states.update(res['states'])
                digests.add(res['digest'])
                if res['nontrivial']:
                    nontrivial.add(res['digest'])
                sim_time += res['sim_time']
                events += res['n_events']
                if res['index'] < 3:
                    samples.append({'index': res['index'],
                                    'plan': res.get('plan')})
                new = []
                for v in res['violations']:
                    k = match_known(prop, v, known)
                    if k:
                        knownhit.setdefault(k['id'], k)
                    else:
                        new.append(v)
                if new:
                    if not failures:
                        tfail[0] = time.monotonic()
                    res['new'] = new
                    failures.append(res)
                    failed_classes.add(new[0]['cls'])
                feed(i)
        t2 = time.monotonic()
        for err in errors[:1]:
            print('ERROR in simulator: %s' % json.dumps(
                {k: v for k, v in err.items() if k != 'log'})[:4000])
            code = 2
        reported = set()
        failures.sort(key=lambda r: r['index'])
        tmin = time.monotonic()
        if 'RFDST_FAST' in os.environ and failures:
            # development: which run fails first, nothing is minimised
            print('FAST %s run %d: %s: %s' % (
                prop, failures[0]['index'], failures[0]['new'][0]['cls'],
                failures[0]['new'][0]['msg'][-300:].replace('\n', ' ')))
            return 1
        for res in failures:
            cls = res['new'][0]['cls']
            if cls in reported or time.monotonic() - tmin > 200:
                continue
            lane = lanes[res['index'] % LANES]
            lane.send({'cmd': 'run', 'plan': res['plan']})
            again = lane.recv()
            if cls not in _classes(again):
                print('ERROR: violation %s of run %d did not repeat: %s' % (
                    cls, res['index'], res['new'][0]['msg']))
                print('  plan: %s' % json.dumps(res['plan']))
                code = code or 2
                continue
            reported.add(cls)
            lane.send({'cmd': 'minimise', 'plan': res['plan'], 'cls': cls,
                       'budget': 25. if tier == 'quick' else 90.})
            small = lane.recv()
            if cls not in _classes(small):
                small, again = again, again
                small['plan'] = res['plan']
            path = write_replay(prop, small['plan'], cls, small, seed)
            rep, fresh = replay(path, verbose=False)
            same = (fresh.get('digest') == small['digest'])
            v = [v for v in small['violations'] if v['cls'] == cls][0]
            print('violation %s (run %d, seed %s, %s after %s minimisation '
                  'runs, fresh-process replay %s):\n%s' % (
                      cls, res['index'], seed, 'minimised',
                      small.get('minimise_runs'),
                      'identical' if same else 'DIFFERS', v['msg']))
            if cls not in _classes(fresh):
                print('ERROR: replay in a fresh process does not fail')
                code = code or 2
                continue
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            code = 1
        for k in knownhit.values():
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        wall = time.monotonic() - t0
        evidence(prop, mod, tier, seed, done, nontrivial, states, digests,
                 samples, agg, sim_time, events, t2 - t1, wall, failures,
                 nruns)
        print('%s: %d runs in %.1f s, %d distinct histories, %d distinct '
              'states, faults fired: %s, probes: %s' % (
                  prop, done, wall, len(digests), len(states),
                  dict(agg['faults']), dict(agg['probes'])))
        missing = [p for p in getattr(mod, 'EXPECT_PROBES', ())
                   if not agg['probes'].get(p)]
        if missing and code == 0 and done >= nruns:
            print('note: probes never hit: %s' % missing)
        if done == 0 and code == 0:
            code = 2
        return code
    finally:
        for ln in lanes:
            ln.close()
        shutil.rmtree(root, ignore_errors=True)


def evidence(prop, mod, tier, seed, done, nontrivial, states, digests, samples,
             agg, sim_time, events, search_wall, wall, failures, nruns):
    per_h = int(done / search_wall * 3600) if search_wall > 0 else 0
    ev = {
        'property': prop, 'tier': tier, 'seed': int(seed),
        'level': 'exploration',
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(nontrivial),
            'rule': mod.RULE,
            'samples': sorted(samples, key=lambda s: s['index']),
            'planned_runs': nruns,
            'seeds_per_hour': per_h,
            'simulated_seconds': round(sim_time, 3),
            'logged_events': events,
            'distinct_event_histories': len(digests),
            'distinct_states': len(states),
            'state_measure': mod.STATE_MEASURE,
            'faults_fired': dict(sorted(agg['faults'].items())),
            'probes': dict(sorted(agg['probes'].items())),
            'real_components': mod.REAL,
            'stubbed_components': mod.STUBS,
            'hash_seeds': LANES,
        },
        'assumptions': mod.ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': len(failures),
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + '.json'))


def selftest(props, n, seed):
    """Determinism: same plans, other hash seeds, other order, other lanes."""
    bad = 0
    for prop in props:
        root = scratch_root()
        out = []
        for variant, hs in enumerate((0, 1, 4242)):
            order = list(range(n))
            if variant == 1:
                order.reverse()
            lanes = [Lane(prop, hs + k * (variant != 2), '%s/v%d' % (root, k))
                     for k in range((8, 3, 5)[variant])]
            got = {}
            try:
                for ln in lanes:
                    ln.recv()
                todo = list(order)
                while todo or any(ln.busy for ln in lanes):
                    for ln in lanes:
                        if not ln.busy and todo:
                            ln.idx = todo.pop(0)
                            ln.send({'cmd': 'run', 'seed': seed, 'log': True,
                                     'tier': 'quick', 'index': ln.idx})
                    fds = {ln.proc.stdout.fileno(): ln
                           for ln in lanes if ln.busy}
                    for fd in select.select(list(fds), [], [], 10)[0]:
                        ln = fds[fd]
                        got[ln.idx] = ln.recv()
            finally:
                for ln in lanes:
                    ln.close()
            out.append(got)
        shutil.rmtree(root, ignore_errors=True)
        diff = [i for i in range(n)
                if len({g[i].get('digest') for g in out}) != 1 or
                any(g[i].get('error') for g in out)]
        viol = [i for i in range(n) if out[0][i].get('violations')]
        print('%s: %d seeds x 3 variants, %d diverging, %d violating' % (
            prop, n, len(diff), len(viol)), flush=True)
        for i in diff[:3]:
            logs = [g[i].get('log') or [] for g in out]
            print('  seed index', i, [g[i].get('error') for g in out])
            for a in logs[1:]:
                for k, (x, y) in enumerate(zip(logs[0], a)):
                    if x != y:
                        print('   first difference at %d:\n    %s\n    %s' % (
                            k, x[:300], y[:300]))
                        break
                else:
                    if len(a) != len(logs[0]):
                        print('   lengths', len(a), len(logs[0]))
        bad += len(diff)
    return 1 if bad else 0
