"""R09: results do not depend on what the process did before."""
import contextlib
import copy
import os
import pickle
import struct

from dst import common as C
from dst import ops as O
from dst import streams as S

NEEDS = ('profile', 'taup')
RUNS = {"quick": 480, "thorough": 30000}
RULE = ('one run: up to four clients share one process and run operations '
        '(receiver functions, moveout, piercing points, delay times, stack, '
        'profile, harmonics, cuts, save and load) with arbitrary parameters, '
        'models and formats in a random interleaving, some of them in another '
        'working directory with other model files of the same names; some operations fail '
        '(bad arguments, disk errors, allocation failures inside numpy, '
        'scipy or ObsPy calls); every operation is compared to the same '
        'operation on the same stream in a process that has done nothing '
        'else; non-trivial: at least two operations; distinct by event log')
STATE_MEASURE = ('distinct ordered pairs of operations with their parameters '
                 'that followed each other in one process')
REAL = C.REAL_ALL + ['cartopy', 'shapely']
STUBS = C.STUB_DISK
ASSUMPTIONS = ['files read by an operation (velocity models) do not change',
               'operations of different clients do not overlap in time (R10 '
               'covers that)']

CALLEES = ['numpy.cumsum', 'numpy.interp', 'numpy.hstack', 'numpy.diff',
           'numpy.mean', 'numpy.linalg.lstsq', 'numpy.loadtxt',
           'numpy.linspace', 'numpy.sqrt', 'numpy.array', 'numpy.max',
           'numpy.argmax', 'numpy.zeros', 'numpy.pad', 'numpy.vstack',
           'numpy.allclose', 'numpy.arange', 'numpy.isnan', 'numpy.sum',
           'numpy.argsort', 'numpy.roll', 'numpy.dot', 'numpy.append',
           'numpy.fft.fft', 'scipy.fft.next_fast_len', 'copy.deepcopy',
           'obspy.core.stream.Stream.filter', 'obspy.core.stream.Stream.sort',
           'obspy.core.trace.Trace.copy', 'obspy.core.trace.Trace.slice',
           'obspy.core.trace.Trace.times', 'rf.rfstream.RFTrace.__init__',
           'rf.rfstream.RFStream.__init__',
           'obspy.core.trace.Trace.trim', 'obspy.core.trace.Trace.taper',
           'obspy.core.stream.Stream.rotate', 'obspy.core.stream.Stream.write',
           'obspy.core.trace.Trace._internal_add_processing_info',
           'h5py.File', 'obspyh5.trace2group', 'json.dumps',
           'geographiclib.geodesic.Geodesic.Direct']
BAD = ['odd_phase', 'no_model', 'deep', 'no_pp', 'no_dir', 'masked',
       'no_phase', 'no_onset', 'no_slowness', 'no_source', 'bad_fmt',
       'bad_type']


def gen(rng, tier):
    clients = []
    for c in range(rng.choice([1, 2, 2, 3, 4])):
        kind = rng.choice(['raw', 'rf', 'rf'])
        method = rng.choice(['P', 'P', 'P', 'S'])
        spec = O.gen_rfspec(rng, kind=kind, method=method)
        ops = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if r < .02:
                ops.append({'op': 'example', 'method': rng.choice('PS')})
            elif r < .1:
                ops.append(O.gen_retrieve(rng))
            elif r < .7:
                ops.append(O.gen_op(rng, kind, method, spec=spec))
                if rng.random() < .25:
                    ops[-1]['cd'] = True
            elif r < .85:
                ops.append({'op': 'fail', 'bad': rng.choice(BAD)})
            else:
                op = O.gen_op(rng, kind, method, spec=spec)
                if op['op'] == 'save' or rng.random() < .3:
                    op = {'op': 'save', 'fmt': rng.choice(['SAC', 'Q', 'H5']),
                          'how': 'stream'}
                    flt = {'disk': rng.choice(['EIO', 'ENOSPC', 'KI']),
                           'nth': rng.choice([1, 2, 3, 5, 9])}
                else:
                    flt = {'kind': round(rng.random(), 4),
                           'pos': round(rng.random(), 4),
                           'what': rng.choice(['mem', 'mem', 'ki'])}
                ops.append({'op': 'faulted', 'inner': op, 'fault': flt})
            if ops[-1]['op'] not in ('fail', 'faulted') and rng.random() < (
                    .9 if ops[-1]['op'] in ('retrieve', 'example') else .3):
                # nearly the same again, at once or later
                ops.insert(rng.choice([len(ops), rng.randint(
                    len(ops) - 1, len(ops))]), O.vary(rng, ops[-1], kind,
                                                      method, spec))
        # the same moveout with other references in between
        if rng.random() < .5:
            ops.insert(rng.randrange(len(ops) + 1), O.gen_op(
                rng, kind, method, spec=spec, light=True))
        clients.append({'kind': kind, 'method': method, 'stream': spec,
                        'ops': ops, 'copy': rng.random() < .5})
    if rng.random() < .2:
        # the same calls for other data of the same shape
        c = copy.deepcopy(clients[0])
        c['stream'] = O.twin(rng, c['stream'], rng.random() < .7)
        clients = [clients[0], c]
    return {'clients': clients, 'order': rng.randrange(10 ** 6)}


def shrink(plan):
    yield from O.shrink_clients(plan)


class Zygote(object):

    """Forks a fresh process for every reference calculation."""

    def __init__(self, func):
        r1, self.w = os.pipe()
        self.r, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                self._serve(r1, w2, func)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)

    def _serve(self, r, w, func):
        with os.fdopen(r, 'rb') as fi, os.fdopen(w, 'wb') as fo:
            while True:
                h = fi.read(4)
                if len(h) < 4:
                    return
                msg = fi.read(struct.unpack('<I', h)[0])
                rr, ww = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(rr)
                        res = pickle.dumps(func(*pickle.loads(msg)))
                        with os.fdopen(ww, 'wb') as f:
                            f.write(res)
                    finally:
                        os._exit(0)
                os.close(ww)
                with os.fdopen(rr, 'rb') as f:
                    res = f.read()
                os.waitpid(pid, 0)
                fo.write(struct.pack('<I', len(res)) + res)
                fo.flush()

    def __call__(self, *args):
        msg = pickle.dumps(args)
        os.write(self.w, struct.pack('<I', len(msg)))
        n = 0
        while n < len(msg):
            n += os.write(self.w, msg[n:])
        h = self._rd(4)
        return pickle.loads(self._rd(struct.unpack('<I', h)[0]))

    def _rd(self, n):
        out = b''
        while len(out) < n:
            b = os.read(self.r, n - len(out))
            if not b:
                raise RuntimeError('reference process ended')
            out += b
        return out

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


def attempt(op, stream, d, tag):
    """('ok', result, stream) or ('err', type and text, stream)"""
    back = os.getcwd()
    try:
        if op.get('cd'):
            os.chdir('sub')
        res = O.run_op(op, stream, d, tag)
    except Exception as ex:
        return ('err', '%s: %s' % (type(ex).__name__, str(ex)[:300]), None)
    finally:
        os.chdir(back)
    return ('ok', res, O.norm_stream(stream))


def reference(op, pickled, d, tag):
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    O.write_models('.')
    return attempt(op, pickle.loads(pickled), '.', tag)


def fail(bad, stream, d, tag):
    """Operations which fail because of their arguments."""
    import numpy as np
    s = stream.copy()
    if bad == 'odd_phase':
        s.moveout(phase='Pss')
    elif bad == 'no_model':
        s.moveout(model='nofile.dat')
    elif bad == 'deep':
        s.ppoints(5000)
    elif bad == 'no_pp':
        from rf import get_profile_boxes
        for tr in s:
            tr.stats.pop('pp_latitude', None)
        s.profile(get_profile_boxes((0, 0), 90, [0, 10, 20]))
    elif bad == 'no_dir':
        s.write(os.path.join(d, 'nowhere', 'x.h5'), 'H5')
    elif bad == 'masked':
        s[-1].data = np.ma.masked_array(s[-1].data, s[-1].data > 0)
        s.write(os.path.join(d, tag + '.h5'), 'H5')
    elif bad == 'no_phase':
        for tr in s:
            tr.stats.pop('phase', None)
        s.rf()
    elif bad == 'no_onset':
        del s[-1].stats['onset']
        s.rf()
    elif bad == 'no_slowness':
        del s[-1].stats['slowness']
        s.moveout(ref=5.9)
    elif bad == 'no_source':
        s.rf(source_components='X')
    elif bad == 'bad_fmt':
        s.write(os.path.join(d, tag + '.xyz'), 'XYZ')
    elif bad == 'bad_type':
        s.type = 'harmonic'
        s.write(os.path.join(d, tag + '.h5'), 'H5')


def faulted(op, flt, stream, d, tag, R):
    from dst.fs import SimFS, install_h5
    s = stream.copy()
    if 'disk' in flt:
        fs = SimFS(R, d, [{'cat': ['write', 'open_w', 'close_w'],
                           'nth': flt['nth'], 'what': flt['disk'],
                           'persist': True}])
        restore = install_h5(fs)
        try:
            with fs:
                O.run_op(op, s, d, tag)
        finally:
            restore()
        return
    # which functions will be called, found out in a process of its own
    def count(R2, on_kill):
        counts = {}
        with contextlib.ExitStack() as es:
            for c in CALLEES:
                es.enter_context(O.counted_call(c, counts))
            try:
                O.run_op(op, s, os.path.join(d, 'dry'), tag)
            except Exception:
                pass
        return counts
    res = C.fork_call(R, count)
    names = sorted(res[1]) if res[0] == 'ok' else []
    if not names:
        return
    c = names[int(flt['kind'] * len(names))]
    with O.failing_call({'callee': c, 'what': flt['what'],
                         'nth': 1 + int(flt['pos'] * res[1][c])}, R):
        O.run_op(op, s, d, tag)


def execute(plan, R):
    import random
    root = os.getcwd()
    O.write_models('.')
    zyg = Zygote(reference)
    streams = [O.build(c['stream']) for c in plan['clients']]
    rng = random.Random(plan['order'])
    todo = [list(c['ops']) for c in plan['clients']]
    n = 0
    last = None
    while any(todo):
        k = rng.choice([i for i, t in enumerate(todo) if t])
        op = todo[k].pop(0)
        n += 1
        c = plan['clients'][k]
        R.log('client', k, 'op', sorted(op.items()))
        tag = 'op%d' % n
        if last is not None:
            R.state(last, sorted(op.items()))
        last = sorted(op.items())
        before = S.settings()
        if op['op'] in ('fail', 'faulted'):
            try:
                if op['op'] == 'fail':
                    fail(op['bad'], streams[k], '.', tag)
                else:
                    faulted(op['inner'], op['fault'], streams[k], '.', tag, R)
                R.log('did not fail')
            except BaseException as ex:
                ex.__traceback__ = None
                R.probe('failed_operation')
                R.log('failed', type(ex).__name__)
            d = S.diff_settings(before, S.settings())
            if d:
                R.violation('settings:failed', 'client %d, failed operation '
                            '%d %s: %s' % (k, n, op, d))
                break
            os.chdir(root)
            continue
        s = streams[k]
        if c['copy']:
            s = s.copy()
        pickled = pickle.dumps(s)
        ref = zyg(op, pickled, os.path.join(root, 'ref', tag), tag)
        got = attempt(op, s, '.', tag)
        R.log('result', got[0])
        R.probe('compared_' + op['op'])
        d = S.diff_settings(before, S.settings())
        if d:
            R.violation('settings:' + op['op'], 'client %d, operation %d %s: '
                        '%s' % (k, n, op, d))
            break
        if op['op'] == 'retrieve' and got[0] == 'ok':
            R.probe('retrieved_records', len(got[1][1]))
        if n > 1:
            R.nontrivial = True
        if got[0] != ref[0] or (got[0] == 'err' and got[1] != ref[1]):
            R.violation('outcome:' + op['op'], 'client %d, operation %d %s: '
                        '%s; in a fresh process %s' % (
                            k, n, op, got[1] if got[0] == 'err' else 'ok',
                            ref[1] if ref[0] == 'err' else 'ok'))
            break
        if got[0] == 'ok':
            d = O.diff(got[1], ref[1]) or O.diff(got[2], ref[2])
            if d:
                R.violation('result:' + op['op'], 'client %d, operation %d %s '
                            'differs from a fresh process: %s' % (k, n, op,
                                                                  d))
                break
        else:
            # the stream may be half processed
            streams[k] = pickle.loads(pickled)
    zyg.close()
