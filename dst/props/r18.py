"""R18: results do not depend on the surroundings of the process."""
import copy
import gc
import json
import os
import random
import subprocess
import sys

from dst import batchlib as B
from dst import common as C
from dst import net as N
from dst import streams as S

NEEDS = ('taup', 'profile')
RUNS = {'quick': 320, 'thorough': 20000}
RULE = ('one run: a chain of batch commands is run once in plain surroundings '
        'and once with a seeded set of different surroundings (order in which '
        'the disk lists its entries, order in which input was written, short '
        'reads and writes, wall clock that starts elsewhere, jumps or goes '
        'backwards, time zone, state of the random generators, working '
        'directory, spelling of paths, symbolic links, umask, order of '
        'options in the configuration, with or without progress display, '
        'hash seed, changed settings of NumPy printing and garbage '
        'collection); non-trivial: records were compared; distinct by event '
        'log')
STATE_MEASURE = 'distinct (commands, formats, set of differences) combinations'
REAL = C.REAL_ALL + ['forked and freshly started processes']
STUBS = C.STUB_NET + C.STUB_TAUP + C.STUB_PBAR + C.STUB_DISK + [
    'clock: time.time and the current time of datetime and UTCDateTime come '
    'from the simulator', 'directory listing: order decided by the simulator']
ASSUMPTIONS = ['paths without wildcard characters, which ObsPy interprets',
               'samples agree to single precision']

KINDS = ['data', 'datacalc', 'calc', 'moveout', 'convert', 'stack', 'stack',
         'profile', 'chain', 'chain']
DIFFS = ['listing', 'listing', 'stored', 'short', 'clock', 'clock', 'tz',
         'random', 'cwd', 'path', 'path', 'link', 'umask', 'options', 'pbar',
         'numpy', 'gc', 'names', 'hash', 'ids']
ROOTS = ['res', 'my data', 'd.v1', u'd\xe4t', 'a{b}', 'x%d', 'deep/er/o',
         '-o', '#1', 'res.SAC', 'res.h5', 'QHD', 'stations', "it's"]


def gen(rng, tier):
    kind = rng.choice(KINDS)
    spec = B.gen_small_world(rng, nev=(1, 3), nst=(1, 3), far=.1,
                             align=kind in ('stack', 'profile', 'chain') or
                             None)
    fmt = rng.choice(['SAC', 'Q', 'H5'])
    answers = {}
    for i in range(len(spec['events'])):
        for j in range(len(spec['stations'])):
            answers['%d,%d' % (i, j)] = N.gen_answer(
                rng, rng.choice([0, .3]), .2, spec['pad'],
                ['exc', 'none', 'empty', 'drop', 'gap'])
    diffs = sorted(set(rng.choice(DIFFS) for _ in range(rng.choice(
        [1, 2, 3, 5]))))
    if 'hash' in diffs and rng.random() < .6:
        diffs.remove('hash')
        diffs.append('clock')
    return {'world': spec, 'kind': kind, 'fmt': fmt,
            'newfmt': rng.choice([f for f in ('SAC', 'Q', 'H5') if f != fmt]),
            'answers': answers, 'diffs': sorted(set(diffs)),
            'seed': rng.randrange(10 ** 9),
            'rf': B.gen_rfopts(rng, spec, simple=rng.random() < .5),
            'moveout': B.gen_moutopts(rng, spec),
            'boxes': B.gen_boxes(rng, spec)}


def shrink(plan):
    yield from C.drop_from_list(plan, 'diffs')
    for p in C.shrink_world(plan):
        if plan['kind'] != 'profile' or p['world'].get('pp_depth'):
            yield p
    yield from C.shrink_answers(plan)


class Clock(object):

    """A wall clock that may start anywhere, jump and go backwards."""

    def __init__(self, R, rng):
        import time
        import datetime
        self.R, self.rng = R, rng
        self.now = rng.choice([0., 1e6, 9.4e8, 1.7e9, 4.2e9])
        self.start = self.now
        self.reads = 0
        real_dt = datetime.datetime
        clock = self

        class SimDatetime(real_dt):

            @classmethod
            def now(cls, tz=None):
                return real_dt.fromtimestamp(clock.time(), tz)

            @classmethod
            def utcnow(cls):
                return real_dt.utcfromtimestamp(clock.time())

            @classmethod
            def today(cls):
                return real_dt.fromtimestamp(clock.time())
        time.time = self.time
        time.time_ns = lambda: int(self.time() * 1e9)
        real = {n: getattr(time, n) for n in ('localtime', 'gmtime')}
        for n in real:
            def func(secs=None, real=real[n]):
                return real(self.time() if secs is None else secs)
            setattr(time, n, func)
        self.SimDatetime = SimDatetime
        # modules of the code under test which took the names before
        for name, mod in list(sys.modules.items()):
            if name == 'rf' or name.startswith('rf.'):
                for k, v in list(vars(mod).items()):
                    if v is real_dt:
                        setattr(mod, k, SimDatetime)
        import obspy.core.utcdatetime as u
        real_init = u.UTCDateTime.__init__

        def init(obj, *args, **kw):
            if not args and not kw:
                return real_init(obj, clock.time())
            return real_init(obj, *args, **kw)
        u.UTCDateTime.__init__ = init
        R.fault('clock_offset')

    def time(self):
        self.reads += 1
        r = self.rng.random()
        if r < .2:
            self.now = max(0., self.now + self.rng.choice(
                [-86400, -3600, -1, 3600, 86400 * 40]))
            self.R.faults['clock_jump'] += 1
        else:
            self.now += self.rng.choice([0, 0, 1e-6, .01, 1.])
        return self.now


class Listing(object):

    """The order in which directories are listed."""

    def __init__(self, R, rng):
        self.R, self.rng = R, rng
        real_scandir, real_listdir = os.scandir, os.listdir
        outer = self

        class Scan(list):

            def __enter__(self):
                return self

            def __exit__(self, *args):
                pass

            def close(self):
                pass

            def __next__(self):
                if not self:
                    raise StopIteration
                return self.pop(0)

        def scandir(*args):
            with real_scandir(*args) as it:
                return Scan(outer.mix(list(it), lambda e: e.name))

        def listdir(*args):
            return outer.mix(real_listdir(*args), lambda e: e)
        os.scandir, os.listdir = scandir, listdir

    def mix(self, entries, key):
        if len(entries) > 1:
            self.R.faults['listing'] += 1
        entries.sort(key=key)
        self.rng.shuffle(entries)
        return entries


def shuffled(obj, rng):
    if isinstance(obj, dict):
        keys = sorted(obj)
        rng.shuffle(keys)
        return {k: shuffled(obj[k], rng) for k in keys}
    return obj


def steps_of(plan, pin, pout):
    """[(arguments, input, output, input format, output format)]"""
    kind, fmt, new = plan['kind'], plan['fmt'], plan['newfmt']
    if kind == 'chain':
        a, b, c = pin + '_a', pin + '_b', pout
        d = {'s': 'stack', 'p': 'profile'}['sp'[plan['seed'] % 2]]
        return [(['data', 'calc', a], None, a, fmt, fmt),
                (['convert', a, b, new], a, b, fmt, new),
                (['moveout', b, b + 'm'], b, b + 'm', new, new),
                ([d, b + 'm', c], b + 'm', c, new, new)]
    return [({'data': ['data', pout], 'datacalc': ['data', 'calc', pout],
              'calc': ['calc', pin, pout], 'moveout': ['moveout', pin, pout],
              'convert': ['convert', pin, pout, new],
              'stack': ['stack', pin, pout],
              'profile': ['profile', pin, pout]}[kind], pin, pout, fmt,
             new if kind == 'convert' else fmt)]


def make_inputs(plan, sess, pin, order=None):
    import rf.batch
    kind, fmt = plan['kind'], plan['fmt']
    if kind in ('data', 'datacalc', 'chain'):
        return
    recs = B.library_records(sess)
    if kind in ('stack', 'profile', 'moveout'):
        for p in list(recs):
            recs[p].rf(**sess.rfopts)
    pairs = sorted(recs)
    if order is not None:
        order.shuffle(pairs)
    for p in pairs:
        rf.batch.write(recs[p].copy(), pin, fmt)


def work(plan, R, diffs):
    """Inputs and commands in the current directory."""
    from dst.world import World, TaupStub, SimPbar
    from dst.fs import SimFS
    w = World(plan['world'])
    rng = random.Random(plan['seed'])
    TaupStub(R, w).install()
    dc = N.DataCentre(w, R, plan['answers'])
    sess = B.Session(plan, w, dc, R)
    if 'names' in diffs:
        pin, pout = [os.path.join(d, rng.choice(ROOTS)) for d in ('i', 'o')]
        if pin.endswith('-o') or pout.endswith('-o'):
            pass
    else:
        pin, pout = 'i/in', 'o/out'
    make_inputs(plan, sess, pin, rng if 'stored' in diffs else None)
    conf = None
    top = os.getcwd()
    ev, inv = sess.ev, sess.inv
    ain, aout = pin, pout
    if 'link' in diffs and os.path.isdir('i'):
        os.rename('i', 'elsewhere')
        os.symlink('elsewhere', 'i')
        os.mkdir('target')
        os.symlink('target', 'o')
        R.fault('link')
    clock = None
    if 'clock' in diffs:
        clock = Clock(R, random.Random(rng.random()))
    if 'listing' in diffs:
        Listing(R, random.Random(rng.random()))
    if 'tz' in diffs:
        import time
        os.environ['TZ'] = rng.choice(['Asia/Tokyo', 'EST5EDT', 'XYZ-13',
                                       'ABC+11:30'])
        time.tzset()
        R.fault('tz')
    if 'random' in diffs:
        import numpy as np
        np.random.seed(rng.randrange(10 ** 6))
        random.seed(rng.randrange(10 ** 6))
        R.fault('random_state')
    if 'umask' in diffs:
        os.umask(0o077)
        R.fault('umask')
    if 'numpy' in diffs:
        import numpy as np
        np.set_printoptions(precision=1, threshold=3, suppress=True)
        R.fault('numpy')
    if 'gc' in diffs:
        if rng.random() < .5:
            gc.disable()
        else:
            gc.set_threshold(1)
        R.fault('gc')
    if 'pbar' in diffs:
        sess.pbar_factory = lambda *a, **k: SimPbar(R)
        R.fault('pbar')
    if 'ids' in diffs:
        # names and numbers of processes
        os.getpid = lambda: 1
        R.fault('ids')
    if 'path' in diffs or 'cwd' in diffs:
        if 'cwd' in diffs:
            os.makedirs('some/where')
            os.chdir('some/where')
            pre = [top + '/', '../../']
            R.fault('cwd')
        else:
            pre = [top + '/', './', '././', 'i/../', top + '/./']
            os.makedirs('i', exist_ok=True)
            R.fault('path')
        ain, aout = rng.choice(pre) + ain, rng.choice(pre) + aout
        sess.ev, sess.inv = rng.choice(pre) + ev, rng.choice(pre) + inv
    short = rng.choice([300, 512, 1000]) if 'short' in diffs else 0
    fs = SimFS(R, top, short_write=short, short_read=short, logops=False)
    with fs:
        for args, _, _, fin, _ in steps_of(plan, ain, aout):
            conf = sess.conf(fin)
            if 'options' in diffs:
                conf = shuffled(conf, rng)
                R.faults['options'] += 1
            with C.patched_client(sess.dc), C.patched_tqdm(
                    sess.pbar_factory):
                if any(a.startswith('-') for a in args):
                    args = list(args) + []
                C.cli_conf(args, conf)
    return {'out': os.path.join(top, pout), 'clock': clock and clock.reads}


def main_exec():
    """Entry point of a freshly started process."""
    from dst import env
    from dst.core import Recorder
    plan = json.load(sys.stdin)
    env.warm(NEEDS)
    R = Recorder(os.getcwd())
    try:
        res = 'ok', work(plan, R, set(plan['diffs']))
    except Exception as ex:
        res = 'exit', C.exc_info(ex)
    sys.stdout.flush()
    print('\nRESULT ' + json.dumps(res))


def execute(plan, R):
    root = os.getcwd()
    diffs = set(plan['diffs'])
    out = []
    for d, ds in (('ref', set()), ('var', diffs)):
        R.log('===', d)
        os.makedirs(os.path.join(root, d))
        os.chdir(os.path.join(root, d))
        if 'hash' in ds:
            R.fault('hash')
            e = dict(os.environ, PYTHONHASHSEED=str(plan['seed'] % 10 ** 6))
            p = subprocess.run(
                [sys.executable, '-W', 'ignore', '-c',
                 'from dst.props import r18; r18.main_exec()'],
                input=json.dumps(plan).encode(), stdout=subprocess.PIPE,
                stderr=subprocess.PIPE, env=e)
            lines = [l for l in p.stdout.decode().splitlines()
                     if l.startswith('RESULT ')]
            if not lines:
                raise RuntimeError('process: ' + p.stderr.decode()[-1500:])
            res = tuple(json.loads(lines[-1][7:]))
        else:
            res = C.fork_call(R, lambda R2, on_kill: work(plan, R2, ds))
        out.append(res)
        R.log(res[0], str(res[1])[:300] if res[0] != 'ok' else
              res[1]['clock'])
    os.chdir(root)
    label = '%s:%s:%s' % (plan['kind'], plan['fmt'], '+'.join(sorted(diffs)))
    if out[0][0] != 'ok':
        if out[1][0] == 'ok':
            # cannot be explained by the subject; seen in both otherwise
            R.violation('only-here', '%s fails in plain surroundings only: %s'
                        % (plan['kind'], out[0][1]))
        R.probe('reference_failed')
        return
    if out[1][0] != 'ok':
        R.violation('fails', '%s %s fails with %s: %s' % (
            plan['kind'], plan['fmt'], sorted(diffs), out[1][1]))
        return
    outfmt = steps_of(plan, 'a', 'b')[-1][4]
    got = []
    for d, res in zip(('ref', 'var'), out):
        base = res[1]['out']
        recs = C.read_all(base, outfmt)
        names = []
        for f, tr in recs:
            p = os.path.abspath(f)
            names.append(p[len(base):])
        trs = []
        for n, (f, tr) in zip(names, recs):
            tr.stats['_name'] = n
            trs.append(tr)
        extra = sorted(os.path.relpath(f, root + '/' + d)[:60]
                       for f in C.all_files(root + '/' + d))
        got.append((trs, sorted(names), len(extra), extra))
    a, b = got
    R.state(plan['kind'], plan['fmt'], outfmt, tuple(sorted(diffs)),
            min(len(a[0]), 5))
    if a[0]:
        R.nontrivial = True
        R.probe('records_compared', len(a[0]))
    if a[1] != b[1]:
        R.violation('names', '%s: files %s instead of %s' % (
            label, sorted(set(b[1]) - set(a[1]))[:3],
            sorted(set(a[1]) - set(b[1]))[:3]))
    else:
        if a[2] - b[2] and not diffs & {'link'}:
            R.violation('files', '%s: %d files instead of %d: %s' % (
                label, b[2], a[2], b[3][:8]))
        B.compare_sets(R, b[0], a[0], 'differs',
                       headers=B.HEADERS + ('_name',))
