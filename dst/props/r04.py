"""R04: a killed batch command can simply be run again."""
import copy
import os

from dst import batchlib as B
from dst import common as C
from dst import net as N
from dst import streams as S

NEEDS = ('taup', 'profile')
RUNS = {'quick': 300, 'thorough': 20000}
RULE = ('one run: a batch command (data, data with calc and moveout, calc, '
        'moveout, convert, stack, profile in SAC, Q or HDF5) is killed up to '
        'three times at seeded requests, ray tracer calls, progress updates '
        'or file operations (the write being torn), optionally loses what '
        'was written last (machine crash) and is run again until it is done; '
        'compared to one uninterrupted run; non-trivial: at least one kill; '
        'distinct by event log')
STATE_MEASURE = ('distinct (command, formats, places and relative positions '
                 'of the kills) combinations')
REAL = C.REAL_ALL + ['kills are real: a forked process ends without any clean '
                     'up']
STUBS = C.STUB_NET + C.STUB_TAUP + C.STUB_PBAR + C.STUB_DISK
ASSUMPTIONS = ['HDF5 output: kills fall between updates of the file',
               'the data source gives the same answers again']


def gen(rng, tier):
    kind = rng.choice(['data', 'data', 'datacalc', 'calc', 'moveout',
                       'convert', 'convert', 'stack', 'profile'])
    spec = B.gen_small_world(rng, nev=(1, 3), nst=(1, 3), far=.1,
                             align=kind in ('stack', 'profile') or None)
    fmt = rng.choice(['SAC', 'Q', 'H5'])
    answers = {}
    for i in range(len(spec['events'])):
        for j in range(len(spec['stations'])):
            answers['%d,%d' % (i, j)] = N.gen_answer(
                rng, rng.choice([0, .3]), .2, spec['pad'],
                ['exc', 'none', 'empty', 'drop', 'gap'])
    newfmt = rng.choice([f for f in ('SAC', 'Q', 'H5') if f != fmt])
    outfmt = newfmt if kind == 'convert' else fmt
    kills = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        where = ['tick', 'fs'] if outfmt != 'H5' else ['tick']
        kills.append({'where': rng.choice(where + where[-1:]),
                      'pos': round(rng.random(), 4),
                      'frac': rng.choice([0, 0, .3, .7, 1]),
                      'lost': rng.choice([0, 0, 1, 3])
                      if outfmt != 'H5' else 0,
                      'lostto': round(rng.random(), 3)})
    return {'world': spec, 'kind': kind, 'fmt': fmt, 'newfmt': newfmt,
            'answers': answers, 'kills': kills,
            'again': rng.choice([0, 0, 0, 1]) if kills else 1,
            'short': rng.choice([0, 0, 512]),
            'rf': B.gen_rfopts(rng, spec, simple=True),
            'moveout': B.gen_moutopts(rng, spec),
            'boxes': B.gen_boxes(rng, spec)}


def shrink(plan):
    yield from C.drop_from_list(plan, 'kills')
    yield from C.simplify(plan, 'again', [0])
    yield from C.shrink_world(plan)
    yield from C.shrink_answers(plan)
    yield from C.simplify(plan, 'short', [0])
    for i, k in enumerate(plan['kills']):
        for f, v in (('lost', 0), ('frac', 0), ('pos', 0), ('pos', .5)):
            if k[f] != v:
                p = copy.deepcopy(plan)
                p['kills'][i][f] = v
                yield p


class H5Ticks(object):

    """Calls tick before an HDF5 file is opened and after it is closed."""

    def __init__(self, tick):
        import h5py
        self.real = real = h5py.File

        class TickFile(real):

            def __init__(self, *args, **kw):
                tick('h5open')
                super().__init__(*args, **kw)

            def close(self):
                had = bool(self.id)
                super().close()
                if had:
                    tick('h5close')

        h5py.File = TickFile

    def restore(self):
        import h5py
        h5py.File = self.real


def execute(plan, R):
    from dst.world import World
    w = World(plan['world'])
    kind, fmt = plan['kind'], plan['fmt']
    outfmt = plan['newfmt'] if kind == 'convert' else fmt
    root = os.getcwd()

    def prepare(R2, on_kill):
        from dst.world import TaupStub
        TaupStub(R2, w).install()
        os.makedirs('work')
        os.chdir('work')
        dc = N.DataCentre(w, R2, plan['answers'])
        sess = B.Session(plan, w, dc, R2)
        if kind not in ('data', 'datacalc'):
            recs = B.library_records(sess)
            if kind in ('stack', 'profile', 'moveout'):
                for p in list(recs):
                    recs[p].rf(**sess.rfopts)
            B.store(recs, 'in', fmt)

    def attempt(kill, total):
        """One attempt in the current directory, in a process of its own."""
        def func(R2, on_kill):
            from dst.fs import SimFS
            from dst.world import SimPbar, TaupStub
            stub = TaupStub(R2, w).install()
            dc = N.DataCentre(w, R2, plan['answers'])
            sess = B.Session(plan, w, dc, R2)
            ticks = [0]
            at = None
            if kill and kill['where'] == 'tick':
                at = min(1 + int(kill['pos'] * total['tick']),
                         total['tick'])

            def tick(*args):
                ticks[0] += 1
                if ticks[0] == at:
                    what = args[0] if args and isinstance(args[0], str) \
                        else 'call'
                    R2.fault('kill@' + what)
                    R2.log('killed at tick', at)
                    on_kill({'at': at, 'what': what})
            dc.before = lambda *a: tick('request')
            stub.on_call = lambda *a: tick('raytracer')
            sess.pbar_factory = lambda *a, **k: SimPbar(
                R2, on_update=lambda *a: tick('progress'))
            faults = []
            if kill and kill['where'] == 'fs':
                faults = [{'cat': 'mut',
                           'nth': min(1 + int(kill['pos'] * total['fs']),
                                      total['fs']),
                           'what': 'kill', 'frac': kill['frac'],
                           'torn': True}]
            fs = SimFS(R2, os.getcwd(), faults, short_write=plan['short'],
                       on_kill=lambda f: on_kill({'what': 'fs'}))
            h5 = H5Ticks(tick) if 'H5' in (fmt, outfmt) else None
            args = {'data': ['data', 'out'], 'calc': ['calc', 'in', 'out'],
                    'datacalc': ['data', 'calc', 'moveout', 'out'],
                    'moveout': ['moveout', 'in', 'out'],
                    'convert': ['convert', 'in', 'out', plan['newfmt']],
                    'stack': ['stack', 'in', 'out'],
                    'profile': ['profile', 'in', 'out']}[kind]
            with fs:
                sess.run(args, fmt)
            if h5:
                h5.restore()
            return {'tick': ticks[0], 'fs': fs.nmut}
        return C.fork_call(R, func)

    def look():
        files = [f for f in C.all_files('.') if f.split('/')[0] in (
            'out', 'out.h5', 'out.QHD', 'out.QBN')]
        recs = sorted(((f, S.freeze_trace(tr)) for f, tr in
                       C.read_all('out', outfmt)), key=repr)
        return files, recs

    res = C.fork_call(R, prepare)
    if res[0] != 'ok':
        R.probe('inputs_failed')
        R.log(res)
        return
    os.chdir(os.path.join(root, 'work'))
    R.log('=== uninterrupted')
    res = attempt(None, None)
    if res[0] != 'ok':
        # a command that cannot finish is not the subject here
        R.probe('reference_failed')
        R.log(res)
        return
    total = res[1]
    files, recs = look()
    os.makedirs('ref')
    for f in C.all_files('.'):
        if f.split('/')[0] == 'out':
            os.rename('out', 'ref/out')
            break
    for f in ('out.h5', 'out.QHD', 'out.QBN'):
        if os.path.exists(f):
            os.rename(f, 'ref/' + f)
    if os.path.isdir('out'):
        os.rename('out', 'ref/out')
    if not recs:
        R.probe('nothing_to_do')
    sig = []
    killed = 0
    for kill in plan['kills']:
        R.log('=== attempt', kill)
        if not total[kill['where']]:
            continue
        res = attempt(kill, total)
        if res[0] == 'exit':
            R.violation('rerun-fails', '%s fails after a kill: %s' % (
                kind, res[1]))
            return
        if res[0] == 'ok':
            R.violation('shorter', 'the repeated command did less than the '
                        'uninterrupted one') if not killed else None
            R.probe('kill_not_reached')
            continue
        killed += 1
        R.nontrivial = True
        sig.append((kill['where'], res[1]['what'], int(kill['pos'] * 5)))
        if kill['lost']:
            lose(R, kill)
    for k in range(1 + plan['again']):
        R.log('=== run to the end')
        res = attempt(None, None)
        if res[0] != 'ok':
            R.violation('rerun-fails', '%s %s fails when it is run again: %s'
                        % (kind, fmt, res[1]))
            return
    R.state(kind, fmt, outfmt, tuple(sig), plan['again'])
    files2, recs2 = look()
    label = kind + ':' + outfmt
    if len(recs2) != len(recs):
        R.violation('records:' + label, '%d records instead of %d after %d '
                    'kills' % (len(recs2), len(recs), killed))
    elif [f for f, _ in recs] != [f for f, _ in recs2]:
        R.violation('names:' + label, 'records are in other files')
    else:
        d = S.diff_frozen([r for _, r in recs2], [r for _, r in recs])
        if d:
            R.violation('altered:' + label, 'records differ: ' + d)
        R.probe('records_compared', len(recs))
    if files != files2:
        a, b = set(files), set(files2)
        R.violation('files:' + label, 'files missing: %s, left over: %s' % (
            sorted(a - b), sorted(b - a)))


def lose(R, kill):
    """Some files written last did not reach the disk completely."""
    files = [f for f in C.all_files('.') if f.split('/')[0] == 'out' or
             f in ('out.QHD', 'out.QBN')]
    files.sort()
    for k in range(kill['lost']):
        if not files:
            break
        f = files[int(kill['lostto'] * len(files)) % len(files)]
        n = os.path.getsize(f)
        with open(f, 'r+b') as fh:
            fh.truncate(int(n * ((kill['lostto'] * 7 + k * .37) % 1)))
        R.fault('lost_write')
        R.log('lost', f)
        files.remove(f)
