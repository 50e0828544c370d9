"""R15: a command that cannot be set up does nothing and says so."""
import contextlib
import copy
import io
import json
import os
import random

from dst import batchlib as B
from dst import common as C
from dst import net as N
from dst import streams as S

NEEDS = ('taup', 'profile')
RUNS = {'quick': 900, 'thorough': 30000}
RULE = ('one run: a batch command whose configuration, event file, station '
        'file, data source or option is missing, damaged, of a wrong kind, given twice or '
        'hit by a read error at a seeded operation, in a directory that may '
        'hold results of earlier commands; afterwards the cause is removed '
        'and the command repeated; non-trivial: the cause was met; distinct '
        'by event log')
STATE_MEASURE = ('distinct (command, format, what fails, how it fails, '
                 'position) combinations')
REAL = C.REAL_ALL
STUBS = C.STUB_NET + C.STUB_TAUP + C.STUB_PBAR + C.STUB_DISK
ASSUMPTIONS = ['damage of event and station files which leaves a valid file '
               'of the same format cannot be noticed']

FILES = ['delete', 'empty', 'cut', 'cut', 'garbage', 'html', 'dir']
READ = ['EIO', 'EIO', 'EACCES', 'EMFILE', 'ENOENT', 'MEM']
USES_EVENTS = {'data', 'calc', 'moveout', 'convert', 'profile'}


def gen(rng, tier):
    kind = rng.choice(['data', 'data', 'datacalc', 'calc', 'moveout',
                       'convert', 'stack', 'profile', 'print'])
    spec = B.gen_small_world(rng, nev=(1, 2), nst=(1, 2), far=0,
                             align=True, hours=(2, 300))
    fmt = rng.choice(['SAC', 'Q', 'H5'])
    what = rng.choice(['conf', 'conf', 'events', 'events', 'inventory',
                       'inventory', 'option'] + (
        ['source', 'source'] if kind.startswith('data') else []))
    if what == 'events' and kind == 'stack':
        what = 'inventory'
    objects = None
    if kind == 'print':
        objects = rng.choice(['events', 'stations', 'files'])
        what = {'events': rng.choice(['conf', 'events', 'events']),
                'stations': rng.choice(['conf', 'inventory', 'inventory']),
                'files': 'files'}[objects]
    if what == 'files':
        how = rng.choice(['delete', 'empty', 'garbage', 'html', 'dir'] +
                         ['read'] * 3)
    elif what in ('conf', 'events', 'inventory'):
        how = rng.choice(FILES + ['read'] * 5)
        if what != 'conf' and how == 'cut' and rng.random() < .3:
            how = 'other'
    elif what == 'option':
        how = rng.choice(['unknown', 'badjson', 'badflag'] + [
            'twice'] * 3 * (kind in ('data', 'datacalc', 'calc')))
    else:
        how = rng.choice(['client', 'plugin', 'plugin_func', 'plugin_name',
                          'file', 'file_garbage', 'unknown', 'client_nowhere'])
    return {'world': spec, 'objects': objects,
            'twice': rng.choice([['calc', 'calc'], ['moveout', 'moveout'],
                                 ['calc', 'moveout', 'calc'],
                                 ['moveout', 'moveout', 'moveout']]),
            'kind': kind, 'fmt': fmt, 'what': what, 'how': how,
            'frac': round(rng.uniform(0, .98), 3), 'seed': rng.randrange(10 ** 6),
            'err': rng.choice(READ), 'pos': rng.random(),
            'cat': rng.choice(['open_r', 'read', 'read']),
            'format_given': rng.random() < .3,
            'earlier': rng.random() < .5,
            'short_read': rng.choice([0, 0, 300]),
            'newfmt': {'SAC': 'H5', 'Q': 'SAC', 'H5': 'Q'}[fmt],
            'rf': B.gen_rfopts(rng, spec, simple=True),
            'moveout': B.gen_moutopts(rng, spec),
            'boxes': B.gen_boxes(rng, spec)}


def shrink(plan):
    for p in C.shrink_world(plan):
        if plan['kind'] != 'profile' or p['world'].get('pp_depth'):
            yield p
    yield from C.simplify(plan, 'short_read', [0])
    yield from C.simplify(plan, 'earlier', [False])
    yield from C.simplify(plan, 'format_given', [False])
    yield from C.simplify(plan, 'frac', [0, .3, .6])


def damage(plan, fname):
    how = plan['how']
    data = open(fname, 'rb').read()
    rng = random.Random(plan['seed'])
    os.unlink(fname)
    if how == 'delete':
        return
    if how == 'dir':
        os.mkdir(fname)
        return
    n = len(data.rstrip())
    data = {'empty': b'', 'cut': data[:int((n - 12) * plan['frac'])],
            'garbage': rng.randbytes(n),
            'html': b'<html><body>503 Service Unavailable</body></html>\n',
            'other': b'a,b,c\n1,2,3\n'}[how]
    with open(fname, 'wb') as f:
        f.write(data)


def execute(plan, R):
    from dst.world import World, TaupStub, SimPbar
    from dst.fs import SimFS, snapshot
    w = World(plan['world'])
    stub = TaupStub(R, w).install()
    dc = N.DataCentre(w, R, {})
    sess = B.Session(plan, w, dc, R)
    bars = []

    def factory(*a, **k):
        bars.append(SimPbar(R))
        return bars[-1]
    sess.pbar_factory = factory
    kind, fmt, what, how = (plan[k] for k in ('kind', 'fmt', 'what', 'how'))
    outfmt = plan['newfmt'] if kind == 'convert' else fmt
    recs = B.library_records(sess)
    if not kind.startswith('data'):
        for p in list(recs):
            if kind not in ('calc', 'convert', 'print'):
                recs[p].rf(**sess.rfopts)
        B.store(recs, 'in', fmt)
    if plan['earlier']:
        # results of something done before
        if kind not in ('stack', 'profile') or outfmt != 'H5':
            B.store(recs, 'out', outfmt)
        with open('notes.txt', 'w') as f:
            f.write('hand written')
    args = {'data': ['data', 'out'], 'datacalc': ['data', 'calc', 'out'],
            'calc': ['calc', 'in', 'out'], 'moveout': ['moveout', 'in', 'out'],
            'convert': ['convert', 'in', 'out', plan['newfmt']],
            'stack': ['stack', 'in', 'out'],
            'profile': ['profile', 'in', 'out'], 'print': None}[kind]
    if kind == 'print':
        names = sorted(C.data_files('in', fmt))
        if plan['objects'] == 'files' and not names:
            return
        # (other programs wrote to the names of all these files)
        args = ['print'] + (names if plan['objects'] == 'files' else
                            [plan['objects']])
    good_args = args
    conf = sess.conf(fmt)
    if plan['format_given']:
        conf['events'] = [conf['events'], 'QUAKEML']
        conf['inventory'] = [conf['inventory'], 'STATIONXML']
    good = dict(conf)
    flags = {}
    faults = []
    target = {'conf': 'conf.json', 'events': sess.ev,
              'inventory': sess.inv}.get(what)
    if what == 'files':
        target = names[plan['seed'] % len(names)]
    if what == 'option':
        if how == 'unknown':
            conf['reqest_window'] = [1, 2]
        elif how == 'badjson':
            flags['moveout'] = '{"ref": 6.4'
        elif how == 'badflag':
            flags['nonsense'] = '1'
        elif how == 'twice':
            steps = plan['twice']
            if kind == 'calc':
                steps = ['moveout'] * max(2, steps.count('moveout'))
            args = [args[0]] + steps + [a for a in args[1:] if a != 'calc']
    elif what == 'source':
        if how == 'client':
            conf['data'] = 'fdsn'
            conf['client_options'] = {'nosuchoption': 1, 'base_url': 3}
        elif how == 'client_nowhere':
            conf['data'] = 'seedlink'
        elif how == 'unknown':
            conf['data'] = 'nosuchclient'
        elif how == 'plugin':
            conf.update(data='plugin', plugin='no_such_module : func')
        elif how == 'plugin_func':
            conf.update(data='plugin', plugin='json : no_such_function')
        elif how == 'plugin_name':
            conf.update(data='plugin', plugin='json')
        elif how == 'file':
            conf['data'] = 'nosuchdir/*.mseed'
        elif how == 'file_garbage':
            with open('junk.mseed', 'wb') as f:
                f.write(random.Random(plan['seed']).randbytes(3000))
            conf['data'] = 'junk.mseed'

    def write_conf(c):
        with open('conf.json', 'w') as f:
            f.write('### options ###\n' + json.dumps(c, indent=1) + '\n')

    def run(fs=None, good_client=True):
        out = io.StringIO()
        sess_dc = dc
        with contextlib.ExitStack() as es:
            es.enter_context(contextlib.redirect_stdout(out))
            es.enter_context(contextlib.redirect_stderr(out))
            if good_client:
                es.enter_context(C.patched_client(sess_dc))
            else:
                es.enter_context(broken_client())
            es.enter_context(C.patched_tqdm(sess.pbar_factory))
            if fs is not None:
                es.enter_context(fs)
            error = None
            try:
                C.cli(args, conf='conf.json', **flags)
            except BaseException as ex:
                error = ex
        return out.getvalue(), error
    write_conf(conf)
    n_ops = 0
    whole = run()[0] if what == 'files' else None
    if target and how == 'read':
        # where is the file read?
        fs = SimFS(R, os.getcwd(), [], short_read=plan['short_read'],
                   logops=False)
        seen = []
        fs.hooks.append(lambda cat, rel: seen.append(cat)
                        if rel == target and cat == plan['cat'] else None)
        before = snapshot('.')
        run(fs)
        dirs = [d for d in ('out',) if os.path.isdir(d)]
        restore(before)
        n_ops = len(seen)
        if not n_ops:
            R.probe('file_not_read')
            return
        faults = [{'cat': [plan['cat']], 'path': target, 'persist': True,
                   'nth': 1 + int(plan['pos'] * n_ops) if plan['cat'] != 'open_r'
                   else 1, 'what': plan['err']}]
        saved = None
    elif target:
        saved = open(target, 'rb').read()
        damage(plan, target)
        R.fault('damage_' + how)
    before = snapshot('.')
    settings = S.settings()
    dc.calls = 0
    bars[:] = []
    fs = SimFS(R, os.getcwd(), faults, short_read=plan['short_read'])
    changes = []
    fs.hooks.append(lambda cat, rel: changes.append((cat, rel)) if cat in (
        'open_w', 'mkdir', 'rename', 'unlink', 'truncate') else None)
    R.log('--- command with', what, how)
    text, error = run(fs, not (what == 'source' and how == 'client'))
    R.log('error', type(error).__name__, 'text', bool(text.strip()))
    if faults and not fs.fired:
        R.probe('fault_not_met')
        return
    R.nontrivial = True
    R.state(kind, fmt, what, how, plan['err'] if faults else '',
            faults[0]['nth'] if faults else '')
    label = '%s:%s' % (what, how)
    if error is None and (not text.strip() or (
            what == 'files' and target not in text and
            sorted(text.split('\n')) != sorted(whole.split('\n')))):
        R.violation('silent:' + label, 'command %s ended without a word' %
                    kind)
    if isinstance(error, (KeyboardInterrupt, GeneratorExit)):
        raise error
    if dc.calls:
        R.violation('requests:' + label, 'command %s made %d data requests' %
                    (kind, dc.calls))
    if sum(b.n for b in bars):
        R.violation('goes_on:' + label, 'command %s worked on %d pairs' %
                    (kind, sum(b.n for b in bars)))
    after = snapshot('.')
    if after != before or changes:
        new = sorted(set(after) ^ set(before)) + sorted(
            f for f in after if f in before and after[f] != before[f])
        R.violation('files:' + label, 'command %s changed files: %s, '
                    'operations: %s' % (kind, new[:4], changes[:4]))
    d = S.diff_settings(settings, S.settings())
    if d:
        R.violation('settings:' + label, 'command %s changed settings of the '
                    'process: %s' % (kind, d))
    # cause removed
    if target and how != 'read':
        if os.path.isdir(target):
            os.rmdir(target)
        with open(target, 'wb') as f:
            f.write(saved)
    flags.clear()
    args = good_args
    write_conf(good)
    R.log('--- command again')
    text, error = run()
    if error is not None:
        R.violation('again:' + label, '%s fails after the cause was removed: '
                    '%s' % (kind, C.exc_info(error)))
        return
    if kind == 'print':
        check_print(plan, w, recs, text, R)
    if kind in ('data', 'convert') and recs:
        found = [tr for _, tr in C.read_all('out', outfmt)]
        want = [tr for p in sorted(recs) for tr in recs[p]]
        B.compare_sets(R, found, want, 'again')
        R.probe('repeated_compared')
    stub.restore()


def check_print(plan, w, recs, text, R):
    """Everything that was asked for is shown."""
    import collections
    if plan['objects'] == 'events':
        want = [str((ev.preferred_origin() or ev.origins[0]).time)[:19]
                for ev in w.catalog()]
    elif plan['objects'] == 'stations':
        want = [s['sta'] for s in w.stations]
    else:
        want = [tr.id for p in sorted(recs) for tr in recs[p]]
    for x, n in sorted(collections.Counter(want).items()):
        if text.count(x) < n:
            R.violation('again:print', 'print %s shows %s %d times instead of '
                        '%d' % (plan['objects'], x, text.count(x), n))
    R.probe('printed')


@contextlib.contextmanager
def broken_client():
    """A client which cannot be created."""
    import obspy.clients.fdsn as mod
    old = mod.Client

    class Client(object):
        def __init__(self, *args, **kw):
            raise ValueError('the service is not available (sim)')
    mod.Client = Client
    try:
        yield
    finally:
        mod.Client = old


def restore(before):
    from dst.fs import snapshot
    for f in snapshot('.'):
        if f not in before and not f.endswith('/'):
            os.unlink(f)
    for d in sorted(snapshot('.'), reverse=True):
        if d.endswith('/') and d not in before:
            os.rmdir(d)
    for f, b in sorted(before.items()):
        if b is None:
            os.makedirs(f, exist_ok=True)
        else:
            with open(f, 'wb') as fh:
                fh.write(b)
