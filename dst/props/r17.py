"""R17: a batch command that cannot save a record stops with the error."""
import copy
import gc
import os
import shutil

from dst import batchlib as B
from dst import common as C
from dst import net as N
from dst import streams as S

NEEDS = ('taup', 'profile')
RUNS = {'quick': 450, 'thorough': 20000}
RULE = ('one run: a batch command (data, data with calc and moveout, calc, '
        'moveout, convert, stack, profile, plot, create in SAC, Q or HDF5) meets a '
        'disk error, a full disk, an allocation failure or an obstacle at a '
        'seeded operation on its output; then the cause is removed and the '
        'command repeated; compared to one undisturbed run; non-trivial: '
        'the cause was met; distinct by event log')
STATE_MEASURE = ('distinct (command, formats, cause, operation hit, relative '
                 'position, number of finished records) combinations')
REAL = C.REAL_ALL
STUBS = C.STUB_NET + C.STUB_TAUP + C.STUB_PBAR + C.STUB_DISK + [
    'figures: the plot functions are replaced by a writer of a small file']
ASSUMPTIONS = ['Q: transient errors while writing header lines are swallowed '
               'inside ObsPy, so errors on Q output last until the command '
               'ends', 'a torn HDF5 file has to be replaced by its last '
               'complete state before the command is repeated',
               'the data source gives the same answers again']

KINDS = ['data', 'data', 'datacalc', 'calc', 'moveout', 'convert', 'convert',
         'stack', 'profile', 'plot', 'create']
CAUSES = ['EIO', 'EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EROFS', 'EDQUOT',
          'EAGAIN', 'ESTALE', 'ETIMEDOUT', 'EFBIG', 'ENAMETOOLONG',
          'MEM', 'ENOENT']


def gen(rng, tier):
    kind = rng.choice(KINDS)
    spec = B.gen_small_world(rng, nev=(1, 3), nst=(1, 3), far=.1,
                             align=kind in ('stack', 'profile') or None)
    fmt = rng.choice(['SAC', 'Q', 'H5'])
    answers = {}
    for i in range(len(spec['events'])):
        for j in range(len(spec['stations'])):
            answers['%d,%d' % (i, j)] = N.gen_answer(
                rng, rng.choice([0, .3]), .2, spec['pad'],
                ['exc', 'none', 'empty', 'drop', 'gap'])
    newfmt = rng.choice([f for f in ('SAC', 'Q', 'H5') if f != fmt])
    outfmt = newfmt if kind == 'convert' else fmt
    return {'world': spec, 'kind': kind, 'fmt': fmt, 'newfmt': newfmt,
            'answers': answers,
            'cause': rng.choice(['op', 'op', 'op', 'budget', 'obstacle']),
            'what': rng.choice(CAUSES),
            'cats': rng.choice(['mut', 'mut', ['open_w'], ['write'],
                                ['close_w'], ['mkdir']]),
            'pos': round(rng.random(), 4), 'torn': rng.choice([0, .3, .9]),
            'persist': outfmt == 'Q' or rng.random() < .4,
            'short': rng.choice([0, 0, 512]),
            'tutorial': rng.random() < .7,
            'rf': B.gen_rfopts(rng, spec, simple=True),
            'moveout': B.gen_moutopts(rng, spec),
            'boxes': B.gen_boxes(rng, spec)}


def shrink(plan):
    for p in C.shrink_world(plan):
        if plan['kind'] != 'profile' or p['world'].get('pp_depth'):
            yield p
    yield from C.shrink_answers(plan)
    yield from C.simplify(plan, 'short', [0])
    yield from C.simplify(plan, 'torn', [0])
    yield from C.simplify(plan, 'cats', ['mut'])
    yield from C.simplify(plan, 'pos', [0, .2, .5, .9])


def is_out(rel):
    return rel.startswith('out')


def record(rel):
    """Name of the record a file belongs to."""
    return os.path.splitext(rel)[0] if rel.endswith(('.QHD', '.QBN')) else rel


def plot_stub(stream, fname=None, **kw):
    with open(fname, 'wb') as f:
        for tr in stream:
            f.write(('%s %s\n' % (tr.id, tr.stats.npts)).encode())


def execute(plan, R):
    import rf.imaging
    import rf.rfstream
    from dst.world import World, TaupStub
    from dst.fs import SimFS, install_h5, snapshot
    w = World(plan['world'])
    stub = TaupStub(R, w).install()
    kind, fmt = plan['kind'], plan['fmt']
    outfmt = plan['newfmt'] if kind == 'convert' else fmt
    root = os.getcwd()
    args = {'data': ['data', 'out'], 'calc': ['calc', 'in', 'out'],
            'datacalc': ['data', 'calc', 'moveout', 'out'],
            'moveout': ['moveout', 'in', 'out'],
            'convert': ['convert', 'in', 'out', plan['newfmt']],
            'stack': ['stack', 'in', 'out'],
            'profile': ['profile', 'in', 'out'],
            'plot': ['plot', 'in', 'out'],
            'create': ['create'] + ['-t'] * plan.get('tutorial', False)}[kind]
    # copies are made by system calls otherwise
    shutil._USE_CP_SENDFILE = False
    old = [(m, n, getattr(m, n)) for m in (rf.imaging, rf.rfstream)
           for n in ('plot_rf',) if hasattr(m, n)]
    for m, n, _ in old:
        setattr(m, n, plot_stub)

    def setup(d):
        os.makedirs(os.path.join(root, d))
        os.chdir(os.path.join(root, d))
        dc = N.DataCentre(w, R, plan['answers'])
        sess = B.Session(plan, w, dc, R)
        if kind == 'create':
            os.makedirs('out')
        elif kind not in ('data', 'datacalc'):
            dc0 = N.DataCentre(w, R, plan['answers'])
            recs = B.library_records(B.Session(plan, w, dc0, R))
            if kind in ('stack', 'profile', 'moveout', 'plot'):
                for p in list(recs):
                    recs[p].rf(**sess.rfopts)
            B.store(recs, 'in', fmt)
        with open('notes.txt', 'w') as f:
            f.write('hand written')
        return dc, sess

    def command():
        if kind == 'create':
            C.cli(args, conf='out/conf.json')
        else:
            sess.run(args, fmt)

    def look():
        files = [f for f in C.all_files('.') if is_out(f)]
        if kind in ('plot', 'create'):
            return files, [(f, open(f, 'rb').read()) for f in files]
        recs = sorted(((f, S.freeze_trace(tr)) for f, tr in
                       C.read_all('out', outfmt)), key=repr)
        return files, recs

    # --- undisturbed
    dc, sess = setup('ctl')
    fs = SimFS(R, os.getcwd(), short_write=plan['short'], logops=False)
    counts = {}
    size = [0]

    def count(cat, rel):
        if is_out(rel):
            counts[cat] = counts.get(cat, 0) + 1
    fs.hooks.append(count)
    restore = install_h5(fs)
    try:
        with fs:
            command()
    except Exception as ex:
        # a command that cannot finish is not the subject here
        R.probe('reference_failed')
        R.log(C.exc_info(ex))
        return
    finally:
        restore()
    gc.collect()
    reffiles, refrecs = look()
    refbytes = snapshot('.')
    size = sum(len(b) for f, b in refbytes.items() if is_out(f) and b)
    if kind == 'create':
        check_example(refbytes, plan, R)
    if not refrecs:
        R.probe('nothing_to_do')
        return
    # --- disturbed
    dc, sess = setup('tst')
    cats = ['open_w', 'write', 'close_w', 'mkdir'] \
        if plan['cats'] == 'mut' else plan['cats']
    faults, budget, victim = [], None, None
    opat = ''
    if plan['cause'] == 'op':
        total = sum(counts.get(c, 0) for c in cats)
        if not total:
            cats = ['open_w', 'write', 'close_w']
            total = sum(counts.get(c, 0) for c in cats)
        nth = 1 + int(plan['pos'] * total)
        opat = int(8 * plan['pos'])
        faults = [{'cat': cats, 'nth': nth, 'what': plan['what'],
                   'path': 'out', 'frac': plan['torn'], 'torn': True,
                   'persist': plan['persist']}]
    elif plan['cause'] == 'budget':
        budget = int(plan['pos'] * size)
        opat = int(8 * plan['pos'])
    else:
        # something else has the name of the file
        victim = [f for f in reffiles if not f.endswith('.QBN')]
        if not victim:
            R.probe('nothing_to_do')
            return
        victim = victim[int(plan['pos'] * len(victim))]
        if plan['torn'] == .3 and os.path.dirname(victim) and \
                kind != 'create':
            victim = os.path.dirname(victim)
            os.makedirs(os.path.dirname(victim) or '.', exist_ok=True)
            with open(victim, 'w') as f:
                f.write('a file')
        else:
            os.makedirs(victim)
        R.fault('obstacle')
    before = snapshot('.')
    fs = SimFS(R, os.getcwd(), faults, short_write=plan['short'],
               budget=budget, budget_path='out' if budget is not None else '')
    at = {}         # state of affairs when the cause was met
    after_ops = []
    h5state = {}    # complete states of HDF5 output

    def hit(rel):
        if 'rel' not in at:
            at['rel'] = rel
            at['snap'] = snapshot('.')
            at['calls'] = dc.calls
    real_throw, real_op = fs.throw, fs.op
    current = ['']

    def op(cat, path, n=None):
        rel = os.path.relpath(os.path.realpath(str(path)), fs.root)
        if 'rel' in at and record(rel) != record(at['rel']) and cat in (
                'open_w', 'open_r', 'mkdir') and \
                not rel.startswith(at['rel'] + '/'):
            after_ops.append((cat, rel))
        if rel.endswith('.h5') and is_out(rel) and cat == 'open_w' and \
                os.path.exists(rel):
            with fs_off(fs):
                h5state[rel] = open(rel, 'rb').read()
        current[0] = rel
        f = real_op(cat, path, n)
        if f is not None:
            hit(rel)
        elif cat == 'write' and fs.budget is not None and \
                fs.covers(path) and fs.budget <= 0:
            hit(rel)
        return f
    fs.op = op
    restore = install_h5(fs)
    exc = None
    R.log('--- disturbed command')
    with fs:
        try:
            command()
        except BaseException as ex:
            exc = ex
            exc.__traceback__ = None
    restore()
    gc.collect()
    fired = 'rel' in at or victim is not None
    label = kind + ':' + outfmt
    if exc is not None:
        R.log('raised', type(exc).__name__)
    if not fired:
        R.probe('cause_not_met')
        if exc is not None:
            raise exc
        return
    after = snapshot('.')
    done = sum(1 for f in after if is_out(f) and f in refbytes and
               after[f] == refbytes[f] and not f.endswith('/'))
    R.state(kind, fmt, outfmt, plan['cause'], plan['what'] if faults else '',
            tuple(cats) if faults else '', opat, min(done, 6), exc is None)
    if isinstance(exc, (KeyboardInterrupt, GeneratorExit)):
        raise exc
    if exc is None:
        R.probe('no_error')
        try:
            ok = victim is None and look()[1] == refrecs
        except Exception as ex:
            R.log('output cannot be read', type(ex).__name__)
            ok = False
        if not ok:
            R.violation('silent:' + label, '%s ended without error although '
                        'its output could not be saved (%s %s)' % (
                            kind, plan['cause'], at.get('rel', victim)))
            return
    else:
        R.nontrivial = True
        R.probe('stopped')
        # nothing went on after the failure
        if 'rel' in at:
            if dc.calls != at['calls']:
                R.violation('requests:' + label, '%d data requests after the '
                            'output could not be saved' % (
                                dc.calls - at['calls']))
            if after_ops:
                R.violation('goes_on:' + label, 'file operations for other '
                            'records after the failure: %s' % after_ops[:4])
            snap, hitrec = at['snap'], record(at['rel'])
        else:
            snap, hitrec = after, record(victim)
        # finished records
        for f in sorted(after):
            if not is_out(f) or f.endswith('/') or record(f) == hitrec or \
                    f == victim:
                continue
            if f not in snap:
                R.violation('goes_on:' + label, 'file %s was created after '
                            'the failure' % f)
            elif f in refbytes and after[f] != refbytes[f]:
                R.violation('damaged:' + label, 'record %s was finished '
                            'before, but is damaged' % f)
            elif f not in refbytes:
                R.violation('foreign:' + label, 'file %s appeared' % f)
            else:
                R.probe('finished_kept')
        for f in sorted(snap):
            if f not in after and record(f) != hitrec:
                R.violation('removed:' + label, 'file %s vanished' % f)
    for f in sorted(set(before) | set(after)):
        if not is_out(f) and before.get(f, 0) != after.get(f, 0):
            R.violation('other-file:' + label, 'file %s changed' % f)
    # --- cause removed, command repeated
    if victim is not None:
        if os.path.isdir(victim):
            os.rmdir(victim)
        elif os.path.exists(victim):
            os.remove(victim)
    if outfmt == 'H5' and kind not in ('plot', 'create') and exc is not None:
        for f in C.all_files('.'):
            if is_out(f) and f.endswith('.h5'):
                os.remove(f)
                if f in h5state:
                    with open(f, 'wb') as fh:
                        fh.write(h5state[f])
    R.log('--- repeated')
    dc2 = N.DataCentre(w, R, plan['answers'])
    sess.dc = dc2
    try:
        command()
    except Exception as ex:
        R.violation('again:' + label, '%s fails after the cause was removed: '
                    '%s' % (kind, C.exc_info(ex)))
        return
    gc.collect()
    files, recs = look()
    if files != reffiles:
        R.violation('again:' + label, 'files missing: %s, left over: %s' % (
            sorted(set(reffiles) - set(files))[:3],
            sorted(set(files) - set(reffiles))[:3]))
    elif [f for f, _ in recs] != [f for f, _ in refrecs]:
        R.violation('again:' + label, 'records differ')
    else:
        d = S.diff_frozen([r for _, r in recs], [r for _, r in refrecs])
        if d:
            R.violation('again:' + label, 'records differ: ' + str(d))
        R.probe('repeated_compared', len(recs))
    for m, n, f in old:
        setattr(m, n, f)
    stub.restore()


def check_example(files, plan, R):
    """The example is created as it is delivered."""
    import rf
    names = ['conf.json'] + ['example_events.xml', 'example_inventory.xml',
                             'example_data.mseed'] * plan['tutorial']
    for n in names:
        with open(os.path.join(os.path.dirname(rf.__file__), 'example', n),
                  'rb') as f:
            if files.get('out/' + n) != f.read():
                R.violation('example', 'file %s is not a copy of the one of '
                            'the package' % n)
    if len([f for f in files if f.startswith('out/')]) != len(names) + 1:
        R.violation('example', 'files created: %s' % sorted(files))


class fs_off(object):

    def __init__(self, fs):
        self.fs = fs

    def __enter__(self):
        self.fs.active = False

    def __exit__(self, *args):
        self.fs.active = True
