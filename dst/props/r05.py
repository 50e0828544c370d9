"""R05: a failed save is reported and leaves no trace outside the target."""
import contextlib
import copy
import gc
import os

from dst import common as C
from dst import ops as O
from dst import streams as S

NEEDS = ()
RUNS = {'quick': 1500, 'thorough': 60000}
RULE = ('one run: a stream is saved (stream.write, trace.write or the batch '
        'writer; SAC, Q or HDF5; new, existing or appended target) and the '
        'save is hit by a disk error, full disk, allocation failure, '
        'interrupt, missing or unwritable target or unwritable samples; then '
        'the cause is removed and the save repeated; non-trivial: the save '
        'failed; distinct by event log')
STATE_MEASURE = ('distinct (format, entry point, cause, operation hit, '
                 'position, target state) combinations')
REAL = C.REAL_ALL
STUBS = C.STUB_DISK
ASSUMPTIONS = ['Q: transient errors while writing header lines are swallowed '
               'inside ObsPy, so write errors on Q headers last until the '
               'save ends', 'a torn HDF5 target has to be restored before '
               'appending to it again']

CALLEES = ['json.dumps', 'obspy.io.sac.util.obspy_to_sac_header',
           'obspy.io.sac.util.get_sac_reftime', 'obspy.core.trace.Trace.id',
           'obspy.core.stream.Stream.write', 'obspyh5.trace2group',
           'h5py.File', 'numpy.asarray', 'numpy.array', 'copy.deepcopy',
           'obspy.io.sac.sactrace.SACTrace.from_obspy_trace',
           'rf.rfstream.RFStream.__init__',
           'rf.rfstream.RFTrace._write_format_specific_header',
           'numpy.ascontiguousarray', 'numpy.require']
CAUSES = ['EIO', 'EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EROFS', 'MEM', 'KI',
          'EDQUOT', 'EAGAIN', 'ESTALE', 'ETIMEDOUT', 'EFBIG', 'ENAMETOOLONG',
          'KI', 'SE']


def gen(rng, tier):
    fmt = rng.choice(['SAC', 'Q', 'H5', 'H5'])
    box = rng.random() < .2
    entry = rng.choice(['stream', 'stream', 'trace', 'batch', 'batch'])
    spec = S.gen_groups(rng, (1, 3) if entry != 'batch' else (1, 1), npts=(4, 60) if rng.random() < .7 else
                        (1500, 5000), type_=rng.choice([None, 'rf', 'rf',
                                                       'profile'])
                        if not box else 'profile', p=.85,
                        etime=not box or rng.random() < .5)
    if box or entry == 'batch':
        for i, t in enumerate(spec):
            if t['h'].get('type') == 'profile' or box:
                t['h'].update(box_pos=round(i * 12.5 - 20, 1),
                              box_length=12.5, type='profile')
    for i, t in enumerate(spec):
        if t['h'].get('type') == 'profile' and 'box_pos' not in t['h']:
            t['h']['box_pos'] = float(i)
    btype = None
    if entry == 'batch':
        if spec[0]['h'].get('type') == 'profile':
            btype = 'profile'
        elif rng.random() < .3:
            btype = 'stack'
        if btype is None and 'event_time' not in spec[0]['h']:
            for t in spec:
                t['h']['event_time'] = t['t0'] - 300
    kind = rng.choice(['op', 'op', 'op', 'op', 'budget', 'data', 'nodir',
                       'isdir', 'call', 'call'])
    if entry == 'batch' and kind == 'nodir':
        kind = 'isdir'
    return {'stream': spec, 'fmt': fmt, 'entry': entry, 'btype': btype,
            'kind': kind, 'what': rng.choice(CAUSES),
            'frac': round(rng.random(), 4),
            'cat': rng.choice(['any', 'any', ['write'], ['open_w'],
                               ['close_w'], ['mkdir']]),
            'torn': rng.choice([0, .3, .9]),
            'persist': fmt == 'Q' or rng.random() < .3,
            'short': rng.choice([0, 0, 700]),
            'baddata': rng.choice(['masked', 'complex', 'object', 'key', 'onset',
                                   'type']),
            'badtr': rng.randrange(100),
            'pre': rng.choice(['none', 'none', 'old', 'append']),
            'index': rng.choice([None, None, 'flat', 'nested', 'xyz'])}


nothing = contextlib.nullcontext


def hasattr_path(path):
    try:
        return callable(O.resolve(path)[2])
    except (AttributeError, KeyError, ImportError):
        return False


def shrink(plan):
    yield from S.shrink_spec(plan)
    yield from C.simplify(plan, 'short', [0])
    yield from C.simplify(plan, 'torn', [0])
    yield from C.simplify(plan, 'pre', ['none'])
    yield from C.simplify(plan, 'index', [None])
    yield from C.simplify(plan, 'frac', [0, .3, .6, .9])


def execute(plan, R):
    import numpy as np
    import obspyh5
    import rf.batch
    from dst.fs import SimFS, install_h5, snapshot, copytree
    fmt, entry, btype = plan['fmt'], plan['entry'], plan['btype']
    ext = {'SAC': '.SAC', 'Q': '.QHD', 'H5': '.h5'}[fmt]
    if plan['index'] is not None:
        # setting chosen by the user before
        obspyh5.set_index({'xyz': 'wf/{network}/{station}_{channel}_'
                           '{trc_num:03d}'}.get(plan['index'], plan['index']))
    mode = {'mode': 'a'} if fmt == 'H5' and plan['pre'] == 'append' else {}
    root = os.getcwd()

    def save(stream):
        if entry == 'batch':
            rf.batch.write(stream, 'o/out', fmt, btype)
        elif entry == 'trace':
            for k, tr in enumerate(stream):
                tr.write('o/one%d%s' % (k, ext), fmt, **mode)
        else:
            stream.write('o/some' + ext, fmt, **mode)

    def setup(d):
        os.makedirs(d)
        os.chdir(d)
        os.mkdir('o')
        for f in ('o/keep.txt', 'o/one.txt'):
            with open(f, 'w') as fh:
                fh.write('other file')
        if plan['pre'] != 'none':
            old = S.build(plan['stream'])
            for tr in old:
                tr.data = tr.data * 0.5
                if plan['pre'] == 'append':
                    tr.stats.starttime = tr.stats.starttime + 5000.
                    if 'event_time' in tr.stats:
                        tr.stats.event_time = tr.stats.event_time + 5000.
                    if 'onset' in tr.stats:
                        tr.stats.onset = tr.stats.onset + 5000.
                    if 'box_pos' in tr.stats:
                        tr.stats.box_pos = tr.stats.box_pos + 5000.
            save(old)
            R.probe('existing_target')

    def content(d):
        out = {}
        files = C.all_files(d)
        for f in files:
            rel = os.path.relpath(f, d)
            if f.endswith(ext):
                from rf import read_rf
                tr = read_rf(f, fmt)
                fr = sorted(S.freeze(tr, skip=('_format',)), key=str)
                out[rel] = tuple(fr)
            elif f.endswith('.QBN'):
                out[rel] = 'bin'
            else:
                out[rel] = open(f, 'rb').read()
        return out

    # --- undisturbed save of an identical stream, also counts operations
    setup(os.path.join(root, 'ctl'))
    stream = S.build(plan['stream'])
    fs = SimFS(R, os.getcwd(), short_write=plan['short'], logops=False)
    restore = install_h5(fs)
    before = snapshot('.')
    targets = set()
    fs.hooks.append(lambda cat, rel: targets.add(rel)
                    if cat == 'open_w' else None)
    with fs:
        save(stream)
    restore()
    targets.update(f for f, b in snapshot('.').items()
                   if before.get(f, 0) != b)
    counts = dict(fs.counts)
    expected = content('.')
    nbytes = sum(len(b) for f, b in snapshot('.').items()
                 if f in targets and b)
    # --- disturbed save
    setup(os.path.join(root, 'tst'))
    here = os.getcwd()
    stream = S.build(plan['stream'])
    kind = plan['kind']
    faults, budget = [], None
    cats = plan['cat'] if plan['cat'] != 'any' else [
        'open_w', 'write', 'close_w', 'mkdir']
    opat = ''
    if kind == 'op':
        total = sum(counts.get(c, 0) for c in cats)
        if not total:
            cats = ['open_w', 'write', 'close_w']
            total = sum(counts.get(c, 0) for c in cats)
        nth = 1 + int(plan['frac'] * total)
        opat = '%d/%d' % (nth, total) if total < 8 else \
            '%d/8' % (8 * nth // total)
        faults = [{'cat': cats, 'nth': nth, 'what': plan['what'],
                   'frac': plan['torn'], 'torn': True,
                   'persist': plan['persist']}]
    elif kind == 'budget':
        budget = int(plan['frac'] * nbytes)
        opat = '%d/8' % int(8 * plan['frac'])
    elif kind == 'data':
        tr = stream[plan['badtr'] % len(stream)]
        good = tr.data
        if plan['baddata'] == 'masked':
            m = np.zeros(len(good), bool)
            m[len(good) // 2] = True
            tr.data = np.ma.masked_array(good, m)
        elif plan['baddata'] == 'complex':
            tr.data = good.astype(complex)
        elif plan['baddata'] == 'object':
            tr.data = np.array([object()] * len(good))
        else:
            key = {'key': 'event_time'}.get(plan['baddata'], plan['baddata'])
            if tr.stats.get(key) is None:
                key = 'event_time'
            good_h = tr.stats.get(key)
            tr.stats[key] = 'unknown' if key != 'type' else S.Odd()
        R.fault('unwritable_' + plan['baddata'])
    elif kind in ('nodir', 'isdir'):
        if kind == 'nodir':
            os.rename('o', 'o_hidden')
            os.mkdir('x')
        else:
            victim = sorted(t for t in targets if not t.endswith('/'))
            victim = victim[int(plan['frac'] * len(victim))]
            if os.path.exists(victim):
                os.remove(victim)
            os.makedirs(victim)
            targets.discard(victim)
        R.fault(kind)
    calls = nothing()
    if kind == 'call':
        # which functions are called, found out in a process of its own
        def count(R2, on_kill):
            counts = {}
            setup(os.path.join(root, 'dry'))
            with contextlib.ExitStack() as es:
                for c in CALLEES:
                    if hasattr_path(c):
                        es.enter_context(O.counted_call(c, counts))
                save(S.build(plan['stream']))
            return counts
        res = C.fork_call(R, count)
        names = sorted(res[1]) if res[0] == 'ok' else []
        if not names:
            R.probe('fault_not_reached')
            return
        c = names[plan['badtr'] % len(names)]
        calls = O.failing_call({
            'callee': c, 'what': 'ki' if plan['what'] in ('KI', 'SE') else
            'mem', 'nth': 1 + int(plan['frac'] * res[1][c])}, R)
    before = snapshot('.')
    frozen = S.freeze(stream)
    glob = S.settings()
    fs = SimFS(R, here, faults, short_write=plan['short'], budget=budget)
    restore = install_h5(fs)
    exc = None
    R.log('--- disturbed save')
    nfault = sum(R.faults.values())
    with fs, calls:
        try:
            save(stream)
        except BaseException as ex:
            exc = ex
            exc.__traceback__ = None
    restore()
    fired = bool(fs.fired) or kind in ('nodir', 'isdir', 'data') or \
        (budget is not None and R.faults['ENOSPC']) or (
            kind == 'call' and sum(R.faults.values()) > nfault)
    if exc is not None:
        R.log('raised', type(exc).__name__)
    R.state(fmt, entry, kind, plan['what'] if kind == 'op' else
            plan['baddata'] if kind == 'data' else '', opat, plan['pre'],
            exc is None)
    if not fired and exc is not None:
        raise exc
    # --- in-memory state and settings
    d = S.diff_frozen(S.freeze(stream), frozen)
    if d:
        R.violation('stream-changed', '%s save (%s) %s: %s' % (
            fmt, kind, 'failed with ' + type(exc).__name__ if exc else
            'returned', d))
    d = S.diff_settings(glob, S.settings())
    if d:
        R.violation('settings-changed', '%s save (%s) %s: %s' % (
            fmt, kind, 'failed with ' + type(exc).__name__ if exc else
            'returned', d))
    after = snapshot('.')
    for f in sorted(set(before) | set(after)):
        if before.get(f, 0) != after.get(f, 0) and f not in targets:
            if f.endswith('/') and f in after:
                continue
            R.violation('other-file', 'file %s changed by a failed save to '
                        '%s' % (f, sorted(targets)))
    if fired and exc is None:
        # tolerated (for instance written some other way) or swallowed
        R.probe('fault_without_error')
        if kind in ('op', 'budget', 'call') and kind != 'nodir':
            gc.collect()
            if content('.') != expected:
                R.violation('silent', '%s save returned without error, but '
                            'the file is damaged' % fmt)
        return
    if not fired:
        R.probe('fault_not_reached')
        return
    R.nontrivial = True
    if kind == 'call' and plan['what'] in ('KI', 'SE') and not isinstance(
            exc, KeyboardInterrupt):
        R.violation('interrupt-changed', 'interrupt came out as %r' % exc)
    if fs.interrupt is not None and type(exc) is not type(fs.interrupt):
        R.violation('interrupt-changed', 'interrupt %r came out as %r' % (
            fs.interrupt, exc))
    # --- cause removed, same stream saved again
    gc.collect()
    if kind == 'data':
        if plan['baddata'] not in ('key', 'onset', 'type'):
            tr.data = good
        elif good_h is None:
            del tr.stats[key]
        else:
            tr.stats[key] = good_h
    elif kind == 'nodir':
        os.rmdir('x')
        os.rename('o_hidden', 'o')
    elif kind == 'isdir':
        os.removedirs(victim) if not os.listdir(victim) else None
        os.makedirs('o', exist_ok=True)
    if mode or (entry == 'batch' and fmt == 'H5'):
        # HDF5 files have to be restored before appending to them
        for f in sorted(targets):
            if f.endswith('.h5') and kind != 'nodir':
                if os.path.exists(f):
                    os.remove(f)
                if before.get(f) is not None:
                    with open(f, 'wb') as fh:
                        fh.write(before[f])
        if kind == 'isdir' and plan['pre'] != 'none':
            return
    try:
        save(stream)
    except Exception as ex:
        R.violation('retry-failed', '%s save failed again after the cause '
                    '(%s) was removed: %s' % (fmt, kind, C.exc_info(ex)))
        return
    found = content('.')
    R.probe('retry_checked')
    if found != expected:
        for f in sorted(set(found) | set(expected)):
            if found.get(f) != expected.get(f):
                a, b = found.get(f), expected.get(f)
                t = 'missing' if a is None else 'left over' if b is None \
                    else S.diff_frozen(a, b) if isinstance(a, tuple) else \
                    'different'
                R.violation('retry-differs', '%s after the repeated save: '
                            '%s: %s' % (fmt, f, t))
                break
