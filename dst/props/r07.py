"""R07: a damaged input record never harms the processing of the others."""
import copy
import os
import random

from dst import batchlib as B
from dst import common as C
from dst import net as N

NEEDS = ('taup', 'profile')
RUNS = {'quick': 700, 'thorough': 20000}
RULE = ('one run: a batch command (calc, moveout, convert, stack, profile in '
        'SAC, Q or HDF5) reads records of which some are deleted, emptied, '
        'truncated, overwritten with garbage, replaced by directories or hit '
        'by read errors, next to files that do not belong to any record; '
        'compared to the library operation on what can be read of each '
        'record; non-trivial: damage and at least one undamaged record; '
        'distinct by event log')
STATE_MEASURE = ('distinct (command, formats, damage kinds with their '
                 'position in the processing order) combinations')
REAL = C.REAL_ALL
STUBS = C.STUB_NET + C.STUB_TAUP + C.STUB_PBAR + C.STUB_DISK
ASSUMPTIONS = ['damage that leaves a readable file with other content (flipped '
               'samples) is not detectable and affects that record only']

SAC_DAMAGE = ['delete_all', 'delete_all', 'delete_one', 'empty', 'trunc_head',
              'trunc_data', 'garbage', 'text', 'dir', 'empty_all']
Q_DAMAGE = ['delete_all', 'delete_all', 'delete_qbn', 'empty', 'garbage',
            'text', 'dir', 'trunc_head', 'trunc_data', 'empty_qbn']
H5_DAMAGE = ['delete_all', 'delete_one', 'delete_all']
FILE_H5 = ['trunc_file', 'garbage_file', 'empty_file', 'delete_file']
READ = ['EIO', 'EACCES', 'EMFILE', 'ENOENT', 'ESTALE', 'ETIMEDOUT', 'EAGAIN']


def gen(rng, tier):
    kind = rng.choice(['calc', 'calc', 'moveout', 'convert', 'convert',
                       'stack', 'profile'])
    spec = B.gen_small_world(rng, nev=(1, 4), nst=(1, 3), far=.05,
                             align=kind in ('stack', 'profile') or None,
                             hours=(2, 300))
    fmt = rng.choice(['SAC', 'SAC', 'Q', 'Q', 'H5'])
    damage = {}
    rate = rng.choice([.15, .4, .7, 1])
    if rng.random() < .06:
        # large damage
        C.grow(rng, spec, rng.randint(12, 30))
        rate = rng.choice([.7, .9, 0, 0])
    kinds = {'SAC': SAC_DAMAGE, 'Q': Q_DAMAGE, 'H5': H5_DAMAGE}[fmt]
    for i in range(len(spec['events'])):
        for j in range(len(spec['stations'])):
            if rng.random() < rate:
                damage['%d,%d' % (i, j)] = {'kind': rng.choice(kinds),
                                            'n': rng.randrange(3),
                                            'frac': round(rng.random(), 3),
                                            'seed': rng.randrange(10 ** 6)}
    if rate == 0:
        # everything between the first and last records is lost
        gap = [(i, j) for i in range(len(spec['events']))
               for j in range(len(spec['stations']))]
        gap = gap[rng.randint(0, 3):-rng.randint(1, 4)]
        kd = rng.choice([k for k in kinds if k not in (
            'delete_one', 'trunc_data', 'empty', 'delete_qbn')])
        damage = {'%d,%d' % ij: {'kind': kd, 'n': 0, 'frac': 0, 'seed': 1}
                  for ij in gap}
    read = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        read.append({'what': rng.choice(READ), 'pos': rng.randint(1, 40),
                     'cat': rng.choice(['open_r', 'open_r', 'read'])})
    stray = [rng.choice(['backup', 'station', 'event', 'hidden', 'subdir',
                         'similar', 'similar', 'other', 'other'])
             for _ in range(rng.choice([0, 0, 1, 2]))]
    if rng.random() < .2:
        # a lost record and something similar in its place
        k = '%d,%d' % (rng.randrange(len(spec['events'])),
                       rng.randrange(len(spec['stations'])))
        damage = {k: {'kind': rng.choice(['delete_all', 'delete_all',
                                          'delete_one', 'garbage']),
                      'n': rng.randrange(3), 'frac': 0, 'seed': 1}}
        if fmt == 'Q' and damage[k]['kind'] == 'delete_one' or fmt == 'H5':
            damage[k]['kind'] = 'delete_all'
        stray = ['other']
    return {'world': spec, 'kind': kind, 'fmt': fmt, 'damage': damage,
            'filedamage': rng.choice(FILE_H5) if fmt == 'H5' and
            rng.random() < .2 else None,
            'newfmt': rng.choice([f for f in ('SAC', 'Q', 'H5')
                                  if f != fmt]),
            'read': read, 'stray': stray,
            'stray_seed': rng.randrange(10 ** 6),
            'short_read': rng.choice([0, 0, 256]),
            'rf': B.gen_rfopts(rng, spec, simple=True),
            'moveout': B.gen_moutopts(rng, spec),
            'boxes': B.gen_boxes(rng, spec)}


def shrink(plan):
    yield from C.shrink_world(dict(plan, answers=plan['damage'])) \
        if False else ()
    for k in sorted(plan['damage']):
        p = copy.deepcopy(plan)
        del p['damage'][k]
        yield p
    yield from C.drop_from_list(plan, 'read')
    yield from C.drop_from_list(plan, 'stray')
    yield from C.simplify(plan, 'short_read', [0])
    yield from C.simplify(plan, 'filedamage', [None])
    for key, n in (('events', 0), ('stations', 1)):
        w = plan['world'][key]
        if len(w) > 1:
            for a in range(len(w)):
                p = copy.deepcopy(plan)
                del p['world'][key][a]
                d = {}
                for k, v in plan['damage'].items():
                    ij = list(map(int, k.split(',')))
                    if ij[n] == a:
                        continue
                    ij[n] -= ij[n] > a
                    d['%d,%d' % tuple(ij)] = v
                p['damage'] = d
                yield p


TF = '%Y-%m-%dT%H:%M:%S'


def files_of(stream, fmt, root='in'):
    """Documented file names of a record."""
    out = []
    for tr in stream:
        st = tr.stats
        nsl = '%s.%s.%s' % (st.network, st.station, st.location)
        t = st.event_time.datetime.strftime(TF)
        if fmt == 'SAC':
            out.append('%s/%s/%s.%s_%s.SAC' % (root, nsl, nsl, st.channel, t))
        elif fmt == 'Q':
            out = ['%s/%s/%s_%s.QHD' % (root, nsl, nsl, t)]
            out.append(out[0][:-3] + 'QBN')
    return out


def hurt(plan, d, files, stream, fmt, R):
    """Apply damage d to the files of a record."""
    rng = random.Random(d['seed'])
    kind = d['kind']
    R.fault('damage_' + kind)
    if fmt == 'H5':
        import h5py
        with h5py.File('in.h5', 'a') as f:
            g = f['waveforms']
            st = stream[0].stats
            g = g['%s.%s.%s' % (st.network, st.station, st.location)]
            t = st.event_time.datetime.strftime(TF)
            if kind == 'delete_all':
                del g[t]
            else:
                names = sorted(g[t])
                del g[t][names[d['n'] % len(names)]]
        return
    victims = [files[d['n'] % len(files)]]
    if fmt == 'Q':
        victims = [files[1] if kind in ('delete_qbn', 'empty_qbn',
                                        'trunc_data') else files[0]]
    if kind in ('delete_all', 'empty_all'):
        victims = files
    for v in victims:
        n = os.path.getsize(v)
        if kind.startswith('delete'):
            os.unlink(v)
        elif kind == 'dir':
            os.unlink(v)
            os.mkdir(v)
        else:
            data = open(v, 'rb').read()
            if kind.startswith('empty'):
                data = b''
            elif kind == 'trunc_head':
                data = data[:int((632 if fmt == 'SAC' else n) * d['frac'])]
            elif kind == 'trunc_data':
                a = 632 if fmt == 'SAC' else 0
                data = data[:a + int((n - a) * d['frac'])]
            elif kind == 'garbage':
                data = rng.randbytes(n)
            elif kind == 'text':
                data = (b'<html>503 Service Unavailable</html>\n' * 200)[:n]
            with open(v, 'wb') as f:
                f.write(data)


def add_strays(plan, recs, fmt, R):
    """Files that do not belong to any record."""
    import shutil
    if fmt == 'H5' or not recs:
        return
    if 'other' in plan['stray'] and plan['kind'] != 'stack':
        # another record, kept under a name similar to the one of a record
        rng = random.Random(plan.get('stray_seed', 0))
        order = sorted(recs)
        src = files_of(recs[rng.choice(order)], fmt)
        hit = [p for p in order if '%d,%d' % p in plan['damage']]
        dst = files_of(recs[rng.choice(hit or order)], fmt)
        for f, g in zip(src, dst):
            if not os.path.isfile(f):
                continue
            R.fault('stray_other')
            stem, ext = os.path.splitext(g)
            os.makedirs(os.path.dirname(g), exist_ok=True)
            for new in (stem + '_old' + ext, stem + ext + '.bak',
                        stem.replace('_', '_x_') + ext):
                shutil.copy(f, new)
    some = files_of(recs[sorted(recs)[0]], fmt)
    if not os.path.exists(some[0]) or os.path.isdir(some[0]):
        return
    d = os.path.dirname(some[0])
    for s in plan['stray']:
        if s == 'other':
            continue
        R.fault('stray_' + s)
        for f in some:
            if not os.path.isfile(f):
                continue
            b = os.path.basename(f)
            if s == 'backup':
                shutil.copy(f, f + '~')
                shutil.copy(f, d + '/copy of ' + b)
            elif s == 'similar' and plan['kind'] != 'stack':
                # as left behind by a user who keeps old versions
                stem, ext = os.path.splitext(b)
                shutil.copy(f, d + '/' + stem + '_old' + ext)
                i = b.rindex('_')
                shutil.copy(f, d + '/' + b[:i] + '_old' + b[i:])
                shutil.copy(f, d + '/old_' + b)
                shutil.copy(f, d + '/' + b[:i] + 'X' + b[i:])
            elif s == 'hidden':
                shutil.copy(f, d + '/._' + b)
            elif s == 'station':
                os.makedirs('in/QQ.NONE.', exist_ok=True)
                shutil.copy(f, 'in/QQ.NONE./' + b)
            elif s == 'subdir':
                os.makedirs(d + '/old', exist_ok=True)
                shutil.copy(f, d + '/old/' + b)
            elif s == 'event' and plan['kind'] != 'stack':
                i = b.rindex('_')
                shutil.copy(f, d + '/' + b[:i] + '_1999-09-09T09:09:09' +
                            os.path.splitext(b)[1])


def read_record(stream, fmt):
    """What can be read of a record: (traces, number of unreadable files)."""
    from rf import read_rf
    files = files_of(stream, fmt)
    traces, bad = [], 0
    for f in files:
        if f.endswith('QBN') or not os.path.lexists(f):
            continue
        try:
            traces += read_rf(f, fmt).traces
        except Exception:
            bad += 1
    return traces, bad


def read_h5(stream):
    from obspyh5 import dataset2trace
    from rf.rfstream import RFTrace
    import h5py
    st = stream[0].stats
    out = []
    try:
        with h5py.File('in.h5', 'r') as f:
            g = f['waveforms/%s.%s.%s' % (st.network, st.station,
                                          st.location)]
            g = g[st.event_time.datetime.strftime(TF)]
            for k in sorted(g):
                out.append(RFTrace(trace=dataset2trace(g[k])))
    except Exception:
        return [], 1
    return out, 0


def execute(plan, R):
    from dst.world import World, SimPbar, TaupStub
    from dst.fs import SimFS, install_h5
    from rf import RFStream
    w = World(plan['world'])
    kind, fmt = plan['kind'], plan['fmt']
    outfmt = plan['newfmt'] if kind == 'convert' else fmt
    stub = TaupStub(R, w).install()
    dc = N.DataCentre(w, R, {})
    sess = B.Session(plan, w, dc, R)
    sess.pbar_factory = lambda *a, **k: SimPbar(R)
    recs = sess.original = B.library_records(sess)
    # records of one second share a file
    seen = {}
    for p in sorted(recs):
        seen.setdefault(tuple(files_of(recs[p], 'Q')), []).append(p)
    if any(len(v) > 1 for v in seen.values()):
        R.probe('same_second')
        return
    if not recs:
        R.probe('no_records')
        return
    if kind in ('stack', 'profile', 'moveout'):
        for p in list(recs):
            recs[p].rf(**sess.rfopts)
    B.store(recs, 'in', fmt)
    stub.restore()
    # damage
    sig = []
    order = sorted(recs)
    for n, p in enumerate(order):
        d = plan['damage'].get('%d,%d' % p)
        if d:
            hurt(plan, d, files_of(recs[p], fmt), recs[p], fmt, R)
            sig.append((n, d['kind']))
    add_strays(plan, recs, fmt, R)
    if plan['filedamage'] and fmt == 'H5':
        n = os.path.getsize('in.h5')
        R.fault('damage_' + plan['filedamage'])
        if plan['filedamage'] == 'delete_file':
            os.unlink('in.h5')
        else:
            with open('in.h5', 'r+b') as f:
                if plan['filedamage'] == 'garbage_file':
                    f.write(b'\0' * 2048)
                else:
                    f.truncate(n // 3 if plan['filedamage'] == 'trunc_file'
                               else 0)
    # what can be read of each record
    state = {}
    for p in order:
        traces, bad = read_record(recs[p], fmt) if fmt != 'H5' else \
            read_h5(recs[p])
        if kind != 'stack':
            # event times come from the catalogue
            for tr in traces:
                tr.stats.event_time = recs[p][0].stats.event_time
        state[p] = traces, bad
    # run the command
    faults = []
    for f in plan['read']:
        faults.append({'cat': [f['cat']], 'nth': f['pos'], 'what': f['what'],
                       'path': 'in/' if fmt != 'H5' else 'in.h5'})
    fs = SimFS(R, os.getcwd(), faults, short_read=plan['short_read'])
    restore = install_h5(fs) if fmt == 'H5' and faults else None
    args = {'calc': ['calc', 'in', 'out'], 'moveout': ['moveout', 'in', 'out'],
            'convert': ['convert', 'in', 'out', plan['newfmt']],
            'stack': ['stack', 'in', 'out'],
            'profile': ['profile', 'in', 'out']}[kind]
    R.log('--- command')
    error = None
    try:
        with fs:
            sess.run(args, fmt)
    except Exception as ex:
        error = C.exc_info(ex)
        R.log('error', type(ex).__name__)
    finally:
        if restore:
            restore()
    hits = [h for f in fs.faults for h in f.get('hits', ())]
    shaky = set()         # records met by a read error
    for p in order:
        if fmt == 'H5':
            if hits:
                shaky.add(p)
        elif set(files_of(recs[p], fmt)) & set(hits):
            shaky.add(p)
    undamaged = [p for p in order if '%d,%d' % p not in plan['damage'] and
                 p not in shaky and not plan['filedamage']]
    if undamaged and (sig or hits):
        R.nontrivial = True
    R.state(kind, fmt, outfmt, tuple(sig[:4]), plan['filedamage'],
            bool(hits), error is None)
    judge = {'calc': per_record, 'moveout': per_record, 'convert': per_record,
             'stack': stacks, 'profile': profiles}[kind]
    judge(plan, sess, order, state, shaky, error, outfmt, R)


ODD = ('trunc_head', 'trunc_data', 'empty_qbn')


def odd(plan):
    return any(d['kind'] in ODD for d in plan['damage'].values())


def read_out(order, plan, outfmt, R):
    from rf import read_rf
    out = []
    for f in C.data_files('out', outfmt):
        try:
            out += read_rf(f, outfmt).traces
        except Exception as ex:
            if not odd(plan):
                R.violation('unreadable', 'output %s cannot be read: %s' % (
                    f, C.exc_info(ex)))
            R.probe('incomplete_record_gives_bad_output')
    return out


def operate(kind, sess, traces):
    from rf import RFStream
    s = RFStream([tr.copy() for tr in traces])
    if kind == 'calc':
        s.rf(**copy.deepcopy(sess.rfopts))
    elif kind == 'moveout':
        s.moveout(**copy.deepcopy(sess.mout))
    return s


def per_record(plan, sess, order, state, shaky, error, outfmt, R):
    kind = plan['kind']
    expect, maybe, excused = [], [], False
    for p in order:
        traces, bad = state[p]
        if not traces:
            continue
        try:
            res = operate(kind, sess, traces)
        except Exception as ex:
            excused = True
            R.probe('incomplete_record_fails')
            continue
        whole = not bad and p not in shaky and \
            '%d,%d' % p not in plan['damage']
        (expect if whole else maybe).append((p, res, bad))
    if error is not None and not excused and not odd(plan):
        # reading fewer traces of a record may make the operation impossible
        if not any(b for _, _, b in maybe):
            R.violation('stopped:' + kind, '%s stopped although damaged '
                        'records have to be skipped: %s' % (kind, error))
    found = read_out(order, plan, outfmt, R)
    f = B.index_records(found)
    for p, res, bad in expect:
        for tr in res:
            got = f.pop(B.rec_key(tr), [])
            if len(got) > 1:
                R.violation('duplicate:' + kind, 'record %s: %d times' % (
                    B.rec_key(tr), len(got)))
            if not got and error is None:
                R.violation('missing:' + kind, 'undamaged record %s: no '
                            'output' % (B.rec_key(tr),))
            for g in got[:1]:
                d = B.diff_trace(g, tr)
                if d:
                    R.violation('altered:' + kind, 'undamaged record %s: %s' %
                                (B.rec_key(tr), d))
                R.probe('undamaged_compared')
    for p, res, bad in maybe:
        dmg = plan['damage'].get('%d,%d' % p, {}).get('kind')
        for tr in res:
            got = f.pop(B.rec_key(tr), [])
            if len(got) > 1:
                R.violation('duplicate:' + kind, 'damaged record %s: %d times'
                            % (B.rec_key(tr), len(got)))
            if not got and error is None and not bad and p not in shaky and \
                    dmg == 'delete_one' and not excused:
                R.violation('missing:' + kind, 'record %s, which lost another '
                            'component, has no output' % (B.rec_key(tr),))
            if got and dmg not in ODD:
                d = B.diff_trace(got[0], tr)
                if d:
                    R.violation('altered:' + kind, 'output of damaged record '
                                '%s: %s' % (B.rec_key(tr), d))
                R.probe('damaged_compared')
    own = {}
    for p in order:
        if plan['damage'].get('%d,%d' % p, {}).get('kind') in ODD:
            # what is left of a record may give output of this record only,
            # its headers may be damaged
            n = sess.original[p][0].id[:-3]
            own[n] = own.get(n, 0) + 3
    for k, got in f.items():
        n = k[0].rsplit('.', 1)[0] + '.'
        if own.get(n, 0) >= len(got):
            own[n] -= len(got)
            R.probe('output_of_incomplete_record')
            continue
        R.violation('invented:' + kind, 'output %s (%d times) without record'
                    % (k, len(got)))


def stacks(plan, sess, order, state, shaky, error, outfmt, R):
    import numpy as np
    from rf import RFStream
    found = {}
    for tr in read_out(order, plan, outfmt, R):
        found.setdefault(tr.id, []).append(tr)
    sts, risky, weak = {}, set(), set()
    for p in order:
        traces, bad = state[p]
        nsl = None
        for tr in traces:
            sts.setdefault(tr.id, []).append(tr)
        if bad or p in shaky:
            risky.add(p[1])
        if plan['damage'].get('%d,%d' % p, {}).get('kind') in ODD:
            weak.add(p[1])
    where = {}
    for p in order:
        for tr in state[p][0]:
            where[tr.id] = p[1]
    uneven = any(len({len(t.data) for t in v}) > 1 for v in sts.values())
    if error is not None and not uneven and not odd(plan):
        R.violation('stopped:stack', 'stack stopped: %s' % error)
    for k, members in sorted(sts.items()):
        got = found.pop(k, [])
        if len(got) > 1:
            R.violation('duplicate:stack', '%d stacks for %s' % (len(got), k))
        if where[k] in weak or len({len(t.data) for t in members}) > 1:
            continue
        if not got:
            if error is None and where[k] not in risky:
                R.violation('missing:stack', 'no stack for %s' % k)
            continue
        mean = np.mean([m.data for m in members], axis=0)
        ok = len(got[0].data) == len(mean) and np.max(np.abs(
            got[0].data - mean)) <= 2e-6 * np.max(np.abs(mean))
        if not ok and not any(p in shaky for p in order
                              if p[1] == where[k]):
            R.violation('altered:stack', 'stack of %s is not the mean of the '
                        '%d readable traces' % (k, len(members)))
        R.probe('stack_compared')
    for k in found:
        R.violation('invented:stack', 'stack for %s without record' % k)


def profiles(plan, sess, order, state, shaky, error, outfmt, R):
    import numpy as np
    from rf import get_profile_boxes
    from rf.profile import profile
    weak = odd(plan)
    b = plan['boxes']
    boxes = get_profile_boxes(bins=np.linspace(*b['boxbins']), **b['boxes'])
    use = []
    for p in order:
        traces, bad = state[p]
        if bad and plan['fmt'] == 'SAC':
            # the readable rest may be used or not
            R.probe('profile_with_half_record')
            weak = True
        use += traces
    if error is not None:
        if not weak:
            R.violation('stopped:profile', 'profile stopped: %s' % error)
        return
    if weak or shaky:
        R.probe('profile_not_judged')
        use = []
        for p in order:
            if not state[p][1] and p not in shaky:
                use += state[p][0]
        # nothing may be counted twice or come from elsewhere
        n = {}
        allt = [tr for p in order for tr in state[p][0]]
        for _, tr in C.read_all('out', outfmt):
            n.setdefault(tr.stats.channel[-1], 0)
            n[tr.stats.channel[-1]] += 1
        for c, k in n.items():
            if k > len(boxes):
                R.violation('invented:profile', '%d boxes' % k)
        return
    want = profile(iter(use), boxes) if use else []
    found = [tr for _, tr in C.read_all('out', outfmt)]
    B.compare_sets(R, found, want, 'profile', dtol=5e-6, headers=[
        h for h in B.HEADERS if h != 'slowness'])
    R.probe('profile_compared')
