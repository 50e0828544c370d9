"""R06: a completed save holds every sample and supported header."""
import copy
import os

from obspy.core.util import AttribDict
from dst import common as C
from dst import streams as S

NEEDS = ()
RUNS = {'quick': 1500, 'thorough': 60000}
RULE = ('one run: a history of header changes, sample changes, cuts, saves '
        '(SAC, Q, HDF5; stream, trace or batch writer; new, overwritten or '
        'appended files; short writes) and reads on one stream; the saving '
        'process dies right after the save returned and another process '
        'reads the files; non-trivial: at least one file was read back; '
        'distinct by event log')
STATE_MEASURE = ('distinct (chain of formats since the start, entry point, '
                 'set of absent headers) combinations')
REAL = C.REAL_ALL
STUBS = C.STUB_DISK
ASSUMPTIONS = ['process death, not power loss: what reached the operating '
               'system is durable', 'values containing 12345 with a minus '
               'sign cannot be stored in SAC', 'Q keeps milliseconds']

HEAD = S.GEO + S.RAY + S.PP + S.BOX
TEXT = ('type', 'phase', 'moveout')
TIMES = ('onset', 'event_time')


def gen(rng, tier):
    spec = S.gen_groups(rng, (1, 3), p=rng.choice([1, .85, .5]),
                        npts=rng.choice([(4, 60), (4, 60), (1000, 3000)]),
                        dtypes=('f8', 'f8', 'f4', 'i4'),
                        onset=rng.random() < .9, etime=rng.random() < .85)
    # unique ids, so that records can be told apart in every format
    for i, t in enumerate(spec):
        t['id'][1] = 'S%02d' % i
    r = rng.random()
    if r < .1:
        # far from the epoch of time stamps
        d = rng.choice([-13 * 10 ** 8, -10 ** 9, 10 ** 9])
        for t in spec:
            t['t0'] += d
            if 'event_time' in t['h']:
                t['h']['event_time'] += d
    elif r < .3:
        f = rng.choice([.1, .5, 12.5, 40, 100])
        for t in spec:
            t['on'] = t['on'] and round(t['on'] * t['rate'] / f, 4)
            t['rate'] = f
    typ = rng.choice([None, 'rf', 'rf', 'profile'])
    if typ == 'rf' and 'event_time' not in spec[0]['h']:
        typ = None
    for i, t in enumerate(spec):
        if typ:
            t['h']['type'] = typ
        if typ == 'profile':
            t['h']['box_pos'] = round(i * 7.3 - 11, 2)
            t['h']['box_length'] = rng.choice([7.3, 10])
    steps = []
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < .55:
            steps.append(['save', rng.choice(['SAC', 'Q', 'H5']),
                          rng.choice(['stream', 'stream', 'trace', 'batch',
                                      'halves']),
                          rng.random() < .7,          # continue with the file
                          rng.choice(['new', 'over'])])
        elif r < .85:
            k = rng.choice(HEAD[:-2] + TIMES + TEXT[1:])
            i = rng.choice([-1, rng.randrange(len(spec))])
            if k in TIMES:
                v = rng.choice([-50.5, 3, .25, 20])
            elif k in TEXT:
                v = rng.choice(S.STRINGS[k])
            else:
                v = S.gen_number(rng, k)
            steps.append(['set', i, k, v])
        elif r < .9:
            steps.append(['del', rng.randrange(len(spec)),
                          rng.choice(HEAD[:-2] + TEXT[1:])])
        elif r < .92:
            steps.append(['foreign', rng.choice([True, True, False])])
        elif r < .96:
            f = rng.choice([2, -1, .1, 1e9, 1e-9])
            if not any(s[0] == 'scale' and s[1] in (1e9, 1e-9)
                       for s in steps) or f in (2, -1, .1):
                steps.append(['scale', f])
        else:
            steps.append(['cut', rng.choice([1, 2]), rng.choice([0, 1])])
    steps.append(['save', rng.choice(['SAC', 'Q', 'H5']), rng.choice(
        ['stream', 'trace', 'batch']), True, 'new'])
    return {'stream': spec, 'steps': steps, 'short': rng.choice([0, 0, 512])}


def shrink(plan):
    yield from C.drop_from_list(plan, 'steps', 1)
    n = len(plan['stream'])
    for p in S.shrink_spec(plan):
        if len(p['stream']) < n and any(
                s[0] in ('set', 'del') and s[1] >= len(p['stream'])
                for s in p['steps']):
            for s in p['steps']:
                if s[0] in ('set', 'del') and s[1] >= len(p['stream']):
                    s[1] = 0
        yield p
    yield from C.simplify(plan, 'short', [0])


# the documented mapping of headers (rf/__init__.py)
SAC = dict(station_latitude='stla', station_longitude='stlo',
           station_elevation='stel', event_latitude='evla',
           event_longitude='evlo', event_depth='evdp', event_magnitude='mag',
           event_time='o', onset='a', type='kuser0', phase='kuser1',
           moveout='kuser2', distance='gcarc', back_azimuth='baz',
           inclination='user0', slowness='user1', pp_latitude='user2',
           pp_longitude='user3', pp_depth='user4', box_pos='user5',
           box_length='user6')
SH = dict(event_latitude='LAT', event_longitude='LON', event_depth='DEPTH',
          event_magnitude='MAGNITUDE', event_time='ORIGIN', onset='P-ONSET',
          distance='DISTANCE', back_azimuth='AZIMUTH', inclination='INCI',
          slowness='SLOWNESS')


def check_fields(tr, m, fmt, ttol):
    """Values in the documented header fields of the file."""
    import json
    block = tr.stats.get({'SAC': 'sac', 'Q': 'sh'}[fmt], {})
    for k, v in m['h'].items():
        if k in m['unknown']:
            continue
        name = SAC[k] if fmt == 'SAC' else SH.get(k, 'COMMENT')
        w = block.get(name)
        if name == 'COMMENT' and w is not None:
            w = json.loads(w).get(k)
        if w is None:
            return 'field %s of %s=%r is missing' % (name, k, v)
        if k in TIMES:
            if fmt == 'SAC':
                from obspy.io.sac.util import get_sac_reftime
                w = get_sac_reftime(block) + w
            if abs(w - v) > ttol:
                return 'field %s of %s is %s instead of %s' % (name, k, w, v)
        elif k in TEXT:
            if str(w).strip() != v:
                return 'field %s of %s is %r instead of %r' % (name, k, w, v)
        elif not abs(float(w) - float(v)) <= 1e-6 * max(abs(float(v)), 1e-3):
            return 'field %s of %s is %r instead of %r' % (name, k, w, v)
    return None


def model_of(tr):
    st = tr.stats
    h = {k: st[k] for k in HEAD + TEXT + TIMES if k in st}
    return {'data': tr.data.astype(float).copy(), 'rate': st.sampling_rate,
            't': st.starttime, 'h': h, 'unknown': set(), 'id': tr.id}


def check_trace(tr, m, fmt, ttol):
    """m: model of the trace as it was when saved"""
    import numpy as np
    st = tr.stats
    if tr.id != m['id']:
        return 'id', 'id %s instead of %s' % (tr.id, m['id'])
    if len(tr.data) != len(m['data']) or st.npts != len(m['data']):
        return 'npts', '%d samples instead of %d' % (len(tr.data),
                                                     len(m['data']))
    if abs(st.sampling_rate - m['rate']) > 1e-6 * m['rate']:
        return 'rate', 'sampling rate %r instead of %r' % (st.sampling_rate,
                                                           m['rate'])
    if abs(st.starttime - m['t']) > ttol:
        return 'starttime', 'start %s instead of %s' % (st.starttime, m['t'])
    x, y = np.asarray(tr.data, float), m['data']
    tol = 0 if fmt == 'H5' else 3e-7
    if np.any(np.abs(x - y) > tol * np.abs(y) + tol * 1e-30):
        return 'samples', 'samples differ by %g' % np.max(np.abs(x - y))
    for k in HEAD + TEXT + TIMES:
        if k in m['unknown'] or k not in m['h']:
            continue
        v = m['h'][k]
        if k not in st:
            return 'lost', 'header %s=%r is missing' % (k, v)
        w = st[k]
        if k in TIMES:
            if abs(w - v) > ttol:
                return 'header', 'header %s is %s instead of %s' % (k, w, v)
        elif k in TEXT:
            if w != v:
                return 'header', 'header %s is %r instead of %r' % (k, w, v)
        else:
            tol = 1e-12 if fmt == 'H5' else 1e-6
            if not abs(float(w) - float(v)) <= tol * max(abs(float(v)), 1e-3):
                return 'header', 'header %s is %r instead of %r' % (k, w, v)
    return None


def execute(plan, R):
    import numpy as np
    import rf.batch
    from rf import read_rf
    from dst.fs import SimFS, install_h5
    stream = S.build(plan['stream'])
    models = [model_of(tr) for tr in stream]
    chain = ''
    nsave = 0
    lastname = {}
    acc = {'t': 2e-6}
    for step in plan['steps']:
        R.log('step', *step)
        if step[0] == 'set':
            _, i, k, v = step
            for j, tr in enumerate(stream):
                if i not in (-1, j):
                    continue
                if k in TIMES:
                    if k not in tr.stats:
                        continue
                    val = tr.stats[k] + v
                else:
                    val = S.value(v)
                tr.stats[k] = val
                models[j]['h'][k] = val
                models[j]['unknown'].discard(k)
        elif step[0] == 'del':
            _, j, k = step
            if k in stream[j].stats:
                del stream[j].stats[k]
            models[j]['h'].pop(k, None)
            # whether a deleted header stays away is not specified
            models[j]['unknown'].add(k)
        elif step[0] == 'foreign':
            # as read from a SAC file which another program wrote
            for tr in stream:
                t = tr.stats.starttime
                tr.stats.sac = AttribDict(
                    lcalda=step[1], leven=True, nvhdr=6, iftype=1, b=0.,
                    delta=tr.stats.delta, nzyear=t.year, nzjday=t.julday,
                    nzhour=t.hour, nzmin=t.minute, nzsec=t.second,
                    nzmsec=t.microsecond // 1000)
            R.probe('foreign_sac_block')
        elif step[0] == 'scale':
            for tr, m in zip(stream, models):
                tr.data = tr.data * step[1]
                m['data'] = tr.data.astype(float)
        elif step[0] == 'cut':
            _, a, b = step
            for tr, m in zip(stream, models):
                n = len(tr.data)
                if n < a + b + 3:
                    continue
                t = tr.stats.starttime + a * tr.stats.delta
                tr.data = tr.data[a:n - b]
                tr.stats.starttime = t
                m['data'] = m['data'][a:n - b].copy()
                m['t'] = t
        else:
            _, fmt, entry, cont, how = step
            if fmt == 'H5' and entry == 'trace':
                entry = 'stream'
            typ = models[0]['h'].get('type')
            btype = None
            if entry == 'batch':
                if typ == 'profile':
                    btype = 'profile'
                elif 'event_time' not in models[0]['h']:
                    btype = 'stack'
            ext = {'SAC': '.SAC', 'Q': '.QHD', 'H5': '.h5'}[fmt]
            nsave += 1
            name = 'f%d' % nsave
            over = how == 'over' and (fmt, entry) in lastname and \
                entry != 'batch'
            if over:
                name = lastname[fmt, entry]
                R.probe('overwritten')
            else:
                os.mkdir(name)
            lastname[fmt, entry] = name

            def save():
                if entry == 'batch' and btype is None:
                    for tr in stream:
                        rf.batch.write(stream.__class__([tr]),
                                       name + '/out', fmt, btype)
                elif entry == 'batch' and btype == 'stack':
                    for tr in stream:
                        rf.batch.write(stream.__class__([tr]),
                                       name + '/out', fmt, btype)
                elif entry == 'batch':
                    rf.batch.write(stream, name + '/out', fmt, btype)
                elif entry == 'trace':
                    for k, tr in enumerate(stream):
                        tr.write('%s/one%d%s' % (name, k, ext), fmt)
                elif entry == 'halves' and fmt == 'H5':
                    n = len(stream) // 2
                    stream[:n].write(name + '/some.h5', fmt, mode='w')
                    stream[n:].write(name + '/some.h5', fmt, mode='a')
                else:
                    stream.write(name + '/some' + ext, fmt)
            # the process that saves dies right after the save
            R.log('save', fmt, entry, how)
            nops = _in_dying_child(R, plan, save)
            R.log('operations', nops)
            traces = []
            files = [f for f in C.all_files(name) if f.endswith(ext)]
            rfs = SimFS(R, os.getcwd(), short_read=plan['short'],
                        logops=False)
            restore = install_h5(rfs)
            with rfs:
                for f in files:
                    traces.extend(read_rf(f, fmt).traces)
            restore()
            R.nontrivial = True
            R.probe('saved_' + fmt)
            chain += fmt[0]
            R.state(chain, entry, tuple(sorted(
                set(HEAD + TEXT + TIMES) - set(models[0]['h']))))
            byid = {}
            for tr in traces:
                byid.setdefault(tr.id, []).append(tr)
            want = [m['id'] for m in models]
            for i in sorted(set(byid) | set(want)):
                if len(byid.get(i, ())) != want.count(i):
                    R.violation('%s:traces' % fmt, '%s (%s): %d traces with '
                                'id %s instead of %d' % (
                                    fmt, entry, len(byid.get(i, ())), i,
                                    want.count(i)))
                    return
            tol = {'SAC': 1.2e-3, 'Q': 1.2e-3, 'H5': 2e-6}[fmt]
            acc['t'] = tol
            for m in models:
                tr = byid[m['id']][0]
                d = check_trace(tr, m, fmt, tol)
                if d:
                    R.violation('%s:%s' % (fmt, d[0]), '%s (%s) after %s: '
                                'trace %s: %s' % (fmt, entry, chain, m['id'],
                                                  d[1]))
                    return
            if fmt != 'H5':
                from obspy import read
                for f in C.all_files(name):
                    if not f.endswith(ext):
                        continue
                    for tr in read(f, fmt):
                        i = tr.id
                        if fmt == 'Q' and tr.stats.station.count('.') > 1:
                            i = '.'.join(tr.stats.station.split('.')[:3] +
                                         [tr.stats.channel])
                        m = models[want.index(i)]
                        d = check_fields(tr, m, fmt, tol)
                        if d:
                            R.violation('%s:field' % fmt, '%s (%s) after %s: '
                                        'trace %s: %s' % (fmt, entry, chain,
                                                          m['id'], d))
                            return
                R.probe('fields_checked')
            if cont:
                # go on with what was read
                stream = stream.__class__([byid[m['id']][0] for m in models])
                new = [model_of(tr) for tr in stream]
                for n, m in zip(new, models):
                    n['unknown'] = set(m['unknown'])
                models = new
            else:
                # saving in this process as well, for its side effects
                # on the headers in memory
                os.makedirs(name + 'm', exist_ok=True)
                here = name
                name = name + 'm'
                save()
                name = here


def _in_dying_child(R, plan, func):
    from dst.fs import SimFS, install_h5
    import sys
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            fs = SimFS(R, os.getcwd(), short_write=plan['short'],
                       logops=False)
            restore = install_h5(fs)
            with fs:
                func()
                os.write(w, b'%d' % fs.n)
                os._exit(0)
        except BaseException as ex:
            import traceback
            os.write(w, b'E' + traceback.format_exc().encode())
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        msg = f.read()
    os.waitpid(pid, 0)
    if msg[:1] == b'E':
        raise RuntimeError('save failed: ' + msg.decode()[-1500:])
    if plan['short']:
        R.faults['short_write'] += 1
    return int(msg)
