"""R02: delivered streams hold the true samples and metadata of their pair."""
import copy

from dst import common as C
from dst import net as N
from dst.props import r01

NEEDS = ('taup',)
RUNS = {'quick': 1100, 'thorough': 40000}
RULE = ('one run: random catalogue x inventory (moved and closed stations, '
        'preferred origins), benign answer perturbations (packets, '
        'duplicates, overlaps, reordering, wider or narrower coverage, other '
        'dtypes) plus a share of faulty answers, through iter_event_data, '
        'init_data (client, plugin, waveform files) or the command line; '
        'non-trivial: at least one stream delivered; distinct by event log')
STATE_MEASURE = ('distinct (access mode, phase, answer perturbation set, '
                 'station epochs, event variant) combinations of delivered '
                 'pairs')
REAL = C.REAL_ALL
STUBS = C.STUB_NET + C.STUB_TAUP + C.STUB_PBAR
ASSUMPTIONS = ['onset reference of the stubbed ray tracer is an independent '
               'formula of depth and distance',
               'answers with partial coverage at the window edges are only '
               'checked for true samples, not for the window length']


def gen(rng, tier):
    plan = r01.gen(rng, tier)
    spec = plan['world']
    plan['mode'] = rng.choice(['api', 'api', 'client', 'plugin', 'file',
                               'file', 'cli'])
    if rng.random() < .4:
        spec['pp_depth'] = rng.choice([30, 50, 120.5])
        spec['pp_phase'] = None
    if rng.random() < .25:
        spec['tt_model'] = 'ak135'
    rate = rng.choice([0, 0, .15, .3])
    benign = rng.choice([.3, 1, 1])
    for k in sorted(plan['answers']):
        plan['answers'][k] = N.gen_answer(rng, rate, benign,
                                          spec.get('pad', 10))
    plan['taup'] = {k: v for k, v in plan['taup'].items() if v == 'two'}
    for e in spec['events']:
        if e['var'] not in ('normal', 'preferred2', 'first') and \
                rng.random() < .8:
            e['var'] = 'normal'
    if plan['mode'] in ('file', 'cli'):
        spec.setdefault('window', [-20, 40])
        spec['window'] = [max(-30, spec['window'][0]),
                          min(40, spec['window'][1])]
        if spec['window'][0] >= spec['window'][1]:
            spec['window'] = [-20, 40]
    plan['nfiles'] = rng.choice([1, 2, 5])
    plan['filefmt'] = rng.choice(['MSEED', 'MSEED', 'SAC'])
    plan['grp'] = rng.randrange(10 ** 6)
    # one file data set must not contradict itself
    if plan['mode'] == 'file':
        for a in plan['answers'].values():
            if a.get('fault') not in (None, 'drop', 'none', 'empty', 'short',
                                      'gap', 'gappad'):
                a.pop('fault')
            a['dtype'] = 'int32'
        spec['dtype'] = 'int32'
        t = 0
        for e in spec['events']:    # keep the windows apart
            e['t'] = max(e['t'], t + 7200)
            t = e['t']
    return plan


def shrink(plan):
    yield from C.shrink_world(plan)
    yield from C.shrink_answers(plan)
    yield from C.shrink_answers(plan, 'taup')
    yield from C.simplify(plan, 'mode', ['api', 'client'])
    yield from C.simplify(plan, 'nfiles', [1])


def execute(plan, R):
    from dst.world import World, TaupStub, SimPbar
    w = World(plan['world'])
    dc = N.DataCentre(w, R, plan['answers'])
    mode = plan['mode']
    kw = C.options(plan['world'])
    taup = None
    if not plan['world'].get('real_taup'):
        taup = TaupStub(R, w, r01.taup_fault(w, plan['taup'])).install()
    else:
        R.probe('real_taup')
    cat, inv = w.catalog(), w.inventory()
    events = cat if plan['catalog'] else list(cat)
    pbar = SimPbar(R) if plan['pbar'] else None
    streams = []
    try:
        if mode == 'cli':
            ev, iv = C.write_world(w)
            with C.patched_client(dc), C.patched_tqdm():
                C.cli(['data', 'out'], conf='null', events=ev, inventory=iv,
                      data='fdsn', format=plan['fmt'], options=kw)
            per = {}
            for f, tr in C.read_all('out', plan['fmt']):
                per.setdefault(r01.pair_of(w, tr), []).append(tr)
            streams = [per[k] for k in sorted(per, key=str)]
        else:
            if mode == 'api':
                source = dc.get_waveforms
            elif mode == 'client':
                import rf.batch
                with C.patched_client(dc):
                    source = rf.batch.init_data('fdsn')
            elif mode == 'plugin':
                import sys
                import types
                import rf.batch
                m = types.ModuleType('rfsim_plugin')
                m.func = dc.get_waveforms
                sys.modules['rfsim_plugin'] = m
                source = rf.batch.init_data('plugin',
                                            plugin='rfsim_plugin : func')
            else:
                source = file_source(plan, w, dc, R)
            for stream in r01.iterate(events, inv, source, pbar, kw):
                R.log('yield', *[tr.id for tr in stream])
                streams.append(stream)
    finally:
        if taup:
            taup.restore()
    # -- requests -----------------------------------------------------------
    for q in dc.requests:
        p = q['pair']
        if p is None:
            R.violation('unexpected-request', 'request %s.%s.%s.%s %s - %s '
                        'belongs to no pair' % (
                            q['net'], q['sta'], q['loc'], q['cha'], q['t1'],
                            q['t2']))
            continue
        m = w.pair(*p)
        t1 = m['onset'] + w.window[0] - w.pad
        t2 = m['onset'] + w.window[1] + w.pad
        if abs(q['t1'] - t1) > 1e-3 or abs(q['t2'] - t2) > 1e-3:
            R.violation('request-window', 'pair %s: requested %s - %s, '
                        'expected %s - %s' % (p, q['t1'], q['t2'], t1, t2))
        s = w.stations[p[1]]
        want = {s['band'] + c for c in 'ZNE123'}
        real = {s['band'] + c for c in s['comps']}
        if not (real <= q['chans'] <= want):
            R.violation('request-channels', 'pair %s: requested %s' % (
                p, q['cha']))
    # -- delivered streams ---------------------------------------------------
    for stream in streams:
        check_stream(plan, w, R, stream, mode)
        R.nontrivial = True


def file_source(plan, w, dc, R):
    """Waveform files of the same data, written before and read by rf."""
    import random
    from obspy import Stream
    import rf.batch
    rng = random.Random(plan['grp'])
    traces = []
    for i in range(len(w.events)):
        for j in range(len(w.stations)):
            p = w.pair(i, j)
            if p is None:
                continue
            a = plan['answers'].get('%d,%d' % (i, j), {})
            if a.get('fault') in ('exc', 'none', 'empty'):
                continue
            st = dc.answer(dict(a), i, j,
                           p['onset'] + w.window[0] - w.pad,
                           p['onset'] + w.window[1] + w.pad)
            traces.extend(st.traces)
    if not traces:
        traces = [dc.trace(0, 'Z', 0, 10, 'int32')]
    if plan.get('filefmt') == 'SAC':
        for k, tr in enumerate(traces):
            if rng.random() < .5:
                N.stale(tr, 'sac', rng)
            tr.write('wave%03d.SAC' % k, 'SAC')
        R.probe('file_source_sac')
        return rf.batch.init_data('wave*.SAC')
    n = plan['nfiles']
    files = [[] for _ in range(n)]
    for tr in traces:
        files[rng.randrange(n)].append(tr)
    for k, trs in enumerate(files):
        if trs:
            rng.shuffle(trs)
            Stream(trs).write('wave%d.mseed' % k, 'MSEED')
    R.probe('file_source')
    return rf.batch.init_data('wave*.mseed')


def check_stream(plan, w, R, stream, mode):
    import numpy as np
    p = r01.pair_of(w, stream[0])
    if p is None or w.pair(*p) is None:
        R.violation('unknown-stream', 'stream %s belongs to no usable pair' %
                    stream[0].id)
        return
    i, j = p
    m = w.pair(i, j)
    a = plan['answers'].get('%d,%d' % p, {})
    s = w.stations[j]
    if sorted(tr.stats.channel for tr in stream) != sorted(
            s['band'] + c for c in s['comps']):
        R.violation('components', 'pair %s: %s' % (
            p, [tr.id for tr in stream]))
    R.state(mode, w.phase, sorted(set(a) - {'lat', 'seed'}),
            a.get('fault'), len(s['epochs']), w.events[i]['var'])
    exact = mode != 'cli'
    delta = 1. / s['rate']
    t1, t2 = m['onset'] + w.window[0], m['onset'] + w.window[1]
    for tr in stream:
        st = tr.stats
        R.log('trace', tr.id, st.starttime, st.npts)
        if np.ma.isMaskedArray(tr.data) and np.ma.count_masked(tr.data):
            R.violation('gap', 'pair %s %s is masked' % (p, tr.id))
            continue
        if tr.id != w.chan_key(j, tr.id[-1]):
            R.violation('id', 'pair %s has trace %s' % (p, tr.id))
            continue
        if abs(st.delta - delta) > 1e-6 * delta:
            R.violation('sampling', '%s: delta %s' % (tr.id, st.delta))
            continue
        # every sample, identified by its time
        tol = 2e-3 if not exact else 1e-6
        d, o = w.grid(j)
        k0f = ((st.starttime.ns - w.T0.ns) / 1e3 - o) / d
        k0 = int(round(k0f))
        if abs(k0f - k0) * d > tol * 1e6:
            R.violation('sample-times', 'pair %s %s starts off the sampling '
                        'grid by %s samples' % (p, tr.id, k0f - k0))
            continue
        truth = w.values(j, tr.id[-1], k0, k0 + st.npts - 1)
        if len(tr.data) != st.npts or not np.array_equal(
                np.asarray(tr.data, dtype=float), truth):
            bad = np.nonzero(np.asarray(tr.data, float)[:len(truth)] !=
                             truth[:len(tr.data)])[0]
            R.violation('samples', 'pair %s %s: %d of %d samples differ from '
                        'the data source (first at %s)' % (
                            p, tr.id, len(bad), st.npts, bad[:1]))
            continue
        # window
        h = .56 * delta + 2e-6 + tol * (not exact)
        if a.get('fault') in ('rate', 'ratepad'):
            # obspy aligns the cut to the segment with the odd sampling rate
            h = 1.05 * delta
        if w.pad < delta:   # the source has no sample outside the window
            h = delta + 2e-6 + tol * (not exact)
        lo, hi = st.starttime - t1, st.endtime - t2
        if a.get('fault') != 'short':
            if abs(lo) > h or abs(hi) > h:
                R.violation('window', 'pair %s %s: window is off by %s s at '
                            'the start and %s s at the end (delta %s)' % (
                                p, tr.id, lo, hi, delta))
        elif lo < -h or hi > h:
            R.violation('window', 'pair %s %s: longer than the window' % (
                p, tr.id))
        check_meta(plan, w, R, p, tr, m, mode)


def check_meta(plan, w, R, p, tr, m, mode):
    from obspy import UTCDateTime as UTC
    st = tr.stats
    rel = 1e-9 if mode != 'cli' else 2e-6
    for k, v in m.items():
        if mode == 'cli' and k == 'event_id' and plan['fmt'] != 'H5':
            continue
        if k not in st:
            R.violation('meta-missing', 'pair %s %s: no %s' % (p, tr.id, k))
            continue
        x = st[k]
        if isinstance(v, UTC):
            ok = abs(UTC(x) - v) <= (1e-6 if mode != 'cli' else 2e-3)
        elif isinstance(v, str):
            ok = str(x) == v
        else:
            ok = abs(x - v) <= rel * max(1., abs(v))
        if not ok:
            R.violation('meta:' + k, 'pair %s %s: %s is %s, should be %s' % (
                p, tr.id, k, x, v))
    if plan['world'].get('pp_depth'):
        depth = plan['world']['pp_depth']
        R.probe('pp')
        if 'pp_depth' not in st or abs(st.pp_depth - depth) > 1e-4:
            R.violation('meta:pp_depth', 'pair %s: pp_depth missing' % (p,))
            return
        from rf.simple_model import load_model
        ref = {k: m[k] for k in ('slowness', 'back_azimuth',
                                 'station_latitude', 'station_longitude')}
        la, lo = load_model().ppoint(
            ref, depth, phase='P' if w.phase.upper().endswith('S') else 'S')
        tol = 1e-9 if mode != 'cli' else 1e-4
        if abs(st.pp_latitude - la) > tol or abs(st.pp_longitude - lo) > tol:
            R.violation('meta:pp', 'pair %s: piercing point %s %s, should be '
                        '%s %s' % (p, st.pp_latitude, st.pp_longitude, la,
                                   lo))
