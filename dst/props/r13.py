"""R13: derived products never alter their inputs or the data source."""
import contextlib
import copy
import os

from dst import common as C
from dst import ops as O
from dst import streams as S
from dst import world as W

NEEDS = ('plot',)
RUNS = {'quick': 1300, 'thorough': 40000}
RULE = ('one run: either several clients share a pool of streams and take '
        'turns deriving products (stack, profile, harmonics, copy, slice, '
        'save, plot) and processing pool members in place, or clients '
        'retrieve overlapping windows from a data source in memory and '
        'process what they got in place; non-trivial: at least one derived '
        'product was followed by in-place processing of its input or the '
        'reverse, or two windows overlapped; distinct by event log')
STATE_MEASURE = ('distinct (derivation, in-place operation on input or '
                 'product) pairs, and request overlaps by source')
REAL = C.REAL_ALL + ['cartopy', 'shapely', 'matplotlib (Agg)']
STUBS = C.STUB_TAUP
ASSUMPTIONS = ['slices share samples with their parent as ObsPy documents, so '
               'in-place changes of samples may show in them',
               'format-specific header blocks (stats.sac, stats.sh) are '
               'working space of the writers']

DERIVE = ['stack', 'stack', 'profile', 'profile', 'harmonics', 'harmonics',
          'copy', 'slice2', 'save', 'iter3c', 'str', 'plot']
INPLACE = ['imul', 'poke', 'proc', 'moveout', 'ppoints', 'filter', 'header',
           'trim2', 'deconv', 'detrend', 'pop']


CALLEES = ['numpy.mean', 'numpy.linalg.lstsq', 'numpy.array', 'numpy.vstack',
           'numpy.hstack', 'numpy.max', 'numpy.fft.fft', 'numpy.zeros',
           'numpy.sum', 'numpy.linspace', 'numpy.abs', 'numpy.cos',
           'numpy.reshape', 'numpy.ones', 'numpy.append', 'numpy.isnan',
           'numpy.deg2rad', 'numpy.arange',
           'obspy.core.trace.Trace.trim', 'obspy.core.trace.Trace.slice',
           'obspy.core.trace.Trace.copy', 'obspy.core.stream.Stream.copy',
           'obspy.core.stream.Stream.select', 'obspy.core.stream.Stream.sort',
           'obspy.core.stream.Stream.write', 'obspy.core.trace.Trace.times',
           'matplotlib.pyplot.figure', 'matplotlib.figure.Figure.savefig',
           'matplotlib.figure.FigureBase.add_axes', 'rf.rfstream.RFTrace.__init__',
           'rf.rfstream.RFStream.__init__', 'copy.deepcopy', 'copy.copy',
           'h5py.File', 'obspyh5.trace2group', 'json.dumps',
           'obspy.core.utcdatetime.UTCDateTime.__init__']


def gen(rng, tier):
    if rng.random() < .3:
        return gen_source(rng)
    kind = rng.choice(['rf', 'rf', 'rf', 'raw'])
    method = rng.choice(['P', 'P', 'S'])
    spec = O.gen_rfspec(rng, kind=kind, method=method, nev=(1, 4),
                        npts=(60, 120))
    for t in spec:
        r = rng.random()
        if r < .6:
            t['proc'] = ['step one', 'step two']
    steps = []
    for _ in range(rng.randint(2, 8)):
        if rng.random() < .5:
            d = rng.choice(DERIVE)
            if d == 'plot' and rng.random() < .5:
                d = 'stack'
            steps.append(['derive', rng.randrange(100), d,
                          O.gen_op(rng, 'rf', method, spec=spec)
                          if d == 'x' else rng.randrange(1000)])
            if d in ('profile', 'harmonics') and rng.random() < .35:
                # go on with what was derived
                steps.append(['derive', -1, rng.choice(['plot', 'plot', 'str',
                                                        'save', 'copy']),
                              rng.randrange(1000)])
            elif rng.random() < .3:
                # position among all calls of these functions
                steps[-1].append({'pos': round(rng.random(), 4),
                                  'kind': round(rng.random(), 4),
                                  'what': rng.choice(['mem', 'mem', 'ki'])})
        else:
            steps.append(['inplace', rng.randrange(100), rng.choice(INPLACE),
                          rng.randrange(1000)])
    if rng.random() < .08 and kind == 'rf':
        # look at one product after the other
        steps = []
        for _ in range(rng.randint(1, 2)):
            steps.append(['derive', 0, rng.choice(['profile', 'profile',
                                                   'harmonics', 'stack']),
                          rng.randrange(1000)])
            for _ in range(rng.randint(1, 3)):
                steps.append(['derive', -1, 'plot', rng.randrange(1000)])
    if rng.random() < .06:
        # example streams of the package join the pool
        m = rng.choice('PS')
        for _ in range(rng.randint(2, 3)):
            steps.insert(rng.randrange(len(steps) + 1),
                         ['example', 0, m if rng.random() < .8 else 'P', 0])
        for _ in range(2):
            steps.insert(rng.randrange(len(steps) + 1),
                         ['inplace', rng.randrange(100), rng.choice(INPLACE),
                          rng.randrange(1000)])
    return {'mode': 'pool', 'stream': spec, 'method': method, 'steps': steps}


def gen_source(rng):
    spec = C.gen_world(rng, rng.randint(1, 4), rng.randint(1, 2),
                       phase=rng.choice(['P', 'P', 'S']), far=.05,
                       epochs=False, rates=[1, 2, 5], same_rate=True,
                       signal='seis', hours=(.004, .05), bands=('BH', 'HH'))
    spec['window'] = rng.choice([[-20, 40], [-60, 80], [-30, 30]])
    spec['pad'] = rng.choice([0, 5, 20])
    reqs = []
    for _ in range(rng.randint(0, 4)):
        reqs.append([rng.randrange(2), rng.choice(['???', 'BH?', 'HH?', '??Z']),
                     rng.randint(-50, 50), rng.randint(10, 100),
                     rng.choice(INPLACE)])
    return {'mode': 'source', 'world': spec, 'reqs': reqs,
            'fmt': rng.choice(['MSEED', 'MSEED', 'H5', 'SAC']),
            'dtype': rng.choice(['f8', 'f8', 'f4', 'i4']),
            'split': rng.choice([0, 0, 1]),
            'inplace': [rng.choice(INPLACE) for _ in range(5)],
            'passes': rng.choice([1, 2])}


def shrink(plan):
    if plan['mode'] == 'pool':
        yield from C.drop_from_list(plan, 'steps', 1)
        n = len(plan['stream'])
        for k in (3, 6):
            if k < n:
                p = copy.deepcopy(plan)
                p['stream'] = plan['stream'][:k]
                yield p
        if any('proc' in t for t in plan['stream']):
            p = copy.deepcopy(plan)
            for t in p['stream']:
                t.pop('proc', None)
            yield p
    else:
        yield from C.shrink_world(plan)
        yield from C.drop_from_list(plan, 'reqs')
        yield from C.simplify(plan, 'passes', [1])
        yield from C.simplify(plan, 'split', [0])
        for i in range(5):
            if plan['inplace'][i] != 'poke':
                p = copy.deepcopy(plan)
                p['inplace'][i] = 'poke'
                yield p


def inplace(stream, what, arg, method='P'):
    """Change a stream in place the way users do."""
    import numpy as np
    if not len(stream):
        return
    if what == 'imul':
        for tr in stream:
            tr.data *= -3
    elif what == 'poke':
        tr = stream[arg % len(stream)]
        if len(tr.data):
            tr.data[arg % len(tr.data)] = 77
            tr.data[:5] = 55
    elif what == 'proc':
        for tr in stream:
            tr.stats.setdefault('processing', []).append('by client %d' % arg)
    elif what == 'moveout':
        stream.moveout(ref=[5.5, 6.4, 7.][arg % 3] if method == 'P' else 10.,
                       phase='Ps' if method == 'P' else 'Sp')
    elif what == 'ppoints':
        stream.ppoints([20, 50][arg % 2], pp_phase='SP'[method == 'S'])
    elif what == 'filter':
        stream.filter('lowpass', freq=.2)
    elif what == 'header':
        for tr in stream:
            tr.stats.back_azimuth = 1.5
            tr.stats.note = arg
    elif what == 'trim2':
        stream.trim2(-5, 6, 'onset')
    elif what == 'deconv':
        for tr in stream:
            tr.data = -tr.data
    elif what == 'detrend':
        stream.detrend('demean')
    elif what == 'pop':
        stream.traces.pop()


def locate(flt, func):
    """Which call of which function fails: any function that is called is
    as likely as any other."""
    counts = {}
    with contextlib.ExitStack() as es:
        for c in CALLEES:
            es.enter_context(O.counted_call(c, counts))
        try:
            func()
        except Exception:
            return None
    names = sorted(counts)
    if not names:
        return None
    c = names[int(flt['kind'] * len(names))]
    return {'callee': c, 'nth': 1 + int(flt['pos'] * counts[c]),
            'what': flt['what']}


def derive(s, what, arg, boxes, tag, R):
    from rf import IterMultipleComponents, read_rf
    new = []
    before = frozen_boxes(boxes)
    if what == 'stack':
        new = [s.stack()]
    elif what == 'profile':
        if arg % 3 == 0:
            from rf.profile import profile
            new = [profile(iter(s), boxes)]
        else:
            new = [s.profile(boxes)]
    elif what == 'harmonics':
        comp = s[0].stats.channel[-1]
        comps = {t.stats.channel[-1] for t in s}
        c = 'R' if 'R' in comps else 'Q'
        if arg % 2 and 'T' in comps:
            c += 'T'
        new = [s.harmonics(c, method=['time', 'freq'][arg % 2],
                           azim=arg % 7)]
    elif what == 'copy':
        new = [s.copy()]
    elif what == 'slice2':
        new = [s.slice2(-4, 5, 'onset')]
    elif what == 'save':
        fmt = ['SAC', 'Q', 'H5'][arg % 3]
        ext = {'SAC': '.SAC', 'Q': '.QHD', 'H5': '.h5'}[fmt]
        s.write(tag + ext, fmt)
        new = [read_rf(f, fmt) for f in C.all_files('.')
               if f.startswith(tag + '.') or f.startswith(tag + '0') and f.endswith(ext)]
    elif what == 'iter3c':
        new = [t for t in IterMultipleComponents(s, 'onset')]
    elif what == 'str':
        str(s)
    elif what == 'plot':
        plot(s, arg, boxes)
    if frozen_boxes(boxes) != before:
        R.violation('boxes-changed', '%s changed boxes' % what)
    return new


def frozen_boxes(boxes):
    return [(sorted(b), b['pos'], b['length'], tuple(b['latlon']),
             b['poly'].wkb, repr(b.get('profile'))) for b in boxes]


def execute(plan, R):
    if plan['mode'] == 'source':
        return run_source(plan, R)
    import numpy as np
    from rf import get_profile_boxes, IterMultipleComponents, read_rf
    st = O.build(plan['stream'])
    method = plan['method']
    # (stream, alias group, how it was made)
    pool = [(st, 0, 'input')]
    frozen = [S.freeze(st)]
    ngroup = 1
    h = plan['stream'][0]['h']
    boxes = get_profile_boxes((h['station_latitude'],
                               h['station_longitude']), 90,
                              [-400, -40, -10, 0, 15, 50, 400], 2000)
    examples = {}
    for n, (kind, k, what, arg, *flt) in enumerate(plan['steps']):
        k = k % len(pool)
        fail = contextlib.nullcontext()
        s, group, made = pool[k]
        R.log('step', n, kind, k, what, arg)
        new = []
        newgroup = None
        entered = False
        try:
            if kind == 'example':
                from rf import util
                with O.taup():
                    new = [util.minimal_example_rf() if what == 'P' else
                           util.minimal_example_Srf()]
                f = S.freeze(new[0])
                if examples.setdefault(what, f) != f:
                    R.violation('coupled:example', 'step %d: the example '
                                'stream is not the original one: %s' % (
                                    n, S.diff_frozen(f, examples[what])))
                    return
                what = 'example'
            elif kind == 'derive':
                if what == 'profile' and 'pp_latitude' not in s[0].stats:
                    s.ppoints(40, pp_phase='SP'[method == 'S'])
                    frozen[k] = S.freeze(s)
                    for i, (t, g, _) in enumerate(pool):
                        if g == group:
                            frozen[i] = S.freeze(t)
                if flt:
                    flt = locate(flt[0], lambda: derive(
                        s.copy(), what, arg, boxes, 'g%d' % n, R))
                    fail = O.failing_call(flt, R) if flt else fail
                fail.__enter__()
                entered = True
                new = derive(s, what, arg, boxes, 'f%d' % n, R)
                if what in ('slice2', 'iter3c'):
                    newgroup = group
            else:
                inplace(s, what, arg, method)
        except (Exception, KeyboardInterrupt) as ex:
            # not every operation suits every stream
            ex.__traceback__ = None
            R.log('refused', type(ex).__name__)
            R.probe(('failed_' if flt else 'refused_') + what)
            if kind == 'inplace':
                for i, (t, g, _) in enumerate(pool):
                    if g == group:
                        frozen[i] = S.freeze(t)
        finally:
            if entered:
                fail.__exit__(None, None, None)
        # independent streams stay what they were
        for i, (t, g, m) in enumerate(pool):
            f = S.freeze(t)
            if kind == 'inplace' and g == group:
                frozen[i] = f
                continue
            if f != frozen[i]:
                d = S.diff_frozen(f, frozen[i])
                if kind == 'derive':
                    R.violation('input-changed:' + what,
                                'step %d: %s of a stream (%s) changed a '
                                'stream (%s): %s' % (n, what, made, m, d))
                else:
                    R.violation('coupled:%s-%s' % tuple(sorted((made, m))),
                                'step %d: processing (%s) of a stream (%s) '
                                'changed another stream (%s): %s' % (
                                    n, what, made, m, d))
                return
        if kind == 'inplace':
            R.state(made, what)
            if len({g for _, g, _ in pool}) > 1:
                R.nontrivial = True
            R.probe('inplace')
        for t in new:
            if not len(t):
                continue
            if newgroup is None:
                g, ngroup = ngroup, ngroup + 1
            else:
                g = newgroup
            pool.append((t, g, what))
            frozen.append(S.freeze(t))
            R.probe('derived_' + what)


def plot(s, arg, boxes):
    import random
    import matplotlib.pyplot as plt
    from rf import imaging
    rng = random.Random(arg)
    try:
        typ = s[0].stats.get('type')
        one = rng.random() < .5

        def sel(pre):
            # the stream of the client itself or a part of it
            return s if one else s.select(
                channel=pre + s[0].stats.channel[len(pre):])
        trim = rng.choice([None, (-5, 5), (-1, 7)])
        fill = rng.choice([(None, None), ('b', 'r')])
        if rng.random() < .25:
            pps = [(tr.stats.pp_latitude, tr.stats.pp_longitude)
                   for tr in s if 'pp_latitude' in tr.stats]
            keep = list(pps)
            how = rng.choice(['stations', 'ppoints', 'profile'])
            if how == 'stations':
                imaging.plot_stations(s)
            elif how == 'ppoints' and pps:
                imaging.plot_ppoints(pps, inventory=s)
            else:
                imaging.plot_profile_map(boxes, inventory=s,
                                         ppoints=pps or None)
            assert pps == keep
        elif typ == 'profile':
            sel('??').plot_profile(
                'x.png', trim=trim, fillcolors=fill, scale=rng.choice([1, 3]),
                top=rng.choice([None, 'hist']), moveout_model=rng.choice(
                    [None, 'iasp91']))
        elif typ == 'harmonic':
            imaging.plot_harmonics(s, trim=trim, fillcolors=fill, hd2=rng.choice(
                [None, s]))
        else:
            sel('').plot_rf(
                'x.png', show_vlines=bool(arg % 2), trim=trim, fillcolors=fill,
                trace_scale=rng.random() < .5, info=rng.choice(
                    [None, (('back_azimuth', 'baz', 'C0'),)]),
                show_traces=rng.random() < .8,
                scale_factor=rng.choice([1, 2]))
    finally:
        plt.close('all')


def run_source(plan, R):
    """Overlapping requests to a source which keeps its data in memory."""
    import pickle
    spec = plan['world']
    w = W.World(spec)
    stub = W.TaupStub(R, w).install()
    write_file(plan, w)
    for mode in (0, 1):
        # first pass without, second with processing of what was delivered
        R.log('--- pass', mode)
        res = deliveries(plan, w, R, mode)
        if mode == 0:
            expected = res
    stub.restore()
    R.log(len(expected), len(res))
    if len(expected) != len(res):
        R.violation('source:deliveries', '%d deliveries instead of %d' % (
            len(res), len(expected)))
    for n, (a, b) in enumerate(zip(res, expected)):
        if a != b:
            R.violation('source-changed', 'delivery %d after processing of '
                        'earlier ones: %s' % (n, S.diff_frozen(a, b)))
            return


def write_file(plan, w):
    import numpy as np
    from obspy import Stream, Trace
    st = Stream()
    ons = [w.pair(i, j)['onset'] for i in range(len(w.events))
           for j in range(len(w.stations)) if w.pair(i, j)]
    if not ons:
        ons = [w.time(0) + 600]
    t1, t2 = min(ons) - 150, max(ons) + 150
    for j, s in enumerate(w.stations):
        k1, k2 = w.k_range(j, t1, t2)
        for c in 'ZNE':
            x = w.values(j, c, k1, k2)
            x = np.asarray(x, float)
            if plan['dtype'] == 'i4':
                x = np.round(x * 1000 / max(1e-9, np.max(np.abs(x))))
            h = {'network': s['net'], 'station': s['sta'],
                 'location': s['loc'], 'channel': s['band'] + c,
                 'sampling_rate': s['rate'], 'starttime': w.k_time(j, k1)}
            tr = Trace(x.astype(plan['dtype']), header=h)
            if plan['split'] and len(x) > 50:
                m = len(x) // 2
                for a, b in ((0, m), (m, len(x))):
                    t = tr.copy()
                    t.data = tr.data[a:b].copy()
                    t.stats.starttime = w.k_time(j, k1 + a)
                    st.append(t)
            else:
                st.append(tr)
    os.makedirs('src', exist_ok=True)
    if plan['fmt'] == 'SAC':
        for i, tr in enumerate(st):
            tr.write('src/d%02d.SAC' % i, 'SAC')
    elif plan['fmt'] == 'H5':
        st.write('src/d.h5', 'H5')
    else:
        st.write('src/d.mseed', 'MSEED')


def deliveries(plan, w, R, mode):
    from rf import RFStream
    from rf.batch import init_data
    from rf.util import iter_event_data
    source = init_data('src/*')
    out = []
    spans = []
    meth = w.method
    n = 0

    def direct(req):
        j, cha, a, length, ip = req
        s = w.stations[j % len(w.stations)]
        ons = [p['onset'] for p in (w.pair(i, j % len(w.stations))
                                    for i in range(len(w.events))) if p]
        t = (ons[0] if ons else w.time(0) + 600) + a
        st = source(network=s['net'], station=s['sta'], location=s['loc'],
                    channel=cha, starttime=t, endtime=t + length)
        if st is None:
            out.append(None)
            return
        out.append(S.freeze(st))
        spans.append((j, t.timestamp, t.timestamp + length))
        if mode:
            safe(st, ip, n)

    def safe(st, ip, k):
        try:
            inplace(RFStream(st) if type(st).__name__ == 'Stream' else st, ip,
                    k, meth)
        except Exception as ex:
            R.log('refused', type(ex).__name__)
        if ip in ('imul', 'poke'):
            R.probe('processed_in_place')
    reqs = list(plan['reqs'])
    for _ in range(plan['passes']):
        it = iter_event_data(w.catalog(), w.inventory(), source,
                             **C.options(plan['world']))
        for stream in it:
            R.log('delivered', stream[0].id, stream[0].stats.starttime)
            out.append(S.freeze(stream))
            st = stream[0].stats
            spans.append((st.station, st.starttime.timestamp,
                          st.endtime.timestamp))
            if mode:
                safe(stream, plan['inplace'][n % 5], n)
            n += 1
            if reqs:
                direct(reqs.pop(0))
    while reqs:
        direct(reqs.pop(0))
    ov = 0
    for i, x in enumerate(spans):
        for y in spans[:i]:
            if x[1] < y[2] and y[1] < x[2]:
                ov += 1
    if ov:
        R.nontrivial = True
        R.probe('overlapping_requests', ov)
        R.state('source', plan['fmt'], plan['dtype'], min(ov, 20),
                plan['split'])
    return out
