"""
Operations of simulated clients on receiver function streams.

A client owns a stream (described by a spec, see `gen_rfspec`) and a list of
operations given as JSON.  `run_op` applies one operation and returns a plain,
picklable description of its result.
"""
import contextlib
import importlib
import os

import numpy as np

from dst import streams as S


# -- streams fit for receiver functions ---------------------------------------

def gen_rfspec(rng, nev=(1, 3), nst=(1, 2), kind='raw', method='P', comps=None,
               npts=(120, 240), rates=(2, 4), same=True, sig='noise',
               meta=True, groups=None):
    """Event-station groups of three components with complete headers."""
    n, rate = rng.randint(*npts), rng.choice(rates)
    on = round(n / rate * (.3 if method == 'P' else .6), 1)
    sts = []
    for i in range(rng.randint(*nst)):
        sts.append({'id': ['AA', 'S%02d' % i, rng.choice(['', '00']),
                           rng.choice(['BH', 'HH'])],
                    'lat': round(rng.uniform(-60, 60), 2),
                    'lon': round(rng.uniform(-170, 170), 2),
                    'elev': rng.randint(0, 3000)})
    evs = []
    for e in range(rng.randint(*nev)):
        evs.append({'t': 10 ** 6 * (e + 1) + rng.randrange(9 * 10 ** 5),
                    'mag': round(rng.uniform(5, 8), 1),
                    'depth': rng.choice([0, 10, 33.5, 600])})
    comps = comps or ('ZNE' if kind == 'raw' else rng.choice(['LQT', 'ZRT']))
    out = []
    for st in sts:
        for e in evs:
            tt = 500 + rng.randrange(300) + rng.choice([0, .25, .5])
            if not same:
                n = rng.randint(*npts)
            slow = round(rng.uniform(4.7, 8.8) if method == 'P' else
                         rng.uniform(9., 12.), 3)
            h = {'station_latitude': st['lat'], 'station_longitude': st['lon'],
                 'station_elevation': st['elev'],
                 'event_latitude': round(rng.uniform(-80, 80), 2),
                 'event_longitude': round(rng.uniform(-170, 170), 2),
                 'event_depth': e['depth'], 'event_magnitude': e['mag'],
                 'event_time': e['t'], 'phase': method,
                 'distance': round(rng.uniform(31, 89), 2),
                 'back_azimuth': round(rng.uniform(0, 359.9), 2),
                 'inclination': round(rng.uniform(10, 35), 2),
                 'slowness': slow}
            if kind == 'rf':
                h['type'] = 'rf'
            seed = rng.randrange(10 ** 6)
            for c in comps:
                out.append({'id': st['id'][:3] + [st['id'][3] + c],
                            'npts': n, 'rate': rate, 't0': e['t'] + tt,
                            'on': on, 'seed': seed + ord(c), 'dtype': 'f8',
                            'h': dict(h), 'sig': sig})
    return out


def twin(rng, spec, rate=True):
    """Other data of the same shape, perhaps with another sampling rate."""
    import copy
    spec = copy.deepcopy(spec)
    f = 1
    if rate:
        f = 2 if spec[0]['h'].get('phase') != 'S' else .5
    d = rng.randrange(1, 10 ** 5)
    for t in spec:
        t['seed'] += d
        t['rate'] *= f
        t['h']['slowness'] = round(t['h']['slowness'] + .05, 3)
    return spec


def build(spec):
    stream = S.build(spec)
    for t, tr in zip(spec, stream):
        if t.get('sig') == 'noise':
            # a pulse at the onset and some coda make deconvolution sane
            k = int(round(t['on'] * t['rate']))
            c = t['id'][3][-1]
            amp = {'Z': 1., 'L': 1.}.get(c, .3)
            if t['h'].get('phase') == 'S':
                amp = {'N': 1., 'E': .8, 'Q': 1., 'R': 1.}.get(c, .3)
            x = tr.data * .02
            for lag, a in ((0, 1), (2, .5), (9, .3), (17, -.2)):
                for w, b in ((0, 1), (1, .6), (2, .2), (-1, .4)):
                    i = k + lag + w
                    if 0 <= i < len(x):
                        x[i] += amp * a * b * (1 + .1 * np.sin(t['seed'] + i))
            tr.data = x
    return stream


# -- model files -----------------------------------------------------------------

def write_models(d='.'):
    """Further velocity models next to the built-in one.

    The same relative names are other models in the directory sub.
    """
    _write_models(d, 6.1, '0 5.0 2.8 0')
    _write_models(os.path.join(d, 'sub'), 5.5, '0 5.3 2.8 0')


def _write_models(d, v, top):
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'fast.dat'), 'w') as f:
        for z in list(range(0, 100, 5)) + list(range(100, 820, 20)):
            f.write('%.1f %.3f %.3f\n' % (z, v + z * .006, v - 2.6 + z * .0035))
    os.makedirs(os.path.join(d, 'sub'), exist_ok=True)
    with open(os.path.join(d, 'sub', 'fast.dat'), 'w') as f:
        for z in list(range(0, 100, 5)) + list(range(100, 820, 20)):
            f.write('%.1f %.3f %.3f\n' % (z, v - .3 + z * .006,
                                       v - 2.8 + z * .0035))
    with open(os.path.join(d, 'crust.dat'), 'w') as f:
        f.write(top + '\n' + top + '\n20 6.0 3.4 10\n45 6.8 3.8 10\n'
                '45 8.1 4.5 0\n410 9.0 4.9 30\n800 11. 6. 30\n')


# -- normal form of results --------------------------------------------------------

def norm_stream(stream, skip=S.FORMAT_BLOCKS):
    out = []
    for tr in stream:
        st = tr.stats
        out.append((tr.id, np.array(tr.data, copy=True),
                    tuple(sorted((k, S.freeze_value(st[k]) if not
                                  isinstance(st[k], float) else
                                  float(st[k])) for k in st.keys()
                                 if k not in skip))))
    return ('stream', out)


def norm(x):
    from obspy import Stream
    if isinstance(x, Stream):
        return norm_stream(x)
    if isinstance(x, np.ndarray):
        return ('array', np.array(x, copy=True))
    if isinstance(x, (list, tuple)):
        return ('list', [norm(y) for y in x])
    if isinstance(x, float):
        return ('float', float(x))
    if hasattr(x, 'items'):
        return ('map', sorted((str(k), norm(v)) for k, v in x.items()))
    return ('value', S.freeze_value(x))


def close(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind not in 'fiuc' or b.dtype.kind not in 'fiuc':
        return bool(np.array_equal(a, b))
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False
    if a.size == 0:
        return True
    b0 = np.where(nb, 0, b)
    scale = np.max(np.abs(b0)) if b.size else 0
    d = np.abs(np.where(na, 0, a) - b0)
    return bool(np.all(d <= tol * max(scale, 1e-300)))


def diff(a, b, tol=1e-8):
    """Text on the first difference of two normal forms, or None."""
    if a[0] != b[0]:
        return '%s instead of %s' % (str(a)[:150], str(b)[:150])
    k = a[0]
    if k == 'stream':
        if len(a[1]) != len(b[1]):
            return '%d traces instead of %d' % (len(a[1]), len(b[1]))
        for (i, x, h), (j, y, g) in zip(a[1], b[1]):
            if i != j:
                return 'id %s instead of %s' % (i, j)
            if x.shape != y.shape:
                return '%s: %d samples instead of %d' % (i, len(x), len(y))
            if not close(x, y, tol):
                return '%s: samples differ by %g of %g' % (
                    i, np.nanmax(np.abs(x - y)), np.nanmax(np.abs(y)))
            h, g = dict(h), dict(g)
            for q in sorted(set(h) | set(g)):
                u, v = h.get(q), g.get(q)
                if isinstance(u, float) and isinstance(v, float):
                    if u != v and not (u != u and v != v) and \
                            abs(u - v) > tol * max(1, abs(v)):
                        return '%s: header %s is %r instead of %r' % (i, q, u,
                                                                      v)
                elif u != v:
                    return '%s: header %s is %s instead of %s' % (
                        i, q, str(u)[:200], str(v)[:200])
        return None
    if k == 'array':
        return None if close(a[1], b[1], tol) else 'arrays differ: %s %s' % (
            str(a[1])[:100], str(b[1])[:100])
    if k == 'float':
        u, v = a[1], b[1]
        return None if u == v or (u != u and v != v) or abs(u - v) <= \
            tol * max(abs(v), 1e-12) else '%r instead of %r' % (u, v)
    if k == 'list':
        if len(a[1]) != len(b[1]):
            return '%d items instead of %d' % (len(a[1]), len(b[1]))
        for x, y in zip(a[1], b[1]):
            d = diff(x, y, tol)
            if d:
                return d
        return None
    if k == 'map':
        if [x for x, _ in a[1]] != [x for x, _ in b[1]]:
            return 'keys differ'
        for (q, x), (_, y) in zip(a[1], b[1]):
            d = diff(x, y, tol)
            if d:
                return '%s: %s' % (q, d)
        return None
    return None if a == b else '%s instead of %s' % (str(a)[:200],
                                                    str(b)[:200])


# -- operations ---------------------------------------------------------------------

MODELS = ['iasp91', 'iasp91', 'fast.dat', 'crust.dat', 'sub/fast.dat']


def gen_deconv(rng, d):
    """Parameters of one deconvolution method."""
    opts = {'time': {'spiking': [.1, .5, 2.], 'normalize': [None, 1],
                     'solve_toeplitz': ['scipy']},
            'waterlevel': {'waterlevel': [.01, .1], 'gauss': [.3, 1., None],
                           'normalize': [None, 'src', 1]},
            'iterative': {'gauss': [.3, 1.], 'minderr': [.1, 1e-6],
                          'mute_shift': [True], 'normalize': [None, 1]},
            'multitaper': {'K': [2, 3, 4], 'tband': [2.5, 3, 4],
                           'T': [6, 8, 10], 'olap': [.5, .75],
                           'gauss': [.3, 1., None], 'normalize': [None]}}[d]
    keys = rng.sample(sorted(opts), rng.randint(1, min(3, len(opts))))
    return {k: rng.choice(opts[k]) for k in keys}


def gen_op(rng, kind, method, fmt=('SAC', 'Q', 'H5'), spec=None, light=False,
           inplace=None):
    """Operation for a stream of kind raw or rf"""
    P = method == 'P'
    choices = ['moveout', 'moveout', 'moveout', 'ppoints', 'ppoints',
               'stack', 'harmonics', 'save', 'save', 'iter3c', 'delay',
               'trim2', 'slice2', 'str', 'geo']
    if not light:
        choices += ['profile', 'rf', 'rf']
    if kind == 'raw':
        choices += ['rf', 'rf', 'rf']
    o = rng.choice(choices)
    model = rng.choice(MODELS)
    if o == 'moveout':
        return {'op': o, 'phase': rng.choice([None, None, 'Ps', 'Ppps',
                                              'Ppss'] if P else
                                             [None, 'Sp', 'Sp', 'Spss']),
                'ref': rng.choice([6.4, 6.4, 5.5, 7.2, 6.44, 6.4004]) if P else
                rng.choice([10., 9.5, 11., 10.03]),
                'model': model}
    if o == 'ppoints':
        return {'op': o, 'depth': rng.choice([10, 30, 34.9, 35.2, 50.5,
                                               70]),
                'phase': rng.choice([None, None, 'S', 'P', 'PPS']),
                'model': model}
    if o == 'profile':
        st = spec[0]['h'] if spec else {'station_latitude': 0,
                                        'station_longitude': 0}
        return {'op': o, 'depth': rng.choice([30, 50]),
                'latlon': [st['station_latitude'], st['station_longitude']],
                'az': rng.choice([0, 90, 210]),
                'bins': rng.choice([[-300, 0, 300], [-200, 0, 350],
                                    [-50, 0, 50, 100]]),
                'width': rng.choice([1000, 2000])}
    if o == 'rf':
        if kind == 'raw':
            d = rng.choice(['time', 'waterlevel', 'iterative', 'multitaper'])
            if not P and d == 'multitaper':
                d = 'waterlevel'
            kw = {'deconvolve': d, 'rotate': rng.choice(['ZNE->LQT',
                                                         'ZNE->LQT',
                                                         'NE->RT'])}
            if d == 'time' and rng.random() < .7:
                kw['winsrc'] = [-5, 12, 3]
            if d == 'iterative':
                kw['itmax'] = rng.choice([4, 8])
            if d == 'multitaper':
                kw.update(K=3, tband=4, T=8)
            if rng.random() < .6:
                kw.update(gen_deconv(rng, d))
            if rng.random() < .4:
                kw['filter'] = {'type': 'bandpass', 'freqmin': .05,
                                'freqmax': .7}
            if rng.random() < .3:
                kw['trim'] = [-12, 20]
            return {'op': o, 'kw': kw}
        op = {'op': 'deconv', 'method': rng.choice(['time', 'waterlevel']),
              'winsrc': [-5, 12, 3]}
        if rng.random() < .3:
            del op['winsrc']
        return op
    if o == 'save':
        return {'op': o, 'fmt': rng.choice(fmt),
                'how': rng.choice(['stream', 'batch', 'trace'])}
    if o == 'harmonics':
        return {'op': o, 'comp': rng.choice(['R', 'Q', 'RT', 'QT', 'T']),
                'azim': rng.choice([0, 30]), 'method': rng.choice(
                    ['time', 'freq'])}
    if o in ('trim2', 'slice2'):
        return {'op': o, 'a': rng.choice([-10, -8]), 'b': rng.choice([9, 15])}
    if o == 'geo':
        return {'op': o, 'shift': rng.choice([0, .0004, -.003])}
    if o == 'delay':
        return {'op': o, 'slow': rng.choice([5., 6.4, 8.]), 'ref': rng.choice(
            [6.4, 5.5, 7., 6.38]), 'phase': rng.choice(['Ps', 'PS', 'Ppps', 'Sp']),
            'model': model}
    return {'op': o}


def run_op(op, stream, d='.', tag='x'):
    """Apply op; returns the normal form of result. In-place ops change
    stream."""
    import rf.batch
    from rf import read_rf, get_profile_boxes, IterMultipleComponents
    from rf.simple_model import load_model
    o = op['op']

    def model():
        m = op.get('model', 'iasp91')
        return m if m == 'iasp91' or d == '.' else os.path.join(d, m)
    if o == 'moveout':
        stream.moveout(phase=op['phase'], ref=op['ref'], model=model())
        return norm(stream)
    if o == 'ppoints':
        return norm([stream.ppoints(op['depth'], pp_phase=op['phase'],
                                    model=model()), stream])
    if o == 'stack':
        st = stream.stack()
        st.sort(['network', 'station', 'location', 'channel'])
        return norm(st)
    if o == 'profile':
        stream.ppoints(op['depth'])
        boxes = get_profile_boxes(tuple(op['latlon']), op['az'], op['bins'],
                                  op['width'])
        res = [[b['length'], b['pos'], list(b['latlon']),
                list(b['poly'].exterior.coords)] for b in boxes]
        return norm([res, stream.profile(boxes)])
    if o == 'rf':
        kw = dict(op['kw'])
        stream.rf(**kw)
        return norm(stream)
    if o == 'deconv':
        for s in IterMultipleComponents(stream, 'onset', 3):
            kw = {'winsrc': op['winsrc']} if 'winsrc' in op else {}
            s.deconvolve(op['method'], source_components='LZ', **kw)
        return norm(stream)
    if o == 'harmonics':
        return norm(stream.harmonics(op['comp'], azim=op['azim'],
                                     method=op['method']))
    if o == 'trim2':
        stream.trim2(op['a'], op['b'], 'onset')
        return norm(stream)
    if o == 'slice2':
        return norm(stream.slice2(op['a'], op['b'], 'onset'))
    if o == 'delay':
        m = load_model(model())
        return norm([*m.stretch_delay_times(op['slow'], op['phase'],
                                            op['ref'])])
    if o == 'iter3c':
        it = IterMultipleComponents(stream, 'onset', (2, 3))
        return norm([len(it)] + [s for s in it])
    if o == 'str':
        return norm(str(stream))
    if o == 'geo':
        from rf.util import direct_geodetic
        d = op.get('shift', 0)
        return norm([direct_geodetic((tr.stats.station_latitude + d,
                                      tr.stats.station_longitude - d), 33.,
                                     500.) for tr in stream])
    if o == 'retrieve':
        return retrieve(op)
    if o == 'save':
        fmt = op['fmt']
        ext = {'SAC': '.SAC', 'Q': '.QHD', 'H5': '.h5'}[fmt]
        out = os.path.join(d, tag)
        os.makedirs(out)
        if op['how'] == 'batch':
            for s in IterMultipleComponents(stream, 'onset'):
                rf.batch.write(s, out + '/b', fmt)
        elif op['how'] == 'trace' and fmt != 'H5':
            for i, tr in enumerate(stream):
                tr.write('%s/t%02d%s' % (out, i, ext), fmt)
        else:
            stream.write(out + '/s' + ext, fmt)
        res = []
        from dst.common import all_files
        for f in all_files(out):
            if f.endswith(ext):
                res.append(os.path.relpath(f, d))
                res.append(read_rf(f, fmt))
        return norm([res, stream])
    if o == 'example':
        from rf import util
        with taup():
            s = util.minimal_example_rf() if op['method'] == 'P' else \
                util.minimal_example_Srf()
        res = norm(s)
        # whoever gets the example may do anything with it
        s[0].data[:] = 7
        s[0].stats.slowness = 1.
        s[0].stats.processing.append('mine')
        s.traces.pop()
        return res
    raise ValueError(o)


class Quiet(object):

    """Stands for the record of the run."""
    sim_time = 0

    def log(self, *args):
        pass
    fault = probe = log


DEPTH = []


@contextlib.contextmanager
def taup(world=None):
    """Fast ray tracer, near enough to the real one for real data."""
    from dst import world as W
    if world is None and DEPTH:
        # another thread has it in place already, the last one restores
        DEPTH.append(DEPTH[0])
        try:
            yield
        finally:
            DEPTH.pop()()
        return
    stub = W.TaupStub(Quiet(), world, log=False).install()
    real = W.stub_arrival

    def arrival(depth, dist, phase, align=False, model=None):
        t = 59.6 + 11.49 * dist - .0387 * dist ** 2
        return ((1.81 if phase[-1] == 'S' else 1) * (t - .1 * depth),
                ) + real(depth, dist, phase)[1:]

    def restore():
        if world is not None or not DEPTH:
            W.stub_arrival = real
            stub.restore()
    if world is None:
        W.stub_arrival = arrival
        DEPTH.append(restore)
    try:
        yield
    finally:
        if world is None:
            DEPTH.pop()
        restore()


# catalogue and inventory which a client keeps and edits
KEPT = {}


def gen_retrieve(rng):
    from dst import batchlib as B
    spec = B.gen_small_world(rng, nev=(1, 2), nst=(1, 2), far=.2)
    if rng.random() < .3:
        spec['tt_model'] = 'ak135'
    return {'op': 'retrieve', 'world': spec, 'keep': rng.random() < .5,
            'answers': {'0,0': {'fault': 'none'}} if rng.random() < .15
            else {}}


def vary_retrieve(rng, op):
    """Something is different from the last time."""
    spec = op['world']
    what = rng.choice(['station', 'station', 'event', 'model', 'window',
                       'pp', 'less', 'more', 'time', 'other', 'pad'])
    if what == 'station':
        s = rng.choice(spec['stations'])
        s['lat'] = round(s['lat'] * .97 + .2, 4)
        s['elev'] = s['elev'] + 10.
    elif what == 'event':
        e = rng.choice(spec['events'])
        e['depth'] = round(e['depth'] * .9 + 5, 2)
        e['mag'] = 5.05
    elif what == 'model':
        spec['tt_model'] = 'ak135' if not spec.get('tt_model') else None
    elif what == 'window':
        a, b = spec['window']
        spec['window'] = [a + 4, b - 3]
    elif what == 'pp':
        spec['pp_depth'] = 44
    elif what == 'pad':
        spec['pad'] = spec['pad'] + 3
    elif what == 'less' and len(spec['stations']) > 1:
        spec['stations'].pop(0)
    elif what == 'more':
        s = dict(spec['stations'][0])
        s.update(sta='NEW', lat=round(s['lat'] * .95, 4))
        spec['stations'].append(s)
        if 'uid' in s:
            s['uid'] = 77
    elif what == 'time':
        rng.choice(spec['events'])['t'] += 3600
    else:
        op.update(gen_retrieve(rng), keep=op['keep'])
    op['answers'] = {}


def retrieve(op):
    from dst import common as C
    from dst import net as N
    from dst.world import World
    from rf.util import iter_event_data
    w = World(op['world'])
    dc = N.DataCentre(w, Quiet(), op['answers'])
    cat, inv = w.catalog(), w.inventory()
    if op['keep'] and KEPT:
        KEPT['cat'].events, KEPT['inv'].networks = cat.events, inv.networks
        KEPT['dc'] = dc
    if op['keep']:
        KEPT.setdefault('dc', dc)
        KEPT.setdefault('get', lambda **kw: KEPT['dc'].get_waveforms(**kw))
        cat = KEPT.setdefault('cat', cat)
        inv = KEPT.setdefault('inv', inv)
        get = KEPT['get']
    else:
        get = dc.get_waveforms
    with taup(w):
        return norm([s for s in iter_event_data(cat, inv, get,
                                                **C.options(op['world']))])


NUDGE = {'moveout': ['ref'], 'ppoints': ['depth'], 'delay': ['slow', 'ref'],
         'profile': ['depth', 'az', 'width', 'latlon', 'bins', 'bins'],
         'deconv': ['winsrc'], 'trim2': ['a', 'b'], 'slice2': ['a', 'b'],
         'harmonics': ['azim'], 'rf': ['winsrc', 'trim', 'spiking', 'waterlevel', 'gauss',
                             'tband', 'T', 'olap']}


def nudge(rng, op):
    """Change one number slightly."""
    keys = NUDGE.get(op['op'], [])
    d = op.get('kw', op)
    keys = [k for k in keys if isinstance(d.get(k), (int, float, list))]
    if not keys:
        return False
    k = rng.choice(keys)
    f = rng.choice([.003, .03, .1])
    if isinstance(d[k], list):
        # inner edges of bins only: number and total length stay the same
        n = len(d[k])
        i = rng.randrange(n) if k != 'bins' or rng.random() < .3 else \
            rng.randrange(1, n - 1)
        d[k] = list(d[k])
        d[k][i] += round(10 * f, 3) if k != 'bins' else round(500 * f)
        if k == 'latlon':
            d[k][i] = max(-89.5, min(89.5, d[k][i]))
        elif k == 'bins':
            d[k].sort()
    else:
        d[k] = round(d[k] * (1 + f), 4) + (k == 'azim')
    return True


def vary(rng, op, kind, method, spec):
    """The same operation with another value of one argument."""
    import copy
    op = copy.deepcopy(op)
    if op['op'] == 'retrieve':
        vary_retrieve(rng, op)
        return op
    if op['op'] == 'example':
        return op
    if rng.random() < .5 and nudge(rng, op):
        return op
    for _ in range(60):
        o2 = gen_op(rng, kind, method, spec=spec)
        if o2['op'] != op['op']:
            continue
        a, b = (op['kw'], o2['kw']) if 'kw' in op else (op, o2)
        keys = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
        if keys:
            k = rng.choice(keys)
            if k in b and k not in ('deconvolve', 'method'):
                a[k] = b[k]
            elif k in a and k not in ('deconvolve', 'method'):
                del a[k]
            else:
                return o2
            return op
    return op


def resolve(path):
    """(object, name, attribute) of a dotted path"""
    parts = path.split('.')
    for k in range(len(parts) - 1, 0, -1):
        try:
            obj = importlib.import_module('.'.join(parts[:k]))
            break
        except ImportError:
            continue
    for p in parts[k:-1]:
        obj = getattr(obj, p)
    name = parts[-1]
    return obj, name, obj.__dict__[name] if isinstance(obj, type) else getattr(
        obj, name)


@contextlib.contextmanager
def counted_call(path, counts):
    obj, name, real = resolve(path)

    def callee(*args, **kw):
        counts[path] = counts.get(path, 0) + 1
        return real(*args, **kw)
    setattr(obj, name, callee)
    try:
        yield
    finally:
        setattr(obj, name, real)


@contextlib.contextmanager
def failing_call(flt, R):
    """The nth call of a function used by the library fails."""
    obj, name, real = resolve(flt['callee'])
    count = [0]

    def callee(*args, **kw):
        count[0] += 1
        if count[0] == flt['nth']:
            R.fault('%s in %s' % (flt['what'], flt['callee']))
            if flt['what'] == 'ki':
                raise KeyboardInterrupt('sim')
            raise MemoryError('sim')
        return real(*args, **kw)
    setattr(obj, name, callee)
    try:
        yield
    finally:
        setattr(obj, name, real)


def shrink_clients(plan, key='clients'):
    """Candidates with fewer clients, operations and traces."""
    import copy
    cs = plan[key]
    for i in range(len(cs)):
        if len(cs) > 1:
            p = copy.deepcopy(plan)
            del p[key][i]
            yield p
    for i, c in enumerate(cs):
        n = len(c['ops'])
        size = n // 2 or 1
        while size >= 1 and n > 1:
            for a in range(0, n, size):
                p = copy.deepcopy(plan)
                p[key][i]['ops'] = c['ops'][:a] + c['ops'][a + size:]
                yield p
            if size == 1:
                break
            size //= 2
        m = len(c['stream'])
        k = m // 2 // 3 * 3 or 3
        while m > k:
            p = copy.deepcopy(plan)
            p[key][i]['stream'] = c['stream'][:k]
            yield p
            k = k * 2
            if k >= m:
                break
