"""Synthetic streams described by plain JSON, and deep comparison of streams.

A stream spec is a list of trace specs
    {'id': [net, sta, loc, cha], 'npts', 'rate', 't0' (s since 2001),
     'on' (onset after start, None: not set), 'seed', 'dtype',
     'h': {header: value or [type, value]}, 'proc': [...]}
"""
import hashlib

import numpy as np

BASE = 978307200.          # 2001-01-01
GEO = ('station_latitude', 'station_longitude', 'station_elevation',
       'event_latitude', 'event_longitude', 'event_depth', 'event_magnitude')
RAY = ('distance', 'back_azimuth', 'inclination', 'slowness')
PP = ('pp_latitude', 'pp_longitude', 'pp_depth')
BOX = ('box_pos', 'box_length')
RANGES = {'station_latitude': (-89, 89), 'event_latitude': (-89, 89),
          'station_longitude': (-179, 179), 'event_longitude': (-179, 179),
          'station_elevation': (-300, 5000), 'event_depth': (0, 650),
          'event_magnitude': (1, 9), 'distance': (30, 95),
          'back_azimuth': (0, 360), 'inclination': (0, 60),
          'slowness': (3, 12), 'pp_latitude': (-89, 89),
          'pp_longitude': (-179, 179), 'pp_depth': (0, 700),
          'box_pos': (-900, 900), 'box_length': (1, 200)}
STRINGS = {'type': ['rf', 'profile'], 'phase': ['P', 'S', 'PP'],
           'moveout': ['Ps', 'Sp', 'Ppps', 'Ppss']}
NUMTYPES = ['f', 'f', 'f', 'i', 'f64', 'f32', 'i64']


def value(v):
    if isinstance(v, list):
        t, v = v
        return {'f': float, 'i': int, 'f64': np.float64, 'f32': np.float32,
                'i64': np.int64, 's': str}[t](v)
    return v


def gen_number(rng, h, types=True):
    lo, hi = RANGES[h]
    r = rng.random()
    if r < .1:
        v = 0.
    elif r < .2:
        v = rng.choice([lo, hi])
    else:
        v = round(rng.uniform(lo, hi), rng.choice([0, 2, 5]))
    v = min(max(v, lo), hi)
    if not types:
        return v
    t = rng.choice(NUMTYPES)
    if t in ('i', 'i64'):
        v = int(v)
    return [t, v]


def gen_headers(rng, p=.8, types=True, box=False):
    h = {}
    for k in GEO + RAY:
        if rng.random() < p:
            h[k] = gen_number(rng, k, types)
    if rng.random() < .4:
        for k in PP:
            h[k] = gen_number(rng, k, types)
    if box:
        for k in BOX:
            h[k] = gen_number(rng, k, types)
    for k in ('phase', 'moveout'):
        if rng.random() < p:
            h[k] = rng.choice(STRINGS[k])
    return h


def gen_groups(rng, ngroups=(1, 3), comps=('ZNE', 'LQT'), npts=(20, 120),
               rates=(1, 2, 5, 10), nst=3, types=True, p=.8, dtypes=('f8',
               'f8', 'f4'), onset=True, etime=True, us=True, type_=None,
               rf_like=False):
    """Traces of some event-station pairs."""
    out = []
    sts = []
    for i in range(nst):
        sts.append([rng.choice(['AA', 'XY', 'Z9', '']) if not rf_like else
                    'AA', 'S%02d' % i, rng.choice(['', '', '00', '10']),
                    rng.choice(['BH', 'HH'])])
    for g in range(rng.randint(*ngroups)):
        st = rng.choice(sts)
        n, rate = rng.randint(*npts), rng.choice(rates)
        t0 = rng.randrange(0, 10 ** 8) + (rng.choice(
            [0, .25, .123, .0004, rng.randrange(10 ** 6) / 1e6])
            if us else 0)
        h = gen_headers(rng, p, types)
        if type_ is not None:
            h['type'] = type_
        if etime:
            h['event_time'] = t0 - rng.randint(100, 900) \
                - rng.choice([0, .5, .125])
        on = round(rng.uniform(0, (n - 1) / rate), rng.choice([0, 2, 4])) \
            if onset else None
        for c in rng.choice(comps):
            out.append({'id': [st[0], st[1], st[2], st[3] + c], 'npts': n,
                        'rate': rate, 't0': t0, 'on': on,
                        'seed': rng.randrange(10 ** 6),
                        'dtype': rng.choice(dtypes), 'h': dict(h)})
    return out


def samples(seed, n, dtype='f8', scale=1.):
    r = np.random.RandomState(seed % 2 ** 31)
    x = r.uniform(-1, 1, n) * scale
    if dtype.startswith('i'):
        x = np.round(x * 1000)
    return x.astype(dtype)


def build_trace(t):
    from obspy import UTCDateTime as UTC
    from rf.rfstream import RFTrace
    header = {'network': t['id'][0], 'station': t['id'][1],
              'location': t['id'][2], 'channel': t['id'][3],
              'sampling_rate': t['rate'],
              'starttime': UTC(BASE) + t['t0']}
    tr = RFTrace(data=samples(t['seed'], t['npts'], t.get('dtype', 'f8')),
                 header=header)
    for k, v in t['h'].items():
        v = value(v)
        if k == 'event_time':
            v = UTC(BASE) + v
        tr.stats[k] = v
    if t.get('on') is not None:
        tr.stats.onset = tr.stats.starttime + t['on']
    if t.get('proc'):
        tr.stats.processing = list(t['proc'])
    return tr


def build(spec):
    from rf import RFStream
    return RFStream([build_trace(t) for t in spec])


# -- deep state -----------------------------------------------------------------

class Odd(object):

    """A value that no format can hold."""

    def __repr__(self):
        return 'Odd()'

    def __eq__(self, other):
        return isinstance(other, Odd)

    def __hash__(self):
        return 1


FORMAT_BLOCKS = ('sac', 'sh', '_format', 'mseed')


def freeze_value(v):
    from obspy import UTCDateTime as UTC
    if isinstance(v, UTC):
        return ('UTC', v.ns)
    if isinstance(v, np.ndarray):
        return ('array', v.dtype.str, v.shape,
                hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(freeze_value(x) for x in v)
    if hasattr(v, 'items'):
        return ('map',) + tuple(sorted((k, freeze_value(x))
                                       for k, x in v.items()))
    if isinstance(v, float) and v != v:
        return (type(v).__name__, 'nan')
    return (type(v).__name__, repr(v))


def freeze_trace(tr, skip=FORMAT_BLOCKS):
    st = tr.stats
    h = tuple(sorted((k, freeze_value(st[k])) for k in st.keys()
                     if k not in skip))
    return (tr.id, type(tr).__name__, freeze_value(tr.data),
            bool(np.ma.isMaskedArray(tr.data)), h)


def freeze(stream, skip=FORMAT_BLOCKS):
    return tuple(freeze_trace(tr, skip) for tr in stream)


def diff_frozen(a, b):
    """Text on the first difference between two frozen streams, or None."""
    if a == b:
        return None
    if len(a) != len(b):
        return '%d traces instead of %d' % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x == y:
            continue
        if x[0] != y[0]:
            return 'trace %d: id %s instead of %s' % (i, x[0], y[0])
        if x[2] != y[2]:
            return 'trace %d %s: samples differ' % (i, x[0])
        hx, hy = dict(x[4]), dict(y[4])
        for k in sorted(set(hx) | set(hy)):
            if hx.get(k) != hy.get(k):
                return 'trace %d %s: header %s is %s instead of %s' % (
                    i, x[0], k, str(hx.get(k))[:150], str(hy.get(k))[:150])
        return 'trace %d %s differs' % (i, x[0])
    return None


# -- process-wide settings ----------------------------------------------------

def settings():
    """Everything library-wide that a call has to leave alone."""
    import builtins
    import io
    import os
    import sys
    import warnings
    import obspyh5
    import rf
    import rf.rfstream
    import rf.batch
    import rf.simple_model
    out = {'obspyh5._INDEX': obspyh5._INDEX,
           'np.errstate': str(np.geterr()),
           'warnings.filters': repr(warnings.filters),
           'warnings.showwarning': repr(warnings.showwarning),
           'cwd': os.getcwd(), 'sys.path': list(sys.path),
           'environ': hash(tuple(sorted(os.environ.items()))),
           'umask-free': None}
    rfm = rf.rfstream
    for m, names in ((rfm, ('_HEADERS', '_FORMATHEADERS', '_H5INDEX',
                            '_STATION_GETTER', '_EVENT_GETTER')),
                     (rf.batch, ('FNAMES', 'STACK_FNAMES', 'PROFILE_FNAMES',
                                 'DICT_OPTIONS'))):
        for n in names:
            if hasattr(m, n):
                out['%s.%s' % (m.__name__, n)] = repr(getattr(m, n))[:3000]
    out['np.printoptions'] = repr(sorted(np.get_printoptions().items(),
                                         key=str))
    out['obspyh5.attrs'] = repr(sorted(obspyh5._INDEXES.items()))
    import random
    state = np.random.get_state()
    out['random'] = [hash(random.getstate()), state[0],
                     hash(state[1].tobytes())] + list(state[2:])
    if 'matplotlib' in sys.modules:
        import matplotlib
        out['rcParams'] = repr(sorted(dict.items(matplotlib.rcParams)))
    return out


def diff_settings(a, b):
    for k in sorted(set(a) & set(b)):
        if a.get(k) != b.get(k):
            if k == 'rcParams':
                return 'rcParams of matplotlib were changed'
            return '%s was %r, now %r' % (k, a.get(k), b.get(k))
    return None


# -- shrinking -------------------------------------------------------------------

def shrink_spec(plan, key='stream', minlen=1):
    import copy
    xs = plan.get(key) or []
    n = len(xs)
    size = n // 2 or 1
    while size >= 1:
        for a in range(0, n, size):
            if n - size < minlen:
                continue
            p = copy.deepcopy(plan)
            p[key] = xs[:a] + xs[a + size:]
            yield p
        if size == 1:
            break
        size //= 2
    for i, t in enumerate(xs):
        if t['npts'] > 10 and t.get('on') is None:
            p = copy.deepcopy(plan)
            p[key][i]['npts'] = 8
            yield p
    keys = sorted({k for t in xs for k in t['h']})
    for k in keys:
        p = copy.deepcopy(plan)
        for t in p[key]:
            t['h'].pop(k, None)
        yield p
