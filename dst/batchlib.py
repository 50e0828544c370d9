"""Workloads for the batch command line."""
import json
import os

import numpy as np

from dst import common as C
from dst import net as N


def gen_small_world(rng, nev=(1, 3), nst=(1, 2), rates=(2, 4, 5), phase=None,
                    pp=True, far=.1, epochs=False, bands=('BH', 'HH'),
                    hours=(1, 200), align=None):
    spec = C.gen_world(rng, rng.randint(*nev), rng.randint(*nst),
                       phase=phase or rng.choice(['P', 'P', 'P', 'S']),
                       far=far, epochs=epochs, rates=list(rates),
                       same_rate=True, signal='seis', bands=bands,
                       hours=hours)
    spec.pop('explicit_range', None)
    spec.pop('dist_range', None)
    # sampling grids of records do not match the onset in general
    spec['window'] = rng.choice([[-20, 40], [-25, 35]]) \
        if spec['phase'] != 'S' else [-40, 25]
    spec['pad'] = rng.choice([0, 5, 10])
    if pp:
        spec['pp_depth'] = rng.choice([30, 50, 70])
    if align if align is not None else rng.random() < .6:
        # all records get the same number of samples
        spec['align'] = True
        for e in spec['events']:
            e['us'] = 0
        for s in spec['stations']:
            s['offs'] = 0
    return spec


def gen_rfopts(rng, spec, simple=False):
    s = spec['phase'] == 'S'
    o = {}
    if rng.random() < .8:
        o['filter'] = {'type': 'bandpass', 'freqmin': .05,
                       'freqmax': rng.choice([.4, .6])}
    if rng.random() < .6:
        o['trim'] = [-15, 30] if not s else [-30, 15]
    o['deconvolve'] = rng.choice(['time', 'time', 'waterlevel', 'iterative']
                                 if not simple else ['waterlevel'])
    if s and o['deconvolve'] == 'time':
        o['winsrc'] = [-5, 10, 5]
    if not s and o['deconvolve'] == 'time':
        o['winsrc'] = rng.choice([[-5, 15, 5], [-8, 12, 3]])
    if o['deconvolve'] == 'waterlevel':
        o['gauss'] = rng.choice([.5, 1.])
    if o['deconvolve'] == 'iterative':
        o['itmax'] = 10
    if rng.random() < .25:
        o['rotate'] = 'NE->RT'
    return o


def gen_moutopts(rng, spec):
    s = spec['phase'] == 'S'
    o = {}
    if rng.random() < .4:
        o['ref'] = rng.choice([5.5, 7.]) if not s else rng.choice([10., 12.])
    if rng.random() < .3:
        o['phase'] = rng.choice(['Ps', 'Ppps']) if not s else 'Sp'
    return o


def gen_boxes(rng, spec):
    s = spec['stations'][0]
    n = rng.choice([2, 3, 5])
    half = rng.choice([100, 250])
    return {'boxes': {'latlon0': [s['lat'], s['lon']],
                      'azimuth': rng.choice([0, 45, 90, 290]),
                      'width': rng.choice([400, 1500])},
            'boxbins': [-half, half, n + 1]}


class Session(object):

    """A working directory with catalogue, inventory and configuration."""

    def __init__(self, plan, w, dc, R):
        self.plan, self.w, self.dc, self.R = plan, w, dc, R
        self.opts = C.options(plan['world'])
        self.rfopts = plan.get('rf', {})
        self.mout = plan.get('moveout', {})
        self.boxes = plan.get('boxes', {})
        self.profile = plan.get('profile', {})
        self.pbar_factory = None
        self.ev, self.inv = C.write_world(w)

    def conf(self, fmt):
        c = {'events': self.ev, 'inventory': self.inv, 'data': 'fdsn',
             'client_options': {}, 'format': fmt,
             'options': {k: list(v) if isinstance(v, tuple) else v
                         for k, v in self.opts.items()},
             'rf': self.rfopts, 'moveout': self.mout,
             'profile': self.profile}
        for k in ('plot', 'plot_profile'):
            if k in self.plan:
                c[k] = self.plan[k]
        c.update(self.boxes)
        return c

    def run(self, args, fmt, how='flags'):
        """args: list like ['data', 'calc', 'out']; how: flags|conf|mixed"""
        conf = self.conf(fmt)
        with C.patched_client(self.dc), C.patched_tqdm(self.pbar_factory):
            if how == 'conf':
                return C.cli_conf(args, conf)
            if how == 'mixed':
                flags = {k: conf.pop(k) for k in sorted(conf)[::2]}
                # the configuration file contradicts the flags, which win
                for k in flags:
                    conf[k] = contradict(k, flags[k])
                with open('conf.json', 'w') as f:
                    f.write('# comment\n' + json.dumps(conf))
                return C.cli(args, conf='conf.json', **flags)
            return C.cli(args, conf='null', **conf)


CONTRADICT = {
    'format': 'ABC', 'data': 'nosuchclient', 'events': 'none.xml',
    'inventory': 'none.xml', 'client_options': {'key': 1},
    'options': {'phase': 'SKS', 'dist_range': [1, 2],
                'request_window': [-1, 1], 'pad': 3, 'pp_depth': 5},
    'rf': {'deconvolve': 'multitaper', 'filter': {
        'type': 'highpass', 'freq': .2}, 'trim': [-3, 3], 'winsrc': [-2, 2, 1],
        'gauss': .01, 'itmax': 1, 'rotate': 'LQT->ZNE', 'nokey': 1},
    'moveout': {'phase': 'PPPP', 'ref': 1., 'nokey': 1},
    'boxes': {'latlon0': [0, 0], 'azimuth': 12, 'width': 1, 'nokey': 1},
    'boxbins': [-1, 1, 20], 'profile': {'nokey': 1}, 'plot': {'nokey': 1},
    'plot_profile': {'nokey': 1}}


def contradict(k, value):
    """A value of the configuration file which is overridden."""
    if k == 'format':
        return 'SAC' if value != 'SAC' else 'Q'
    return CONTRADICT[k]


def library_records(sess, R=None):
    """Retrieved streams by the library call; {(i, j): RFStream}"""
    from rf.util import iter_event_data
    from dst.props.r01 import pair_of
    out = {}
    w = sess.w
    for stream in iter_event_data(w.catalog(), w.inventory(),
                                  sess.dc.get_waveforms, **sess.opts):
        out[pair_of(w, stream[0])] = stream
    return out


def store(streams, root, fmt):
    """Write records under the documented names, without the batch code."""
    import rf.batch
    for p in sorted(streams):
        rf.batch.write(streams[p].copy(), root, fmt)


# -- comparing records ---------------------------------------------------------

HEADERS = ('station_latitude', 'station_longitude', 'station_elevation',
           'event_latitude', 'event_longitude', 'event_depth',
           'event_magnitude', 'event_time', 'onset', 'type', 'phase',
           'moveout', 'distance', 'back_azimuth', 'inclination', 'slowness',
           'pp_latitude', 'pp_longitude', 'pp_depth', 'box_pos', 'box_length')


_TIMES = {}


def _second(t):
    """Integer second, the same for times which differ by milliseconds."""
    k = int(t // 1)
    for q in (k, k - 1, k + 1):
        if q in _TIMES and abs(_TIMES[q] - t) < .01:
            return q
    _TIMES.setdefault(k, t)
    return k


def rec_key(tr):
    st = tr.stats
    et = st.get('event_time')
    bp = st.get('box_pos')
    return (tr.id if bp is None else '??' + st.channel[-1],
            None if et is None else _second(et.timestamp),
            None if bp is None else round(float(bp), 2))


def diff_trace(a, b, dtol=2e-6, ttol=2e-3, htol=2e-5, headers=HEADERS):
    """None if the records agree (a: found, b: expected), else text."""
    from obspy import UTCDateTime as UTC
    if a.stats.npts != b.stats.npts or len(a.data) != len(b.data):
        return 'npts %s instead of %s' % (a.stats.npts, b.stats.npts)
    if abs(a.stats.delta - b.stats.delta) > 1e-5 * b.stats.delta:
        return 'delta %s instead of %s' % (a.stats.delta, b.stats.delta)
    if abs(a.stats.starttime - b.stats.starttime) > ttol:
        return 'starttime %s instead of %s' % (a.stats.starttime,
                                               b.stats.starttime)
    x, y = np.asarray(a.data, float), np.asarray(b.data, float)
    scale = np.max(np.abs(y)) if len(y) else 0
    if len(y):
        nx, ny = np.isnan(x), np.isnan(y)
        if (nx != ny).any():
            return 'nan samples differ'
        d = np.max(np.abs(np.where(nx, 0, x - y)))
        if d > dtol * max(scale, 1e-30):
            return 'samples differ by %g (largest %g)' % (d, scale)
    for h in headers:
        va, vb = a.stats.get(h), b.stats.get(h)
        if va is None and vb is None:
            continue
        if va is None or vb is None:
            return 'header %s is %r instead of %r' % (h, va, vb)
        if isinstance(vb, UTC):
            if abs(UTC(va) - vb) > ttol:
                return 'header %s is %s instead of %s' % (h, va, vb)
        elif isinstance(vb, str) or isinstance(va, str):
            if str(va) != str(vb):
                return 'header %s is %r instead of %r' % (h, va, vb)
        elif abs(va - vb) > htol * max(1., abs(vb)):
            return 'header %s is %r instead of %r' % (h, va, vb)
    return None


def index_records(traces):
    out = {}
    for tr in traces:
        out.setdefault(rec_key(tr), []).append(tr)
    return out


def compare_sets(R, found, expected, label, subset=False, **tol):
    """found, expected: iterables of traces"""
    f, e = index_records(found), index_records(expected)
    ok = True
    for k in sorted(set(f) | set(e), key=str):
        nf, ne = len(f.get(k, ())), len(e.get(k, ()))
        if nf != ne and not (subset and nf == 0):
            cls = 'missing' if nf < ne else (
                'duplicate' if ne else 'invented')
            R.violation('%s:%s' % (label, cls), 'record %s: %d times instead '
                        'of %d' % (k, nf, ne))
            ok = False
            continue
        for a, b in zip(f.get(k, ()), e.get(k, ())):
            d = diff_trace(a, b, **tol)
            if d:
                R.violation('%s:altered' % label, 'record %s: %s' % (k, d))
                ok = False
    return ok
