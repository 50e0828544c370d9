"""
Simulated data centre.

Answers waveform requests for the world's channels with a simulated latency.
Answers may be split into packets, duplicated, reordered, widened, masked,
incomplete, contradictory, unmergeable, empty, absent, or an exception.
"""
import random

import numpy as np

EXC = ['ValueError', 'ConnectionError', 'TimeoutError', 'OSError',
       'FDSNNoDataException', 'Exception', 'RuntimeError', 'KeyError',
       'AttributeError', 'StopIteration', 'MemoryError', 'AssertionError',
       'TypeError']

# answers which have to be delivered / must not be delivered / either
MUST, MUSTNOT, MAY = 'must', 'mustnot', 'may'


def make_exc(name):
    if name == 'FDSNNoDataException':
        from obspy.clients.fdsn.header import FDSNNoDataException
        return FDSNNoDataException('No data available for request.')
    cls = getattr(__import__('builtins'), name)
    return cls('simulated %s of the data source' % name)


def gen_answer(rng, fault_rate=.5, benign_rate=.5, pad=10, kinds=None):
    """Draw one answer spec. {} is the plain complete answer."""
    a = {'lat': round(rng.expovariate(1 / 2.), 3)}
    if rng.random() < benign_rate:
        a['seed'] = rng.randrange(10 ** 6)
        if rng.random() < .6:
            a['split'] = rng.choice([1, 2, 3, 7])
        if rng.random() < .3:
            a['dup'] = rng.choice([1, 2])
        if rng.random() < .4:
            a['overlap'] = rng.choice([1, 5, 20])
        if rng.random() < .5:
            a['shuffle'] = True
        if rng.random() < .4:
            a['wide'] = rng.choice([1, 7, 30])
        if rng.random() < .2 and pad > 4:
            a['narrow'] = rng.choice(['l', 'r', 'b'])
        if rng.random() < .3:
            a['dtype'] = rng.choice(['int32', 'float32', 'float64'])
        if rng.random() < .1:
            a['stale'] = rng.choice(['sac', 'sac', 'sh', 'h5'])
    if rng.random() < fault_rate:
        kinds = kinds or ['exc', 'none', 'empty', 'drop', 'drop2', 'gap',
                          'gappad', 'conflict', 'conflictpad', 'rate',
                          'ratepad', 'dtype', 'dtypepad', 'calib', 'calibpad',
                          'extra', 'foreign', 'short', 'masked', 'maskpad',
                          'nodatatr']
        k = rng.choice(kinds)
        a['fault'] = k
        if k == 'exc':
            a['exc'] = rng.choice(EXC)
        a['comp'] = rng.randrange(3)
        a['pos'] = round(rng.random(), 3)
        a['len'] = rng.choice([1, 2, 5, 30])
        a['side'] = rng.choice(['l', 'r'])
    return a


def stale(tr, kind, rng):
    """Headers of some other event, as files of the source may have."""
    from obspy.core.util import AttribDict
    v = [round(rng.uniform(1, 60), 3) for _ in range(9)]
    st = tr.stats
    t = st.starttime
    if kind == 'sac':
        st._format = 'SAC'
        st.sac = AttribDict(
            stla=v[0], stlo=v[1], stel=v[2], evla=v[3], evlo=v[4], evdp=v[5],
            mag=5.5, gcarc=v[6], baz=v[7], user0=v[8], user1=v[0] / 9,
            o=-300., a=7.5, kuser1='Pdiff', nzyear=t.year, nzjday=t.julday,
            nzhour=t.hour, nzmin=t.minute, nzsec=t.second,
            nzmsec=t.microsecond // 1000, b=0., e=1., delta=st.delta)
    elif kind == 'sh':
        st._format = 'Q'
        st.sh = AttribDict({
            'LAT': v[0], 'LON': v[1], 'DEPTH': v[2], 'MAGNITUDE': 5.5,
            'ORIGIN': t - 300, 'P-ONSET': t + 7, 'DISTANCE': v[3],
            'AZIMUTH': v[4], 'INCI': v[5], 'SLOWNESS': v[6] / 9,
            'COMMENT': '{"station_latitude":%s,"station_longitude":%s,'
            '"station_elevation":%s,"phase":"Pdiff"}' % (v[7], v[8], v[0])})
    else:
        st._format = 'H5'
        st.update({'event_latitude': v[0], 'event_longitude': v[1],
                   'station_latitude': v[2], 'slowness': v[3] / 9,
                   'onset': t + 7, 'event_time': t - 300, 'phase': 'Pdiff'})


def classify(a, pad):
    """What the retrieval owes for an answer of this kind."""
    k = a.get('fault')
    if k is None:
        return MUST
    if k in ('exc', 'none', 'empty', 'drop', 'drop2', 'gap', 'conflict',
             'rate', 'dtype', 'calib', 'extra', 'foreign', 'masked'):
        return MUSTNOT
    if k == 'maskpad':
        return MAY
    if k.endswith('pad'):
        return MUST
    if k == 'nodatatr':     # additional trace without samples
        return MAY
    return MAY


class DataCentre(object):

    def __init__(self, world, R, answers=None, default=None, yielder=None):
        """answers: {'i,j': answer spec}"""
        self.w = world
        self.R = R
        self.answers = answers or {}
        self.default = default or {}
        self.requests = []
        self.unexpected = []
        self.delivered_sum = []
        self.yielder = yielder
        self.before = None
        self.calls = 0
        self.handed = {}

    # ------------------------------------------------------------------
    def locate(self, network, station, location, starttime, endtime):
        js = [j for j, s in enumerate(self.w.stations)
              if (s['net'], s['sta'], s['loc']) == (network, station,
                                                    location)]
        mid = starttime + (endtime - starttime) / 2
        best = None
        for j in js:
            for i in range(len(self.w.events)):
                p = self.w.pair(i, j)
                if p is None:
                    continue
                m = p['onset'] + (self.w.window[0] + self.w.window[1]) / 2
                dt = abs(m - mid)
                if best is None or dt < best[0]:
                    best = (dt, i, j)
        return js, best

    def get_waveforms(self, network, station, location, channel, starttime,
                      endtime, event=None, **kw):
        self.calls += 1
        n = self.calls
        R = self.R
        if self.before is not None:
            self.before(n)
        js, best = self.locate(network, station, location, starttime, endtime)
        chans = set()
        import fnmatch
        for j in js:
            for band in ('BH', 'HH', 'LH', 'EH'):
                for c in 'ZNE123':
                    if fnmatch.fnmatchcase(band + c, channel):
                        chans.add(band + c)
        cand = [j for j in js if any(
            ch[:2] == self.w.stations[j]['band'] for ch in chans)]
        if len(cand) == 1 and best is not None and best[2] != cand[0]:
            # several bands at the same station
            best2 = None
            for i in range(len(self.w.events)):
                p = self.w.pair(i, cand[0])
                if p is None:
                    continue
                m = p['onset'] + (self.w.window[0] + self.w.window[1]) / 2
                dt = abs(m - (starttime + (endtime - starttime) / 2))
                if best2 is None or dt < best2[0]:
                    best2 = (dt, i, cand[0])
            best = best2
        req = {'net': network, 'sta': station, 'loc': location,
               'cha': channel, 't1': starttime, 't2': endtime,
               'chans': chans, 'pair': None, 'n': n}
        if best is not None:
            req['pair'] = (best[1], best[2])
        self.requests.append(req)
        R.log('request', network, station, location, channel, starttime,
              endtime, req['pair'])
        if self.yielder is not None:
            self.yielder('net')
        if best is None:
            self.unexpected.append(req)
            raise ValueError('no such data')
        i, j = best[1], best[2]
        a = dict(self.default)
        a.update(self.answers.get('%d,%d' % (i, j), {}))
        R.sim_time += a.get('lat', 0)
        k = a.get('fault')
        if k:
            R.fault('net_' + k)
        if k == 'exc':
            raise make_exc(a['exc'])
        if k == 'none':
            return None
        st = self.answer(a, i, j, starttime, endtime)
        if self.yielder is not None:
            self.yielder('net2')
        for f in ('split', 'dup', 'overlap', 'shuffle', 'wide', 'narrow'):
            if a.get(f):
                R.faults['net_' + f] += 1
        return st

    # ------------------------------------------------------------------
    def trace(self, j, comp, k1, k2, dtype):
        from obspy import Trace
        st = self.w.stations[j]
        return Trace(self.w.values(j, comp, k1, k2, dtype), header={
            'network': st['net'], 'station': st['sta'],
            'location': st['loc'], 'channel': st['band'] + comp,
            'delta': 1. / st['rate'] if False else
            (self.w.grid(j)[0] / 1e6),
            'starttime': self.w.k_time(j, k1)})

    def full(self, i, j, starttime=None, endtime=None):
        """Complete, unfragmented answer."""
        return self.answer({}, i, j, starttime, endtime)

    def answer(self, a, i, j, starttime, endtime):
        from obspy import Stream
        w = self.w
        rng = random.Random(a.get('seed', 0))
        p = w.pair(i, j)
        fault = a.get('fault')
        if fault in ('conflict', 'conflictpad'):
            # two contradicting versions of a sample and no third copy, which
            # might settle the contradiction
            a = dict(a, overlap=0, dup=0)
        st = w.stations[j]
        win = (p['onset'] + w.window[0], p['onset'] + w.window[1])
        kw1, kw2 = w.k_range(j, win[0], win[1])     # inside the window
        t1, t2 = starttime, endtime
        if a.get('wide'):
            t1, t2 = t1 - a['wide'], t2 + a['wide']
        k1, k2 = w.k_range(j, t1, t2)
        m = 2   # samples of safety margin at window edges
        if a.get('narrow') in ('l', 'b'):
            k1 = max(k1, min(kw1 - m - 1, (k1 + kw1) // 2))
        if a.get('narrow') in ('r', 'b'):
            k2 = min(k2, max(kw2 + m + 1, (k2 + kw2) // 2))
        dtype = a.get('dtype', w.spec.get('dtype', 'float64'))
        comps = list(st['comps'])
        if fault == 'empty':
            return Stream()
        bad = comps[a.get('comp', 0) % 3]
        if fault == 'drop':
            comps.remove(bad)
        elif fault == 'drop2':
            comps = [bad]
        pieces = []     # (comp, k1, k2, mods)

        def zone():
            """A stretch of samples strictly inside window or pad."""
            n = max(1, int(round(a.get('len', 1) * st['rate'])))
            if fault.endswith('pad'):
                if a.get('side') == 'l':
                    lo, hi = k1 + 1, kw1 - m - 1
                else:
                    lo, hi = kw2 + m + 1, k2 - 1
            else:
                lo, hi = kw1 + m, kw2 - m
            if hi - lo < 1:
                return None
            n = min(n, hi - lo)
            s = lo + int(a.get('pos', .5) * (hi - lo - n))
            return s, s + n - 1     # inclusive
        for comp in comps:
            cuts = []
            if a.get('split'):
                cuts = sorted(rng.randrange(k1 + 1, k2)
                              for _ in range(a['split']))
            z = None
            if comp == bad and fault in (
                    'gap', 'gappad', 'conflict', 'conflictpad', 'rate',
                    'ratepad', 'dtype', 'dtypepad', 'calib', 'calibpad'):
                z = zone()
            lo = k1
            segs = []
            for c in cuts + [k2 + 1]:
                if c > lo:
                    segs.append([lo, c - 1])
                lo = c
            ov = a.get('overlap', 0)
            if ov and fault not in ('gap', 'gappad'):
                segs = [[max(k1, s - ov) if n_ else s, e]
                        for n_, (s, e) in enumerate(segs)]
            if z and fault in ('gap', 'gappad'):
                new = []
                for s, e in segs:
                    if e < z[0] or s > z[1]:
                        new.append([s, e])
                        continue
                    if s < z[0]:
                        new.append([s, z[0] - 1])
                    if e > z[1]:
                        new.append([z[1] + 1, e])
                segs = new
                self.R.probe('gap_' + ('pad' if 'pad' in fault else 'win'))
            elif z and not fault.startswith('conflict'):
                new = []
                for s, e in segs:
                    if e < z[0] or s > z[1]:
                        new.append([s, e])
                        continue
                    if s < z[0]:
                        new.append([s, z[0] - 1])
                    if e > z[1]:
                        new.append([z[1] + 1, e])
                segs = new
                pieces.append((comp, z[0], z[1], fault.replace('pad', '')))
                self.R.probe('unmergeable_' +
                             ('pad' if 'pad' in fault else 'win'))
            elif z:
                pieces.append((comp, z[0], z[1], 'conflict'))
                self.R.probe('conflict_' +
                             ('pad' if 'pad' in fault else 'win'))
            elif fault and fault.endswith('pad') and comp == bad:
                self.R.probe('no_pad_zone')
            for s, e in segs:
                pieces.append((comp, s, e, None))
        if a.get('dup'):
            for _ in range(a['dup']):
                x = rng.choice(pieces)
                if x[3] is None:
                    pieces.append(x)
        if a.get('shuffle'):
            rng.shuffle(pieces)
        traces = []
        for comp, s, e, mod in pieces:
            tr = self.trace(j, comp, s, e, dtype)
            if mod == 'conflict':
                tr.data = tr.data + 7
            elif mod == 'rate':
                tr.stats.sampling_rate = tr.stats.sampling_rate * 2
            elif mod == 'dtype':
                tr.data = tr.data.astype(
                    'int32' if dtype != 'int32' else 'float32')
            elif mod == 'calib':
                tr.stats.calib = 2.5
            traces.append(tr)
        if fault == 'extra':
            tr = self.trace(j, comps[0], k1, k2, dtype)
            tr.stats.channel = tr.stats.channel[:-1] + 'X'
            traces.insert(rng.randrange(len(traces) + 1), tr)
        elif fault == 'foreign':
            tr = self.trace(j, comps[0], k1, k2, dtype)
            tr.stats.station = 'ZZZ'
            traces.insert(rng.randrange(len(traces) + 1), tr)
        elif fault == 'nodatatr':
            tr = self.trace(j, comps[0], k1, k1, dtype)
            tr.data = tr.data[:0]
            traces.append(tr)
        elif fault == 'short':
            n = kw2 - kw1
            if a.get('side') == 'l':
                cut = w.k_time(j, kw1 + m + int(.3 * n * a['pos']))
                traces = [t for t in traces]
                for t in traces:
                    t.trim(cut, None)
            else:
                cut = w.k_time(j, kw2 - m - int(.3 * n * a['pos']))
                for t in traces:
                    t.trim(None, cut)
            traces = [t for t in traces if len(t)]
        elif fault in ('masked', 'maskpad'):
            traces = []
            for comp in comps:
                tr = self.trace(j, comp, k1, k2, dtype)
                if comp == bad:
                    z = zone()
                    if z:
                        mask = np.zeros(len(tr.data), dtype=bool)
                        mask[z[0] - k1:z[1] - k1 + 1] = True
                        tr.data = np.ma.array(tr.data, mask=mask)
                        self.R.probe(fault)
                traces.append(tr)
        if a.get('stale'):
            self.R.probe('stale_headers')
            for tr in traces:
                stale(tr, a['stale'], rng)
        out = Stream(traces)
        return out
