"""
Simulated earth, stations, events and the waveforms of every channel.

`spec` is plain JSON: {'stations': [...], 'events': [...], 'phase': 'P', ...}.
Ground truth of a channel is a function of channel name and sample number, so
every sample of every delivered trace can be identified.
"""
import hashlib
import math

import numpy as np

PHASES = {'P': (30, 90), 'S': (50, 85)}
DEG2KM = 111.2


def direct(lat, lon, azi, deg):
    """Spherical direct problem, good enough for placing events."""
    la, az, d = math.radians(lat), math.radians(azi), math.radians(deg)
    la2 = math.asin(math.sin(la) * math.cos(d) +
                    math.cos(la) * math.sin(d) * math.cos(az))
    lo2 = math.radians(lon) + math.atan2(
        math.sin(az) * math.sin(d) * math.cos(la),
        math.cos(d) - math.sin(la) * math.sin(la2))
    lo2 = (math.degrees(lo2) + 540) % 360 - 180
    return math.degrees(la2), lo2


NETS = ['CX', 'GE', 'XX', '7A']
RATES = [1, 2, 4, 5, 8, 10, 20]


def gen_stations(rng, n, rates=RATES, epochs=True, bands=('BH', 'HH', 'LH'),
                 same_rate=False, two_bands=False, offsets=True):
    lat0 = round(rng.uniform(-60, 60), 3)
    lon0 = round(rng.uniform(-177, 177), 3)
    rate = rng.choice(rates)
    out = []
    for i in range(n):
        net = rng.choice(NETS[:1 + n // 2])
        st = {'net': net, 'sta': 'ST%02d' % i if rng.random() < .7 else
              'S%d' % i, 'loc': rng.choice(['', '', '00', '10']),
              'band': rng.choice(bands),
              'comps': rng.choice(['ZNE', 'ZNE', 'ENZ', 'NZE']),
              'lat': round(lat0 + rng.uniform(-2, 2), 4),
              'lon': round(lon0 + rng.uniform(-2, 2), 4),
              'elev': round(rng.uniform(-100, 4000), 1),
              'rate': rate if same_rate else rng.choice(rates),
              'offs': rng.choice([0, 0, 0, 0.25, 0.5, 0.3]) if offsets else 0,
              'epochs': [[None, None, 0]]}
        if out and rng.random() < .2:
            # array: very near to another station, or at the same place
            o = rng.choice(out)
            d = rng.choice([0, .0004, .003, .02])
            st['lat'] = round(o['lat'] + rng.uniform(-d, d), 5)
            st['lon'] = round(o['lon'] + rng.uniform(-d, d), 5)
        if out and rng.random() < .1:
            # the same station code in another network
            o = rng.choice(out)
            others = [n for n in NETS if n not in [
                q['net'] for q in out if q['sta'] == o['sta']]]
            if others:
                st['sta'], st['net'] = o['sta'], rng.choice(others)
        elif out and rng.random() < .1:
            # another sensor of the same station, some way off
            o = rng.choice(out)
            others = [c for c in ('', '00', '10', '20') if c not in [
                q['loc'] for q in out
                if q['sta'] == o['sta'] and q['net'] == o['net']]]
            if others:
                st['sta'], st['net'] = o['sta'], o['net']
                st['loc'] = rng.choice(others)
        if epochs and rng.random() < .35:
            # closed/moved stations; time as fraction of the event period
            t = round(rng.uniform(0, 1), 3)
            st['epochs'] = rng.choice([
                [[None, t, 0]], [[t, None, 0]],
                [[None, t, 0], [t, None, round(rng.uniform(.05, .3), 3)]]])
        out.append(st)
    if two_bands and out and rng.random() < .5:
        st = dict(out[-1])
        st['band'] = 'HH' if st['band'] != 'HH' else 'BH'
        out.append(st)
    return out


def gen_events(rng, n, stations, phase='P', far=.15, bad=.0, hours=(1, 200),
               dist=None):
    lo, hi = dist or PHASES.get(phase, (60, 120))
    s0 = stations[0]
    t = rng.randrange(0, 86400 * 3650)
    out = []
    for i in range(n):
        t += rng.randrange(int(hours[0] * 3600), int(hours[1] * 3600))
        azi = round(rng.uniform(0, 360), 2)
        if rng.random() < far:
            d = rng.choice([5, lo - 6, hi + 6, 130])
        else:
            d = rng.uniform(lo + 4, hi - 4)
        lat, lon = direct(s0['lat'], s0['lon'], azi, d)
        ev = {'lat': round(lat, 4), 'lon': round(lon, 4),
              'depth': round(rng.uniform(1, 300) + i * 1e-3, 3),
              't': t, 'us': rng.choice([0, 0, 500000, rng.randrange(10 ** 6)]),
              'mag': round(rng.uniform(5, 8), 1), 'var': 'normal'}
        r = rng.random()
        if r < .15:
            ev['var'] = 'preferred2'
        elif r < .25:
            ev['var'] = 'first'
        if rng.random() < bad:
            ev['var'] = rng.choice(['noorigin', 'nomag', 'nodepth', 'notime',
                                    'nolat'])
        out.append(ev)
    return out


class World(object):

    def __init__(self, spec):
        from obspy import UTCDateTime as UTC
        self.spec = spec
        self.stations = spec['stations']
        self.events = spec['events']
        self.phase = spec.get('phase', 'P')
        self.method = self.phase[-1].upper()
        self.window = tuple(spec.get('window') or (
            (-50, 150) if self.method == 'P' else (-100, 50)))
        self.pad = spec.get('pad', 10)
        self.T0 = UTC(spec.get('year', 2005), 1, 1)
        ts = [e['t'] for e in self.events] or [0]
        self.span = (min(ts) - 3600, max(ts) + 3600)
        self.dist_range = spec.get('dist_range', PHASES.get(self.phase))
        self._cache = {}

    # -- catalogue and inventory -------------------------------------------
    def time(self, i):
        e = self.events[i]
        return self.T0 + e['t'] + e['us'] / 1e6

    def evid(self, i):
        return 'smi:sim.org/event/%d' % self.events[i].get('uid', i)

    def catalog(self):
        from obspy.core.event import (Catalog, Event, Origin, Magnitude,
                                      ResourceIdentifier as RI)
        cat = []
        for i, e in enumerate(self.events):
            ev = Event(resource_id=RI(self.evid(i)))
            good = dict(time=self.time(i), latitude=e['lat'],
                        longitude=e['lon'], depth=e['depth'] * 1000)
            bad = dict(time=self.time(i) + 777, latitude=-e['lat'] / 2,
                       longitude=e['lon'] / 2, depth=5000.)
            var = e['var']
            if var == 'nodepth':
                good['depth'] = None
            if var == 'notime':
                good['time'] = None
            if var == 'nolat':
                good['latitude'] = None
            # FDSN-like ids, unique in the catalogue
            o1 = Origin(resource_id=RI(self.evid(i) + '/o1'), **good)
            o2 = Origin(resource_id=RI(self.evid(i) + '/o2'), **bad)
            m1 = Magnitude(resource_id=RI(self.evid(i) + '/m1'), mag=e['mag'])
            m2 = Magnitude(resource_id=RI(self.evid(i) + '/m2'),
                           mag=e['mag'] / 2)
            ev.magnitudes = [m1]
            if var == 'preferred2':
                ev.origins = [o2, o1]
                ev.magnitudes = [m2, m1]
                ev.preferred_origin_id = o1.resource_id
                ev.preferred_magnitude_id = m1.resource_id
            elif var == 'first':
                ev.origins = [o1, o2]
                ev.magnitudes = [m1, m2]
            elif var == 'noorigin':
                ev.origins = []
            else:
                ev.origins = [o1]
            if var == 'nomag':
                ev.magnitudes = []
            self._keep = getattr(self, '_keep', []) + [o1, o2, m1, m2]
            cat.append(ev)
        return Catalog(cat)

    def _frac(self, f):
        if f is None:
            return None
        a, b = self.span
        return self.T0 + round(a + f * (b - a))

    def epochs(self, j):
        st = self.stations[j]
        return [(self._frac(a), self._frac(b), dl)
                for a, b, dl in st['epochs']]

    def inventory(self):
        from obspy.core.inventory import Inventory, Network, Station
        nets = {}
        for j, st in enumerate(self.stations):
            net = nets.setdefault(st['net'], Network(st['net'], stations=[]))
            epochs = self.epochs(j)
            if self.spec.get('split') and len(epochs) > 1:
                # an entry for each epoch of the station
                for a, b, dl in epochs[:-1]:
                    net.stations.append(Station(
                        st['sta'], latitude=st['lat'] + dl,
                        longitude=st['lon'] + dl, elevation=st['elev'],
                        start_date=a, end_date=b, channels=self._channels(
                            st, [(a, b, dl)])))
                epochs = epochs[-1:]
            chans = self._channels(st, epochs)
            dl = epochs[0][2]
            net.stations.append(Station(
                st['sta'], latitude=st['lat'] + dl, longitude=st['lon'] + dl,
                elevation=st['elev'], channels=chans))
        return Inventory(networks=list(nets.values()), source='sim')

    def _channels(self, st, epochs):
        from obspy.core.inventory import Channel
        chans = []
        for comp in st['comps']:
            for a, b, dl in epochs:
                chans.append(Channel(
                    st['band'] + comp, st['loc'],
                    latitude=st['lat'] + dl, longitude=st['lon'] + dl,
                    elevation=st['elev'] + 10 * dl, depth=0,
                    azimuth={'N': 0, 'E': 90}.get(comp, 0),
                    dip=-90 if comp == 'Z' else 0,
                    sample_rate=st['rate'], start_date=a, end_date=b))
        return chans

    # -- reference ray parameters (independent of rf) ----------------------
    def coords(self, i, j):
        t = self.time(i)
        st = self.stations[j]
        for a, b, dl in self.epochs(j):
            if (a is None or t >= a) and (b is None or t <= b):
                return {'latitude': st['lat'] + dl, 'longitude':
                        st['lon'] + dl, 'elevation': st['elev'] + 10 * dl}

    def pair(self, i, j):
        """Reference metadata of pair or None if there is nothing to do."""
        key = (i, j)
        if key not in self._cache:
            self._cache[key] = self._pair(i, j)
        return self._cache[key]

    def _pair(self, i, j):
        from obspy.geodetics import gps2dist_azimuth
        e = self.events[i]
        c = self.coords(i, j)
        if c is None or e['var'] in ('noorigin', 'nomag', 'nodepth', 'notime',
                                     'nolat'):
            return None
        d, baz, _ = gps2dist_azimuth(c['latitude'], c['longitude'],
                                     e['lat'], e['lon'])
        dist = d / 1000 / DEG2KM
        if self.dist_range and not (
                self.dist_range[0] <= dist <= self.dist_range[1]):
            return None
        arr = self.arrival(e['depth'] * 1000 / 1000, dist)
        if arr is None:
            return None
        t = self.time(i)
        return {'station_latitude': c['latitude'],
                'station_longitude': c['longitude'],
                'station_elevation': c['elevation'],
                'event_latitude': e['lat'], 'event_longitude': e['lon'],
                'event_depth': e['depth'], 'event_magnitude': e['mag'],
                'event_time': t, 'event_id': self.evid(i),
                'distance': dist, 'back_azimuth': baz,
                'inclination': arr[1], 'slowness': arr[2],
                'onset': t + arr[0], 'phase': self.phase}

    def arrival(self, depth, dist):
        if self.spec.get('real_taup'):
            from obspy.taup import TauPyModel
            arrs = TauPyModel(self.spec.get('tt_model') or
                              'iasp91').get_travel_times(
                depth, dist, (self.phase,))
            if not arrs:
                return None
            return (arrs[0].time, arrs[0].incident_angle,
                    arrs[0].ray_param_sec_degree)
        return stub_arrival(depth, dist, self.phase, self.spec.get('align'),
                            self.spec.get('tt_model'))

    # -- ground truth -------------------------------------------------------
    def chan_key(self, j, comp):
        st = self.stations[j]
        return '%s.%s.%s.%s%s' % (st['net'], st['sta'], st['loc'],
                                  st['band'], comp)

    def grid(self, j):
        """Sampling interval in us and offset of the sampling grid in us."""
        st = self.stations[j]
        d = int(round(1e6 / st['rate']))
        return d, int(round(d * st['offs']))

    def k_range(self, j, t1, t2):
        """Sample numbers with t1 <= time <= t2."""
        d, o = self.grid(j)
        a = int(round((t1.ns - self.T0.ns) / 1e3)) - o
        b = int(round((t2.ns - self.T0.ns) / 1e3)) - o
        return -((-a) // d), b // d

    def k_time(self, j, k):
        d, o = self.grid(j)
        return self.T0.__class__(ns=self.T0.ns + (int(k) * d + o) * 1000)

    def values(self, j, comp, k1, k2, dtype='float64'):
        """True samples k1..k2 (inclusive)."""
        h = int.from_bytes(hashlib.md5(
            self.chan_key(j, comp).encode()).digest()[:4], 'big')
        k = np.arange(k1, k2 + 1, dtype=np.int64)
        mode = self.spec.get('signal', 'code')
        if mode == 'code':
            v = ((k * 2654435761 + h * 40503) >> 7) % 1000003
            v = (v % 65521) - 32760
            return v.astype(dtype)
        return self.seismogram(j, comp, k).astype(dtype)

    def seismogram(self, j, comp, k):
        """Band-limited synthetic seismogram with an arrival for each event."""
        d, o = self.grid(j)
        t = (k * d + o) / 1e6
        st = self.stations[j]
        h = int.from_bytes(hashlib.md5(self.chan_key(j, comp).encode()
                                       ).digest()[:4], 'big')
        rs = np.random.RandomState(h % (2 ** 31))
        out = np.zeros(len(k))
        # reproducible noise as a sum of sinusoids
        tt = t
        for _ in range(12):
            f = rs.uniform(.02, .3) * min(1., st['rate'] / 2.)
            out += rs.uniform(.5, 1.5) * np.sin(
                2 * np.pi * ((f * tt) % 1.) + rs.uniform(0, 6.28))
        out *= 5.
        amp = {'Z': 900., 'N': 500., 'E': 350.}.get(comp, 400.)
        for i in range(len(self.events)):
            p = self.pair(i, j)
            if p is None:
                continue
            x = t - (p['onset'] - self.T0)
            if len(x) == 0 or x[-1] < -1000 or x[0] > 1000:
                continue
            r2 = np.random.RandomState((h + 7919 * i) % (2 ** 31))
            for tau, rel in ((0, 1.), (r2.uniform(3, 8), r2.uniform(-.5, .6)),
                             (r2.uniform(9, 25), r2.uniform(-.3, .3))):
                w = 1.2
                y = (x - tau) / w
                out += amp * rel * np.exp(-y ** 2 / 2) * (1 - .5 * y)
            ringing = np.where((x > 0) & (x < 400),
                               np.exp(-np.clip(x, 0, 400) / 20.), 0)
            out += 40 * ringing * np.sin(
                2 * np.pi * r2.uniform(.05, .2) * x + r2.uniform(0, 6))
        return np.round(out * 16) / 16


def stub_arrival(depth, dist, phase, align=False, model=None):
    """Smooth synthetic travel time curve: (time, incidence, slowness)."""
    s = phase[-1].upper() == 'S'
    k = 1.8 if s else 1.
    slow = (9.0 - .05 * dist) * k - depth * 2e-4
    t = (60 + 9.0 * dist - .025 * dist ** 2) * k - depth * .08
    # exact microseconds keep the bookkeeping of the simulator exact
    t = float(round(t)) if align else round(t * 1e6) / 1e6
    inc = 30 - .15 * dist + .003 * depth
    if model not in (None, 'iasp91'):
        t, inc, slow = t + len(model), inc + .5, slow * 1.01
    return t, inc, slow


class Arrival(object):

    def __init__(self, phase, t, inc, slow, dist, depth):
        self.name = self.phase = phase
        self.time = t
        self.incident_angle = inc
        self.ray_param_sec_degree = slow
        self.ray_param = slow * 180 / math.pi
        self.distance = dist
        self.purist_distance = dist
        self.source_depth = depth
        self.takeoff_angle = inc


class TaupStub(object):

    """Replaces the ray tracer; answers are logged and may be faulty."""

    def __init__(self, R, world=None, fault=None, log=True):
        self.R = R
        self.fault = fault      # f(depth, dist) -> None or fault name
        self.calls = 0
        self.log = log
        self.align = world is not None and world.spec.get('align')
        self.on_call = None

    def install(self):
        from obspy.taup.tau import TauPyModel
        self._old = (TauPyModel.__init__, TauPyModel.get_travel_times)
        stub = self

        def init(self, model='iasp91', *args, **kw):
            self._sim_model = model

        def get_travel_times(self, source_depth_in_km,
                             distance_in_degree=None, phase_list=('ttall',),
                             *args, **kw):
            stub.calls += 1
            if stub.log:
                stub.R.log('taup', round(source_depth_in_km, 6),
                           round(distance_in_degree, 6), phase_list)
            if stub.on_call is not None:
                stub.on_call(stub.calls)
            f = stub.fault and stub.fault(source_depth_in_km,
                                          distance_in_degree)
            if f == 'noarr':
                stub.R.fault('taup_no_arrival')
                return []
            if f == 'exc':
                stub.R.fault('taup_exception')
                raise ValueError('simulated ray tracer failure')
            out = []
            for ph in phase_list:
                t, inc, slow = stub_arrival(source_depth_in_km,
                                            distance_in_degree, ph,
                                            stub.align, self._sim_model)
                out.append(Arrival(ph, t, inc, slow, distance_in_degree,
                                   source_depth_in_km))
                if f == 'two':
                    stub.R.fault('taup_two_arrivals')
                    out.append(Arrival(ph, t + 33, inc + 5, slow + 1,
                                       distance_in_degree,
                                       source_depth_in_km))
            return out
        TauPyModel.__init__ = init
        TauPyModel.get_travel_times = get_travel_times
        return self

    def restore(self):
        from obspy.taup.tau import TauPyModel
        TauPyModel.__init__, TauPyModel.get_travel_times = self._old


class SimPbar(object):

    """Progress display (tqdm interface used by rf)."""

    def __init__(self, R, on_update=None):
        self.R = R
        self.total = None
        self.n = 0
        self.updates = []
        self.on_update = on_update
        self.totals = []

    def update(self, n=1):
        self.updates.append(n)
        self.n += n
        if self.on_update:
            self.on_update(self)

    def __setattr__(self, k, v):
        if k == 'total' and v is not None:
            self.totals.append(v)
        object.__setattr__(self, k, v)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def close(self):
        pass

    def refresh(self, *a, **k):
        pass

    def set_description(self, *a, **k):
        pass

    def reset(self, total=None):
        if total is not None:
            self.total = total
