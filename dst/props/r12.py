"""R12: stacks and profiles count every contributing trace exactly once."""
import copy
import math
import os

from dst import common as C
from dst import streams as S

NEEDS = ()
RUNS = {'quick': 420, 'thorough': 40000}
RULE = ('one run: receiver functions of several stations and events are '
        'delivered in several seeded arrival orders, as stream, list, '
        'generator (which may end early or fail), progress-bar wrapper or '
        'from several files in changing order, and are stacked and collected '
        'in profile boxes; compared to accumulators that know nothing of the '
        'code; non-trivial: at least two traces contribute to one result; '
        'distinct by event log')
STATE_MEASURE = ('distinct (kind, delivery, number of ids/boxes, '
                 'multiplicities) combinations')
REAL = C.REAL_ALL + ['cartopy', 'shapely', 'geographiclib']
STUBS = []
ASSUMPTIONS = ['piercing points keep a distance of a tenth of a box (at '
               'least 0.5 km) from box edges and lie within 120 km of the '
               'profile line, so that membership does not depend on the map '
               'projection']


def gen(rng, tier):
    kind = rng.choice(['stack', 'profile', 'profile'])
    nst = rng.randint(1, 4)
    comps = rng.choice(['LQT', 'ZRT', 'QT', 'Q'])
    rate = rng.choice([1, 2, 5])
    sts = []
    for i in range(nst):
        n = rng.randint(8, 40)
        sts.append({'id': [rng.choice(['AA', 'BB']), 'S%02d' % (i % 3),
                           rng.choice(['', '00', '01']),
                           rng.choice(['BH', 'HH'])],
                    'npts': n, 'rate': rng.choice([1, 2, 5]),
                    'on': rng.randint(0, n - 2) / 5.,
                    'lat': round(rng.uniform(-60, 60), 3),
                    'lon': round(rng.uniform(-175, 175), 3),
                    'elev': rng.randint(0, 4000),
                    'phase': rng.choice(['P', 'S']),
                    'mout': rng.choice([None, 'Ps', 'Sp'])})
    for s in sts[1:]:
        if rng.random() < .5:
            # ids which differ in one code only
            s['id'] = list(sts[0]['id'])
            k = rng.randrange(4)
            s['id'][k] = rng.choice([['AA', 'A', 'BB'], ['S', 'S00', 'S000'],
                                     ['', '00', '0', '01'],
                                     ['BH', 'HH', 'LH']][k])
    # same id, same station
    seen = {}
    for s in sts:
        k = tuple(s['id'])
        if k in seen:
            s.update(copy.deepcopy(seen[k]))
        seen[k] = s
    traces = []
    n0 = rng.randint(10, 30)
    geo = None
    if kind == 'profile':
        nb = rng.randint(1, 6)
        fine = rng.random() < .3
        edges = [rng.choice([-60, 0, 100] if not fine else [-1, 0, .25])]
        for _ in range(nb):
            edges.append(edges[-1] + (rng.choice([10, 20, 20, 50]) if not fine
                                      else rng.choice([.25, .5, .5, 2])))
        geo = {'latlon0': [round(rng.uniform(-65, 65), 2),
                           round(rng.uniform(-178, 178), 2)],
               'az': rng.choice([0, 37, 90, 180, 211, 270, 359.5]),
               'edges': edges, 'width': rng.choice([100, 300, 2000])
               if not fine else rng.choice([4, 10]), 'fine': fine,
               'none': rng.random() < .05}
        if not fine and rng.random() < .15:
            # large boxes with traces far from the profile line
            e0 = rng.choice([-400, 0, 150])
            geo.update(edges=[e0 + 300 * k for k in range(rng.randint(2, 4))],
                       width=2000, long=True)
            geo['latlon0'][0] = round(rng.uniform(-20, 20), 2)
    many = rng.random() < .06
    for e in range(rng.randint(1, 5) if not many else rng.randint(20, 80)):
        for s in sts:
            if rng.random() < .2:
                continue
            pp = None
            if geo:
                pp = gen_pp(rng, geo)
            for c in comps:
                if rng.random() < .1:
                    continue
                t = {'id': s['id'][:3] + [s['id'][3] + c],
                     'npts': s['npts'] if not geo else n0,
                     'rate': s['rate'] if not geo else rate,
                     't0': 1000. * e + 13 * len(traces),
                     'on': s['on'] if not geo else 2.,
                     'seed': rng.randrange(10 ** 6), 'dtype': 'f8',
                     'h': {'station_latitude': s['lat'],
                           'station_longitude': s['lon'],
                           'station_elevation': s['elev'],
                           'phase': s['phase'], 'type': 'rf',
                           'event_time': 1000. * e - 500,
                           'slowness': round(rng.uniform(5, 8), 2)}}
                if s['mout']:
                    t['h']['moveout'] = s['mout']
                if pp:
                    t['pp'] = pp
                traces.append(t)
    return {'kind': kind, 'stream': traces, 'geo': geo,
            'orders': [rng.randrange(10 ** 6) for _ in range(3)],
            'delivery': rng.choice(['stream', 'generator', 'generator',
                                    'list', 'tqdm', 'files']),
            'endat': rng.choice([None, None, rng.random()]),
            'failat': rng.choice([None, None, rng.random()]),
            'fail': rng.choice(['OSError', 'KeyboardInterrupt']),
            'fmt': rng.choice(['SAC', 'Q', 'H5']),
            'nfiles': rng.randint(1, 4),
            'crs': rng.random() < .5, 'reuse': rng.random() < .7,
            'part': rng.choice([None, rng.random()])}


def gen_pp(rng, geo):
    """Position along and across the profile in km, and the box number."""
    e = geo['edges']
    b = rng.randrange(-1, len(e))
    half = min(geo['width'] / 2., 120 if not geo.get('long') else 1000)
    if b == -1 or b == len(e) - 1:
        m = rng.uniform(*(.05, 3) if geo['fine'] else (2, 80)
                        if not geo.get('long') else (105, 200))
        s = e[0] - m if b == -1 else e[-1] + m
        b = None
    else:
        m = max(.02 if geo['fine'] else .5, (.1 if not geo.get('long') else
                                             .35) * (e[b + 1] - e[b]))
        s = rng.uniform(e[b] + m, e[b + 1] - m)
    c = rng.uniform(-.85, .85) * half
    if b is not None and geo['width'] <= 300 and rng.random() < .15:
        c = rng.choice([-1, 1]) * geo['width'] / 2. * rng.uniform(1.1, 1.4)
        b = None
    else:
        # whether "across" is perpendicular to the azimuth at the start of
        # the profile or at this point must not matter
        turn = abs(s) / 6371 * math.tan(math.radians(
            min(80, abs(geo['latlon0'][0]) + 3)))
        lim = .6 * m / (turn + 1e-9)
        c = max(-lim, min(lim, c))
    return [round(s, 3), round(c, 3), b]


def shrink(plan):
    yield from S.shrink_spec(plan)
    yield from C.drop_from_list(plan, 'orders', 1)
    yield from C.simplify(plan, 'delivery', ['stream'])
    yield from C.simplify(plan, 'endat', [None])
    yield from C.simplify(plan, 'failat', [None])
    yield from C.simplify(plan, 'crs', [False])


class Bar(object):

    """Progress-bar wrapper, looks like tqdm."""

    def __init__(self, iterable):
        self.iterable = iterable

    def __iter__(self):
        return iter(self.iterable)


def point(geo, along, across):
    from geographiclib.geodesic import Geodesic
    g = Geodesic.WGS84.Direct(geo['latlon0'][0], geo['latlon0'][1],
                              geo['az'], along * 1000)
    az = g['azi2'] + 90
    g = Geodesic.WGS84.Direct(g['lat2'], g['lon2'], az, across * 1000)
    return g['lat2'], g['lon2']


def execute(plan, R):
    import random
    import numpy as np
    from rf import RFStream, get_profile_boxes, read_rf
    from rf.profile import profile
    base = S.build(plan['stream'])
    for t, tr in zip(plan['stream'], base):
        if t.get('pp'):
            tr.stats.pp_latitude, tr.stats.pp_longitude = point(
                plan['geo'], t['pp'][0], t['pp'][1])
            tr.stats.pp_depth = 50.
    if len(base) == 0:
        R.probe('empty')
        return
    results = []
    allboxes = None
    for oi, order in enumerate(plan['orders']):
        idx = list(range(len(base)))
        if oi:
            random.Random(order).shuffle(idx)
        end = len(idx)
        if plan['endat'] is not None and plan['delivery'] in (
                'generator', 'tqdm'):
            end = int(plan['endat'] * len(idx))
            R.fault('iterator_ends_early')
        R.log('order', idx, 'until', end, plan['delivery'])
        stream = RFStream([base[i].copy() for i in idx])
        if plan['kind'] == 'stack':
            if plan['delivery'] == 'files':
                stream, idx = through_files(plan, base, idx, order, R)
                end = len(idx)
            used = idx[:end]
            if not used:
                continue
            st = RFStream([tr for tr in stream[:end]]).stack()
            check_stack(plan, base, used, st, R)
        else:
            geo = plan['geo']
            # boxes may be used again, with another projection or in part
            if allboxes is None or not plan.get('reuse'):
                allboxes = get_profile_boxes(
                    tuple(geo['latlon0']), geo['az'], geo['edges'],
                    geo['width'])
            boxes = allboxes
            if oi == 2 and plan.get('part'):
                boxes = boxes[:1 + int(plan['part'] * (len(boxes) - 1))]
            kw = {}
            if plan['crs'] and oi != 1:
                import cartopy.crs as ccrs
                kw['crs'] = ccrs.AzimuthalEquidistant(
                    geo['latlon0'][1] + oi, geo['latlon0'][0])
            if plan['failat'] is not None and plan['delivery'] in (
                    'generator', 'tqdm'):
                failing(plan, stream, boxes, kw, R)
            if plan['delivery'] == 'files':
                stream, idx = through_files(plan, base, idx, order, R)
                end = len(idx)
            used = idx[:end]
            src = stream
            if plan['delivery'] == 'generator':
                src = (tr for tr in stream.traces[:end])
            elif plan['delivery'] == 'list':
                src = list(stream)
            elif plan['delivery'] == 'tqdm':
                src = Bar(RFStream(stream.traces[:end]) if oi % 2 else
                          iter(stream.traces[:end]))
            st = profile(src, boxes, **kw) if plan['delivery'] != 'stream' \
                else stream.profile(boxes, **kw)
            check_profile(plan, base, used, st, boxes, R)
        if plan['kind'] == 'stack' or boxes is allboxes:
            results.append((used, st))
    # same members, same result
    for used, st in results[1:]:
        if sorted(used) == sorted(results[0][0]):
            a = {tr.id + str(tr.stats.get('box_pos')): tr.data
                 for tr in results[0][1]}
            b = {tr.id + str(tr.stats.get('box_pos')): tr.data for tr in st}
            if sorted(a) != sorted(b) or any(
                    not np.allclose(a[k], b[k], rtol=1e-5, atol=1e-6)
                    for k in a):
                R.violation('order', 'result depends on the arrival order')


def through_files(plan, base, idx, order, R):
    """Write the traces to several files and read them in another order."""
    import random
    from rf import RFStream, read_rf
    rng = random.Random(order)
    n = plan['nfiles']
    parts = [[] for _ in range(n)]
    for i in idx:
        parts[rng.randrange(n)].append(i)
    stream, out = RFStream(), []
    fmt = plan['fmt']
    ext = {'SAC': '.SAC', 'Q': '.QHD', 'H5': '.h5'}[fmt]
    d = 'o%d' % order
    os.makedirs(d, exist_ok=True)
    names = []
    for k, p in enumerate(parts):
        if not p:
            continue
        s = RFStream([base[i].copy() for i in p])
        for i, tr in zip(p, s):
            tr.stats.event_magnitude = float(i)     # marks the trace
        if fmt == 'SAC':
            for i, tr in zip(p, s):
                name = '%s/%d_%d.SAC' % (d, k, i)
                tr.write(name, fmt)
                names.append(name)
        else:
            name = '%s/%d%s' % (d, k, ext)
            s.write(name, fmt)
            names.append(name)
    rng.shuffle(names)
    for name in names:
        for tr in read_rf(name, fmt):
            stream.append(tr)
            out.append(int(round(tr.stats.event_magnitude)))
    R.probe('through_files')
    return stream, out


def failing(plan, stream, boxes, kw, R):
    """The source of traces fails: the error arrives, nothing else happens."""
    import random
    from rf.profile import profile
    k = int(plan['failat'] * len(stream))
    exc = OSError('sim') if plan['fail'] == 'OSError' else \
        KeyboardInterrupt('sim')
    before = S.freeze(stream)

    def source():
        for i, tr in enumerate(stream):
            if i == k:
                R.fault('iterator_' + plan['fail'])
                raise exc
            yield tr
    try:
        profile(source() if plan['delivery'] == 'generator' else
                Bar(source()), boxes, **kw)
    except BaseException as ex:
        if ex is not exc:
            raise
        R.probe('failure_arrived')
    else:
        R.violation('swallowed', 'profile of %d traces returned although the '
                    'source of traces failed at %d' % (len(stream), k))
    if S.freeze(stream) != before:
        R.violation('input-changed', 'failed profile changed its input')


def check_stack(plan, base, used, st, R):
    import numpy as np
    want = {}
    for i in used:
        want.setdefault(base[i].id, []).append(base[i])
    got = {}
    for tr in st:
        got.setdefault(tr.id, []).append(tr)
    R.state('stack', plan['delivery'], tuple(sorted(map(len,
                                                        want.values()))))
    if any(len(v) > 1 for v in want.values()):
        R.nontrivial = True
    loose = plan['delivery'] == 'files'
    tol = 1e-6 if loose else 1e-10
    for k in sorted(set(want) | set(got)):
        a, b = len(got.get(k, ())), 1 if k in want else 0
        if a != b:
            R.violation('stack:traces', '%d stacks for id %s instead of %d' %
                        (a, k, b))
            continue
        tr, members = got[k][0], want[k]
        mean = sum(np.asarray(m.data, float) for m in members) / len(members)
        if len(tr.data) != len(mean) or \
                np.max(np.abs(tr.data - mean)) > tol:
            R.violation('stack:samples', 'stack of %s is not the mean of its '
                        '%d traces' % (k, len(members)))
        m = members[0]
        if abs(tr.stats.sampling_rate - m.stats.sampling_rate) > 1e-5:
            R.violation('stack:rate', 'sampling rate of %s is %s instead of '
                        '%s' % (k, tr.stats.sampling_rate,
                                m.stats.sampling_rate))
        for h in ('station_latitude', 'station_longitude',
                  'station_elevation', 'phase', 'moveout'):
            u, v = tr.stats.get(h), m.stats.get(h)
            if u != v and (isinstance(v, str) or u is None or v is None or
                           abs(u - v) > 1e-4 * max(1, abs(v))):
                R.violation('stack:header', '%s of %s is %r instead of %r' % (
                    h, k, u, v))
        on = tr.stats.onset - tr.stats.starttime
        if abs(on - (m.stats.onset - m.stats.starttime)) > 2e-3:
            R.violation('stack:onset', 'onset of %s is at %s s instead of %s '
                        's' % (k, on, m.stats.onset - m.stats.starttime))
        R.probe('stack_checked')


def check_profile(plan, base, used, st, boxes, R):
    import numpy as np
    geo = plan['geo']
    e = geo['edges'][:len(boxes) + 1]
    want = {}
    for i in used:
        b = plan['stream'][i]['pp'][2]
        if b is not None and b < len(boxes):
            want.setdefault((base[i].stats.channel[-1], b), []).append(
                base[i])
    R.state('profile', plan['delivery'], len(e), tuple(sorted(map(
        len, want.values()))))
    if any(len(v) > 1 for v in want.values()):
        R.nontrivial = True
    loose = plan['delivery'] == 'files'
    tol = 1e-6 if loose else 1e-10
    got = {}
    seq = []
    for tr in st:
        pos = tr.stats.box_pos
        b = [k for k in range(len(e) - 1)
             if abs((e[k] + e[k + 1]) / 2. - pos) < 1e-6]
        if not b:
            R.violation('profile:box', 'unknown box position %s' % pos)
            return
        got.setdefault((tr.stats.channel[-1], b[0]), []).append(tr)
        seq.append((tr.stats.channel, pos))
        if tr.stats.type != 'profile':
            R.violation('profile:type', 'type is %r' % tr.stats.type)
    if seq != sorted(seq):
        R.violation('profile:order', 'traces are not in order of position: '
                    '%s' % seq)
    for k in sorted(set(want) | set(got)):
        a, b = len(got.get(k, ())), 1 if k in want else 0
        if a != b:
            R.violation('profile:traces', '%d traces for component %s in box '
                        '%d instead of %d' % (a, k[0], k[1], b))
            continue
        tr, members = got[k][0], want[k]
        if tr.stats.num != len(members):
            R.violation('profile:num', 'num is %s instead of %d for component '
                        '%s in box %d' % (tr.stats.num, len(members), *k))
        mean = sum(np.asarray(m.data, float) for m in members) / len(members)
        if len(tr.data) != len(mean) or \
                np.max(np.abs(tr.data - mean)) > tol:
            R.violation('profile:samples', 'component %s in box %d is not the '
                        'mean of its %d traces' % (*k, len(members)))
        m = members[0]
        if abs(tr.stats.box_length - (e[k[1] + 1] - e[k[1]])) > 1e-9:
            R.violation('profile:header', 'box_length is %s' %
                        tr.stats.box_length)
        on = tr.stats.onset - tr.stats.starttime
        if abs(on - (m.stats.onset - m.stats.starttime)) > 2e-3:
            R.violation('profile:onset', 'onset is at %s s' % on)
        if abs(tr.stats.sampling_rate - m.stats.sampling_rate) > 1e-5:
            R.violation('profile:rate', 'sampling rate is %s' %
                        tr.stats.sampling_rate)
        R.probe('profile_checked')
