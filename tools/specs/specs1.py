PRELUDE = '''import os
import sys
import numpy as np
from obspy import UTCDateTime as UTC, Stream, Trace, read_events, read_inventory
from rf import read_rf, RFStream, rfstats
from rf.batch import run_cli
import rf.batch
rf.batch.tqdm = lambda *a, **k: None
import contextlib, io


def quiet(*args):
    with contextlib.redirect_stdout(io.StringIO()):
        run_cli(list(args))


'''
TUT = '''quiet('create', '-t')
cat = read_events('example_events.xml')
inv = read_inventory('example_inventory.xml')
'''
ANSWER = '''

def answer(network, station, location, channel, starttime, endtime, **kw):
    """Complete three component data for every request."""
    out = Stream()
    for c in 'ZNE':
        n = int(round((endtime - starttime) * 5)) + 1
        out.append(Trace(np.random.RandomState(ord(c)).randn(n), {
            'network': network, 'station': station, 'location': location,
            'channel': channel[:-1] + c, 'starttime': starttime,
            'sampling_rate': 5.}))
    return out


'''
SPECS = []


def seed(**kw):
    SPECS.append(kw)


seed(id='s01', property='R01',
     edits=[('rf/batch.py', '''    def wrapper(**kwargs):
        try:
            return get_waveforms(**kwargs)
''', '''    failed = set()

    def wrapper(**kwargs):
        station = (kwargs.get('network'), kwargs.get('station'))
        try:
            if failed and station in failed:
                return None
            return get_waveforms(**kwargs)
'''), ('rf/batch.py', '''            print(msg % (seedid, ex))
''', '''            print(msg % (seedid, ex))
            failed.add(station)
''')],
     needs='a data source which raises for one event and has data for a later event at the same station',
     what='after one failed request all later pairs of that station are left out',
     demo=TUT + '''import obspy.clients.fdsn
from obspy import read
data = read('example_data.mseed')
n = [0]


class Client(object):
    def get_waveforms(self, network, station, location, channel, starttime, endtime, **kw):
        n[0] += 1
        if n[0] == 2:
            raise ValueError('no data for this request')
        return data.select(network=network, station=station, location=location, channel=channel).slice(starttime, endtime).copy()


obspy.clients.fdsn.Client = Client
with contextlib.redirect_stdout(io.StringIO()):
    gw = rf.batch.init_data('fdsn')
    found = list(rf.util.iter_event_data(cat, inv, gw)) if hasattr(rf, 'util') else None
print(n[0], len(found))
sys.exit(0 if n[0] > 3 and len(found) >= n[0] - 3 and len(found) >= 4 else 1)
'''.replace("rf.util.iter_event_data(cat, inv, gw)) if hasattr(rf, 'util') else None", "iter_event_data(cat, inv, gw))").replace('from obspy import read\n', 'from obspy import read\nfrom rf import iter_event_data\n'))

seed(id='s03', property='R02',
     edits=[('rf/util.py', '''    for event, seedid in itertools.product(events, stations):
        if pbar is not None:
            pbar.update(1)
        try:
            origin_time = (event''', '''    coordinates = {}
    for event, seedid in itertools.product(events, stations):
        if pbar is not None:
            pbar.update(1)
        try:
            origin_time = (event'''),
            ('rf/util.py', '''            args = (seedid[:-1] + stations[seedid], origin_time)
            coords = inventory.get_coordinates(*args)
''', '''            args = (seedid[:-1] + stations[seedid], origin_time)
            if seedid not in coordinates:
                coordinates[seedid] = inventory.get_coordinates(*args)
            coords = coordinates[seedid]
''')],
     needs='a station which was relocated between two events of the catalogue',
     what='metadata of later events use the coordinates of the first epoch',
     demo=TUT + ANSWER + '''from rf import iter_event_data
import copy
times = sorted(ev.origins[0].time for ev in cat)
mid = times[len(times) // 2] - 1000
for net in inv:
    for sta in net:
        new = []
        for ch in sta.channels:
            c2 = copy.deepcopy(ch)
            ch.end_date = mid
            c2.start_date = mid
            c2.latitude = ch.latitude + 1.
            new.append(c2)
        sta.channels += new
ok = True
lats = set()
for st in iter_event_data(cat, inv, answer):
    ev = st[0].stats.event_time
    want = [ch.latitude for net in inv for sta in net for ch in sta.channels
            if (ch.start_date is None or ch.start_date <= ev) and (ch.end_date is None or ev <= ch.end_date)][0]
    lats.add(want)
    ok = ok and abs(st[0].stats.station_latitude - want) < 1e-6
sys.exit(0 if ok and len(lats) == 2 else 1)
''')

seed(id='s04', property='R02',
     edits=[('rf/util.py', '''        if any(isinstance(tr.data, np.ma.masked_array) for tr in stream):
''', '''        if isinstance(stream[0].data, np.ma.masked_array):
''')],
     needs='a gap which concerns only the second or third component, in data which have already been merged by the source',
     what='streams with masked samples are delivered',
     demo=TUT + ANSWER + '''from rf import iter_event_data
k = [0]


def source(**kw):
    st = answer(**kw)
    k[0] += 1
    # data of one component have been merged by the source
    tr = st[k[0] % 3]
    tr.data = np.ma.array(tr.data)
    tr.data[500:550] = np.ma.masked
    return st


out = list(iter_event_data(cat, inv, source))
bad = [st for st in out if any(np.ma.is_masked(tr.data) for tr in st)]
sys.exit(1 if bad else 0)
''')

seed(id='s05', property='R03',
     edits=[('rf/util.py', '''            stream = get_waveforms(**kws)
        except Exception:  # no data available
''', '''            stream = get_waveforms(**kws)
        except BaseException:  # no data available
''')],
     needs='a keyboard interrupt during a data request',
     what='the interrupt is counted as missing data and retrieval goes on',
     demo=TUT + ANSWER + '''from rf import iter_event_data
n = [0]


def source(**kw):
    n[0] += 1
    if n[0] == 2:
        raise KeyboardInterrupt
    return answer(**kw)


try:
    list(iter_event_data(cat, inv, source))
except KeyboardInterrupt:
    sys.exit(0 if n[0] == 2 else 1)
sys.exit(1)
''')

seed(id='s06', property='R03',
     edits=[('rf/util.py', '''    for event, seedid in itertools.product(events, stations):
        if pbar is not None:
            pbar.update(1)
        try:
            origin_time = (event''', '''    for event, seedid in itertools.product(events, stations):
        if pbar is not None:
            try:
                pbar.update(1)
            except BaseException:  # the progress bar is not essential
                pbar = None
        try:
            origin_time = (event''')],
     needs='an interrupt which arrives while the progress bar is drawn',
     what='the interrupt is swallowed, retrieval goes on',
     demo=TUT + ANSWER + '''from rf import iter_event_data


class Bar(object):
    n = 0

    def update(self, k):
        self.n += k
        if self.n == 3:
            raise KeyboardInterrupt


try:
    list(iter_event_data(cat, inv, answer, pbar=Bar()))
except KeyboardInterrupt:
    sys.exit(0)
sys.exit(1)
''')

seed(id='s07', property='R04',
     edits=[('rf/batch.py', '''    elif format == 'Q':
        stream.write(fname, format)
''', '''    elif format == 'Q':
        if type is None and os.path.exists(fname):
            return  # done by a previous call
        stream.write(fname, format)
''')],
     needs='a kill while a Q record is written, then the command is run again',
     what='the torn record is never completed',
     demo=TUT + '''import glob
quiet('data', 'data')
quiet('calc', 'data', 'ref')
quiet('calc', 'data', 'out')
f = sorted(glob.glob('out/*/*.QHD'))[3]
# the process was killed right after this file had been opened
open(f, 'w').close()
os.remove(f[:-4] + '.QBN')
quiet('calc', 'data', 'out')
a = read_rf(f.replace('out', 'ref', 1))
try:
    b = read_rf(f)
except Exception:
    sys.exit(1)
sys.exit(0 if len(a) == len(b) and np.allclose(a[0].data, b[0].data) else 1)
''')

seed(id='s08', property='R04',
     edits=[('rf/batch.py', '''        for tr in stream:
            fname = fname_pattern.format(root=root, **tr.stats)
            tr.write(fname, format)
''', '''        for n, tr in enumerate(stream):
            fname = fname_pattern.format(root=root, **tr.stats)
            if os.path.exists(fname) and n > 0:
                continue
            tr.write(fname, format)
''')],
     needs='a kill while the second or third component of a SAC record is written, then the command is run again',
     what='the torn file of that component is kept',
     demo=TUT + '''import glob
quiet('--format', 'SAC', 'data', 'ref')
quiet('--format', 'SAC', 'data', 'out')
fs = sorted(glob.glob('out/*/*.SAC'))
assert len(fs) >= 21
for f in fs:
    with open(f, 'r+b') as fh:
        fh.truncate(700)
quiet('--format', 'SAC', 'data', 'out')
for f in fs:
    a = read_rf(f.replace('out', 'ref', 1))
    try:
        b = read_rf(f)
    except Exception:
        sys.exit(1)
    if len(a[0]) != len(b[0]):
        sys.exit(1)
sys.exit(0)
''')

seed(id='s09', property='R05',
     edits=[('rf/batch.py', '''            tr.write(fname, format)


def iter_event''', '''            try:
                tr.write(fname, format)
            except OSError as ex:
                print('cannot write %s: %s' % (fname, ex))


def iter_event''')],
     needs='a SAC file which cannot be written',
     what='the failure does not reach the caller of the batch writer',
     demo='''st = read_rf()[:3]
os.makedirs('o')
# the name of the record is taken by a directory
from rf.batch import FNAMES
rfstats(st)
f = FNAMES['SAC'].format(root='o', **st[1].stats)
os.makedirs(f)
try:
    with contextlib.redirect_stdout(io.StringIO()):
        rf.batch.write(st, 'o', 'SAC')
except Exception:
    sys.exit(0)
sys.exit(1)
''')

seed(id='s10', property='R06',
     edits=[('rf/rfstream.py', '''            try:
                val = st[head]
            except KeyError:
                continue
''', '''            try:
                val = st[head]
            except KeyError:
                continue
            if not val:
                continue
''')],
     needs='a header with value zero (surface event, back azimuth 0, station at sea level) in SAC or Q format',
     what='the header is missing in the file',
     demo='''st = read_rf()[:1]
rfstats(st)
st[0].stats.event_depth = 0.
st[0].stats.back_azimuth = 0.
st[0].stats.pop('sac', None)
st.write('x.SAC', 'SAC')
got = read_rf('x.SAC')[0].stats
sys.exit(0 if got.get('event_depth') == 0 and got.get('back_azimuth') == 0 else 1)
''')

seed(id='s11', property='R07',
     edits=[('rf/batch.py', '''        fname = FNAMES[format].format(root=pin, **meta)
        kwargs = {}
''', '''        fname = FNAMES[format].format(root=pin, **meta)
        if format == 'Q' and not os.path.exists(fname):
            # record may have been stored under another name
            fname = fname[:-4] + '*' + fname[-4:]
        kwargs = {}
''')],
     needs='a deleted record and a readable file with a similar name beside it',
     what='another file is used in place of the deleted record',
     demo=TUT + '''import glob
import shutil
quiet('data', 'data')
fs = sorted(glob.glob('data/*/*.QHD'))
# a copy of another record, kept under a similar name
shutil.copy(fs[0], fs[1][:-4] + '_old.QHD')
shutil.copy(fs[0][:-4] + '.QBN', fs[1][:-4] + '_old.QBN')
for ext in ('.QHD', '.QBN'):
    os.remove(fs[1][:-4] + ext)
quiet('convert', 'data', 'out', 'SAC')
n = len(glob.glob('out/*/*'))
stamp = os.path.basename(fs[1])[:-4].split('_')[-1]
sys.exit(0 if n == 3 * (len(fs) - 1) and not glob.glob('out/*/*%s*' % stamp) else 1)
''')

seed(id='s12', property='R08',
     edits=[('rf/batch.py', '''    if moveout_phase is not None:
        kw['moveout']['phase'] = moveout_phase
''', '''    if moveout_phase is not None:
        kw['moveout'] = {'phase': moveout_phase}
''')],
     needs='the command line option for the moveout phase together with a reference slowness in the configuration',
     what='the reference slowness of the configuration is ignored',
     demo=TUT + '''text = open('conf.json').read()
import glob
quiet('data', 'calc', 'rfs')
quiet('--moveout', '{"ref": 7.5}', '--moveout-phase', 'Ppps', 'moveout', 'rfs', 'out')
st = read_rf(glob.glob('out/*/*.QHD')[0])
sys.exit(0 if abs(st[0].stats.slowness - 7.5) < 1e-3 and st[0].stats.moveout == 'Ppps' else 1)
''')

seed(id='s13', property='R09',
     edits=[('rf/simple_model.py', '''    try:
        return _MODEL_CACHE[fname]
    except KeyError:
        pass
    fname_key = fname
''', '''    fname_key = os.path.basename(fname)
    try:
        return _MODEL_CACHE[fname_key]
    except KeyError:
        pass
''')],
     needs='two model files with the same name in different directories used in one process',
     what='the second model is ignored',
     demo='''from rf.simple_model import load_model
for d, v in (('a', 3.4), ('b', 3.9)):
    os.makedirs(d)
    with open(d + '/m.dat', 'w') as f:
        for z in range(0, 900, 10):
            f.write('%d %.2f %.2f\\n' % (z, v * 1.7 + z * .005, v + z * .003))
t1 = load_model('a/m.dat').calculate_delay_times(6.4)[5]
t2 = load_model('b/m.dat').calculate_delay_times(6.4)[5]
sys.exit(0 if abs(t1 - t2) > 1e-3 else 1)
''')

seed(id='s14', property='R10',
     edits=[('rf/simple_model.py', '''        phase = phase.upper()
        hslow = slowness / DEG2KM  # convert to horizontal slowness (s/km)
        qp, qs = 0, 0
''', '''        phase = phase.upper()
        self._hslow = slowness / DEG2KM  # horizontal slowness (s/km)
        qp, qs = 0, 0
'''), ('rf/simple_model.py', '''                qp = np.sqrt(self.vp ** (-2) - hslow ** 2)
''', '''                qp = np.sqrt(self.vp ** (-2) - self._hslow ** 2)
'''), ('rf/simple_model.py', '''                qs = np.sqrt(self.vs ** (-2) - hslow ** 2)
''', '''                qs = np.sqrt(self.vs ** (-2) - self._hslow ** 2)
''')],
     needs='two threads calculating delay times or piercing points of the same model at the same time',
     what='a thread uses the slowness of another thread',
     demo='''import threading
from rf.simple_model import load_model
m = load_model()
want = m.calculate_delay_times(5.).copy()


class Slow(str):
    """Phase name which lets another thread run while it is looked at."""
    def upper(self):
        return self

    def __contains__(self, x):
        if x == 'P':
            t = threading.Thread(target=m.calculate_delay_times, args=(8.,))
            t.start()
            t.join()
        return str.__contains__(self, x)


got = m.calculate_delay_times(5., Slow('PS'))
sys.exit(0 if np.allclose(got, want, equal_nan=True) else 1)
''')

seed(id='s15', property='R11',
     edits=[('rf/util.py', '''        substreams = collections.defaultdict(stream.__class__)
        for tr in stream:
            k = (tr.id[:-1], str(tr.stats[key]) if key is not None else None)
            substreams[k].append(tr)
''', '''        substreams = collections.defaultdict(stream.__class__)

        def group(tr):
            return (tr.id[:-1],
                    str(tr.stats[key]) if key is not None else None)

        for k, traces in itertools.groupby(stream, group):
            substreams[k] = stream.__class__(list(traces))
''')],
     needs='traces of different events which arrive interleaved',
     what='groups are split or lost, depending on the order of traces',
     demo='''st = read_rf()
rfstats(st)
st.trim2(5, 95, 'starttime')
a = st.copy().rf(deconvolve='waterlevel')
b = st.copy()
b.traces = b.traces[0::3] + b.traces[1::3] + b.traces[2::3]
try:
    b.rf(deconvolve='waterlevel')
except Exception:
    sys.exit(1)
b.sort(['starttime', 'channel'])
a.sort(['starttime', 'channel'])
ok = len(a) == len(b) and all(x.id == y.id and np.allclose(x.data, y.data) for x, y in zip(a, b))
sys.exit(0 if ok else 1)
''')

seed(id='s16', property='R12',
     edits=[('rf/profile.py', '''        key = (pos, comp)
''', '''        key = (int(round(pos)), comp)
''')],
     needs='profile boxes which are narrower than one kilometre',
     what='traces of neighbouring boxes are stacked into one box',
     demo='''from rf import get_profile_boxes
st = read_rf()[:1]
rfstats(st)
boxes = get_profile_boxes((0, 0), 90, np.linspace(0, 2, 9), width=10)
out = RFStream()
for b in boxes:
    tr = st[0].copy()
    tr.stats.pp_latitude, tr.stats.pp_longitude = b['latlon']
    tr.stats.phase = 'P'
    out.append(tr)
n = sorted(tr.stats.num for tr in out.profile(boxes))
sys.exit(0 if n == [1] * 8 else 1)
''')

seed(id='s18', property='R12',
     edits=[('rf/profile.py', '''        poly = crs.project_geometry(box['poly'], pc)
        if p.within(poly):
''', '''        if 'projected' not in box:  # projecting is slow
            box['projected'] = crs.project_geometry(box['poly'], pc)
        if p.within(box['projected']):
''')],
     needs='the same boxes are used in two profile calls with different projections',
     what='the second profile compares piercing points in one projection with boxes in the other one',
     demo='''from rf import get_profile_boxes
import cartopy.crs as ccrs
st = read_rf()[:1]
rfstats(st)
boxes = get_profile_boxes((20, 30), 90, np.linspace(0, 400, 5), width=100)
out = RFStream()
for b in boxes:
    tr = st[0].copy()
    tr.stats.pp_latitude, tr.stats.pp_longitude = b['latlon']
    tr.stats.phase = 'P'
    out.append(tr)
n1 = [tr.stats.num for tr in out.profile(boxes)]
n2 = [tr.stats.num for tr in out.profile(boxes, crs=ccrs.AzimuthalEquidistant(25, 20))]
sys.exit(0 if n1 == n2 == [1] * 4 else 1)
''')

seed(id='s19', property='R14',
     edits=[('rf/batch.py', '''            fname = fname_pattern.format(root=root, **tr.stats)
            tr.write(fname, format)
''', '''            fname = fname_pattern.format(root=root, **tr.stats)
            # never leave an incomplete file under the final name
            tmp = os.path.join(os.path.dirname(fname), 'record.tmp')
            tr.write(tmp, format)
            os.replace(tmp, fname)
''')],
     needs='two jobs writing SAC records of one station at the same time',
     what='the jobs use the same temporary file: records get lost or swapped',
     demo='''import threading
from rf.rfstream import RFTrace
st = read_rf()
rfstats(st)
a, b = st[:1].copy(), st[3:4].copy()
orig = RFTrace.write
state = [0]


def write(self, *args, **kw):
    """Another job writes its record before this one goes on."""
    orig(self, *args, **kw)
    state[0] += 1
    if state[0] == 1:
        rf.batch.write(b, 'out', 'SAC')


RFTrace.write = write
try:
    rf.batch.write(a, 'out', 'SAC')
except Exception as ex:
    print(ex)
    sys.exit(1)
RFTrace.write = orig
for s in (a, b):
    f = rf.batch.FNAMES['SAC'].format(root='out', **s[0].stats)
    if not os.path.exists(f) or not np.allclose(read_rf(f)[0].data, s[0].data):
        sys.exit(1)
sys.exit(0)
''')
