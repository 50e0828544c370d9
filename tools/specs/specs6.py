exec(open('/verif/tools/specs/specs1.py').read().split("seed(id='s01'")[0])

seed(id='s61', property='R01',
     edits=[('rf/batch.py', '''    def wrapper(**kwargs):
        try:
            return get_waveforms(**kwargs)
''', '''    errors = []

    def wrapper(**kwargs):
        if len(errors) > 9:
            return  # data source is not available
        try:
            result = get_waveforms(**kwargs)
            errors.clear()
            return result
'''), ('rf/batch.py', '''            print(msg % (seedid, ex))
''', '''            print(msg % (seedid, ex))
            errors.append(seedid)
''')],
     needs='an outage of the data source of more than nine requests in a row, after which it answers again',
     what='no record is retrieved any more',
     demo='''import types
calls = []


class Client(object):
    def get_waveforms(self, **kw):
        calls.append(kw)
        if len(calls) <= 12:
            raise IOError('timeout')
        return Stream([Trace(np.zeros(10))])


import obspy.clients
mod = types.ModuleType('obspy.clients.sometest')
mod.Client = Client
sys.modules['obspy.clients.sometest'] = mod
get = rf.batch.init_data('sometest')
with contextlib.redirect_stdout(io.StringIO()):
    got = [get(network='A', station='B', location='', channel='BH?', starttime=UTC(0), endtime=UTC(9)) for i in range(20)]
sys.exit(0 if [g is not None for g in got] == [False] * 12 + [True] * 8 else 1)
''')
seed(id='s62', property='R02',
     edits=[('rf/util.py', '''            stats = rfstats(station=coords, event=event, phase=phase, **kwargs)
''', '''            # the same for all bands of the station
            key = (id(event), seedid.rsplit('.', 2)[0])
            if key not in known:
                known[key] = rfstats(station=coords, event=event, phase=phase,
                                     **kwargs)
            stats = known[key] and known[key].copy()
'''), ('rf/util.py', '''    method = phase[-1].upper()
    if request_window is None:
''', '''    method = phase[-1].upper()
    known = {}
    if request_window is None:
''')],
     needs='a station with sensors at different places under different location codes',
     what='records of the second sensor get the coordinates, onset and window of the first one',
     demo=TUT + ANSWER + '''import copy
from rf import iter_event_data
for net in inv:
    for sta in net:
        more = copy.deepcopy(sta.channels)
        for ch in more:
            ch.location_code = '99'
            ch.latitude = ch.latitude + 1.
            ch.longitude = ch.longitude + 1.
        sta.channels.extend(more)
lats = {}
for st in iter_event_data(cat[:1], inv, answer):
    for tr in st:
        lats.setdefault(tr.stats.station, set()).add((tr.stats.location, round(float(tr.stats.station_latitude), 3)))
assert lats
ok = all(len({l for _, l in v}) == len({c for c, _ in v}) == 2 for v in lats.values())
sys.exit(0 if ok else 1)
''')
seed(id='s63', property='R07',
     edits=[('rf/batch.py', '''        except Exception:
            pass
        else:
''', '''        except Exception:
            missing += 1
            if missing >= 20:
                return  # not the right directory
        else:
            missing = 0
'''), ('rf/batch.py', '''    for meta in iter_event_metadata(events, inventory, pbar=pbar):
''', '''    missing = 0
    for meta in iter_event_metadata(events, inventory, pbar=pbar):
''')],
     needs='twenty records in a row which are missing or cannot be read, and further records after them',
     what='the records behind the gap are not processed',
     demo=TUT + '''import copy, glob
ev = cat[0].copy()
cat.events = cat.events[:3]
last = cat.events[-1]
gaps = []
for i in range(25):
    e = copy.deepcopy(ev)
    e.origins[0].time = ev.origins[0].time + 86400 * (i + 1)
    if e.preferred_origin() is not None:
        e.preferred_origin().time = e.origins[0].time
    gaps.append(e)
cat.events[:0] = gaps
cat.write('example_events.xml', 'QUAKEML')
quiet('--format', 'SAC', 'data', 'raw')
n = len(glob.glob('raw/*/*.SAC'))
assert n
quiet('--format', 'SAC', 'convert', 'raw', 'new', 'Q')
m = len(glob.glob('new/*/*.QHD'))
sys.exit(0 if m * 3 == n else 1)
''')
seed(id='s64', property='R13',
     edits=[('rf/imaging.py', '''    if top == 'hist':
''', '''    profile.sort(['box_pos', 'channel'])
    if top == 'hist':
''')],
     needs='a profile which is used again after its plot was drawn',
     what='the plot changes the order of the traces of the caller',
     demo='''import matplotlib
matplotlib.use('agg')
from rf.util import minimal_example_rf
from rf import get_profile_boxes
st = minimal_example_rf()
st.ppoints(50)
boxes = get_profile_boxes((-21.0, -69.6), 90, np.linspace(0, 180, 73), width=530)
prof = st.profile(boxes).select(channel='??Q')
prof.sort(['box_pos'], reverse=True)
before = [tr.stats.box_pos for tr in prof]
assert len(before) > 1
prof.plot_profile('x.png', top='hist')
sys.exit(0 if [tr.stats.box_pos for tr in prof] == before else 1)
''')
seed(id='s65', property='R10',
     edits=[('rf/deconvolve.py', '''        p0 = np.zeros(nfft)      # and rf for this component iteration
''', '''        # work array for rf for this component iteration
        p0 = _WORK.setdefault(nfft, np.empty(nfft))
        p0.fill(0)
'''), ('rf/deconvolve.py', '''def deconv_iterative(rsp,''', '''_WORK = {}


def deconv_iterative(rsp,''')],
     needs='two threads which deconvolve streams of the same length with the iterative method at the same time',
     what='the spikes of both threads are put into one array',
     demo='''import threading
import rf.deconvolve as D


def problem(seed):
    r = np.random.RandomState(seed)
    src = np.exp(-.5 * (np.arange(200) - 40.) ** 2 / 4.)
    return [np.convolve(src, r.randn(30))[:200] for _ in range(2)], src


expect = [np.array(D.deconv_iterative(*problem(s), 5., itmax=20)[0]) for s in range(2)]
# the second thread works while the first one looks for a spike
orig = np.argmax
state = {'n': 0}
result = {}


def other():
    result[1] = np.array(D.deconv_iterative(*problem(1), 5., itmax=20)[0])


def argmax(*args, **kw):
    state['n'] += 1
    if state['n'] == 5:
        t = threading.Thread(target=other)
        t.start()
        t.join()
    return orig(*args, **kw)


np.argmax = argmax
result[0] = np.array(D.deconv_iterative(*problem(0), 5., itmax=20)[0])
np.argmax = orig
if 1 not in result:
    other()
sys.exit(0 if all(np.allclose(result[i], expect[i]) for i in range(2)) else 1)
''')
seed(id='s66', property='R08',
     edits=[('rf/batch.py', '''        conf.update(kw)
        kw = conf
''', '''        for opt, value in kw.items():
            if isinstance(value, dict) and isinstance(conf.get(opt), dict):
                # options of the file which are not given explicitly
                value = dict(value, **conf[opt])
            conf[opt] = value
        kw = conf
''')],
     needs='a command called from Python with a configuration file and a dictionary of options which is in the file, too',
     what='the values of the file win over those of the call',
     demo='''import json
with open('conf.json', 'w') as f:
    json.dump({'rf': {'deconvolve': 'iterative', 'itmax': 3}, 'format': 'SAC'}, f)
seen = []
rf.batch.run_commands = lambda command, **kw: seen.append(kw)
rf.batch.run('calc', 'conf.json', rf={'deconvolve': 'time'}, path_in='a', path_out='b')
sys.exit(0 if seen[0]['rf'] == {'deconvolve': 'time'} and seen[0]['format'] == 'SAC' else 1)
''')
seed(id='s67', property='R09',
     edits=[('rf/deconvolve.py', '''    freq = np.fft.fftfreq(nft, d=dt)
    return np.exp(-2j * pi * freq * tshift)
''', '''    if (nft, tshift) not in _FILTERS:
        freq = np.fft.fftfreq(nft, d=dt)
        _FILTERS[nft, tshift] = np.exp(-2j * pi * freq * tshift)
    return _FILTERS[nft, tshift]
'''), ('rf/deconvolve.py', '''def _phase_shift_filter(''', '''_FILTERS = {}


def _phase_shift_filter(''')],
     needs='deconvolutions of two streams with the same number of samples and onset in seconds, but different sampling rates',
     what='the second receiver functions are shifted by the filter of the first ones',
     demo='''from rf.deconvolve import deconv_waterlevel
r = np.random.RandomState(1)
src = r.randn(200)
rsp = [r.randn(200)]
a = deconv_waterlevel(rsp, src, 10., tshift=5)[0]
b = deconv_waterlevel(rsp, src, 5., tshift=5)[0]
import subprocess
code = ("import numpy as np; from rf.deconvolve import deconv_waterlevel; r = np.random.RandomState(1);"
        "s = r.randn(200); x = [r.randn(200)]; np.save('b.npy', deconv_waterlevel(x, s, 5., tshift=5)[0])")
subprocess.check_call([sys.executable, '-W', 'ignore', '-c', code])
sys.exit(0 if np.allclose(b, np.load('b.npy')) else 1)
''')
