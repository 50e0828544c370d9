exec(open('/verif/tools/specs/specs1.py').read().split("seed(id='s01'")[0])

RFST = TUT + ANSWER + '''from rf import iter_event_data, rfstream


def streams(n=2):
    out = []
    for st in iter_event_data(cat, inv, answer):
        out.append(st)
        if len(out) == n:
            return out


'''
seed(id='s38', property='R17',
     edits=[('rf/batch.py', '''                    raise NotImplementedError
            write(stream, path_out, format)
''', '''                    raise NotImplementedError
            try:
                write(stream, path_out, format)
            except OSError as ex:
                print('record %s cannot be saved: %s' % (stream[0].id, ex))
''')],
     needs='a disk error while one of the records is saved',
     what='the command goes on without the record and reports success',
     demo=TUT + '''quiet('data', 'raw')
import glob
names = sorted(glob.glob('raw/*/*.QHD'))
assert len(names) > 1
for n in names[:-1]:
    dest = n.replace('raw/', 'new/')
    os.makedirs(dest)
try:
    quiet('moveout', 'raw', 'new') if False else quiet('calc', 'raw', 'new')
except Exception:
    sys.exit(0)
sys.exit(1)
''')
seed(id='s39', property='R17',
     edits=[('rf/batch.py', '''        for stream in iter_:
            stack = stream.stack()
            write(stack, path_out, format, type='stack')
''', '''        for stream in iter_:
            try:
                stack = stream.stack()
                write(stack, path_out, format, type='stack')
            except (ValueError, OSError):
                # records of different length
                print('station %s is not stacked' % stream[0].id)
''')],
     needs='a full disk or another disk error while the stack of one station is saved',
     what='the stack of the station is missing and the command reports success',
     demo=TUT + '''quiet('data', 'raw')
quiet('calc', 'raw', 'rfs')
os.makedirs('stk')
import glob
for d in glob.glob('rfs/*'):
    os.makedirs(d.replace('rfs/', 'stk/') + '.QHD')
try:
    quiet('stack', 'rfs', 'stk')
except Exception:
    sys.exit(0)
sys.exit(1)
''')
seed(id='s40', property='R18',
     edits=[('rf/util.py', '''        try:
            stream = get_waveforms(**kws)
''', '''        if starttime > starttime.__class__():
            continue  # data are not available yet
        try:
            stream = get_waveforms(**kws)
''')],
     needs='a computer whose clock runs behind the time of the events',
     what='all records are left out',
     demo=TUT + ANSWER + '''from rf import iter_event_data
n = len(list(iter_event_data(cat, inv, answer)))
import obspy.core.utcdatetime as u
real = u.UTCDateTime.__init__
def init(self, *args, **kw):
    return real(self, *(args or (0,)), **kw)
u.UTCDateTime.__init__ = init
m = len(list(iter_event_data(cat, inv, answer)))
sys.exit(0 if n and m == n else 1)
''')
seed(id='s41', property='R18',
     edits=[('rf/batch.py', '''    # Run all commands
    if command == 'convert':
''', '''    if path_out is not None and format.upper() == 'H5':
        # the extension is appended below
        path_out = os.path.splitext(path_out)[0]
    # Run all commands
    if command == 'convert':
''')],
     needs='HDF5 output with a dot in the name, like results of several versions',
     what='output goes to another file; results of two versions end up in the same file',
     demo=TUT + '''quiet('-c', 'conf.json', '--format', 'H5', 'data', 'res.v1')
sys.exit(0 if os.path.exists('res.v1.h5') and not os.path.exists('res.h5') else 1)
''')
seed(id='s42', property='R13',
     edits=[('rf/harmonics.py', '''    # get back azimuths (in degrees) with evt time as unique key
''', '''    # azimuths relative to the direction of decomposition
    absolute = [tr.stats.back_azimuth for tr in stream]
    for tr in stream:
        tr.stats.back_azimuth = (tr.stats.back_azimuth - azim) % 360
    # get back azimuths (in degrees) with evt time as unique key
'''), ('rf/harmonics.py', '''        jac = decomp_two(baz, azim=azim, **kwargs)
''', '''        jac = decomp_two(baz, **kwargs)
'''), ('rf/harmonics.py', '''        jac = decomp_one(baz, azim=azim, **kwargs)
''', '''        jac = decomp_one(baz, **kwargs)
'''), ('rf/harmonics.py', '''    # make the stream to return, with enough header info to get times later on
''', '''    for tr, baz in zip(stream, absolute):
        tr.stats.back_azimuth = baz
    # make the stream to return, with enough header info to get times later on
''')],
     needs='a decomposition with an azimuth which fails part-way, for instance for lack of memory',
     what='the back azimuths of the input are left changed',
     demo=RFST + '''rfs = RFStream()
for i, st in enumerate(streams(3)):
    for tr in st:
        tr.stats.channel = 'BH' + {'Z': 'L', 'N': 'R', 'E': 'T'}[tr.stats.channel[-1]]
        tr.stats.event_time = UTC(i)
    rfs.extend(st.traces)
n = min(len(tr) for tr in rfs)
for tr in rfs:
    tr.data = tr.data[:n]
old = [tr.stats.back_azimuth for tr in rfs]
real = np.linalg.lstsq
def fail(*args, **kw):
    raise MemoryError('no memory')
np.linalg.lstsq = fail
try:
    rfs.harmonics('R', azim=30)
except MemoryError:
    pass
else:
    sys.exit(9)
sys.exit(0 if old == [tr.stats.back_azimuth for tr in rfs] else 1)
''')
seed(id='s43', property='R09',
     edits=[('rf/simple_model.py', '''        try:
            t_ref = self.t_ref[phase, ref]
        except KeyError:
            t_ref = self.calculate_delay_times(ref, phase)
            self.t_ref[phase, ref] = t_ref
''', '''        key = '%s %.1f' % (phase, ref)
        try:
            t_ref = self.t_ref[key]
        except KeyError:
            t_ref = self.calculate_delay_times(ref, phase)
            self.t_ref[key] = t_ref
''')],
     needs='moveout corrections to two references which differ by less than 0.05 s/deg',
     what='the second correction refers to the first reference',
     demo='''from rf.simple_model import load_model, SimpleModel
m = load_model()
m.stretch_delay_times(6., 'Ps', 6.4)
a = m.stretch_delay_times(6., 'Ps', 6.44)
m.t_ref.clear()
b = m.stretch_delay_times(6., 'Ps', 6.44)
sys.exit(0 if all(np.allclose(x, y) for x, y in zip(a, b)) else 1)
''')
seed(id='s44', property='R12',
     edits=[('rf/profile.py', '''    for box in boxes:
        poly = crs''', '''    for box in boxes:
        if abs(box['latlon'][0] - latlon[0]) > 6:
            continue  # far away
        poly = crs''')],
     needs='a profile with boxes wider than 1300 km and traces near their ends',
     what='traces inside of a box are left out',
     demo='''from rf import get_profile_boxes, RFStream
from rf.rfstream import RFTrace
boxes = get_profile_boxes((0, 0), 90, [-100, 0, 100], 2000)
st = RFStream()
for i, lat in enumerate((1, 5, 8, -8)):
    st.append(RFTrace(np.arange(10.) + i, header={
        'network': 'A', 'station': 'B', 'channel': 'BHQ', 'pp_latitude': lat,
        'pp_longitude': .3, 'type': 'rf', 'phase': 'P'}))
    st[-1].stats.onset = st[-1].stats.starttime + 3
prof = st.profile(boxes)
sys.exit(0 if sum(tr.stats.num for tr in prof) == 4 else 1)
''')
seed(id='s45', property='R10',
     edits=[('rf/simple_model.py', '''        with np.errstate(invalid='ignore'):
''', '''        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
''')],
     needs='two threads which calculate slownesses at the same time, one starting while the other is at work and ending after it',
     what='all warnings stay switched off in the process',
     demo='''import threading, warnings, time
from rf.simple_model import load_model
warnings.resetwarnings()
warnings.simplefilter('always')
before = list(warnings.filters)
m = load_model()


class Slow(object):
    """First thread waits inside, second one starts and waits as well."""


a_in, b_in, a_out = threading.Event(), threading.Event(), threading.Event()
real = np.sqrt


def sqrt(x):
    me = threading.current_thread().name
    if me == 'a':
        a_in.set()
        b_in.wait(5)
    if me == 'b':
        b_in.set()
        a_out.wait(5)
    return real(x)


np.sqrt = sqrt


def work():
    m.calculate_vertical_slowness(6., 'P')
    if threading.current_thread().name == 'a':
        a_out.set()


ta = threading.Thread(target=work, name='a')
tb = threading.Thread(target=work, name='b')
ta.start()
a_in.wait(5)
tb.start()
ta.join()
tb.join()
sys.exit(0 if list(warnings.filters) == before else 1)
''')
seed(id='s46', property='R11',
     edits=[('rf/rfstream.py', '''            for tr in self:
                if downsample <= tr.stats.sampling_rate:
                    tr.decimate(int(tr.stats.sampling_rate) // downsample)
''', '''            factor = int(self[0].stats.sampling_rate) // downsample
            for tr in self:
                if factor > 0 and downsample <= tr.stats.sampling_rate:
                    tr.decimate(factor)
''')],
     needs='a stream of stations with different sampling rates',
     what='traces of other stations are downsampled with the factor of the first trace',
     demo=RFST + '''a, b = streams(2)
from copy import deepcopy
for tr in b:
    tr.stats.network = 'ZZ'
    tr.interpolate(20.)
both = RFStream(a.copy().traces + b.copy().traces)
kw = dict(downsample=5, rotate=None, deconvolve=None)
one = b.copy().rf(**kw)
both.rf(**kw)
two = both.select(network='ZZ')
ok = len(one) == 3 and all(len(x) == len(y) for x, y in zip(one, two))
sys.exit(0 if ok else 1)
''')
seed(id='s48', property='R08',
     edits=[('rf/batch.py', '''        kw['moveout']['phase'] = moveout_phase
''', '''        kw['moveout'].setdefault('phase', moveout_phase)
''')],
     needs='a phase given on the command line while the configuration has another one',
     what='the option of the command line is ignored',
     demo=TUT + '''import json
from rf.batch import ConfigJSONDecoder
conf = json.load(open('conf.json'), cls=ConfigJSONDecoder)
quiet('data', 'raw')
quiet('calc', 'raw', 'rfs')
conf['moveout'] = {'phase': 'Ppps'}
json.dump(conf, open('c2.json', 'w'))
quiet('-c', 'c2.json', 'moveout', 'Ps', 'rfs', 'out') if False else quiet('-c', 'c2.json', '--moveout-phase', 'Ppss', 'moveout', 'rfs', 'out')
import glob
st = read_rf(sorted(glob.glob('out/*/*.QHD'))[0])
sys.exit(0 if st[0].stats.moveout == 'Ppss' else 1)
''')
