exec(open('/verif/tools/specs/specs1.py').read().split("seed(id='s01'")[0])

seed(id='s20', property='R01',
     edits=[('rf/util.py', '''            coords = inventory.get_coordinates(*args)
        except Exception:  # station not available at that time
            continue
''', '''            if seedid in closed:
                continue
            coords = inventory.get_coordinates(*args)
        except Exception:  # station not available at that time
            closed.add(seedid)
            continue
'''), ('rf/util.py', '''    for event, seedid in itertools.product(events, stations):
        if pbar is not None:
            pbar.update(1)
        try:
            origin_time = (event''', '''    closed = set()
    for event, seedid in itertools.product(events, stations):
        if pbar is not None:
            pbar.update(1)
        try:
            origin_time = (event''')],
     needs='a station which starts operation after the first event which is looked at',
     what='the station is regarded as closed for all later events',
     demo=TUT + ANSWER + '''from rf import iter_event_data
times = sorted(ev.origins[0].time for ev in cat)
mid = times[len(times) // 2] - 1000
for net in inv:
    for sta in net:
        sta.start_date = net.start_date = None
        for ch in sta.channels:
            ch.start_date = mid
cat.events.sort(key=lambda ev: ev.origins[0].time)
k = [0]
def source(**kw):
    k[0] += 1
    return answer(**kw)
n = len(list(iter_event_data(cat, inv, source)))
sys.exit(0 if n > 1 and n == k[0] else 1)
''')
seed(id='s21', property='R02',
     edits=[('rf/util.py', '''            stats = rfstats(station=coords, event=event, phase=phase, **kwargs)
''', '''            key = (event.resource_id.id, round(coords['latitude'], 2),
                   round(coords['longitude'], 2))
            if key not in known:
                known[key] = rfstats(station=coords, event=event, phase=phase,
                                     **kwargs)
            stats = known[key]
'''), ('rf/util.py', '''    for event, seedid in itertools.product(events, stations):
        if pbar is not None:
            pbar.update(1)
        try:
            origin_time = (event''', '''    known = {}
    for event, seedid in itertools.product(events, stations):
        if pbar is not None:
            pbar.update(1)
        try:
            origin_time = (event''')],
     needs='two stations of an array within a kilometre of each other',
     what='the second station gets the metadata of the first one',
     demo=TUT + ANSWER + '''from rf import iter_event_data
import copy
net = inv[0]
sta = copy.deepcopy(net.stations[0])
sta.code = 'NEAR'
for o in [sta] + sta.channels:
    o.latitude = round(o.latitude, 2) + .004
    o.longitude = round(o.longitude, 2)
for o in [net.stations[0]] + net.stations[0].channels:
    o.latitude = round(o.latitude, 2)
    o.longitude = round(o.longitude, 2)
net.stations.append(sta)
bad = n = 0
for st in iter_event_data(cat, inv, answer):
    n += st[0].stats.station == 'NEAR'
    want = sta.latitude if st[0].stats.station == 'NEAR' else net.stations[0].latitude
    bad += st[0].stats.station in ('NEAR', net.stations[0].code) and abs(st[0].stats.station_latitude - want) > 1e-6
sys.exit(0 if n and not bad else 1)
''')
seed(id='s22', property='R03',
     edits=[('rf/batch.py', '''        except (KeyboardInterrupt, SystemExit):
            raise
        except Exception as ex:
''', '''        except KeyboardInterrupt:
            raise
        except BaseException as ex:
''')],
     needs='a request to exit which arrives during a data request of the batch commands',
     what='the exit request is counted as missing data',
     demo='''import types
m = types.ModuleType('myplugin')
def source(**kw):
    raise SystemExit(3)
m.source = source
sys.modules['myplugin'] = m
with contextlib.redirect_stdout(io.StringIO()):
    gw = rf.batch.init_data('plugin', plugin='myplugin : source')
try:
    with contextlib.redirect_stdout(io.StringIO()):
        gw(network='A', station='B', location='', channel='BH?', starttime=UTC(0), endtime=UTC(9), event=None)
except SystemExit:
    sys.exit(0)
sys.exit(1)
''')
seed(id='s23', property='R03',
     edits=[('rf/batch.py', '''            stream = read_rf(fname, format, **kwargs)
        except Exception:
            pass
''', '''            stream = read_rf(fname, format, **kwargs)
        except BaseException:
            pass
''')],
     needs='an interrupt while a record is read by a batch command',
     what='the record is skipped and the command goes on',
     demo=TUT + '''quiet('data', 'data')
n = [0]
def read(*args, **kwargs):
    n[0] += 1
    if n[0] == 2:
        raise KeyboardInterrupt
    return read_rf(*args, **kwargs)
rf.batch.read_rf = read
try:
    quiet('convert', 'data', 'out', 'SAC')
except KeyboardInterrupt:
    sys.exit(0 if n[0] == 2 else 1)
sys.exit(1)
''')
seed(id='s24', property='R04',
     edits=[('rf/batch.py', '''                else:
                    raise NotImplementedError
            write(stream, path_out, format)
''', '''                else:
                    raise NotImplementedError
            if commands[0] == 'data' and format.upper() != 'H5':
                # records which are already there are not written again
                name = '%s %s' % (stream[0].id[:-1], stream[0].stats.event_time)
                protocol = path_out + '.done'
                if os.path.exists(protocol):
                    with open(protocol) as f:
                        if name in f.read().splitlines():
                            continue
                with open(protocol, 'a') as f:
                    f.write(name + '\\n')
            write(stream, path_out, format)
''')],
     needs='a kill between the entry in the protocol and the end of writing the record',
     what='the torn record is never completed',
     demo=TUT + '''import glob
quiet('data', 'ref')
real = rf.batch.RFStream if hasattr(rf.batch, 'RFStream') else None
from rf.rfstream import RFStream
old = RFStream.write
n = [0]
class Killed(BaseException):
    pass
def write(self, *args, **kwargs):
    n[0] += 1
    if n[0] == 3:
        raise Killed
    return old(self, *args, **kwargs)
RFStream.write = write
try:
    quiet('data', 'out')
except Killed:
    pass
RFStream.write = old
quiet('data', 'out')
names = lambda d: sorted(os.path.basename(f) for f in glob.glob(d + '/*/*'))
sys.exit(0 if names('ref') == names('out') and n[0] >= 3 else 1)
''')
seed(id='s25', property='R05',
     edits=[('rf/batch.py', '''        for tr in stream:
            fname = fname_pattern.format(root=root, **tr.stats)
            tr.write(fname, format)
''', '''        try:
            for tr in stream:
                fname = fname_pattern.format(root=root, **tr.stats)
                tr.write(fname, format)
        except Exception:
            # do not leave incomplete records
            shutil.rmtree(os.path.dirname(fname), ignore_errors=True)
            raise
''')],
     needs='an error while a SAC record is written into a directory with other records of the station',
     what='the other records of the station are deleted',
     demo=TUT + '''import glob
quiet('--format', 'SAC', 'data', 'out')
fs = sorted(glob.glob('out/*/*.SAC'))
st = read_rf(fs[0])
os.remove(fs[0])
os.mkdir(fs[0])
try:
    rf.batch.write(st, 'out', 'SAC')
except Exception:
    left = sorted(glob.glob('out/*/*.SAC'))
    sys.exit(0 if left == fs else 1)
sys.exit(1)
''')
seed(id='s26', property='R06',
     edits=[('rf/rfstream.py', '''            st[format][head_format] = val
        if format''', '''            st[format].setdefault(head_format, val)
        if format''')],
     needs='a record which was read from a file, changed and saved again',
     what='the saved file has the old value of the header',
     demo='''st = read_rf()[:1]
rfstats(st)
st.write('a.QHD', 'Q')
st = read_rf('a.QHD')
st[0].stats.back_azimuth = 123.
st[0].stats.slowness = 5.5
st.write('b.QHD', 'Q')
got = read_rf('b.QHD')[0].stats
sys.exit(0 if abs(got.back_azimuth - 123) < .01 and abs(got.slowness - 5.5) < .01 else 1)
''')
seed(id='s27', property='R07',
     edits=[('rf/batch.py', '''            stream = read_rf(fname, format, **kwargs)
        except Exception:
            pass
        else:
''', '''            stream = read_rf(fname, format, **kwargs)
        except Exception as ex:
            from glob import glob
            if format == 'H5' or not glob(fname):
                continue
            print('error while reading %s: %s' % (fname, ex))
        if stream is not None:
'''), ('rf/batch.py', '''    for meta in iter_event_metadata(events, inventory, pbar=pbar):
''', '''    stream = None
    for meta in iter_event_metadata(events, inventory, pbar=pbar):
''')],
     needs='a record of which the content is damaged, after a record of the same station was read',
     what='the previous record is processed a second time, with the time of the damaged one',
     demo=TUT + '''import glob
quiet('--format', 'SAC', 'data', 'data')
fs = sorted(glob.glob('data/*/*.SAC'))
stamps = sorted(set(f.split('_')[-1] for f in fs))
for s in stamps[1:3]:
    for f in glob.glob('data/*/*' + s):
        with open(f, 'wb') as fh:
            fh.write(b'x' * 3000)
try:
    quiet('--format', 'SAC', 'convert', 'data', 'out', 'Q')
except Exception:
    sys.exit(0)
names = glob.glob('out/*/*.QHD')
bad = [f for f in names for s in stamps[1:3] if s[:-4] in f]
sys.exit(1 if bad or len(names) != len(stamps) - 2 else 0)
''')
seed(id='s29', property='R09',
     edits=[('rf/simple_model.py', '''        t = self.calculate_delay_times(slowness, phase)
        if phase[0] == 'S':
''', '''        key = (phase, round(slowness, 1))
        if key not in self.t_ref:
            self.t_ref[key] = self.calculate_delay_times(slowness, phase)
        t = self.t_ref[key]
        if phase[0] == 'S':
''')],
     needs='two records with slightly different slowness',
     what='moveout of the second record uses the slowness of the first one, or of an earlier call',
     demo='''from rf.simple_model import load_model
import rf.simple_model
t1, _ = load_model().stretch_delay_times(6.01)
t2, _ = load_model().stretch_delay_times(6.04)
n = min(len(t1), len(t2))
sys.exit(0 if abs(t1[n - 1] - t2[n - 1]) > 1e-6 else 1)
''')
seed(id='s30', property='R10',
     edits=[('rf/simple_model.py', '''        pass
    fname_key = fname
''', '''        # keep few models in memory
        while len(_MODEL_CACHE) > 1:
            oldest = next(iter(_MODEL_CACHE))
            del _MODEL_CACHE[oldest]
    fname_key = fname
''')],
     needs='several threads loading different models at the same time',
     what='two threads remove the same model, the second one fails',
     demo='''import threading
import time
from rf.simple_model import load_model
for name in 'abcdef':
    with open(name + '.dat', 'w') as f:
        for z in range(0, 900, 300):
            f.write('%d 6.5 3.5\\n' % z)
sys.setswitchinterval(1e-6)
errors = []
end = time.time() + 40
def work(k):
    try:
        while time.time() < end and not errors:
            for n in range(200):
                load_model('abcdef'[(k * n) % 6] + '.dat')
    except Exception as ex:
        errors.append(repr(ex))
ts = [threading.Thread(target=work, args=(n,)) for n in (1, 5, 1, 5, 7, 11)]
[t.start() for t in ts]
[t.join() for t in ts]
print(errors)
sys.exit(1 if errors else 0)
''')
seed(id='s31', property='R11',
     edits=[('rf/util.py', '''            k = (tr.id[:-1], str(tr.stats[key]) if key is not None else None)
''', '''            value = tr.stats[key] if key is not None else None
            if hasattr(value, 'timestamp'):
                # components may differ slightly
                value = round(value.timestamp / 10)
            k = (tr.id[:-1], str(value))
''')],
     needs='two events which arrive at a station within ten seconds',
     what='the groups of both events are mixed',
     demo='''st = read_rf()[:3]
rfstats(st)
st2 = st.copy()
for tr in st2:
    tr.stats.onset += 3
    tr.stats.event_time += 3
    tr.stats.starttime += 3
for tr in st + st2:
    tr.stats.onset = tr.stats.onset
a = st.copy().rf()
b = (st.copy() + st2.copy()).rf()
b0 = [tr for tr in b if abs(tr.stats.event_time - st[0].stats.event_time) < .5]
ok = len(b0) == 3 and all(t1.id == t2.id and np.allclose(t1.data, t2.data) for t1, t2 in zip(sorted(a, key=lambda t: t.id), sorted(b0, key=lambda t: t.id)))
sys.exit(0 if ok else 1)
''')
seed(id='s32', property='R13',
     edits=[('rf/profile.py', '''            tr2.data = tr2.data + tr.data
''', '''            tr2.data += tr.data
''')],
     needs='a profile box with two or more traces, input used again after the profile was made',
     what='the first trace of each box is altered',
     demo='''st = read_rf()
rfstats(st)
st.rf()
st.ppoints(50)
from rf import get_profile_boxes
boxes = get_profile_boxes((st[0].stats.pp_latitude, st[0].stats.pp_longitude), 90, np.linspace(-2000, 2000, 2), width=4000)
before = [tr.data.copy() for tr in st]
p = st.profile(boxes)
sys.exit(0 if len(p) and all((a == tr.data).all() for a, tr in zip(before, st)) else 1)
''')
seed(id='s33', property='R14',
     edits=[('rf/batch.py', '''                else:
                    raise NotImplementedError
            write(stream, path_out, format)
''', '''                else:
                    raise NotImplementedError
            write(stream, path_out, format)
        # do not leave empty directories
        if os.path.isdir(path_out):
            for name in sorted(os.listdir(path_out)):
                name = os.path.join(path_out, name)
                if os.path.isdir(name) and not os.listdir(name):
                    os.rmdir(name)
'''), ('rf/batch.py', '''        commands = [command] + list(commands)
        for stream in iter_:
''', '''        commands = [command] + [c for c in commands]
        for stream in iter_:
''')],
     needs='a job which ends at the moment another job has created a directory and not yet written its first record',
     what='the other job fails',
     demo=TUT + '''import obspy
quiet('data', 'ref')
from rf.rfstream import RFStream
old = RFStream.write
inside = [False]
def write(self, filename, *args, **kwargs):
    if not inside[0]:
        inside[0] = True
        # another job without data ends right now
        with open('other.json', 'w') as f:
            f.write(open('conf.json').read())
        quiet('-c', 'other.json', '--events', 'none.xml', 'data', 'out')
    return old(self, filename, *args, **kwargs)
RFStream.write = write
c = obspy.Catalog([])
ev = cat[0]
ev2 = ev.copy() if hasattr(ev, 'copy') else ev
o = ev2.origins[0]
o.latitude = -o.latitude
o.time = o.time + 20 * 365 * 86400
c.append(ev2)
c.write('none.xml', 'QUAKEML')
try:
    quiet('data', 'out')
except Exception as ex:
    print(repr(ex))
    sys.exit(1)
import glob
n = len(glob.glob('out/*/*'))
sys.exit(0 if n == len(glob.glob('ref/*/*')) and inside[0] else 1)
''')
seed(id='s34', property='R15',
     edits=[('rf/batch.py', '''                events = obspy.read_events(events, format_)
''', '''                try:
                    events = obspy.read_events(events, format_)
                except Exception:
                    print('cannot read events')
                    events = None
''')],
     needs='a damaged event file',
     what='the command runs on whatever files it finds instead of ending with the message',
     demo=TUT + '''import glob
quiet('--format', 'SAC', 'data', 'data')
with open('example_events.xml', 'r+') as f:
    f.truncate(3000)
try:
    quiet('--format', 'SAC', 'calc', 'data', 'out')
except Exception:
    pass
sys.exit(1 if glob.glob('out*') else 0)
''')
seed(id='s35', property='R15',
     edits=[('rf/batch.py', '''        client = Client(**client_options)

        def get_waveforms(event=None, **args):
            return client.get_waveforms(**args)
''', '''        clients = []

        def get_waveforms(event=None, **args):
            # connect when the first data are needed
            if not clients:
                clients.append(Client(**client_options))
            return clients[0].get_waveforms(**args)
''')],
     needs='a client which cannot be created with the given options',
     what='the command goes through all events and stations and ends like one which found no data',
     demo=TUT + '''import obspy.clients.fdsn
class Client(object):
    def __init__(self, **kw):
        raise ValueError('no such service')
obspy.clients.fdsn.Client = Client
n = [0]
class Bar(object):
    def __init__(self, *a, **k):
        pass
    def update(self, k):
        n[0] += k
rf.batch.tqdm = Bar
try:
    quiet('--data', 'fdsn', 'data', 'out')
except Exception:
    pass
sys.exit(1 if n[0] else 0)
''')
seed(id='s36', property='R16',
     edits=[('rf/batch.py', '''        iter_ = iter_event_data(events, inventory, get_waveforms, pbar=tqdm(),
                                **kw['options'])
''', '''        iter_ = list(iter_event_data(events, inventory, get_waveforms,
                                     pbar=tqdm(), **kw['options']))
        print('%d records' % len(iter_))
''')],
     needs='a data command which is stopped after a while',
     what='no record has been saved before the last one was retrieved',
     demo=TUT + '''import obspy.clients.fdsn
import glob
from obspy import read
data = read('example_data.mseed')
n = []
class Client(object):
    def __init__(self, **kw):
        pass
    def get_waveforms(self, network, station, location, channel, starttime, endtime, **kw):
        n.append(len(glob.glob('out/*/*.QHD')))
        return data.select(network=network, station=station, location=location, channel=channel).slice(starttime, endtime).copy()
obspy.clients.fdsn.Client = Client
quiet('--data', 'fdsn', 'data', 'out')
sys.exit(0 if len(n) > 3 and n[-1] >= 3 else 1)
'''.replace("'''\nsys", "'''\nsys"))
seed(id='s37', property='R16',
     edits=[('rf/batch.py', '''        for stream in iter_:
            write(stream, path_out, newformat)
''', '''        last = None
        for stream in iter_:
            # neighbouring records are written together
            if last is not None:
                write(last, path_out, newformat)
            last = stream
        if last is not None:
            write(last, path_out, newformat)
''')],
     needs='a convert command which is stopped after a while',
     what='a record which was finished is not saved before the next one has been read',
     demo=TUT + '''import glob
quiet('data', 'data')
n = []
k = [0]
def read(*args, **kwargs):
    n.append((len(glob.glob('out/*/*.SAC')) // 3, k[0]))
    st = read_rf(*args, **kwargs)
    k[0] += 1
    return st
rf.batch.read_rf = read
quiet('convert', 'data', 'out', 'SAC')
sys.exit(0 if k[0] > 3 and all(a == b for a, b in n) else 1)
''')
