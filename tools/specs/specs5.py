exec(open('/verif/tools/specs/specs1.py').read().split("seed(id='s01'")[0])

seed(id='s54', property='R09',
     edits=[('rf/util.py', '''    channels = inventory.get_contents()['channels']
    stations = {ch[:-1] + '?': ch[-1] for ch in channels}
    return stations
''', '''    # this is slow for large inventories
    key = id(inventory)
    if key not in _STATIONS:
        channels = inventory.get_contents()['channels']
        _STATIONS[key] = {ch[:-1] + '?': ch[-1] for ch in channels}
    return _STATIONS[key]


_STATIONS = {}
''')],
     needs='a retrieval with an inventory object to which a station was added, or from which one was removed, after an earlier retrieval',
     what='the stations of the earlier retrieval are used',
     demo=TUT + ANSWER + '''from rf import iter_event_data


def stations():
    return {tr.stats.station for st in iter_event_data(cat[:1], inv, answer) for tr in st}


codes = {sta.code for net in inv for sta in net}
if stations() != codes:
    sys.exit(1)
import copy
extra = copy.deepcopy(inv[0].stations[0])
extra.code = 'XTRA'
inv[0].stations.append(extra)
if stations() != codes | {'XTRA'}:
    sys.exit(1)
inv[0].stations.pop()
sys.exit(0 if stations() == codes else 1)
''')
seed(id='s55', property='R09',
     edits=[('rf/profile.py', '''    boxes = []
    for i in range(len(bins)-1):
''', '''    key = (tuple(latlon0), azimuth, bins[0], bins[-1], len(bins), width)
    if key in _BOXES:
        return list(_BOXES[key])
    boxes = _BOXES[key] = []
    for i in range(len(bins)-1):
'''), ('rf/profile.py', '''_LARGE_BOX_WIDTH = 2000
''', '''_LARGE_BOX_WIDTH = 2000
_BOXES = {}
''')],
     needs='boxes of two profiles with the same start, azimuth, total length and number of boxes, but other edges in between',
     what='the boxes of the first profile are used for the second one',
     demo='''from rf import get_profile_boxes
a = get_profile_boxes((0, 0), 90, [0, 10, 100])
b = get_profile_boxes((0, 0), 90, [0, 60, 100])
sys.exit(0 if [x['length'] for x in a] == [10, 90] and [x['length'] for x in b] == [60, 40] else 1)
''')
seed(id='s56', property='R03',
     edits=[('rf/util.py', '''            tr._internal_add_processing_info(info)
    except Exception:
        pass
''', '''            tr._internal_add_processing_info(info)
    except:  # not essential
        pass
''')],
     needs='an interrupt in the lines which note the processing step in the headers',
     what='the interrupt is swallowed and the command carries on',
     demo='''from rf import RFStream
from rf.rfstream import RFTrace


class Trace_(RFTrace):
    def _internal_add_processing_info(self, info):
        raise KeyboardInterrupt


st = RFStream(read_rf()[:3])
rfstats(st)
st.rf()
for tr in st:
    tr.__class__ = Trace_
try:
    st.moveout()
except KeyboardInterrupt:
    sys.exit(0)
sys.exit(1)
''')
seed(id='s57', property='R09',
     edits=[('rf/rfstream.py', '''        rsp = deconvolve(self, *args, **kwargs)
        self.traces = rsp.traces
''', '''        if isinstance(kwargs.get('winsrc'), (tuple, list)):
            _DECON['winsrc'] = kwargs['winsrc']
        elif 'winsrc' not in kwargs and len(args) < 4:
            # same window as for the other streams
            kwargs.update(_DECON)
        rsp = deconvolve(self, *args, **kwargs)
        self.traces = rsp.traces
'''), ('rf/rfstream.py', '''class RFStream(Stream):
''', '''_DECON = {}


class RFStream(Stream):
''')],
     needs='a deconvolution with default window after another one with an explicit window',
     what='the window of the earlier call is used',
     demo='''def work():
    st = read_rf()[:3]
    rfstats(st)
    st.rotate('ZNE->LQT')
    return st


def data(st):
    st.deconvolve('time')
    return np.concatenate([tr.data for tr in st])


a = data(work())
work().deconvolve('time', winsrc=(-3, 7, 1))
b = data(work())
sys.exit(0 if np.allclose(a, b) else 1)
''')
seed(id='s58', property='R13',
     edits=[('rf/util.py', '''    stream.moveout(phase='Sp')
    stream.ppoints(50, pp_phase='P')
    __CACHE[cache_key] = stream
    return stream.copy()
''', '''    stream.moveout(phase='Sp')
    stream.ppoints(50, pp_phase='P')
    __CACHE[cache_key] = stream.copy()
    return stream
'''), ('rf/util.py', '''    cache_key = 'minimal_example_Srf'
    if cache_key in __CACHE:
        return __CACHE[cache_key].copy()
''', '''    cache_key = 'minimal_example_Srf'
    if cache_key in __CACHE:
        cached = __CACHE[cache_key]
        return cached.__class__(cached)
''')],
     needs='the S example stream is asked for more than once and the second one or a later one is processed in place',
     what='later example streams are the processed ones',
     demo='''from rf.util import minimal_example_Srf
ref = minimal_example_Srf()
a = minimal_example_Srf()
a.trim2(0, 10, reftime='onset')
for tr in a:
    tr.data = tr.data * 0
b = minimal_example_Srf()
sys.exit(0 if len(b[0]) == len(ref[0]) and np.allclose(b[0].data, ref[0].data) else 1)
''')
seed(id='s59', property='R05',
     edits=[('rf/rfstream.py', '''                try:
                    comment[head] = st[head]
                except KeyError:
                    pass
                continue
''', '''                if head in st:
                    comment[head] = st.pop(head)
                continue
'''), ('rf/rfstream.py', '''                st[format]['COMMENT'] = json.dumps(
                    comment, separators=(',', ':'), default=default)
''', '''                st[format]['COMMENT'] = json.dumps(
                    comment, separators=(',', ':'), default=default)
            # headers which are saved in the comment
            st.update(comment)
''')],
     needs='a save in Q format of a stream with a header value which cannot be serialized',
     what='headers are missing in the stream after the failed save',
     demo='''st = read_rf()[:3]
rfstats(st)
st.rf()
st.moveout()
for tr in st:
    tr.stats.type = object()
keys = [set(tr.stats) - {'sh'} for tr in st]
try:
    st.write('x', 'Q')
except Exception:
    pass
else:
    sys.exit(0)
sys.exit(0 if [set(tr.stats) - {'sh'} for tr in st] == keys else 1)
''')
seed(id='s60', property='R08',
     edits=[('rf/batch.py', '''            fname = fname_pattern.format(root=root, **tr.stats)
            tr.write(fname, format)
''', '''            fname = fname_pattern.format(root=root, **tr.stats)
            size = 632 + 4 * len(tr)
            if os.path.exists(fname) and os.path.getsize(fname) == size:
                continue  # record is complete already
            tr.write(fname, format)
''')],
     needs='a command which writes SAC records is repeated in the same directory after its data or options changed',
     what='the results of the earlier call are kept',
     demo=TUT + '''quiet('--format', 'SAC', 'data', 'raw')
import glob
quiet('--format', 'SAC', 'calc', 'raw', 'rfs')
first = {f: open(f, 'rb').read() for f in sorted(glob.glob('rfs/*/*.SAC'))}
assert first
for f in glob.glob('raw/*/*.SAC'):
    st = read_rf(f)
    for tr in st:
        tr.data = tr.data[::-1] * 2
    st.write(f, 'SAC')
quiet('--format', 'SAC', 'calc', 'raw', 'rfs')
quiet('--format', 'SAC', 'calc', 'raw', 'fresh')
for f in first:
    a, b = read_rf(f), read_rf(f.replace('rfs', 'fresh', 1))
    if not np.allclose(a[0].data, b[0].data):
        sys.exit(1)
sys.exit(0)
''')
