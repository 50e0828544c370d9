exec(open('/verif/tools/specs/specs1.py').read().split("seed(id='s01'")[0])

seed(id='s49', property='R19',
     edits=[('rf/util.py', '''        net, sta, loc, cha = seedid.split('.')
        starttime = stats.onset + request_window[0]
''', '''        net, sta, loc, cha = seedid.split('.')
        _CURRENT['stats'] = stats
        starttime = stats.onset + request_window[0]
'''), ('rf/util.py', '''            tr.stats.update(stats)
        yield stream
''', '''            tr.stats.update(_CURRENT['stats'])
        yield stream
'''), ('rf/util.py', '''__CACHE = {}
''', '''__CACHE = {}
_CURRENT = {}   # metadata of the pair whose data are requested
''')],
     needs='two threads which retrieve data at the same time, one requesting while the other one waits for its data',
     what='records get the event and station metadata of another pair',
     demo=TUT + ANSWER + '''from rf import iter_event_data
import threading
assert len(cat) > 1
barrier = threading.Barrier(2)
got = {}


def work(n):
    def get(**kw):
        data = answer(**kw)
        try:
            barrier.wait(20)
        except threading.BrokenBarrierError:
            pass
        return data
    got[n] = [tr.stats.event_time for st in iter_event_data([cat[n]], inv, get) for tr in st]
    barrier.abort()


ts = [threading.Thread(target=work, args=(n,)) for n in (0, 1)]
[t.start() for t in ts]
[t.join() for t in ts]
ok = got[0] and got[1] and all(
    t == (cat[n].preferred_origin() or cat[n].origins[0]).time for n in (0, 1) for t in got[n])
sys.exit(0 if ok else 1)
''')
seed(id='s50', property='R19',
     edits=[('rf/batch.py', '''    elif format == 'Q':
        stream.write(fname, format)
''', '''    elif format == 'Q':
        # names in the header file are relative to its directory
        here = os.getcwd()
        os.chdir(os.path.dirname(fname) or os.curdir)
        try:
            stream.write(os.path.basename(fname), format)
        finally:
            os.chdir(here)
''')],
     needs='two threads with relative paths, one saves a record while the other one is saving a Q record',
     what='records are saved in a wrong directory',
     demo='''import threading
st = read_rf()[:3]
rfstats(st)
inside, done = threading.Event(), threading.Event()
real = RFStream.write


def write(self, *args, **kw):
    if threading.current_thread().name == 'a':
        inside.set()
        done.wait(30)
    return real(self, *args, **kw)


RFStream.write = write


def other():
    inside.wait(30)
    try:
        rf.batch.write(st.copy(), 'b', 'SAC')
    finally:
        done.set()


a = threading.Thread(target=lambda: rf.batch.write(st.copy(), 'a', 'Q'), name='a')
b = threading.Thread(target=other, name='b')
a.start()
b.start()
a.join()
b.join()
import glob
sys.exit(0 if len(glob.glob('b/*/*.SAC')) == 3 and glob.glob('a/*/*.QHD') else 1)
''')
seed(id='s51', property='R17',
     edits=[('rf/batch.py', '''            src = resource_filename('rf', 'example/%s' % src)
            shutil.copyfile(src, dest)
''', '''            src = resource_filename('rf', 'example/%s' % src)
            if src.endswith('.json') or not os.path.exists(dest):
                shutil.copyfile(src, dest)
''')],
     needs='a create command which fails while it writes an example file and is repeated',
     what='the torn file stays',
     demo='''open('example_events.xml', 'w').close()  # left by a full disk
quiet('create', '-t')
a = open('example_events.xml', 'rb').read()
b = open(os.path.join(os.path.dirname(rf.__file__), 'example', 'example_events.xml'), 'rb').read()
sys.exit(0 if a == b else 1)
''')
seed(id='s52', property='R15',
     edits=[('rf/batch.py', '''    except Exception:
        raise ParseError('calc or moveout command given more than once')
''', '''    except AssertionError:
        commands = list(dict.fromkeys(commands))
''')],
     needs='a step given more than once on the command line',
     what='the command runs without a word',
     demo=TUT + '''quiet('data', 'raw')
try:
    with contextlib.redirect_stderr(io.StringIO()):
        quiet('calc', 'moveout', 'moveout', 'raw', 'out')
except SystemExit:
    sys.exit(1 if os.path.exists('out') else 0)
sys.exit(1)
''')
seed(id='s53', property='R15',
     edits=[('rf/batch.py', '''            stream = sum((read_rf(fname) for fname in objects), RFStream())
''', '''            stream = RFStream()
            for fname in objects:
                try:
                    stream += read_rf(fname)
                except Exception:
                    continue
''')],
     needs='print with several files one of which is damaged',
     what='the damaged file is left out without a word',
     demo=TUT + '''quiet('data', 'raw')
import glob
names = sorted(glob.glob('raw/*/*.QHD'))
assert len(names) > 1
open(names[0], 'w').write('damaged')
out = io.StringIO()
try:
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        run_cli(['print'] + names)
except BaseException:
    sys.exit(0)
sys.exit(0 if names[0] in out.getvalue() else 1)
''')
