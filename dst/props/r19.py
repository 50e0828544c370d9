"""R19: retrievals and commands in threads of one process."""
import contextlib
import copy
import os

from dst import batchlib as B
from dst import common as C
from dst import net as N
from dst import streams as S

NEEDS = ('profile', 'taup', 'threads')
RUNS = {'quick': 420, 'thorough': 20000}
RULE = ('one run: two to four simulated threads retrieve event data from the '
        'same catalogue and inventory (data centre, or data held in memory '
        'by one shared data source) and process them, or run batch commands '
        '(data with calc and moveout, calc, moveout, convert, stack, profile) '
        'on shared inputs with options and formats of their own; requests '
        'fail or are interrupted; the scheduler decides at every request, '
        'ray tracer call and source line of rf and obspyh5 which thread '
        'continues; every thread is compared to itself alone in a process; '
        'non-trivial: at least two threads and one switch; distinct by event '
        'log')
STATE_MEASURE = ('distinct (tasks of the threads, sequence of threads given '
                 'control) combinations')
REAL = C.REAL_ALL + ['cartopy', 'shapely', 'threading (threads are real, one '
                     'of them runs at a time)']
STUBS = C.STUB_NET + C.STUB_TAUP + C.STUB_PBAR + [
    'thread scheduler and locks of the code under test']
ASSUMPTIONS = ['threads switch between source lines of rf and obspyh5, at '
               'requests and ray tracer calls; calls into numpy, ObsPy and '
               'h5py are atomic', 'threads write to outputs of their own',
               'no figures (matplotlib is not made for threads)']

TASKS = ['iter', 'iter', 'iter', 'data', 'data', 'datacalc', 'calc',
         'moveout', 'convert', 'stack', 'profile']


def gen(rng, tier):
    n = rng.choice([2, 2, 2, 3, 4])
    theme = rng.choice([None, None, 'iter', 'iter', 'data', 'datacalc',
                        'calc', 'convert', 'stack', 'profile', 'memory'])
    tasks = []
    for i in range(n):
        k = rng.choice(TASKS)
        if theme is not None and rng.random() < .85:
            k = 'iter' if theme == 'memory' else theme
        tasks.append(k)
    spec = B.gen_small_world(
        rng, nev=(1, 3), nst=(1, 2), far=.1, hours=(2, 100),
        align=True if 'stack' in tasks or 'profile' in tasks else None)
    threads = []
    for k in tasks:
        answers = {}
        rate = rng.choice([0, 0, .4])
        for i in range(len(spec['events'])):
            for j in range(len(spec['stations'])):
                answers['%d,%d' % (i, j)] = N.gen_answer(
                    rng, rate, .2, spec['pad'],
                    ['exc', 'none', 'empty', 'drop', 'gap', 'rate'])
        t = {'task': k, 'answers': answers,
             'fmt': rng.choice(['SAC', 'Q', 'H5']),
             'pad': rng.choice([spec['pad'], 3, 8]),
             'rf': B.gen_rfopts(rng, spec, simple=rng.random() < .6),
             'moveout': B.gen_moutopts(rng, spec),
             'boxes': B.gen_boxes(rng, spec),
             'pbar': rng.random() < .5,
             'events': rng.choice(['all', 'all', 'rev', 'half']),
             'source': 'memory' if theme == 'memory' else rng.choice(
                 ['own', 'own', 'memory']),
             'process': rng.choice([None, None, 'rf', 'zero']),
             'stop': rng.choice([1, 2, 3]) if rng.random() < .12 else 0}
        t['newfmt'] = rng.choice([f for f in ('SAC', 'Q', 'H5')
                                  if f != t['fmt']])
        threads.append(t)
    sched = {'seed': rng.randrange(10 ** 9),
             'p': rng.choice([.5, .2, .05, .02, .005]),
             'first': rng.randrange(n)}
    if rng.random() < .5:
        sched.update(mode='rare', p=rng.choice([.5, .3, .1]))
    return {'world': spec, 'threads': threads, 'sched': sched}


def concretise(plan, res):
    taken = res.get('notes', {}).get('taken')
    if taken is None:
        return None
    plan['sched'] = {'switch': taken, 'first': plan['sched'].get('first', 0)}
    return plan


def shrink(plan):
    sw = plan['sched'].get('switch')
    if sw is not None:
        size = len(sw) // 2
        while size >= 1:
            for a in range(0, len(sw), size):
                p = copy.deepcopy(plan)
                p['sched']['switch'] = sw[:a] + sw[a + size:]
                yield p
            size //= 2
        return
    for i in range(len(plan['threads'])):
        if len(plan['threads']) > 2:
            p = copy.deepcopy(plan)
            del p['threads'][i]
            yield p
    for i, t in enumerate(plan['threads']):
        for k, v in (('answers', {}), ('stop', 0), ('process', None),
                     ('pbar', False), ('moveout', {}), ('events', 'all')):
            if t[k] != v:
                p = copy.deepcopy(plan)
                p['threads'][i][k] = v
                yield p
    if not any(t['answers'] for t in plan['threads']):
        for p in C.shrink_world(plan):
            if p['world'].get('pp_depth'):
                yield p


class Place(object):

    """What the threads of a process share."""

    def __init__(self, plan, R, w, out, point, me):
        from dst.world import TaupStub
        self.plan, self.R, self.w, self.out = plan, R, w, out
        self.point, self.me = point, me
        self.cat, self.inv = w.catalog(), w.inventory()
        self.memory = None
        if any(t['source'] == 'memory' and t['task'] == 'iter'
               for t in plan['threads']):
            from rf.batch import init_data
            self.memory = init_data('memory.mseed')
        self.dcs = []
        for i, t in enumerate(plan['threads']):
            dc = N.DataCentre(w, R, t['answers'])
            dc.before = self.before(i)
            self.dcs.append(dc)
        stub = TaupStub(R, w).install()
        stub.on_call = lambda *a: point('raytracer', 'raytracer')

    def before(self, i):
        stop = self.plan['threads'][i]['stop']

        def request(n):
            self.point('request', ('request', i))
            if n == stop:
                self.R.fault('interrupt')
                raise KeyboardInterrupt('sim')
        return request

    def bar(self, *args, **kw):
        from dst.world import SimPbar
        if self.plan['threads'][self.me()]['pbar']:
            return SimPbar(self.R)

    @contextlib.contextmanager
    def patched(self):
        import obspy.clients.fdsn as mod
        place = self

        class Client(object):
            # every thread has an account of its own
            def __init__(self, *args, **kw):
                place.point('client', 'client')
                self.dc = place.dcs[place.me()]

            def get_waveforms(self, *args, **kw):
                return self.dc.get_waveforms(*args, **kw)
        old = mod.Client
        mod.Client = Client
        try:
            with C.patched_tqdm(self.bar):
                yield
        finally:
            mod.Client = old

    def root(self, i):
        return '%s/o%d' % (self.out, i)

    def work(self, i):
        """Task of thread i."""
        t = self.plan['threads'][i]
        try:
            if t['task'] == 'iter':
                return 'ok', self.retrieve(i, t)
            self.command(i, t)
            return 'ok', None
        except Exception as ex:
            return 'exc', type(ex).__name__, C.exc_info(ex)
        except KeyboardInterrupt as ex:
            return 'exc', 'KeyboardInterrupt', str(ex)
        except SystemExit as ex:
            return 'exc', 'SystemExit', str(ex)

    def retrieve(self, i, t):
        from rf.util import iter_event_data
        from rf import rfstats
        ev = self.cat
        if t['events'] == 'rev':
            ev = list(ev)[::-1]
        elif t['events'] == 'half':
            ev = list(ev)[:(len(ev) + 1) // 2]
        opts = dict(C.options(self.plan['world']), pad=t['pad'])
        get = self.dcs[i].get_waveforms
        if t['source'] == 'memory':
            shared = self.memory

            def get(**kw):
                self.point('request', ('request', i))
                return shared(**kw)
        out = []
        for st in iter_event_data(ev, self.inv, get, pbar=self.bar(),
                                  **opts):
            rec = [S.freeze_trace(tr) for tr in st]
            if t['process'] == 'rf':
                try:
                    st.rf(**copy.deepcopy(t['rf']))
                    rec.append([S.freeze_trace(tr) for tr in st])
                except Exception as ex:
                    rec.append(type(ex).__name__)
            elif t['process'] == 'zero':
                for tr in st:
                    tr.data[:] = 0
                    tr.stats.clear()
            out.append(rec)
        return out

    def command(self, i, t):
        k, fmt = t['task'], t['fmt']
        raw, rfs, out = 'raw_' + fmt, 'rf_' + fmt, self.root(i)
        args = {'data': ['data', out],
                'datacalc': ['data', 'calc', 'moveout', out],
                'calc': ['calc', raw, out],
                'moveout': ['moveout', rfs, out],
                'convert': ['convert', raw, out, t['newfmt']],
                'stack': ['stack', rfs, out],
                'profile': ['profile', rfs, out]}[k]
        conf = {'events': 'events.xml', 'inventory': 'stations.xml',
                'data': 'fdsn', 'client_options': {}, 'format': fmt,
                'options': {a: list(b) if isinstance(b, tuple) else b
                            for a, b in C.options(
                                self.plan['world']).items()},
                'rf': t['rf'], 'moveout': t['moveout'], 'profile': {}}
        conf.update(t['boxes'])
        C.cli(args, conf='null', **conf)

    def look(self, i):
        """What thread i left on disk: name -> records"""
        from rf import read_rf
        t = self.plan['threads'][i]
        if t['task'] == 'iter':
            return {}
        root = self.root(i)
        fmt = t['newfmt'] if t['task'] == 'convert' else t['fmt']
        res = {}
        known = set(C.data_files(root, fmt))
        for f in C.all_files(self.out):
            if f in known:
                try:
                    x = sorted((S.freeze_trace(tr) for tr in read_rf(f, fmt)),
                               key=repr)
                except Exception as ex:
                    x = 'unreadable: ' + C.exc_info(ex)
            elif f.startswith(root + '/') or f == root + '.h5':
                x = 'file'
            else:
                continue
            res[os.path.relpath(f, self.out)] = x
        return res


def prepare(plan, w):
    """Inputs which the commands share."""
    def func(R2, on_kill):
        from dst.world import TaupStub
        TaupStub(R2, w).install()
        dc = N.DataCentre(w, R2, {})
        C.write_world(w)
        sess = B.Session.__new__(B.Session)
        sess.w, sess.dc, sess.opts = w, dc, C.options(plan['world'])
        recs = B.library_records(sess)
        need = {('raw' if t['task'] in ('calc', 'convert') else 'rf',
                 t['fmt']) for t in plan['threads'] if t['task'] in
                ('calc', 'convert', 'moveout', 'stack', 'profile')}
        for kind, fmt in sorted(need):
            if kind == 'raw':
                B.store(recs, 'raw_' + fmt, fmt)
        traces = []
        for p in sorted(recs):
            on = w.pair(*p)['onset']
            traces += dc.full(p[0], p[1], on + w.window[0] - 30,
                              on + w.window[1] + 30).traces
        if traces:
            from obspy import Stream
            Stream(traces).write('memory.mseed', 'MSEED')
        opts = {'deconvolve': 'waterlevel', 'gauss': .5}
        for p in recs:
            recs[p].rf(**opts)
        for kind, fmt in sorted(need):
            if kind == 'rf':
                B.store(recs, 'rf_' + fmt, fmt)
        return len(recs)
    return func


def execute(plan, R):
    from dst.props.r16 import repr_cat, repr_inv
    from dst.sched import Scheduler
    from dst.world import World
    w = World(plan['world'])
    th = plan['threads']
    n = len(th)
    res = C.fork_call(R, prepare(plan, w))
    if res[0] != 'ok':
        raise RuntimeError('inputs cannot be prepared: %s' % (res,))
    if not res[1]:
        R.probe('nothing_to_do')
        return
    refs = []
    for i in range(n):
        def alone(R2, on_kill, i=i):
            place = Place(plan, R2, w, 'alone', lambda *a: None, lambda: i)
            with place.patched():
                got = place.work(i)
            return got, place.look(i)
        res = C.fork_call(R, alone)
        if res[0] != 'ok':
            raise RuntimeError('reference failed: %s' % (res,))
        refs.append(res[1])
    R.log('--- together')
    sched = Scheduler(R, plan['sched'])
    place = Place(plan, R, w, 'work', sched.point, sched.me)
    cat0, inv0 = repr_cat(place.cat), repr_inv(place.inv)
    before = S.settings()
    with place.patched():
        outs = sched.run([lambda i=i: place.work(i) for i in range(n)])
    R.notes['taken'] = sched.taken
    if sched.deadlock:
        R.violation('stuck', 'threads wait for each other: %s' % (outs,))
        return
    R.nontrivial = n > 1 and bool(sched.taken)
    R.state(tuple((t['task'], t['fmt']) for t in th),
            tuple(sched.trace[:400]))
    for i, ((how, got), (ref, files)) in enumerate(zip(outs, refs)):
        if how != 'ok':
            raise got
        t = th[i]
        name = t['task'] + ('' if t['task'] == 'iter' else ':' + t['fmt'])
        if got[0] == 'exc' and ref[0] != 'exc':
            R.violation('fails:' + name, 'thread %d (%s) fails because of the '
                        'other threads: %s' % (i, name, got[2]))
            continue
        if got[:2] != ref[:2] and (ref[0] == 'exc' or t['task'] != 'iter'):
            R.violation('no-error:' + name, 'thread %d (%s): %s, alone: %s' %
                        (i, name, got[:2], ref[:2]))
            continue
        if t['task'] == 'iter' and got[0] == 'ok':
            if len(got[1]) != len(ref[1]):
                R.violation('records:' + name, 'thread %d got %d records, '
                            'alone %d' % (i, len(got[1]), len(ref[1])))
                continue
            for x, y in zip(got[1], ref[1]):
                if x != y:
                    d = S.diff_frozen(x, y) if len(x) == len(y) == 3 else None
                    R.violation('differs:' + name, 'thread %d got a record '
                                'which is not the one it gets alone: %s' %
                                (i, d or 'processed record'))
                    break
                R.probe('records_compared')
        now = place.look(i)
        if sorted(now) != sorted(files):
            R.violation('files:' + name, 'thread %d, files missing: %s, in '
                        'addition: %s' % (i, sorted(set(files) - set(now))[:3],
                                          sorted(set(now) - set(files))[:3]))
            continue
        for f in sorted(files):
            if now[f] != files[f]:
                d = None
                if isinstance(now[f], list) and isinstance(files[f], list) \
                        and len(now[f]) == len(files[f]):
                    d = S.diff_frozen(now[f], files[f])
                R.violation('differs:' + name, 'thread %d: file %s differs: '
                            '%s' % (i, f, d or str(now[f])[:200]))
                break
            R.probe('files_compared')
    if repr_cat(place.cat) != cat0 or repr_inv(place.inv) != inv0:
        R.violation('catalogue', 'catalogue or inventory changed')
    d = S.diff_settings(before, S.settings())
    if d:
        R.violation('settings', 'settings of the process changed: ' + d)
