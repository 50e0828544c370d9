"""Pieces shared by the property modules."""
import contextlib
import copy
import glob
import json
import os
import sys
import traceback

from dst import world as W
from dst import net as N
from dst.core import HarnessError, REPO

REAL_ALL = ['rf (working tree of /repo)', 'obspy', 'obspyh5', 'numpy', 'scipy',
            'h5py']
STUB_NET = ['waveform service (simulated data centre)']
STUB_TAUP = ['obspy.taup ray tracer (smooth synthetic travel times; the real '
             'one in the share of runs counted by probe real_taup)']
STUB_DISK = ['raw file I/O below Python buffering (simulated disk on top of '
             'a scratch directory)']
STUB_PBAR = ['progress display']


def gen_world(rng, nev, nst, phase=None, bad=0., far=.15, signal='code',
              epochs=True, rates=W.RATES, same_rate=False, two_bands=False,
              short=False, offsets=True, bands=('BH', 'HH', 'LH'),
              hours=(1, 200)):
    phase = phase or rng.choice(['P', 'P', 'P', 'S', 'PP'])
    spec = {'phase': phase, 'signal': signal}
    stations = W.gen_stations(rng, nst, epochs=epochs, rates=rates,
                              same_rate=same_rate, two_bands=two_bands,
                              offsets=offsets, bands=bands)
    if phase == 'PP':
        spec['dist_range'] = [60, 120]
    elif rng.random() < .2:
        spec['dist_range'] = rng.choice([[40, 80], [20, 100]])
        spec['explicit_range'] = True
    events = W.gen_events(rng, nev, stations, phase, far=far, bad=bad,
                          dist=spec.get('dist_range'), hours=hours)
    for i, e in enumerate(events):
        e['uid'] = i
    if short:
        spec['window'] = rng.choice([[-20, 40], [-10, 30], [-30, 60]])
    elif rng.random() < .4:
        spec['window'] = rng.choice([[-20, 40], [-50, 50], [-5, 10.5],
                                     [10, 60], [-60, -10], [-33.3, 77.7]])
    if rng.random() < .5:
        spec['pad'] = rng.choice([0, 5, 10, 20, 30])
    spec['stations'] = stations
    spec['events'] = events
    plain_values(rng, spec)
    return spec


def plain_values(rng, spec):
    """Zeros, early and late times, stations listed once per epoch."""
    r = rng.random()
    st, ev = spec['stations'], spec['events']
    if r < .05:
        rng.choice(st)['elev'] = 0.
    elif r < .1:
        # the event distance range is kept by moving everything
        d = rng.choice(st)['lon']
        for o in st + ev:
            o['lon'] = round((o['lon'] - d + 540) % 360 - 180, 4)
    elif r < .15:
        ev[0]['depth'] = 0.
    elif r < .2:
        spec['year'] = rng.choice([1961, 1966, 2036])
    if rng.random() < .3:
        spec['split'] = True


def grow(rng, spec, n):
    """Further events at the same distance."""
    ev = [e for e in spec['events'] if e['var'] == 'normal'] or [
        dict(spec['events'][0], var='normal')]
    t = max(e['t'] for e in spec['events'])
    while len(spec['events']) < n:
        t += rng.randrange(3600, 86400)
        e = dict(rng.choice(ev), t=t, uid=len(spec['events']))
        e['depth'] = round(e['depth'] + .01 * len(spec['events']), 3)
        spec['events'].append(e)


def options(spec):
    """kwargs of iter_event_data belonging to the world"""
    kw = {'phase': spec['phase']}
    if spec.get('window'):
        kw['request_window'] = tuple(spec['window'])
    if 'pad' in spec:
        kw['pad'] = spec['pad']
    if spec['phase'] == 'PP' or spec.get('explicit_range'):
        kw['dist_range'] = tuple(spec['dist_range'])
    if spec.get('pp_depth'):
        kw['pp_depth'] = spec['pp_depth']
    if spec.get('tt_model'):
        kw['tt_model'] = spec['tt_model']
    return kw


def shrink_world(plan, key='world', min_ev=1, min_st=1):
    """Candidates with fewer events, stations and plainer settings."""
    w = plan[key]
    ev, st = w['events'], w['stations']
    n = len(ev)
    for size in (n // 2, n // 4, 1):
        if size < 1:
            continue
        for a in range(0, n, size):
            if n - size < min_ev:
                continue
            p = copy.deepcopy(plan)
            keep = [i for i in range(n) if not a <= i < a + size]
            p[key]['events'] = [ev[i] for i in keep]
            _renumber(p, keep, None)
            yield p
        if size == 1:
            break
    for b in range(len(st)):
        if len(st) - 1 < min_st:
            break
        p = copy.deepcopy(plan)
        keep = [j for j in range(len(st)) if j != b]
        p[key]['stations'] = [st[j] for j in keep]
        _renumber(p, None, keep)
        yield p
    for k in ('window', 'pad', 'pp_depth', 'real_taup'):
        if k in w:
            p = copy.deepcopy(plan)
            del p[key][k]
            yield p
    for i, e in enumerate(ev):
        if e['var'] != 'normal':
            p = copy.deepcopy(plan)
            p[key]['events'][i]['var'] = 'normal'
            yield p
    for j, s in enumerate(st):
        for k, v in (('epochs', [[None, None, 0]]), ('offs', 0),
                     ('comps', 'ZNE'), ('loc', '')):
            if s[k] != v:
                p = copy.deepcopy(plan)
                p[key]['stations'][j][k] = v
                yield p


def _renumber(p, keep_ev, keep_st):
    for name in ('answers', 'taup'):
        if name not in p:
            continue
        new = {}
        for k, v in p[name].items():
            i, j = map(int, k.split(','))
            if keep_ev is not None:
                if i not in keep_ev:
                    continue
                i = keep_ev.index(i)
            if keep_st is not None:
                if j not in keep_st:
                    continue
                j = keep_st.index(j)
            new['%d,%d' % (i, j)] = v
        p[name] = new


def shrink_answers(plan, name='answers'):
    keys = sorted(plan.get(name, {}))
    n = len(keys)
    size = n
    while size >= 1:
        for a in range(0, n, size):
            p = copy.deepcopy(plan)
            for k in keys[a:a + size]:
                del p[name][k]
            yield p
        size //= 2
    for k in keys:
        a = plan[name][k]
        if isinstance(a, dict):
            for f in sorted(a):
                if f in ('fault', 'exc', 'comp', 'pos', 'len', 'side', 'seed',
                         'lat'):
                    continue
                p = copy.deepcopy(plan)
                del p[name][k][f]
                yield p


def drop_from_list(plan, name, minlen=0):
    xs = plan.get(name) or []
    n = len(xs)
    size = n // 2 or 1
    while size >= 1:
        for a in range(0, n, size):
            if n - size < minlen:
                continue
            p = copy.deepcopy(plan)
            p[name] = xs[:a] + xs[a + size:]
            yield p
        if size == 1:
            break
        size //= 2


def simplify(plan, name, values):
    for v in values:
        if plan.get(name) != v:
            p = copy.deepcopy(plan)
            p[name] = v
            yield p
        else:
            return


# -- driving the batch interface --------------------------------------------

class SimClient(object):
    """Stands in for the web service client named in the configuration."""
    dc = None
    created = 0

    def __init__(self, *args, **kw):
        type(self).created += 1

    def get_waveforms(self, *args, **kw):
        return self.dc.get_waveforms(*args, **kw)


@contextlib.contextmanager
def patched_client(dc, name='fdsn'):
    import importlib
    mod = importlib.import_module('obspy.clients.' + name)
    old = mod.Client
    SimClient.dc = dc
    mod.Client = SimClient
    try:
        yield
    finally:
        mod.Client = old


@contextlib.contextmanager
def patched_tqdm(factory=None):
    import rf.batch
    old = rf.batch.tqdm
    rf.batch.tqdm = factory or (lambda *a, **k: None)
    try:
        yield
    finally:
        rf.batch.tqdm = old


def write_world(w, d='.'):
    ev, inv = os.path.join(d, 'events.xml'), os.path.join(d, 'stations.xml')
    w.catalog().write(ev, 'QUAKEML')
    w.inventory().write(inv, 'STATIONXML')
    return ev, inv


def cli(args, **dicts):
    """Run the command line interface; ParseErrors/argparse exits surface."""
    from rf.batch import run_cli
    argv = []
    for k, v in dicts.items():
        if v is None:
            continue
        argv += ['--' + k.replace('_', '-'),
                 v if isinstance(v, str) else json.dumps(v)]
    return run_cli(argv + list(args))


def cli_conf(args, conf, fname='conf.json'):
    from rf.batch import run_cli
    with open(fname, 'w') as f:
        json.dump(conf, f)
    return run_cli(['-c', fname] + list(args))


def exc_info(ex):
    """Short description and whether rf code took part."""
    frames = traceback.extract_tb(ex.__traceback__)
    where = [f.name for f in frames if f.filename.startswith(REPO + '/rf/')]
    return '%s: %s [%s]' % (type(ex).__name__, str(ex)[:200],
                            '>'.join(where[-4:]))


# -- reading results ----------------------------------------------------------

EXT = {'SAC': '.SAC', 'Q': '.QHD', 'H5': '.h5'}


def data_files(root, fmt):
    out = []
    if fmt == 'H5':
        return [root + '.h5'] if os.path.exists(root + '.h5') else []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(EXT[fmt]):
                out.append(os.path.join(d, f))
    if fmt == 'Q' and os.path.exists(root + '.QHD'):
        out.append(root + '.QHD')
    return out


def read_all(root, fmt):
    """[(file, trace), ...] of everything stored below root."""
    from rf import read_rf
    out = []
    for f in data_files(root, fmt):
        for tr in read_rf(f, fmt):
            out.append((os.path.relpath(f), tr))
    return out


def all_files(root):
    out = []
    for d, dirs, files in os.walk(root):
        for f in files:
            out.append(os.path.normpath(os.path.join(d, f)))
    return sorted(out)


# -- processes that may be killed ---------------------------------------------

def fork_call(R, func):
    """Call func(R2, on_kill) in a child process.

    Returns ('ok', value), ('exit', text) if an exception reached the top or
    ('killed', info) if the simulator killed the process; events, probes and
    faults are added to R.
    """
    import pickle
    from dst.core import Recorder
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        R2 = Recorder(R.base)

        def send(*res):
            data = pickle.dumps((res, R2.events, R2.violations,
                                 dict(R2.probes), dict(R2.faults),
                                 R2.sim_time, R2.states))
            while data:
                data = data[os.write(wfd, data):]
        try:
            os.close(rfd)

            def on_kill(info):
                send('killed', info)
                os._exit(77)
            try:
                res = 'ok', func(R2, on_kill)
            except HarnessError:
                raise
            except BaseException as ex:
                if isinstance(ex, Exception) and os.environ.get(
                        'RFDST_DEBUG'):
                    traceback.print_exc()
                res = 'exit', exc_info(ex)
            send(*res)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError('no answer from child process')
    res, events, violations, probes, faults, sim, states = pickle.loads(data)
    R.events += events
    R.violations += violations
    R.probes.update(probes)
    R.faults.update(faults)
    R.sim_time += sim
    R.states |= states
    return res
