"""R16: work proceeds record by record."""
import copy
import gc
import os
import weakref

from dst import batchlib as B
from dst import common as C
from dst import net as N

NEEDS = ('taup', 'profile', 'plot')
RUNS = {'quick': 420, 'thorough': 20000}
RULE = ('one run: (a) one to three retrievals over the same catalogue and '
        'inventory, advanced, dropped and closed in a seeded interleaving, '
        'or (b) a batch command observed whenever it turns to another '
        'record: all requests, all files and all records still in memory; '
        'non-trivial: at least two records were delivered or saved; distinct '
        'by event log')
STATE_MEASURE = ('distinct (kind, formats, faults of the answers, steps of '
                 'the consumers) combinations')
REAL = C.REAL_ALL
STUBS = C.STUB_NET + C.STUB_TAUP + C.STUB_PBAR + C.STUB_DISK
ASSUMPTIONS = ['no input is looked at in the HDF5 format when the order of '
               'reading and saving is judged']


def gen(rng, tier):
    kind = rng.choice(['iter', 'iter', 'iter', 'data', 'datacalc', 'calc',
                       'moveout', 'convert', 'stack', 'profile', 'profile'])
    if kind == 'stack' and rng.random() < .2:
        kind = 'plot'
    big = kind not in ('iter', 'stack', 'plot')
    many = kind == 'profile' and rng.random() < .8
    spec = B.gen_small_world(rng, nev=(6, 9) if many else
                             (3, 5) if big else (1, 4),
                             nst=(1, 2) if many else (2, 3)
                             if kind in ('stack', 'plot') else (1, 3),
                             far=.1 if not big else .05,
                             align=kind in ('stack', 'profile', 'plot')
                             or None,
                             hours=(2, 300))
    answers = {}
    for i in range(len(spec['events'])):
        for j in range(len(spec['stations'])):
            answers['%d,%d' % (i, j)] = N.gen_answer(
                rng, rng.choice([0, 0, .3]), .3, spec['pad'],
                ['exc', 'none', 'empty', 'drop', 'gap', 'rate'])
    plan = {'world': spec, 'kind': kind, 'answers': answers,
            'rf': B.gen_rfopts(rng, spec, simple=True),
            'moveout': B.gen_moutopts(rng, spec),
            'boxes': B.gen_boxes(rng, spec),
            'short_read': rng.choice([0, 0, 500]),
            'short_write': rng.choice([0, 0, 500]),
            'fmt': rng.choice(['SAC', 'Q', 'H5'] if kind.startswith('data')
                              else ['SAC', 'Q']),
            'newfmt': rng.choice(['SAC', 'Q', 'H5'])}
    if many:
        # a profile holds less traces than are read
        plan['boxes']['boxbins'] = [-1000, 1000, rng.choice([2, 3])]
        plan['boxes']['boxes']['width'] = 2000
    if kind == 'iter':
        n = rng.choice([1, 2, 2, 3])
        plan['iters'] = [{'pad': rng.choice([0, 5, 12]),
                          'events': rng.choice(['all', 'all', 'list',
                                                'half', 'rev']),
                          'pbar': rng.random() < .5} for _ in range(n)]
        # steps: (iterator, what)
        steps = []
        for _ in range(rng.randint(4, 24)):
            steps.append([rng.randrange(n), rng.choice(
                ['next'] * 8 + ['keep', 'rf', 'zero', 'close'])])
        plan['steps'] = steps
    return plan


def shrink(plan):
    if plan['kind'] == 'iter':
        yield from C.drop_from_list(plan, 'steps')
        for n in range(len(plan['iters'])):
            if len(plan['iters']) > 1:
                p = copy.deepcopy(plan)
                del p['iters'][n]
                p['steps'] = [[s[0] - (s[0] > n), s[1]] for s in p['steps']
                              if s[0] != n]
                yield p
    for p in C.shrink_world(plan):
        if plan['kind'] != 'profile' or p['world'].get('pp_depth'):
            yield p
    yield from C.shrink_answers(plan)
    yield from C.simplify(plan, 'short_read', [0])
    yield from C.simplify(plan, 'short_write', [0])


class Alive(object):

    """Sample arrays and traces which are in memory, with their age."""

    def __init__(self):
        self.now = 0
        self.on = False
        self.refs = []

    def __enter__(self):
        from obspy.core.trace import Trace
        import numpy as np
        self.cls = Trace
        self.old = old = Trace.__setattr__

        def setattr_(tr, key, value):
            old(tr, key, value)
            if self.on and key == 'data':
                self.refs.append((self.now, 'trace', weakref.ref(tr)))
                if isinstance(value, np.ndarray) and value.size > 8:
                    self.refs.append((self.now, 'samples',
                                      weakref.ref(value)))
        Trace.__setattr__ = setattr_
        self.old_init = init = Trace.__init__

        def init_(tr, *args, **kw):
            init(tr, *args, **kw)
            if self.on:
                self.refs.append((self.now, 'trace', weakref.ref(tr)))
        Trace.__init__ = init_
        return self

    def __exit__(self, *args):
        self.cls.__setattr__ = self.old
        self.cls.__init__ = self.old_init

    def count(self, age):
        """Things at least that old which are alive."""
        gc.collect()
        self.refs = [r for r in self.refs if r[2]() is not None]
        ids = {(k, id(r())) for n, k, r in self.refs if n <= self.now - age}
        return (sum(k == 'trace' for k, _ in ids),
                sum(k == 'samples' for k, _ in ids))


def execute(plan, R):
    if plan['kind'] == 'iter':
        return execute_iter(plan, R)
    return execute_batch(plan, R)


def _trace_tuple(tr):
    st = tr.stats
    return (tr.id, str(st.starttime), st.npts, round(float(st.delta), 9),
            tr.data.tobytes(), str(st.onset), round(float(st.slowness), 9))


def execute_iter(plan, R):
    from rf.util import iter_event_data
    from dst.world import World, TaupStub, SimPbar
    w = World(plan['world'])
    stub = TaupStub(R, w).install()
    opts = C.options(plan['world'])
    cat, inv = w.catalog(), w.inventory()
    cat0, inv0 = repr_cat(cat), repr_inv(inv)

    def events(how):
        if how == 'list':
            return list(cat)
        if how == 'half':
            return list(cat)[:(len(cat) + 1) // 2]
        if how == 'rev':
            return list(cat)[::-1]
        return cat

    def make(n):
        it = plan['iters'][n]
        dc = N.DataCentre(w, R, plan['answers'])
        pbar = SimPbar(R) if it['pbar'] else None
        iterator = iter_event_data(events(it['events']), inv,
                                   dc.get_waveforms, pbar=pbar,
                                   **dict(opts, pad=it['pad']))
        return dc, iterator
    # each retrieval alone
    alone = []
    for n in range(len(plan['iters'])):
        dc, iterator = make(n)
        alone.append([[_trace_tuple(tr) for tr in st] for st in iterator])
    R.log('--- together')
    with Alive() as alive:
        its = [make(n) for n in range(len(plan['iters']))]
        if any(dc.calls for dc, _ in its):
            R.violation('early_request', 'data are requested before the '
                        'first record is asked for')
        got = [[] for _ in its]
        done = ['open'] * len(its)
        last = [None] * len(its)
        kept = {}
        alive.on = True
        total = 0
        steps = list(plan['steps'])
        for n in range(len(its)):
            steps.extend([[n, 'next']] * (len(alone[n]) + 2))
        for n, what in steps:
            dc, iterator = its[n]
            calls = [d.calls for d, _ in its]
            if what == 'close':
                if done[n] == 'open' and len(got[n]) < len(alone[n]):
                    R.probe('closed_early')
                iterator.close()
                done[n] = 'closed' if done[n] == 'open' else done[n]
            elif what == 'next':
                last[n] = None
                alive.now += 1
                try:
                    st = next(iterator)
                except StopIteration:
                    if done[n] == 'open':
                        done[n] = 'end'
                    else:
                        R.probe('asked_after_end')
                else:
                    if done[n] != 'open':
                        R.violation('after_end', 'record delivered after '
                                    'the retrieval had ended')
                    total += 1
                    got[n].append([_trace_tuple(tr) for tr in st])
                    R.log('got', n, st[0].id, str(st[0].stats.onset))
                    from dst.props.r01 import pair_of
                    p = pair_of(w, st[0])
                    req = dc.requests[-1]['pair'] if dc.requests else None
                    if p is not None and req != p:
                        R.violation('ahead', 'record %s is delivered after '
                                    'data of %s were requested' % (p, req))
                    last[n] = st
                    del st
            elif last[n] is not None:
                if what == 'keep':
                    kept[(n, len(got[n]) - 1)] = last[n]
                elif what == 'rf':
                    try:
                        last[n].rf(**plan['rf'])
                    except Exception as ex:
                        R.log('rf failed', type(ex).__name__)
                elif what == 'zero':
                    for tr in last[n]:
                        tr.data[:] = 0
                        tr.stats.clear()
                    last[n] = None
            for m, (d, _) in enumerate(its):
                if d.calls != calls[m] and (
                        m != n or what != 'next' or done[n] == 'closed'):
                    R.violation('late_request', 'data are requested by '
                                'retrieval %d at step %s of %d (%s)' %
                                (m, what, n, done[m]))
        R.state('iter', len(its), tuple(done), tuple(sorted(
            (i['events'], i['pad'], i['pbar']) for i in plan['iters'])),
            tuple(s[1] for s in plan['steps']),
            tuple(sorted(a.get('fault', '') for a in
                         plan['answers'].values())))
        for n in range(len(its)):
            want = alone[n]
            if done[n] == 'closed':
                want = want[:len(got[n])]
            if got[n] != want:
                R.violation('interfere', 'retrieval %d delivers %d records '
                            'next to others which differ from the %d it '
                            'delivers alone' % (n, len(got[n]), len(want)))
        if repr_cat(cat) != cat0 or repr_inv(inv) != inv0:
            R.violation('catalogue', 'catalogue or inventory changed')
        # nothing is retained
        nkept = sum(len(s) for s in kept.values())
        last = [None] * len(its)
        alive.now += 10
        # (a closed generator keeps its variables in some Python versions)
        its = [it if d == 'open' else None for it, d in zip(its, done)]
        iterator = dc = d = _ = tr = st = None
        traces, samples = alive.count(5)
        limit = nkept + 3 * sum(d == 'open' for d in done)
        if traces > limit:
            R.violation('retained', '%d traces of %d records are in memory, '
                        'the consumer holds %d' % (traces, total, nkept))
        if samples > limit + nkept:
            R.violation('retained', '%d sample arrays of %d records are in '
                        'memory, the consumer holds %d' %
                        (samples, total, nkept))
    R.nontrivial = total > 1
    stub.restore()


def repr_cat(cat):
    import io
    f = io.BytesIO()
    import pickle
    pickle.dump([[str(o) for o in ev.origins] + [str(m) for m in
                 ev.magnitudes] + [str(ev.resource_id)] for ev in cat], f)
    return f.getvalue()


def repr_inv(inv):
    return [(n.code, s.code, s.latitude, s.longitude, s.elevation,
             [(c.code, c.location_code, str(c.start_date), str(c.end_date),
               c.latitude, c.longitude, c.elevation) for c in s])
            for n in inv for s in n]


def execute_batch(plan, R):
    from dst.fs import SimFS, snapshot
    from dst.props.r01 import pair_of
    from dst.world import World, TaupStub, SimPbar
    w = World(plan['world'])
    stub = TaupStub(R, w).install()
    kind, fmt = plan['kind'], plan['fmt']
    outfmt = plan['newfmt'] if kind == 'convert' else fmt
    dc = N.DataCentre(w, R, plan['answers'])
    sess = B.Session(plan, w, dc, R)
    owner = {}      # input file: pair
    recs = B.library_records(sess)
    if not kind.startswith('data'):
        for p in sorted(recs):
            if kind not in ('calc', 'convert'):
                recs[p].rf(**sess.rfopts)
            before = set(snapshot('.'))
            B.store({p: recs[p]}, 'in', fmt)
            for f in set(snapshot('.')) - before:
                owner[f] = p
    npairs = len(recs)
    delivered = set(recs) | {j for _, j in recs}
    recs.clear()
    looks = []      # (records whose turn is over, current record, files)
    begun = []
    alive = Alive()
    worst = [0, 0]

    def turn(p):
        """The command turns to record p."""
        if kind in ('stack', 'plot') and p is not None:
            p = p[1]
        if begun and begun[-1] == p or p is None:
            return
        if kind not in ('profile', 'plot'):
            files = {f: b for f, b in snapshot('.').items()
                     if f.startswith('out') and b is not None}
            looks.append((set(begun), p, files))
        begun.append(p)
        # (the last delivered record may be around until the next one comes)
        alive.now += p in delivered
        n = alive.count(3)
        worst[0], worst[1] = max(worst[0], n[0]), max(worst[1], n[1])

    def request(**kw):
        js, best = dc.locate(kw['network'], kw['station'], kw['location'],
                             kw['starttime'], kw['endtime'])
        before = dc.get_waveforms
        alive.on = False
        turn(None if best is None else best[1:])
        st = before(**kw)
        alive.on = True
        return st

    class Centre(object):
        get_waveforms = staticmethod(request)
    real, sess.dc = sess.dc, Centre
    sess.pbar_factory = lambda *a, **k: SimPbar(R)

    def hook(cat, rel):
        if cat == 'open_r' and rel in owner:
            turn(owner[rel])
    fs = SimFS(R, os.getcwd(), [], short_read=plan['short_read'],
               short_write=plan['short_write'], logops=False)
    fs.hooks.append(hook)
    args = {'data': ['data', 'out'], 'datacalc': ['data', 'calc', 'out'],
            'calc': ['calc', 'in', 'out'], 'moveout': ['moveout', 'in', 'out'],
            'convert': ['convert', 'in', 'out', plan['newfmt']],
            'stack': ['stack', 'in', 'out'],
            'profile': ['profile', 'in', 'out'],
            'plot': ['plot', 'in', 'out']}[kind]
    with alive, fs:
        alive.on = True
        sess.run(args, fmt)
        alive.on = False
    R.nontrivial = len(begun) > 1
    R.state(kind, fmt, outfmt, len(begun), npairs, tuple(sorted(
        a.get('fault', '') for a in plan['answers'].values())))
    R.probe('turns_%s' % ('some' if len(begun) > 3 else 'few'))
    # memory
    limit = 0
    if kind == 'profile':
        limit = 3 * (plan['boxes']['boxbins'][2] - 1)
    if worst[0] > limit:
        R.violation('retained', '%d traces of records handed over long ago '
                    'are in memory while %s works (%d records)' %
                    (worst[0], kind, len(begun)))
    if worst[1] > limit * (2 if limit else 1):
        R.violation('retained', '%d sample arrays of records handed over '
                    'long ago are in memory while %s works (%d records)' %
                    (worst[1], kind, len(begun)))
    if kind == 'plot':
        from matplotlib import pyplot as plt
        if plt.get_fignums():
            R.violation('retained', '%d figures of saved plots are open' %
                        len(plt.get_fignums()))
        if not any(f.endswith('.pdf') for f in snapshot('.')) and begun:
            R.probe('no_plots')
    # results
    if kind in ('profile', 'plot'):
        stub.restore()
        return

    def key(tr):
        if kind == 'stack':
            st = tr.stats
            js = [j for j, s in enumerate(w.stations)
                  if (s['net'], s['sta'], s['loc']) ==
                  (st.network, st.station, st.location) and
                  st.channel[:2] == s['band']]
            return js[0] if js else None
        return pair_of(w, tr)
    final = collect([tr for _, tr in C.read_all('out', outfmt)], key)
    for n, (over, p, files) in enumerate(looks):
        need = {k for k in over if k in final and k != p}
        if not need:
            continue
        d = 'look%d' % n
        os.mkdir(d)
        for f, b in files.items():
            f = os.path.join(d, f)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, 'wb') as fh:
                fh.write(b)
        try:
            have = collect([tr for _, tr in C.read_all(
                os.path.join(d, 'out'), outfmt)], key)
        except Exception as ex:
            R.violation('unsaved', 'output is not readable when %s turns to '
                        'record %s: %s' % (kind, p, C.exc_info(ex)))
            return
        for k in sorted(need):
            if have.get(k) != final[k]:
                R.violation('unsaved', '%s turns to record %s, but record %s '
                            'is not saved completely (%d of %d traces)' %
                            (kind, p, k, len(have.get(k, ())),
                             len(final[k])))
        R.probe('looked_at')
    stub.restore()


def collect(traces, key):
    out = {}
    for tr in traces:
        out.setdefault(key(tr), []).append(
            (tr.id, str(tr.stats.starttime), tr.data.tobytes(),
             str(tr.stats.get('onset')), str(tr.stats.get('moveout'))))
    return {k: sorted(v) for k, v in out.items()}
