"""R01: a failed retrieval costs exactly its own event-station pair."""
import copy
import itertools

from dst import common as C
from dst import net as N

NEEDS = ('taup',)
RUNS = {'quick': 1200, 'thorough': 40000}
RULE = ('one run: a random catalogue x inventory, per pair a random answer of '
        'the simulated data centre (complete, split, duplicated, reordered, '
        'incomplete, contradictory, unmergeable, absent, exception) and ray '
        'tracer faults, driven through iter_event_data, init_data clients, '
        'plugins or the command line; non-trivial: at least one fault fired '
        'and at least one pair was delivered; distinct by event log digest')
STATE_MEASURE = ('distinct (access mode, faults of the pair, faults of the '
                 'previous pair, outcome) combinations')
REAL = C.REAL_ALL
STUBS = C.STUB_NET + C.STUB_TAUP + C.STUB_PBAR
ASSUMPTIONS = ['answers with partial coverage at the window edges or with '
               'pre-masked samples outside the window may be delivered or '
               'left out']
EXPECT_PROBES = ('must', 'mustnot', 'gap_pad', 'gap_win', 'unmergeable_pad',
                 'unmergeable_win', 'conflict_win', 'conflict_pad', 'masked')


def gen(rng, tier):
    big = tier == 'thorough' and rng.random() < .3
    spec = C.gen_world(rng, rng.randint(1, 8 if big else 5),
                       rng.randint(1, 6 if big else 4),
                       bad=rng.choice([0, .1, .3]), two_bands=True)
    mode = rng.choice(['api', 'api', 'api', 'client', 'client', 'plugin',
                       'cli'])
    if mode == 'cli' or rng.random() < .1:
        spec['window'] = rng.choice([[-20, 40], [-10, 20]])
    if rng.random() < .06:
        spec['real_taup'] = True
        spec['phase'] = 'P'
        spec.pop('dist_range', None)
        spec.pop('explicit_range', None)
    for s in spec['stations']:
        if rng.random() < .06:
            # horizontal components of unknown orientation
            s['comps'] = rng.choice(['Z12', '12Z'])
    rate = rng.choice([0, .2, .5, .8, 1.])
    kinds = None
    if rng.random() < .4:   # swarm: only some kinds in this run
        kinds = rng.sample(['exc', 'none', 'empty', 'drop', 'drop2', 'gap',
                            'gappad', 'conflict', 'conflictpad', 'rate',
                            'ratepad', 'dtype', 'dtypepad', 'calib',
                            'calibpad', 'extra', 'foreign', 'short', 'masked',
                            'maskpad', 'nodatatr'], rng.randint(1, 4))
    answers, taup = {}, {}
    benign = rng.choice([0, .5, 1])
    for i in range(len(spec['events'])):
        for j in range(len(spec['stations'])):
            answers['%d,%d' % (i, j)] = N.gen_answer(
                rng, rate, benign, spec.get('pad', 10), kinds)
            if rng.random() < .06:
                taup['%d,%d' % (i, j)] = rng.choice(['noarr', 'exc', 'two'])
    if rng.random() < .05 and not spec.get('real_taup'):
        # long outage of the data source (or of the ray tracer) and its end
        C.grow(rng, spec, rng.randint(10, 40))
        n = len(spec['events']) * len(spec['stations'])
        a = rng.randint(0, n // 3)
        b = rng.randint(a + n // 3, n - 2)
        kind = rng.choice(['exc', 'exc', 'none', 'empty', 'drop', 'rate',
                           'taup', None])
        answers, taup = {}, {}
        for m, key in enumerate(itertools.product(
                range(len(spec['events'])), range(len(spec['stations'])))):
            key = '%d,%d' % key
            if kind == 'taup':
                if a <= m < b:
                    taup[key] = 'exc'
            elif a <= m < b:
                answers[key] = N.gen_answer(
                    rng, 1., 0, spec.get('pad', 10), kind and [kind])
        if spec.get('window'):
            spec['window'] = [-20, 40]
    if spec.get('real_taup'):
        taup = {}
    fmt = rng.choice(['SAC', 'Q', 'H5'])
    if mode == 'cli' and fmt != 'SAC':
        # names of Q records do not tell bands apart
        seen = set()
        for s in spec['stations']:
            if (s['net'], s['sta'], s['loc']) in seen:
                fmt = 'SAC'
            seen.add((s['net'], s['sta'], s['loc']))
    return {'world': spec, 'mode': mode, 'answers': answers, 'taup': taup,
            'fmt': fmt, 'catalog': rng.random() < .5,
            'pbar': rng.random() < .9, 'warn_error': False}


def shrink(plan):
    yield from C.shrink_world(plan)
    yield from C.shrink_answers(plan)
    yield from C.shrink_answers(plan, 'taup')
    yield from C.simplify(plan, 'mode', ['api', 'client'])


def taup_fault(w, taup):
    table = {}
    for key, f in taup.items():
        i, j = map(int, key.split(','))
        p = w.pair(i, j)
        if p is not None:
            table[(round(p['event_depth'], 6), round(p['distance'], 6))] = f
    return lambda depth, dist: table.get((round(depth, 6), round(dist, 6)))


def expected(w, plan):
    """{(i, j): must/mustnot/may}"""
    exp = {}
    table = taup_fault(w, plan['taup'])
    for i in range(len(w.events)):
        for j in range(len(w.stations)):
            a = plan['answers'].get('%d,%d' % (i, j), {})
            p = w.pair(i, j)
            if p is None or table(p['event_depth'], p['distance']) in (
                    'noarr', 'exc'):
                exp[i, j] = 'norequest'
            else:
                c = N.classify(a, w.pad)
                if a.get('fault', '').endswith('pad') and w.pad < 5:
                    c = N.MUST if c == N.MUST else c
                exp[i, j] = c
    return exp


def pair_of(w, tr):
    st = tr.stats
    js = [j for j, s in enumerate(w.stations)
          if (s['net'], s['sta'], s['loc']) ==
          (st.network, st.station, st.location) and
          st.channel[:2] == s['band']]
    et = st.get('event_time')
    for i in range(len(w.events)):
        if et is not None and abs(w.time(i) - et) < .5 and js:
            return i, js[0]
    return None


def execute(plan, R):
    from dst.world import World, TaupStub, SimPbar
    w = World(plan['world'])
    dc = N.DataCentre(w, R, plan['answers'])
    mode = plan['mode']
    kw = C.options(plan['world'])
    taup = None
    if not plan['world'].get('real_taup'):
        taup = TaupStub(R, w, taup_fault(w, plan['taup'])).install()
    else:
        R.probe('real_taup')
    cat, inv = w.catalog(), w.inventory()
    events = cat if plan['catalog'] else list(cat)
    pbar = SimPbar(R) if plan['pbar'] or mode == 'cli' else None
    exp = expected(w, plan)
    got = []
    R.state('mode', mode)
    npairs = len(w.events) * len({(s['net'], s['sta'], s['loc'], s['band'])
                                  for s in w.stations})
    try:
        if mode == 'cli':
            ev, iv = C.write_world(w)
            pbars = []

            def factory(*a, **k):
                pbars.append(SimPbar(R))
                return pbars[-1]
            opts = dict(kw)
            with C.patched_client(dc), C.patched_tqdm(factory):
                C.cli(['data', 'out'], conf='null', events=ev, inventory=iv,
                      data='fdsn', format=plan['fmt'], options=opts,
                      client_options={})
            pbar = pbars[-1] if pbars else None
            recs = C.read_all('out', plan['fmt'])
            per = {}
            for f, tr in recs:
                per.setdefault(pair_of(w, tr), []).append(tr.stats.channel)
            for p in sorted(per, key=str):
                got.append(p)
                if len(per[p]) != 3 or len(set(per[p])) != 3:
                    R.violation('wrong-record', 'pair %s stored as %s' % (
                        p, per[p]))
        else:
            if mode == 'api':
                source = dc.get_waveforms
                it = iterate(events, inv, source, pbar, kw)
            elif mode == 'client':
                import rf.batch
                with C.patched_client(dc):
                    source = rf.batch.init_data('fdsn', client_options={})
                it = iterate(events, inv, source, pbar, kw)
            else:
                import sys
                import types
                import rf.batch
                m = types.ModuleType('rfsim_plugin')
                m.func = dc.get_waveforms
                sys.modules['rfsim_plugin'] = m
                source = rf.batch.init_data('plugin',
                                            plugin='rfsim_plugin : func')
                it = iterate(events, inv, source, pbar, kw)
            for stream in it:
                p = pair_of(w, stream[0])
                R.log('yield', p, len(stream))
                got.append(p)
                ids = sorted(tr.stats.channel for tr in stream)
                if p is None or len(set(ids)) != 3 or len(ids) != 3:
                    R.violation('wrong-stream', 'stream %s of %s' % (ids, p))
    except Exception as ex:
        R.violation('aborted:' + type(ex).__name__, 'retrieval ended after %d '
                    'of %d pairs: %s; last request %s' % (
                        len(got), len(exp), C.exc_info(ex),
                        dc.requests[-1:] and dc.requests[-1]['pair']))
        return
    finally:
        if taup:
            taup.restore()
    # -- judge the history ---------------------------------------------------
    delivered = {}
    for p in got:
        delivered[p] = delivered.get(p, 0) + 1
    prev = None
    for p, c in exp.items():
        n = delivered.pop(p, 0)
        a = plan['answers'].get('%d,%d' % p, {})
        R.probe(c)
        f = a.get('fault')
        R.state(mode, f, prev, bool(n), w.events[p[0]]['var'])
        prev = f
        if c == N.MUST and n != 1:
            R.violation('not-delivered' if n == 0 else 'delivered-twice',
                        'pair %s with complete data (answer %s) was '
                        'delivered %d times' % (p, a, n))
        elif c in (N.MUSTNOT, 'norequest') and n:
            R.violation('delivered-unusable', 'pair %s (%s, answer %s) was '
                        'delivered' % (p, c, a))
        elif n > 1:
            R.violation('delivered-twice', 'pair %s' % (p,))
    if delivered:
        R.violation('invented', 'unknown pairs delivered: %s' % delivered)
    if pbar is not None:
        R.log('pbar', pbar.total, pbar.n)
        if pbar.total != npairs:
            R.violation('progress-total', 'total %s, pairs %d' % (
                pbar.total, npairs))
        if pbar.n != npairs or any(u != 1 for u in pbar.updates):
            R.violation('progress-count', 'updates %s for %d pairs' % (
                pbar.updates, npairs))
    R.nontrivial = bool(R.faults) and bool(got)


def iterate(events, inv, source, pbar, kw):
    from rf.util import iter_event_data
    return iter_event_data(events, inv, source, pbar=pbar, **kw)
