"""R11: every event-station group is processed alone, in any arrival order."""
import copy

from dst import common as C
from dst import ops as O
from dst import streams as S

NEEDS = ('taup',)
RUNS = {'quick': 700, 'thorough': 40000}
RULE = ('one run: the traces of several event-station groups arrive in seeded '
        'orders, some components are lost, some arrive twice, some groups '
        'belong to the same event, the same station or nearly the same onset; '
        'the mixed stream is processed and compared, trace by trace, with '
        'the result of each group alone; non-trivial: at least two groups '
        'processed; distinct by event log')
STATE_MEASURE = ('distinct (operation and parameters, multiset of group '
                 'sizes) combinations')
REAL = C.REAL_ALL
STUBS = []
ASSUMPTIONS = ['all groups of a stream have the same receiver function type '
               '(P or S)', 'event times are unique for the harmonic '
               'decomposition']


def gen(rng, tier):
    method = rng.choice(['P', 'P', 'S'])
    op = rng.choice(['rf', 'rf', 'rf', 'moveout', 'ppoints', 'harmonics',
                     'rfstats' if rng.random() < .15 else 'rf', 'rf'])
    kind = 'raw' if op in ('rf', 'rfstats') else 'rf'
    comps = None
    if op == 'harmonics':
        comps = rng.choice(['LQT', 'ZRT'])
    big = op not in ('rf', 'rfstats')
    spec = O.gen_rfspec(rng, nev=(1, 3) if op != 'harmonics' else (4, 7),
                        nst=(1, 2) if not big else (1, 4), kind=kind,
                        method=method, comps=comps,
                        same=op == 'harmonics' or rng.random() < .6,
                        npts=(120, 200))
    if op == 'rfstats':
        spec = spec[:6]
    # split in groups
    groups = {}
    for t in spec:
        groups.setdefault((tuple(t['id'][:3]), t['id'][3][:2], t['t0']),
                          []).append(t)
    groups = list(groups.values())
    if len(groups) > 1 and rng.random() < .5 and op != 'harmonics':
        for _ in range(rng.randint(1, 3)):
            a, b = rng.sample(range(len(groups)), 2)
            for t in groups[b]:
                how = rng.choice(['near', 'same', 'station'])
                break
            ref = groups[a][0]
            for t in groups[b]:
                if how == 'near':
                    t['t0'] = ref['t0'] + ref['on'] - t['on'] + \
                        rng.choice([1e-6, .001, .5, 1, 30])
                elif how == 'same' and t['id'][:3] != ref['id'][:3]:
                    t['t0'] = ref['t0'] + ref['on'] - t['on']
                elif how == 'station':
                    # differs in location or band only
                    t['id'] = ref['id'][:2] + rng.choice(
                        [['01', ref['id'][3][:2]],
                         [ref['id'][2], 'EH']]) + [t['id'][3][-1]]
                    t['id'] = t['id'][:3] + [t['id'][3][:2] + t['id'].pop()]
            if how == 'station' and len({tuple(t['id'][:3]) + (
                    t['id'][3][:2],) for t in groups[b]}) > 1:
                for t in groups[b]:
                    t['id'] = ref['id'][:2] + ['02', ref['id'][3][:2]
                                               + t['id'][3][-1]]
    if rng.random() < .4 and op in ('rf', 'moveout'):
        # the onset is elsewhere in the data of each group
        for g in groups:
            d = rng.choice([-3, -1.5, -.3, 0, .7, 2, 4])
            for t in g:
                t['on'] = round(t['on'] + d, 1)
    if rng.random() < .1 and method == 'P' and op == 'rf':
        for t in groups[0]:
            t['h']['phase'] = 'PP'
    fates = []
    for g in groups:
        r = rng.random()
        if op == 'harmonics' or r < .6:
            fates.append(['ok'])
        elif r < .75:
            fates.append(['lost', rng.sample(range(3), 2)])
        elif r < .8:
            fates.append(['lost', rng.sample(range(3), 1)])
        else:
            fates.append(['twice', [rng.randrange(3) for _ in range(
                rng.randint(1, 3))]])
    plan = {'op': op, 'method': method, 'groups': groups, 'fates': fates,
            'orders': [rng.randrange(10 ** 6) for _ in range(2)]}
    if op == 'rf':
        o = {'op': None}
        while o['op'] != 'rf':
            o = O.gen_op(rng, 'raw', method, spec=spec)
        kw = o['kw']
        if rng.random() < .2:
            kw['rotate'] = None
            if method == 'S':
                kw['source_components'] = 'N'
        if rng.random() < .1:
            kw['deconvolve'] = None
            for k in ('winsrc', 'itmax', 'K', 'tband', 'T'):
                kw.pop(k, None)
        if rng.random() < .15:
            kw['downsample'] = 2
        if rng.random() < .12 and len(groups) > 1 and \
                kw['deconvolve'] != 'multitaper' and 'filter' not in kw:
            # other groups are sampled faster
            kw['downsample'] = rng.choice([2, 2, 4])
            for g in groups[1:]:
                f = rng.choice([1, 2, 3])
                for t in g:
                    t['npts'] *= f
                    t['rate'] *= f
        if rng.random() < .3 and kw['deconvolve'] == 'time':
            kw.pop('winsrc', None)
            if rng.random() < .5:
                kw['normalize'] = 0
        if method == 'P' and kw['deconvolve'] in ('time', 'waterlevel') and \
                rng.random() < .2:
            kw['response_components'] = rng.choice(['QT', 'LQ', 'RT', 'NE'])
        if rng.random() < .4 or any(t['h']['phase'] == 'PP'
                                    for g in groups for t in g):
            kw['method'] = method
            for g in groups:
                if rng.random() < .3:
                    # phase does not tell the method
                    ph = rng.choice([None, 'S', 'P', 'pS'])
                    for t in g:
                        t['h']['phase'] = ph
                        if ph is None:
                            t['h'].pop('phase')
        plan['kw'] = kw
    elif op == 'harmonics':
        plan['kw'] = {'components': rng.choice(
            ['Q', 'T', 'QT'] if comps == 'LQT' else ['R', 'T', 'RT']),
            'azim': rng.choice([0, 25., 110]),
            'method': rng.choice(['time', 'freq'])}
        plan['unrelated'] = rng.choice([[], ['L', 'Z'], ['T']])
    elif op == 'moveout':
        o = {'op': None}
        while o['op'] != 'moveout':
            o = O.gen_op(rng, 'rf', method, spec=spec, light=True)
        plan['kw'] = {k: o[k] for k in ('phase', 'ref', 'model')}
    elif op == 'ppoints':
        o = {'op': None}
        while o['op'] != 'ppoints':
            o = O.gen_op(rng, 'rf', method, spec=spec, light=True)
        plan['kw'] = {'pp_depth': o['depth'], 'pp_phase': o['phase'],
                      'model': o['model']}
    else:
        plan['kw'] = {'phase': method, 'dist_range': rng.choice(
            ['default', [20, 100], [50, 70]])}
    return plan


def shrink(plan):
    n = len(plan['groups'])
    for i in range(n):
        if n > 1:
            p = copy.deepcopy(plan)
            del p['groups'][i], p['fates'][i]
            yield p
    yield from C.drop_from_list(plan, 'orders', 1)
    for i, f in enumerate(plan['fates']):
        if f[0] != 'ok':
            p = copy.deepcopy(plan)
            p['fates'][i] = ['ok']
            yield p
    for k in ('filter', 'trim', 'downsample', 'normalize',
              'response_components', 'method'):
        if k in plan['kw']:
            p = copy.deepcopy(plan)
            del p['kw'][k]
            yield p


def apply(plan, stream):
    import warnings
    kw = copy.deepcopy(plan['kw'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if plan['op'] == 'rf':
            return stream.rf(**kw)
        if plan['op'] == 'moveout':
            return stream.moveout(**kw)
        if plan['op'] == 'ppoints':
            pp = stream.ppoints(**kw)
            for tr, p in zip(stream, pp):
                tr.stats.returned_pp = [float(p[0]), float(p[1])]
            if len(pp) != len(stream):
                raise ArithmeticError('%d points for %d traces' % (
                    len(pp), len(stream)))
            return stream
        if plan['op'] == 'rfstats':
            from rf import rfstats
            dr = kw.pop('dist_range')
            return rfstats(stream, dist_range=dr if isinstance(dr, str) else
                           tuple(dr), **kw)


def members(plan, R):
    out = []
    uid = 0
    for g, f in zip(plan['groups'], plan['fates']):
        ts = list(g)
        if f[0] == 'lost':
            ts = [t for i, t in enumerate(ts) if i not in f[1]]
            R.fault('component_lost')
        elif f[0] == 'twice':
            ts = ts + [ts[i] for i in f[1] if i < len(ts)]
            R.fault('component_twice')
        traces = []
        for tr in O.build(ts):
            tr.stats.uid = uid
            uid += 1
            traces.append(tr)
        out.append(traces)
    return out


def execute(plan, R):
    import random
    from rf import RFStream
    O.write_models('.')
    groups = members(plan, R)
    if not any(groups):
        return
    if plan['op'] == 'harmonics':
        return harmonics(plan, groups, R)
    # each group alone
    alone = {}
    failed = []
    by_key = {}
    for i, g in enumerate(groups):
        # groups the code cannot tell apart are one group
        for tr in g:
            by_key.setdefault((tr.id[:-1], str(tr.stats.onset)), []).append(
                tr)
    done = 0
    for k, g in sorted(by_key.items()):
        s = RFStream([tr.copy() for tr in g])
        try:
            s = apply(plan, s)
        except Exception as ex:
            failed.append('%s: %s' % (k, C.exc_info(ex)))
            R.probe('group_fails_alone')
            continue
        for tr in g:
            alone[tr.stats.uid] = None
        for tr in s:
            alone[tr.stats.uid] = O.norm_stream([tr])
        done += 1
    R.state(plan['op'], str(sorted(plan['kw'].items())),
            tuple(sorted(map(len, by_key.values()))))
    alltr = [tr for g in groups for tr in g]
    for order in plan['orders']:
        idx = list(range(len(alltr)))
        random.Random(order).shuffle(idx)
        if {'normalize', 'response_components'} & set(plan['kw']) or any(
                f[0] == 'twice' for f in plan['fates']):
            # documented to refer to the order inside of the group,
            # which of several equal components is used depends on it, too
            first = {}
            for i in idx:
                k = (alltr[i].id[:-1], str(alltr[i].stats.onset))
                first.setdefault(k, []).append(i)
            first = {k: iter(sorted(v)) for k, v in first.items()}
            idx = [next(first[alltr[i].id[:-1], str(alltr[i].stats.onset)])
                   for i in idx]
        R.log('order', idx)
        R.fault('reordered')
        s = RFStream([alltr[i].copy() for i in idx])
        try:
            s = apply(plan, s)
        except Exception as ex:
            if not failed:
                R.violation('mixed-fails', 'every group can be processed '
                            'alone, but the mixed stream fails: %s' %
                            C.exc_info(ex))
            R.probe('mixed_fails')
            continue
        if done >= 2:
            R.nontrivial = True
        got = {}
        for tr in s:
            if tr.stats.uid in got:
                R.violation('twice', 'trace %s is there twice' % tr.id)
            got[tr.stats.uid] = O.norm_stream([tr])
        for uid, want in alone.items():
            have = got.get(uid)
            if (want is None) != (have is None):
                R.violation('traces', 'trace %d of %s is %s in the mixed '
                            'result' % (uid, alltr[uid].id,
                                        'missing' if have is None else
                                        'not dropped'))
            elif want is not None:
                d = O.diff(have, want, 1e-7)
                if d:
                    R.violation('differs:' + (
                        'header' if 'header' in d else 'data'),
                        'mixed stream differs from group processed alone: '
                        + d)
                R.probe('traces_compared')


def harmonics(plan, groups, R):
    import random
    import warnings
    import numpy as np
    from rf import RFStream
    kw = plan['kw']
    # a station at a time; event times are unique
    st = {}
    for g in groups:
        for tr in g:
            st.setdefault(tr.id[:-1], []).append(tr)
    for sid, trs in sorted(st.items()):
        used = [tr for tr in trs if tr.id[-1] in kw['components']]
        rest = [tr for tr in trs if tr.id[-1] in plan['unrelated'] and
                tr.id[-1] not in kw['components']]
        if not used:
            continue
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            used.sort(key=lambda tr: (tr.stats.event_time, tr.id))
            s = RFStream([tr.copy() for tr in used])
            want = [tr.data for tr in s.harmonics(**kw)]
            if len(want) != 5 * len(kw['components']):
                R.violation('harmonics:number', '%d harmonics for components '
                            '%s' % (len(want), kw['components']))
            ref = reference(used, kw)
            # (over- and underdetermined systems have one least squares
            # solution of minimal length)
            if ref is not None and len(ref) == len(want) and any(
                    np.max(np.abs(a - b)) > 1e-6 * max(1e-6, np.max(np.abs(
                        ref))) for a, b in zip(want, ref)):
                R.violation('harmonics:lsq', 'harmonics of %d events do not '
                            'fit best' % (len(used) // len(kw['components'])))
            for order in plan['orders']:
                trs2 = used + rest
                random.Random(order).shuffle(trs2)
                R.fault('reordered')
                R.log('order', [tr.stats.uid for tr in trs2])
                got = RFStream([tr.copy() for tr in trs2]).harmonics(**kw)
                R.nontrivial = True
                R.state('harmonics', str(sorted(kw.items())), len(trs2))
                if len(got) != len(want) or any(
                        np.max(np.abs(a.data - b)) > 1e-7 * max(
                            1e-6, np.max(np.abs(b)))
                        for a, b in zip(got, want)):
                    R.violation('harmonics:order', 'harmonics of %s depend on '
                                'the order of traces or on other components' %
                                sid)
                R.probe('harmonics_compared')


def reference(used, kw):
    """Time domain least squares written down independently.

    R(t) = A + B cos(b-a) + C sin(b-a) + D cos 2(b-a) + E sin 2(b-a); with
    two components the transverse one is a quarter period ahead and the
    unmodelled part has the opposite sign there.
    """
    import numpy as np
    comps = kw['components']
    if len(comps) != 1:
        return None
    b = np.radians(np.array([tr.stats.back_azimuth for tr in used])
                   - kw['azim'])
    G = np.array([np.ones(len(b)), np.cos(b), np.sin(b), np.cos(2 * b),
                  np.sin(2 * b)]).T
    d = np.array([tr.data for tr in used])
    if np.linalg.matrix_rank(G) < 5:
        return None
    return np.linalg.lstsq(G, d, rcond=None)[0]
