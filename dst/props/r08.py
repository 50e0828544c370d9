"""R08: batch commands equal the library calls, once per record."""
import copy
import os

from dst import batchlib as B
from dst import common as C
from dst import net as N
from dst.props import r07

NEEDS = ('taup', 'profile')
RUNS = {'quick': 380, 'thorough': 20000}
RULE = ('one run: a chain of batch commands (data, calc, moveout, convert, '
        'stack, profile, plot, plot-profile) with seeded staging, formats per stage and option '
        'sources on a world with retrieval faults; every stage is compared '
        'to the library calls on its input, record by record and name by '
        'name; non-trivial: at least two commands and one record; distinct '
        'by event log')
STATE_MEASURE = ('distinct (staging, formats, option sources, access mode) '
                 'combinations')
REAL = C.REAL_ALL + ['cartopy', 'shapely', 'argparse', 'json']
STUBS = C.STUB_NET + C.STUB_TAUP + C.STUB_PBAR + [
    'drawing of plots (records what would be drawn into which file)']
ASSUMPTIONS = ['events lie further apart than the one second resolution of '
               'record names']


def gen(rng, tier):
    final = rng.choice([None, None, 'stack', 'profile'])
    spec = B.gen_small_world(rng, nev=(1, 3), nst=(1, 3), far=.1,
                             align=True if final else None, hours=(2, 300),
                             epochs=rng.random() < .3)
    answers = {}
    rate = rng.choice([0, 0, .2, .5])
    for i in range(len(spec['events'])):
        for j in range(len(spec['stations'])):
            answers['%d,%d' % (i, j)] = N.gen_answer(
                rng, rate, .5, spec['pad'],
                ['exc', 'none', 'empty', 'drop', 'short'])
    fmt = rng.choice(['SAC', 'Q', 'H5'])
    bands = False
    if rng.random() < .2:
        # a further band at some stations
        n = len(spec['stations'])
        for s in list(spec['stations']):
            if len(spec['stations']) < n + 2 and rng.random() < .6:
                s2 = copy.deepcopy(s)
                s2['band'] = 'EH' if s['band'] != 'EH' else 'LH'
                if 'uid' in s2:
                    s2['uid'] = len(spec['stations'])
                spec['stations'].append(s2)
                bands = True
    fmts = ['SAC', 'Q', 'H5'] if not bands else ['SAC', 'H5']
    if fmt not in fmts:
        fmt = 'SAC'
    stages = []
    rest = ['calc', 'moveout'][:rng.choice([0, 1, 2, 2, 2])]
    if final and not rest:
        rest = ['calc']
    n = rng.randint(0, len(rest))
    stages.append({'cmd': ['data'] + rest[:n], 'fmt': fmt})
    rest = rest[n:]
    while rest or rng.random() < .15:
        if rng.random() < .4:
            new = rng.choice([f for f in fmts if f != fmt])
            stages.append({'cmd': ['convert'], 'fmt': fmt, 'new': new})
            fmt = new
        if rest:
            n = rng.randint(1, len(rest))
            stages.append({'cmd': rest[:n], 'fmt': fmt})
            rest = rest[n:]
        elif len(stages) > 5:
            break
    if final:
        stages.append({'cmd': [final], 'fmt': fmt})
        if rng.random() < .3:
            stages.append({'cmd': ['stack' if final == 'profile' else
                                   'profile'], 'fmt': fmt, 'again': True})
    if len(stages) > 1 and rng.random() < .35:
        stages.append({'cmd': ['plot'], 'fmt': fmt, 'again': True})
    if any(s['cmd'] == ['profile'] for s in stages) and rng.random() < .5:
        stages.append({'cmd': ['plot-profile'], 'fmt': fmt, 'again': True})
    for s in stages:
        s['how'] = rng.choice(['flags', 'conf', 'mixed', 'call', 'call'])
        s['phaseflag'] = rng.random() < .35
        s['redo'] = rng.random() < .3 and s['cmd'][0] in (
            'calc', 'moveout', 'convert', 'stack', 'profile')
        s['callconf'] = rng.random() < .3
        s['given'] = [rng.choice(['name', 'pair', 'object', 'object']),
                      rng.choice(['name', 'pair', 'object', 'object'])]
    plan = {'world': spec, 'answers': answers, 'stages': stages,
            'bands': bands,
            'rf': B.gen_rfopts(rng, spec),
            'moveout': B.gen_moutopts(rng, spec),
            'boxes': B.gen_boxes(rng, spec),
            'plot': rng.choice([{}, {'trim': [-5, 20], 'fig_width': 5}]),
            'plot_profile': rng.choice([{}, {'top': 'hist', 'scale': 2}])}
    if any(s['phaseflag'] and 'moveout' in s['cmd'] for s in stages):
        # the short option stands next to other options
        if 'phase' not in plan['moveout']:
            plan['moveout']['phase'] = 'Ps' if spec['phase'] != 'S' else 'Sp'
        if rng.random() < .7:
            plan['moveout']['ref'] = 7.5 if spec['phase'] != 'S' else 11.
    return plan


def fixed():
    """Known findings: names of Q records lack the band, names of records lack
    fractions of the second of the event time."""
    import random
    two = B.gen_small_world(random.Random(9), nev=(1, 1), nst=(1, 1), far=0,
                            hours=(2, 300))
    e = two['events'][0]
    e['us'] = 100000
    two['events'].append(dict(copy.deepcopy(e), us=700000))
    if 'uid' in e:
        two['events'][1]['uid'] = e['uid'] + 1
    same = [{'world': two, 'answers': {}, 'bands': False, 'samesec': True,
             'stages': [{'cmd': ['data'], 'fmt': fmt, 'how': 'flags',
                         'phaseflag': False}],
             'rf': {}, 'moveout': {}, 'boxes': B.gen_boxes(random.Random(1), two)}
            for fmt in ('Q', 'SAC')]
    rng = random.Random(8)
    spec = B.gen_small_world(rng, nev=(1, 1), nst=(1, 1), far=0, hours=(2, 300))
    s = spec['stations'][0]
    s['band'] = 'BH'
    spec['stations'].append(dict(copy.deepcopy(s), band='LH'))
    if 'uid' in s:
        spec['stations'][1]['uid'] = 1
    return same + [{'world': spec, 'answers': {}, 'bands': True,
             'stages': [{'cmd': ['data'], 'fmt': 'Q', 'how': 'flags',
                         'phaseflag': False}],
             'rf': {}, 'moveout': {}, 'boxes': B.gen_boxes(rng, spec)}]


def shrink(plan):
    n = len(plan['stages'])
    if n > 1:
        p = copy.deepcopy(plan)
        p['stages'].pop()
        yield p
    yield from C.shrink_world(plan)
    yield from C.shrink_answers(plan)
    for i, s in enumerate(plan['stages']):
        if s['how'] != 'flags':
            p = copy.deepcopy(plan)
            p['stages'][i]['how'] = 'flags'
            yield p
        if s['phaseflag']:
            p = copy.deepcopy(plan)
            p['stages'][i]['phaseflag'] = False
            yield p
    for k in ('rf', 'moveout'):
        for o in plan[k]:
            if o not in ('deconvolve', 'winsrc', 'gauss', 'itmax'):
                p = copy.deepcopy(plan)
                del p[k][o]
                yield p


def other_inputs(inputs, fmt, n):
    import numpy as np
    recs = {}
    for k in inputs:
        recs[k] = s = inputs[k].copy()
        for tr in s:
            tr.data = np.roll(tr.data, 3) * 1.5 + tr.data.std() * .01
    B.store(recs, 'alt%d' % n, fmt)
    return 'alt%d' % n


def groups_of(traces):
    """Records: traces of one station, band and event."""
    from rf import RFStream
    out = {}
    for tr in traces:
        k = B.rec_key(tr)
        out.setdefault((k[0][:-1], k[1]), []).append(tr)
    return {k: RFStream(v) for k, v in out.items()}


def exact_times(groups, times):
    """Event times as in the catalogue, formats round them."""
    for s in groups.values():
        for tr in s:
            et = tr.stats.get('event_time')
            for t in times:
                if et is not None and abs(t - et) < .01:
                    tr.stats.event_time = t


def apply(sess, cmds, stream):
    for c in cmds:
        if c == 'calc':
            stream.rf(**copy.deepcopy(sess.rfopts))
        elif c == 'moveout':
            stream.moveout(**copy.deepcopy(sess.mout))
    return stream


def expected_names(traces, root, fmt, kind):
    out = set()
    for tr in traces:
        st = tr.stats
        nsl = '%s.%s.%s' % (st.network, st.station, st.location)
        if fmt == 'H5':
            out.add(root + '.h5')
        elif kind == 'stack':
            if fmt == 'Q':
                out |= {'%s/%s.QHD' % (root, nsl), '%s/%s.QBN' % (root, nsl)}
            else:
                out.add('%s/%s.%s.SAC' % (root, nsl, st.channel))
        elif kind == 'profile':
            if fmt == 'Q':
                out |= {root + '.QHD', root + '.QBN'}
            else:
                out.add('%s/profile_%s_%s.SAC' % (root, st.channel[2],
                                                  st.box_pos))
        else:
            out |= set(r07.files_of([tr], fmt, root))
    return out


def execute(plan, R):
    import numpy as np
    from dst.world import World, SimPbar, TaupStub
    from rf import RFStream, get_profile_boxes
    from rf.profile import profile
    w = World(plan['world'])
    stub = TaupStub(R, w).install()
    dc = N.DataCentre(w, R, plan['answers'])
    sess = B.Session(plan, w, dc, R)
    sess.pbar_factory = lambda *a, **k: SimPbar(R)
    recs = B.library_records(sess)
    first = groups_of([tr for p in sorted(recs) for tr in recs[p]])
    times = [tr.stats.event_time for s in first.values() for tr in s]
    sig = []
    prev = None
    for n, st in enumerate(plan['stages']):
        cmd, fmt = st['cmd'], st['fmt']
        kind = cmd[0]
        out = 'o%d' % n
        outfmt = st.get('new', fmt)
        src = prev
        args = list(cmd)
        if kind != 'data':
            args.append(src)
        args.append(out)
        if kind == 'convert':
            args.append(st['new'])
        if kind == 'plot-profile':
            profs = ['o%d' % m for m, s in enumerate(plan['stages'][:n])
                     if s['cmd'] == ['profile']]
            if not profs:
                continue
            src = args[1] = profs[-1]
        R.log('=== stage', args, fmt, st['how'])
        sig.append((tuple(cmd), fmt, st.get('new'), st['how']))
        dc.calls = 0
        phase_flags(sess, st, plan)
        error = None
        inputs = None
        if kind in ('plot', 'plot-profile'):
            phase_flags(sess, st, plan)
            if not plot_stage(plan, sess, st, R, args, src, out, fmt, kind):
                break
            continue
        # the library side
        if kind == 'data':
            inputs = {k: s.copy() for k, s in first.items()}
        else:
            inputs = groups_of([tr for _, tr in C.read_all(src, fmt)])
            exact_times(inputs, times)
        expect, failing = [], []
        if kind in ('stack', 'profile'):
            expect = None
        else:
            for k in sorted(inputs, key=str):
                try:
                    expect += apply(sess, cmd, inputs[k].copy()).traces
                except Exception as ex:
                    failing.append(C.exc_info(ex))
        if st.get('redo') and not failing and inputs:
            # results of other data of the same records are there already
            args2 = list(args)
            args2[args2.index(src)] = other_inputs(inputs, fmt, n)
            try:
                run_stage(sess, args2, fmt, st, R)
                R.probe('done_before_with_other_data')
            except Exception as ex:
                R.log('first time', type(ex).__name__)
        try:
            run_stage(sess, args, fmt, st, R)
        except Exception as ex:
            error = C.exc_info(ex)
            R.log('error', type(ex).__name__)
        if error is not None:
            uneven = kind in ('stack', 'profile') and len(
                {tr.stats.npts for s in inputs.values() for tr in s}) > 1
            if failing or uneven:
                R.probe('command_fails_as_library')
            else:
                R.violation('fails:' + kind, '%s (%s) fails: %s' % (
                    ' '.join(args), fmt, error))
            break
        if failing:
            # command survived although library call raises
            R.violation('no-error:' + kind, '%s went through although the '
                        'library call fails: %s' % (' '.join(args),
                                                    failing[0]))
            break
        found = [tr for _, tr in C.read_all(out, outfmt)]
        label = kind + ':' + outfmt
        if kind == 'stack':
            expect = stack_of(inputs)
            if expect is None:
                R.probe('uneven')
                break
            B.compare_sets(R, found, expect, label, headers=[
                'station_latitude', 'station_longitude', 'station_elevation',
                'phase', 'onset'] + (['moveout'] if fmt != 'none' else []))
        elif kind == 'profile':
            b = plan['boxes']
            boxes = get_profile_boxes(bins=np.linspace(*b['boxbins']),
                                      **b['boxes'])
            use = [tr for k in sorted(inputs, key=str) for tr in inputs[k]]
            expect = profile(iter(use), boxes).traces if use else []
            B.compare_sets(R, found, expect, label, dtol=5e-6, headers=[
                h for h in B.HEADERS if h != 'slowness'])
            if outfmt == 'H5':
                num = {B.rec_key(tr): tr.stats.num for tr in expect}
                for tr in found:
                    if num.get(B.rec_key(tr)) != tr.stats.num:
                        R.violation('num', 'box %s holds %s traces instead '
                                    'of %s' % (B.rec_key(tr), tr.stats.num,
                                               num.get(B.rec_key(tr))))
        else:
            if plan.get('samesec'):
                if len(found) < len(expect):
                    # the ids which are there less often than they should be
                    R.violation('samesec:' + fmt, '%d of %d traces of two '
                                'events in the same second are there' % (
                                    len(found), len(expect)),
                                key='%s: %s of %s' % (
                                    cmd, len(found), len(expect)))
                return
            if plan['bands'] and fmt == 'Q':
                n1 = {B.rec_key(tr)[0] for tr in found}
                n2 = {B.rec_key(tr)[0] for tr in expect}
                if n1 != n2:
                    lost = sorted(n2 - n1)
                    R.violation('bands:Q', 'records of another band of the '
                                'station are lost: %s' % lost, key='%s: %s' % (
                                    cmd, lost))
                return
            B.compare_sets(R, found, expect, label)
        names = {f for f in C.all_files('.')
                 if f.split('/')[0] == out or f.startswith(out + '.')}
        want = expected_names(expect, out, outfmt, kind)
        if names != want and kind != 'profile':
            R.violation('names:' + label, 'files missing: %s, unexpected: %s'
                        % (sorted(want - names)[:4],
                           sorted(names - want)[:4]))
        R.probe('records_compared', len(expect))
        R.probe('stage_' + kind)
        if len(expect) and n:
            R.nontrivial = True
        if not st.get('again') and kind not in ('stack', 'profile'):
            prev = out
            last = expect
            same_set(plan, sess, cmd, first, found, R)
    R.state(*sig)
    stub.restore()


def plot_stage(plan, sess, st, R, args, src, out, fmt, kind):
    """One plot per station and component (profile: component)."""
    import rf.imaging
    drawn = []

    def draw(name):
        def func(stream, fname=None, **kw):
            drawn.append((name, fname, stream.copy(), kw))
            with open(fname, 'wb') as f:
                f.write(b'plot')
        return func
    old = rf.imaging.plot_rf, rf.imaging.plot_profile
    rf.imaging.plot_rf = draw('plot')
    rf.imaging.plot_profile = draw('plot-profile')
    try:
        inputs = [tr for _, tr in C.read_all(src, fmt)] \
            if kind == 'plot' else read_profile(src, fmt)
        if not inputs:
            R.probe('nothing_to_plot')
            return False
        try:
            run_stage(sess, args, fmt, st, R)
        except Exception as ex:
            R.violation('fails:' + kind, '%s (%s) fails: %s' % (
                ' '.join(args), fmt, C.exc_info(ex)))
            return False
    finally:
        rf.imaging.plot_rf, rf.imaging.plot_profile = old
    want = {}
    for tr in inputs:
        if kind == 'plot':
            name = '%s/%s.pdf' % (out, tr.id)
        else:
            name = '%s/profile_%s.pdf' % (out, tr.stats.channel[2])
        want.setdefault(name, []).append(tr)
    names = {f for f in C.all_files('.')
             if f.split('/')[0] == out or f.startswith(out + '.')}
    if names != set(want):
        R.violation('names:' + kind, 'plots missing: %s, unexpected: %s' % (
            sorted(set(want) - names)[:4], sorted(names - set(want))[:4]))
    got = sorted(f for _, f, _, _ in drawn)
    if got != sorted(want):
        R.violation('plots:' + kind, 'plots drawn: %s instead of %s' % (
            got, sorted(want)))
        return False
    for name, fname, stream, kw in drawn:
        if name != kind or kw != plan[kind.replace('-', '_')]:
            R.violation('options:' + kind, '%s is drawn with %s' % (fname, kw))
        B.compare_sets(R, stream.traces, want[fname], kind, headers=[
            h for h in B.HEADERS if h != 'event_time'])
        if kind == 'plot':
            baz = [tr.stats.back_azimuth for tr in stream]
            if baz != sorted(baz):
                R.violation('order:plot', 'traces in %s are not in order of '
                            'back azimuth: %s' % (fname, baz))
    R.probe('plots_compared', len(drawn))
    return True


def read_profile(src, fmt):
    import glob
    from rf import read_rf
    fs = {'SAC': glob.glob(src + '/*.SAC'), 'Q': glob.glob(src + '.QHD'),
          'H5': glob.glob(src + '.h5')}[fmt]
    return [tr for f in sorted(fs) for tr in read_rf(f)]


def same_set(plan, sess, cmd, first, found, R):
    """The records are those retrieved, whatever the staging."""
    if 'calc' in cmd or 'moveout' in cmd:
        return
    a = {(k[0], k[1]) for k in first}
    b = {(B.rec_key(tr)[0][:-1], B.rec_key(tr)[1]) for tr in found}
    if a != b:
        R.violation('records', 'records %s instead of %s' % (
            sorted(b - a), sorted(a - b)))


def stack_of(inputs):
    """Mean of the traces with one id, written down independently."""
    import numpy as np
    per = {}
    for k in sorted(inputs, key=str):
        for tr in inputs[k]:
            per.setdefault(tr.id, []).append(tr)
    out = []
    for i in sorted(per):
        trs = per[i]
        if len({len(t.data) for t in trs}) > 1:
            return None
        t = trs[0].copy()
        t.data = np.mean([x.data for x in trs], axis=0)
        on = t.stats.onset - t.stats.starttime
        t.stats.starttime = type(t.stats.starttime)(0)
        t.stats.onset = t.stats.starttime + on
        for h in ('event_time',):
            t.stats.pop(h, None)
        out.append(t)
    return out


def phase_flags(sess, st, plan):
    sess.extra = {}
    if st['phaseflag']:
        sess.extra['phase'] = plan['world']['phase']
        if plan['moveout'].get('phase'):
            sess.extra['moveout_phase'] = plan['moveout']['phase']


def call_stage(sess, args, fmt, st, R):
    """The commands called from Python, with one set of options for all."""
    from rf.batch import run, run_commands
    if not hasattr(sess, 'shared'):
        sess.shared = {'conf': sess.conf('Q'), 'catalog': sess.w.catalog(),
                       'inventory': sess.w.inventory()}
        for k in ('data', 'client_options', 'format', 'events', 'inventory'):
            del sess.shared['conf'][k]
    conf = sess.shared['conf']
    before = looks(sess.shared)
    kw = dict(conf, format=fmt, path_out=args[-1])
    rest = list(args[1:-1])
    if args[0] == 'convert':
        kw.update(path_out=args[-2], newformat=args[-1])
        rest = rest[:-1]
    if args[0] == 'data':
        kw['get_waveforms'] = sess.dc.get_waveforms
    else:
        kw['path_in'] = rest.pop()
    given = st.get('given', ['name', 'name'])
    if args[0] not in ('stack', 'plot'):
        # (both do not need events)
        kw['events'] = {'name': sess.ev, 'pair': [sess.ev, 'QUAKEML'],
                        'object': sess.shared['catalog']}[given[0]]
    kw['inventory'] = {'name': sess.inv, 'pair': [sess.inv, 'STATIONXML'],
                       'object': sess.shared['inventory']}[given[1]]
    R.probe('called_with_' + given[0])
    with C.patched_client(sess.dc), C.patched_tqdm(sess.pbar_factory):
        if st.get('callconf'):
            # options from a file, those of the call win
            import json
            with open('conf.json', 'w') as f:
                f.write(json.dumps({k: B.contradict(k, v)
                                    for k, v in sorted(kw.items())
                                    if k in B.CONTRADICT}))
            R.probe('call_overrides_file')
            run(args[0], conf='conf.json', commands=tuple(rest),
                **dict(kw, **sess.extra))
        else:
            run_commands(args[0], commands=tuple(rest),
                         **dict(kw, **sess.extra))
    after = looks(sess.shared)
    for k in before:
        if after[k] != before[k]:
            R.violation('changed:' + k, '%s changed the %s of its caller: %s' %
                        (args[0], k, after[k] if k == 'options' else ''))


def looks(shared):
    from dst.props.r16 import repr_cat, repr_inv
    return {'options': repr(shared['conf']),
            'catalog': repr_cat(shared['catalog']),
            'inventory': repr_inv(shared['inventory'])}


def run_stage(sess, args, fmt, st, R):
    if st['how'] == 'call':
        return call_stage(sess, args, fmt, st, R)
    if not sess.extra:
        return sess.run(args, fmt, st['how'])
    # the short options override the values inside of the dictionaries
    conf = sess.conf(fmt)
    conf['options'] = dict(conf['options'], phase='S')
    if 'moveout_phase' in sess.extra:
        conf['moveout'] = dict(conf['moveout'], phase='PPPP')
    with C.patched_client(sess.dc), C.patched_tqdm(sess.pbar_factory):
        if st['how'] == 'flags':
            return C.cli(args, conf='null', **dict(conf, **sess.extra))
        import json
        with open('conf.json', 'w') as f:
            f.write(json.dumps(conf))
        return C.cli(args, conf='conf.json', **sess.extra)
