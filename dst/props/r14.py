"""R14: overlapping batch jobs on disjoint work do not interfere."""
import copy
import os

from dst import batchlib as B
from dst import common as C
from dst import net as N
from dst import streams as S

NEEDS = ('taup', 'profile')
RUNS = {'quick': 300, 'thorough': 25000}
RULE = ('one run: two to four batch jobs (data, data with calc, calc, '
        'moveout, convert, stack) on different events or stations share one '
        'output directory, which may not exist yet; every job is a process '
        'and the scheduler decides at every request, file operation and '
        'source line of rf.batch which one continues; a job may be killed '
        'and run again; compared to each job alone in a directory of its '
        'own; non-trivial: jobs took turns; distinct by event log')
STATE_MEASURE = 'distinct (commands, format, order of turns) combinations'
REAL = C.REAL_ALL + ['jobs are real processes, one of them runs at a time']
STUBS = C.STUB_NET + C.STUB_TAUP + C.STUB_PBAR + C.STUB_DISK + [
    'process scheduler']
ASSUMPTIONS = ['events lie further apart than the one second resolution of '
               'record names',
               'jobs write different records (different events or stations)']


def gen(rng, tier):
    n = rng.choice([2, 2, 2, 3, 4])
    kind = rng.choice(['data', 'data', 'calc', 'mixed', 'mixed', 'stack',
                       'convert'])
    by = 'station' if kind == 'stack' else rng.choice(['event', 'station'])
    spec = B.gen_small_world(
        rng, nev=(n, n + 1) if by == 'event' else (1, 2),
        nst=(n, n + 1) if by == 'station' else (1, 2), far=.05,
        align=True if kind == 'stack' else None, hours=(2, 100))
    m = len(spec['events' if by == 'event' else 'stations'])
    share = [[i] for i in range(n)]
    for i in range(n, m):
        share[rng.randrange(n)].append(i)
    fmt = rng.choice(['SAC', 'Q'])
    answers = {}
    rate = rng.choice([0, 0, .4])
    for i in range(len(spec['events'])):
        for j in range(len(spec['stations'])):
            answers['%d,%d' % (i, j)] = N.gen_answer(
                rng, rate, .2, spec['pad'],
                ['exc', 'none', 'empty', 'drop', 'gap'])
    jobs = []
    for s in share:
        cmd = {'data': ['data'], 'calc': ['calc'], 'stack': ['stack'],
               'convert': ['convert'],
               'mixed': rng.choice([['data'], ['data', 'calc'],
                                    ['data', 'calc', 'moveout'], ['calc'],
                                    ['moveout'], ['calc', 'moveout']])}[kind]
        jobs.append({'cmd': cmd, 'share': s})
    kills = []
    if rng.random() < .3:
        kills.append([rng.randrange(n), round(rng.random(), 3),
                      rng.choice(['any', 'fs', 'fs'])])
    return {'world': spec, 'by': by, 'jobs': jobs, 'fmt': fmt,
            'answers': answers, 'kills': kills,
            'infmt': rng.choice(['SAC', 'Q', 'H5']) if kind == 'convert'
            else fmt,
            # records are read from and written to the same directory
            'inplace': kind in ('calc', 'mixed') and rng.random() < .3,
            'exists': rng.random() < .2,
            'deep': rng.random() < .4,
            'rf': B.gen_rfopts(rng, spec, simple=True),
            'moveout': B.gen_moutopts(rng, spec),
            'boxes': B.gen_boxes(rng, spec),
            'sched': {'seed': rng.randrange(10 ** 9),
                      'p': rng.choice([.5, .3, .1, .03])}}


def concretise(plan, res):
    taken = res.get('notes', {}).get('taken')
    if taken is None:
        return None
    plan['sched'] = {'turns': taken}
    return plan


def shrink(plan):
    turns = plan['sched'].get('turns')
    if plan['kills']:
        p = copy.deepcopy(plan)
        p['kills'] = []
        yield p
    if turns is not None:
        n = len(turns)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                p = copy.deepcopy(plan)
                p['sched']['turns'] = turns[:a] + turns[a + size:]
                yield p
            size //= 2
        for i in range(n - 1):
            if turns[i][0] == turns[i + 1][0]:
                p = copy.deepcopy(plan)
                t = p['sched']['turns']
                t[i][1] += t.pop(i + 1)[1]
                yield p
    yield from C.shrink_answers(plan)
    for k in ('inplace', 'deep', 'exists'):
        if plan[k]:
            p = copy.deepcopy(plan)
            p[k] = False
            yield p


def sub_world(w, plan, job):
    """Catalogue and inventory of a job."""
    cat, inv = w.catalog(), w.inventory()
    if plan['by'] == 'event':
        cat.events = [cat.events[i] for i in job['share']]
    else:
        keep = [w.stations[i] for i in job['share']]
        for net in inv:
            for sta in net:
                sta.channels = [
                    ch for ch in sta.channels if any(
                        (s['net'], s['sta'], s['loc'], s['band']) ==
                        (net.code, sta.code, ch.location_code, ch.code[:2])
                        for s in keep)]
            net.stations = [sta for sta in net if len(sta.channels)]
        inv.networks = [net for net in inv if len(net.stations)]
    return cat, inv


def execute(plan, R):
    from dst.fs import SimFS
    from dst.procs import Jobs
    from dst.world import World, TaupStub
    from rf import read_rf
    import warnings
    w = World(plan['world'])
    fmt = plan['fmt']
    n = len(plan['jobs'])
    for i, job in enumerate(plan['jobs']):
        cat, inv = sub_world(w, plan, job)
        cat.write('events%d.xml' % i, 'QUAKEML')
        inv.write('stations%d.xml' % i, 'STATIONXML')
    root = os.getcwd()
    src = 'd'
    out = src if plan['inplace'] else 'x/y/o' if plan['deep'] else 'o'

    def prepare(R2, on_kill):
        """Input of the jobs which do not start with retrieval."""
        TaupStub(R2, w).install()
        dc = N.DataCentre(w, R2, plan['answers'])
        sess = B.Session(plan, w, dc, R2)
        recs = B.library_records(sess)
        for p in list(recs):
            who = [job for job in plan['jobs']
                   if p[plan['by'] == 'station'] in job['share']]
            cmd = who[0]['cmd'][0] if who else 'data'
            if cmd == 'data':
                recs.pop(p)
            elif cmd in ('moveout', 'stack'):
                recs[p].rf(**sess.rfopts)
        B.store(recs, 'd', plan['infmt'])
        return len(recs)

    def job_func(i):
        job = plan['jobs'][i]

        def func(R2, side):
            warnings.simplefilter('ignore')
            side.quiet = 1
            stub = TaupStub(R2, w).install()
            dc = N.DataCentre(w, R2, plan['answers'])
            sess = B.Session.__new__(B.Session)
            sess.plan, sess.w, sess.dc, sess.R = plan, w, dc, R2
            sess.opts = C.options(plan['world'])
            sess.rfopts, sess.mout = plan['rf'], plan['moveout']
            sess.boxes, sess.profile = plan['boxes'], {}
            sess.pbar_factory = None
            sess.ev = os.path.join(root, 'events%d.xml' % i)
            sess.inv = os.path.join(root, 'stations%d.xml' % i)
            dc.before = lambda *a: side.point('request')
            stub.on_call = lambda *a: side.point('raytracer')
            args = list(job['cmd'])
            if args[0] != 'data':
                args.append(src)
            args.append(out)
            f = plan['infmt']
            if args[0] == 'convert':
                args.append(fmt)
            fs = SimFS(R2, os.getcwd(), yielder=side.point)
            side.quiet = 0
            with fs:
                sess.run(args, f)
            side.quiet = 1
            return None
        return func

    res = C.fork_call(R, prepare)
    if res[0] != 'ok':
        R.probe('inputs_failed')
        R.log(res)
        return

    def place(name):
        """A fresh directory with the inputs."""
        os.makedirs(name)
        if plan['infmt'] == 'H5':
            for f in ('d.h5',):
                if os.path.exists(os.path.join(root, f)):
                    os.symlink(os.path.join(root, f), os.path.join(name, f))
        elif os.path.isdir(os.path.join(root, 'd')):
            import shutil
            shutil.copytree(os.path.join(root, 'd'), os.path.join(name, 'd'))
        os.chdir(name)
        if plan['exists'] and not os.path.isdir(out):
            os.makedirs(out)

    def look():
        files = [f for f in C.all_files('.') if f.startswith(out + '/')]
        recs = {}
        for f in C.data_files(out, fmt):
            try:
                recs[f] = [S.freeze_trace(tr) for tr in read_rf(f, fmt)]
            except Exception as ex:
                recs[f] = [('unreadable', C.exc_info(ex))]
        return files, recs

    # each job alone
    first = None
    want, points = {}, []
    wantfiles = set()
    for i in range(n):
        R.log('=== job', i, 'alone')
        os.chdir(root)
        place('alone%d' % i)
        if first is None:
            first = look()
        how, val, k = Jobs(R, {'turns': []}).run([job_func(i)])[0]
        if how != 'ok':
            R.probe('fails_alone')
            R.log(how, val)
            return
        points.append(k)
        files, recs = look()
        base = first[1]
        for f in files:
            if f not in first[0]:
                wantfiles.add(f)
        for f in recs:
            if f not in base or S.diff_frozen(
                    sorted(recs[f], key=repr), sorted(base[f], key=repr)):
                if f in want:
                    raise RuntimeError('jobs are not disjoint: %s' % f)
                want[f] = recs[f], i
    wantfiles |= set(first[0])
    os.chdir(root)
    place('work')
    R.log('=== jobs together')
    die = {i: (what, 1 + int(p * points[i][what == 'fs']))
           for i, p, what in plan['kills']}
    jobs = Jobs(R, plan['sched'])
    res = jobs.run([job_func(i) for i in range(n)], die)
    R.notes['taken'] = jobs.taken
    if len({t[0] for t in jobs.taken}) > 1 and len(jobs.taken) > n:
        R.nontrivial = True
    R.state(tuple(tuple(j['cmd']) for j in plan['jobs']), fmt,
            tuple(t[0] for t in jobs.taken[:100]))
    killed = set()
    for i, (how, val, k) in enumerate(res):
        cmd = ' '.join(plan['jobs'][i]['cmd'])
        if how == 'exit':
            R.violation('fails', 'job %d (%s, %s) fails because of the other '
                        'jobs: %s' % (i, cmd, fmt, val))
        elif how == 'stuck':
            R.violation('stuck', 'jobs wait for each other')
        elif how == 'killed':
            killed.add(i)
            R.probe('job_killed')
    if R.violations:
        return
    files, recs = look()
    compare(R, recs, first[1], want, killed, 'together')
    if not killed and set(files) != wantfiles:
        R.violation('files', 'files missing: %s, left over: %s' % (
            sorted(wantfiles - set(files))[:4],
            sorted(set(files) - wantfiles)[:4]))
    # (in place the input may be replaced already)
    if killed and not plan['inplace']:
        for i in sorted(killed):
            R.log('=== job', i, 'again')
            how, val, k = Jobs(R, {'turns': []}).run([job_func(i)])[0]
            if how != 'ok':
                R.violation('again', 'job %d fails when it is run again: %s'
                            % (i, val))
                return
        files, recs = look()
        compare(R, recs, first[1], want, (), 'after the killed job was run '
                'again')
        if set(files) != wantfiles:
            R.violation('files', 'files missing: %s, left over: %s' % (
                sorted(wantfiles - set(files))[:4],
                sorted(set(files) - wantfiles)[:4]))


def compare(R, recs, base, want, killed, label):
    for f in sorted(set(want) | set(recs) | set(base)):
        w, i = want.get(f, (base.get(f), None))
        if i in killed:
            continue
        got = recs.get(f)
        if w is None:
            R.violation('invented', 'record %s does not belong to any job '
                        '(%s)' % (f, label)) if not killed else None
            continue
        if got is None:
            R.violation('missing', 'record %s of job %s is missing (%s)' % (
                f, i, label))
            continue
        if got[0][0] == 'unreadable':
            d = '%s: %s' % got[0]
        else:
            d = S.diff_frozen(sorted(got, key=repr), sorted(w, key=repr))
        if d:
            R.violation('altered', 'record %s of job %s: %s (%s)' % (
                f, i, d, label))
        R.probe('records_compared', len(w))
