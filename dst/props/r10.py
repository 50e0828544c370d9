"""R10: threads working on separate streams get the sequential results."""
import copy
import os

from dst import common as C
from dst import ops as O
from dst import streams as S

NEEDS = ('profile', 'taup', 'threads')
RUNS = {'quick': 480, 'thorough': 30000}
RULE = ('one run: two to four simulated threads, each with its own stream and '
        'directory, run sequences of operations (receiver functions, moveout, '
        'piercing points, delay times, stack, profile, harmonics, cuts, save '
        'and load in all formats); the scheduler decides before every source '
        'line of rf and obspyh5 which thread continues; every result is '
        'compared to the same sequence in a process of its own; non-trivial: '
        'at least two threads and one switch; distinct by event log')
STATE_MEASURE = ('distinct (operations of the threads, sequence of threads '
                 'given control) combinations')
REAL = C.REAL_ALL + ['cartopy', 'shapely', 'threading (threads are real, one '
                     'of them runs at a time)']
STUBS = ['thread scheduler and locks of the code under test']
ASSUMPTIONS = ['threads switch between source lines of rf and obspyh5; calls '
               'into numpy, scipy, ObsPy and h5py are atomic',
               'files read by an operation (velocity models) do not change']


def gen(rng, tier):
    clients = []
    n = rng.choice([2, 2, 2, 3, 4])
    # similar operations meet each other in shared code
    theme = rng.choice([None, 'save', 'save', 'moveout', 'model', 'model',
                        'rf', 'profile', 'example'] + [None] * 3)
    if theme == 'example' and rng.random() < .7:
        theme = None
    if theme == 'model':
        n = rng.choice([2, 3, 4])
    for c in range(n):
        kind = rng.choice(['raw', 'rf', 'rf'])
        method = rng.choice(['P', 'P', 'P', 'S'])
        if theme in ('rf', 'profile'):
            kind = 'raw' if theme == 'rf' else 'rf'
        spec = O.gen_rfspec(rng, kind=kind, method=method,
                            nev=(1, 2), nst=(1, 2), npts=(100, 160))
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3] if theme != 'model' else
                                  [2, 3, 4, 6])):
            ops.append(gen_themed(rng, theme, kind, method, spec))
        clients.append({'kind': kind, 'method': method, 'stream': spec,
                        'ops': ops})
    if rng.random() < (.5 if theme == 'rf' else .15):
        # the same calls for data of the same shape
        for i in range(1, n):
            c = clients[i] = copy.deepcopy(clients[0])
            c['stream'] = O.twin(rng, c['stream'], rng.random() < .3)
    if theme == 'save' and rng.random() < .5:
        for c in clients:
            for op in c['ops']:
                if op['op'] == 'save':
                    op['fmt'] = 'H5'
    sched = {'seed': rng.randrange(10 ** 9),
             'p': rng.choice([.5, .2, .05, .02, .005]),
             'first': rng.randrange(n)}
    if rng.random() < .5:
        sched.update(mode='rare', p=rng.choice([.5, .3, .1]))
    return {'clients': clients, 'sched': sched}


def gen_themed(rng, theme, kind, method, spec):
    for _ in range(40):
        op = O.gen_op(rng, kind, method, spec=spec)
        o = op['op']
        if theme is None or rng.random() < .15 and o != 'profile':
            return op
        if theme == 'model' and o in ('moveout', 'ppoints', 'delay'):
            op['model'] = rng.choice(['fast.dat', 'sub/fast.dat',
                                      'crust.dat', 'iasp91'])
            return op
        if theme == 'example':
            return {'op': 'example', 'method': rng.choice('PPS')}
        if o == theme:
            return op
    return op


def concretise(plan, res):
    """Explicit list of switches instead of a seed."""
    taken = res.get('notes', {}).get('taken')
    if taken is None:
        return None
    plan['sched'] = {'switch': taken, 'first': plan['sched'].get('first', 0)}
    return plan


def shrink(plan):
    sw = plan['sched'].get('switch')
    if sw is not None:
        n = len(sw)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                p = copy.deepcopy(plan)
                p['sched']['switch'] = sw[:a] + sw[a + size:]
                yield p
            size //= 2
    else:
        # switches refer to clients by number, work on a seed only
        if plan['sched'].get('p') != .02:
            p = copy.deepcopy(plan)
            p['sched']['p'] = .02
            yield p
        yield from O.shrink_clients(plan)


def client(c, d, R=None, finish=None):
    """Run operations of a client in directory d."""
    stream = O.build(c['stream'])
    out = []
    for k, op in enumerate(c['ops']):
        try:
            res = O.run_op(op, stream, d, 'o%d' % k)
        except Exception as ex:
            out.append(('exc', C.exc_info(ex), type(ex).__name__))
        else:
            out.append(('ok', res))
        # the stream itself may have changed, too
        out.append(('stream', O.norm_stream(stream)))
    return out


def execute(plan, R):
    from dst.sched import Scheduler
    import rf
    cl = plan['clients']
    O.write_models('.')
    refs = []
    for i, c in enumerate(cl):
        def alone(R2, on_kill, c=c, i=i):
            d = 'c%d' % i
            os.makedirs('alone%d/%s' % (i, d))
            os.chdir('alone%d' % i)
            O.write_models('.')
            O.write_models(d)
            return client(c, d)
        res = C.fork_call(R, alone)
        if res[0] != 'ok':
            raise RuntimeError('reference failed: %s' % (res,))
        refs.append(res[1])
    for i in range(len(cl)):
        os.makedirs('c%d' % i)
        O.write_models('c%d' % i)
    before = S.settings()
    sched = Scheduler(R, plan['sched'])
    outs = sched.run([lambda c=c, i=i: client(c, 'c%d' % i)
                      for i, c in enumerate(cl)])
    R.notes['taken'] = sched.taken
    R.log('operations', [[op['op'] for op in c['ops']] for c in cl])
    if sched.deadlock:
        R.violation('stuck', 'threads wait for each other: %s' % (outs,))
        return
    if len(cl) > 1 and sched.taken:
        R.nontrivial = True
    R.state(tuple(tuple(op['op'] for op in c['ops']) for c in cl),
            tuple(sched.trace[:400]))
    for i, ((how, out), ref) in enumerate(zip(outs, refs)):
        if how != 'ok':
            raise out
        ops = cl[i]['ops']
        for k, (x, y) in enumerate(zip(out, ref)):
            op = ops[k // 2]
            name = op['op'] + (':' + op['fmt'] if 'fmt' in op else '')
            if x[0] == 'exc' and y[0] != 'exc':
                R.violation('fails:' + name, 'thread %d: %s fails because of '
                            'the other threads: %s' % (i, op, x[1]))
                break
            if y[0] == 'exc':
                R.probe('fails_alone')
                if x[0] != 'exc' or x[2] != y[2]:
                    R.violation('no-error:' + name, 'thread %d: %s does not '
                                'fail, alone: %s' % (i, op, y[1]))
                continue
            d = O.diff(x[1], y[1], 1e-9)
            if d:
                R.violation('differs:' + name, 'thread %d: result of %s is '
                            'not the one of a thread alone: %s' % (i, op, d))
                break
            R.probe('results_compared')
    d = S.diff_settings(before, S.settings())
    if d:
        R.violation('settings', 'settings of the process changed: ' + d)
