"""R03: interrupt and exit requests stop the work and are never swallowed."""
import contextlib
import copy

from dst import batchlib as B
from dst import common as C
from dst import net as N

nothing = contextlib.nullcontext

NEEDS = ('taup',)
RUNS = {'quick': 1000, 'thorough': 30000}
RULE = ('one run: a retrieval or batch command (data, calc, moveout, convert, '
        'stack, profile in SAC, Q or HDF5) which is hit by a '
        'KeyboardInterrupt or SystemExit at a random request, ray tracer '
        'call, progress update, disk operation or source line of rf; non-trivial: the interrupt '
        'fired; distinct by event log')
STATE_MEASURE = ('distinct (command, format, access mode, interrupt kind, '
                 'place, position from the start) combinations')
REAL = C.REAL_ALL
STUBS = C.STUB_NET + C.STUB_TAUP + C.STUB_PBAR + C.STUB_DISK
ASSUMPTIONS = ['interrupts arrive at the listed waiting points or between two '
               'source lines of rf, not between two arbitrary byte codes']


def gen(rng, tier):
    kind = rng.choice(['api', 'api', 'api', 'data', 'data', 'calc', 'moveout',
                       'convert', 'stack', 'profile', 'datacalc'])
    spec = B.gen_small_world(rng, nev=(1, 4), nst=(1, 3), far=.1,
                             epochs=kind == 'api',
                             align=kind in ('stack', 'profile') or None)
    fmt = rng.choice(['SAC', 'Q', 'H5'])
    answers = {}
    rate = rng.choice([0, .3])
    for i in range(len(spec['events'])):
        for j in range(len(spec['stations'])):
            answers['%d,%d' % (i, j)] = N.gen_answer(
                rng, rate if kind in ('api', 'data') else 0, .2,
                spec['pad'], ['exc', 'none', 'empty', 'drop', 'gap'])
    if kind in ('api', 'data', 'datacalc'):
        where = rng.choice(['net', 'net', 'taup', 'pbar'])
        if kind != 'api' and rng.random() < .4:
            where = 'fs'
    else:
        where = rng.choice(['fs', 'fs', 'fs', 'pbar'])
        if kind == 'stack':
            where = 'fs'
    if rng.random() < .25:
        where = 'line'
    return {'world': spec, 'kind': kind, 'fmt': fmt, 'answers': answers,
            'access': rng.choice(['func', 'client', 'plugin']),
            'where': where, 'frac': round(rng.random(), 4),
            'cat': rng.choice(['any', 'any', ['open_r'], ['open_w'],
                               ['write'], ['read'], ['mkdir']]),
            'torn': rng.choice([0, .5]),
            'what': rng.choice(['KI', 'KI', 'SE']),
            'rf': B.gen_rfopts(rng, spec, simple=True),
            'moveout': B.gen_moutopts(rng, spec),
            'boxes': B.gen_boxes(rng, spec),
            'short': rng.choice([0, 0, 512])}


def shrink(plan):
    yield from C.shrink_world(plan)
    yield from C.shrink_answers(plan)
    yield from C.simplify(plan, 'short', [0])
    yield from C.simplify(plan, 'frac', [0, .3, .6, .9])
    yield from C.simplify(plan, 'access', ['func', 'client'])


class Interrupter(object):

    def __init__(self, R, plan):
        self.R, self.plan = R, plan
        self.n = 0
        self.at = None
        self.exc = None

    def tick(self, *args):
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.R.fault('%s@%s' % (self.plan['what'], self.plan['where']))
            self.exc = KeyboardInterrupt('sim') \
                if self.plan['what'] == 'KI' else SystemExit(3)
            raise self.exc


class Lines(object):

    """Ticks at each source line of rf."""

    def __init__(self, tick):
        import os
        import rf
        self.tick = tick
        self.root = os.path.dirname(rf.__file__) + os.sep

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.root):
            return self.loc

    def loc(self, frame, event, arg):
        if event == 'line':
            self.tick()
        return self.loc

    def __enter__(self):
        import sys
        sys.settrace(self.glob)

    def __exit__(self, *args):
        import sys
        sys.settrace(None)


def execute(plan, R):
    import os
    from dst.world import World, TaupStub, SimPbar
    from dst.fs import SimFS, install_h5, snapshot
    w = World(plan['world'])
    kind, fmt, where = plan['kind'], plan['fmt'], plan['where']
    stub = TaupStub(R, w).install()
    root = os.getcwd()

    class Attempt(object):
        pass

    def attempt(d, at):
        """Run the workload in directory d, interrupted at point `at`."""
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        A = Attempt()
        A.ticker = Interrupter(R, plan)
        A.ticker.at = at if where != 'fs' else None
        dc = N.DataCentre(w, R, plan['answers'])
        A.dc = dc
        stub.on_call = None
        stub.calls = 0
        A.exc = None
        A.got = 0
        faults = []
        if where == 'fs' and at is not None:
            cat = plan['cat']
            if cat == 'any':
                cat = ['open_r', 'open_w', 'read', 'write', 'mkdir']
            faults = [{'cat': cat, 'nth': at, 'what': plan['what'],
                       'frac': plan['torn'], 'torn': True}]
        fs = SimFS(R, d, faults, short_write=plan['short'])
        A.fs = fs
        A.after = []
        A.closed = {}

        def pbar_factory(*a, **k):
            return SimPbar(R, on_update=A.ticker.tick
                           if where == 'pbar' else None)
        if kind == 'api':
            if where == 'net':
                dc.before = A.ticker.tick
            if where == 'taup':
                stub.on_call = A.ticker.tick
            source = dc.get_waveforms
            if plan['access'] != 'func':
                import rf.batch
                if plan['access'] == 'client':
                    with C.patched_client(dc):
                        source = rf.batch.init_data('fdsn')
                else:
                    import sys
                    import types
                    m = types.ModuleType('rfsim_plugin')
                    m.func = dc.get_waveforms
                    sys.modules['rfsim_plugin'] = m
                    source = rf.batch.init_data(
                        'plugin', plugin='rfsim_plugin : func')
            from rf.util import iter_event_data
            it = iter_event_data(w.catalog(), w.inventory(), source,
                                 pbar=pbar_factory(),
                                 **C.options(plan['world']))
            try:
                with Lines(A.ticker.tick) if where == 'line' else nothing():
                    for stream in it:
                        R.log('yield', stream[0].id,
                              stream[0].stats.event_time)
                        A.got += 1
            except (KeyboardInterrupt, SystemExit) as ex:
                A.exc = ex
                A.calls = dc.calls, stub.calls, A.got
                rest = list(it)
                A.rest = len(rest)
            return A
        # batch command
        sess = B.Session(plan, w, dc, R)
        prep(plan, sess, kind, fmt)
        R.log('--- command')
        dc.calls = 0
        dc.requests = []
        if where == 'net':
            dc.before = A.ticker.tick
        if where == 'taup':
            stub.on_call = A.ticker.tick
        sess.pbar_factory = pbar_factory
        restore = install_h5(fs) if fmt == 'H5' or kind == 'convert' \
            else None
        A.before = snapshot(d)
        state = {}

        def hook(cat, rel):
            if A.ticker.exc is not None or fs.interrupt is not None:
                A.after.append((cat, rel))
            elif cat == 'open_w':
                state[rel] = 'open'
            elif cat == 'close_w':
                state[rel] = 'closed'
        fs.hooks.append(hook)
        A.state = state
        args = {'data': ['data', 'out'], 'calc': ['calc', 'in', 'out'],
                'datacalc': ['data', 'calc', 'moveout', 'out'],
                'moveout': ['moveout', 'in', 'out'],
                'convert': ['convert', 'in', 'out',
                            plan.get('newfmt', 'H5')],
                'stack': ['stack', 'in', 'out'],
                'profile': ['profile', 'in', 'out']}[kind]
        try:
            with fs, Lines(A.ticker.tick) if where == 'line' else nothing():
                sess.run(args, fmt)
        except (KeyboardInterrupt, SystemExit) as ex:
            A.exc = ex
            A.calls = dc.calls, stub.calls, 0
        finally:
            if restore:
                restore()
        import gc
        gc.collect()
        A.files = snapshot(d)
        return A

    plan['newfmt'] = {'SAC': 'H5', 'Q': 'SAC', 'H5': 'Q'}[fmt]
    ref = attempt(os.path.join(root, 'ref'), None)
    if ref.exc is not None:
        if kind == 'api' or not isinstance(ref.exc, SystemExit):
            raise ref.exc
        R.violation('exit-without-request', 'batch command ended with %r '
                    'without an interrupt' % ref.exc)
        return
    if where == 'fs':
        c = ref.fs.counts
        cats = plan['cat'] if plan['cat'] != 'any' else [
            'open_r', 'open_w', 'read', 'write', 'mkdir']
        total = sum(c.get(x, 0) for x in cats)
    else:
        total = ref.ticker.n
        total = {'net': lambda: ref.dc.calls, 'taup': lambda: stub.calls,
                 'pbar': lambda: ref.ticker.n,
                 'line': lambda: ref.ticker.n}[where]()
    if not total:
        R.probe('no_interrupt_point')
        return
    at = 1 + int(plan['frac'] * total)
    R.log('=== interrupted run at', at, 'of', total)
    A = attempt(os.path.join(root, 'int'), at)
    stub.restore()
    exc = A.ticker.exc if where != 'fs' else A.fs.interrupt
    pos = ['first', 'middle', 'last'][(at > 1) + (at == total and at > 1)]
    R.state(kind, fmt if kind != 'api' else plan['access'], plan['what'],
            where, plan['cat'] if where == 'fs' else '', pos)
    if exc is None:
        R.probe('interrupt_not_reached')
        return
    R.nontrivial = True
    R.probe('interrupted_' + where)
    if A.exc is None:
        R.violation('swallowed', '%s raised at %s %d of %d in %s did not '
                    'reach the caller' % (type(exc).__name__, where, at,
                                          total, kind))
        return
    if type(A.exc) is not type(exc):
        R.violation('changed', '%r raised at %s came out as %r' % (
            exc, where, A.exc))
    if where == 'net' and A.dc.calls > at or (
            kind == 'api' and (A.dc.calls, stub.calls, A.got) != A.calls):
        R.violation('continued', 'data requests went on after the interrupt')
    if kind == 'api':
        if A.rest:
            R.violation('continued', '%d streams delivered after the '
                        'interrupt' % A.rest)
        return
    # no further output
    cur = [r for r, s in A.state.items() if s == 'open']
    for cat, rel in A.after:
        if cat in ('open_w', 'mkdir', 'rename'):
            R.violation('output-after', 'operation %s %s after the interrupt '
                        'at %s %d' % (cat, rel, where, at))
        if cat in ('write', 'close_w') and rel not in cur:
            R.violation('output-after', 'operation %s %s after the interrupt '
                        'at %s %d' % (cat, rel, where, at))
    # files finished before stay as they were
    interrupted = set(cur)
    for rel, s in A.state.items():
        if s == 'closed' and rel.startswith('out') and \
                not rel.endswith('.h5') and rel not in interrupted:
            if A.files.get(rel) != ref.files.get(rel):
                R.violation('finished-damaged', 'file %s finished before the '
                            'interrupt differs from an undisturbed run' % rel)
            R.probe('finished_file_checked')
    for rel, b in A.before.items():
        if rel not in A.files or A.files[rel] != b:
            R.violation('input-changed', 'file %s changed' % rel)
    if (kind in ('data', 'calc', 'moveout') and fmt == 'H5' and
            where != 'fs' and 'out.h5' in A.files):
        os.chdir(os.path.join(root, 'int'))
        traces = [tr for _, tr in C.read_all('out', 'H5')]
        os.chdir(os.path.join(root, 'ref'))
        full = [tr for _, tr in C.read_all('out', 'H5')]
        R.probe('h5_after_interrupt')
        B.compare_sets(R, traces, full, 'h5-finished', subset=True)


def prep(plan, sess, kind, fmt):
    """Input records of the command, made by library calls."""
    if kind in ('data', 'datacalc'):
        return
    recs = B.library_records(sess)
    if kind in ('stack', 'profile', 'moveout'):
        for p in list(recs):
            recs[p].rf(**sess.rfopts)
    B.store(recs, 'in', fmt)
