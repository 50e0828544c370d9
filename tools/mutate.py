"""Systematic mutants of rf: which pass the tests, which pass the checks?

mutate.py list FILE...             number of mutants per file
mutate.py tests OUT FILE...        run the stable tests on all mutants
mutate.py checks OUT RES [CHECKS]  run the checks on those which pass

Development only.  Mutants live in scratch copies below /tmp.
"""
import ast
import warnings
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

warnings.simplefilter('ignore')
CMP = {'==': '!=', '!=': '==', '<': '<=', '<=': '<', '>': '>=', '>=': '>',
       'is not': 'is', 'is': 'is not', 'not in': 'in', 'in': 'not in'}
SKIP_FUNC = {'run_cli', 'plot_rf', 'plot_ppoints', 'plot_stations',
             'plot_profile_map', 'plot_profile', 'plot_harmonics',
             '__str__', '_repr_pretty_', '__repr__', '__unicode__'}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    data = src.encode()

    def pos(line, col):
        return off[line - 1] + col

    def seg(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno,
                                                n.end_col_offset)
    out = []

    def add(a, b, new, kind, n):
        out.append((a, b, new, kind, n.lineno))

    def indent_pass(n, kind='del'):
        a, b = seg(n)
        add(a, b, 'pass', kind, n)

    def visit(n, func):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in SKIP_FUNC:
                return
            func = n.name
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = seg(n.left)[1], seg(n.comparators[0])[0]
            t = data[a:b].decode()
            for k in ('is not', 'not in', '==', '!=', '<=', '>=', '<', '>',
                      'is', 'in'):
                if k in t:
                    add(a, b, t.replace(k, CMP[k], 1), 'cmp', n)
                    break
        if isinstance(n, ast.BoolOp):
            for x, y in zip(n.values, n.values[1:]):
                a, b = seg(x)[1], seg(y)[0]
                t = data[a:b].decode()
                w = 'and' if isinstance(n.op, ast.And) else 'or'
                if w in t:
                    add(a, b, t.replace(w, 'or' if w == 'and' else 'and', 1),
                        'bool', n)
            for x in n.values:
                a, b = seg(x)
                add(a, b, 'True' if isinstance(n.op, ast.And) else 'False',
                    'boolval', x)
        if isinstance(n, (ast.If, ast.IfExp)):
            a, b = seg(n.test)
            t = data[a:b].decode()
            add(a, b, '(not (%s))' % t, 'neg', n.test)
            add(a, b, 'False', 'if0', n.test)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub,
                                                          ast.Mult, ast.Div)):
            a, b = seg(n.left)[1], seg(n.right)[0]
            t = data[a:b].decode()
            for x, y in (('+', '-'), ('-', '+'), ('*', '/'), ('/', '*')):
                if x in t and isinstance(n.op, {
                        '+': ast.Add, '-': ast.Sub, '*': ast.Mult,
                        '/': ast.Div}[x]):
                    add(a, b, t.replace(x, y, 1), 'arith', n)
                    break
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str,
                                                                    bytes)):
            a, b = seg(n)
            if n.value is True or n.value is False:
                add(a, b, str(not n.value), 'const', n)
            elif isinstance(n.value, int):
                add(a, b, str(n.value + 1), 'const', n)
            elif isinstance(n.value, float):
                add(a, b, repr(n.value * 1.25 + .1), 'const', n)
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            a, b = seg(n.type)
            t = data[a:b].decode()
            for new in ('ZeroDivisionError', 'BaseException'):
                if t != new:
                    add(a, b, new, 'except', n)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise,
                          ast.Continue, ast.Delete)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value,
                                                       ast.Constant)):
            if func:
                indent_pass(n)
        if isinstance(n, ast.Try) and n.finalbody:
            for x in n.finalbody:
                indent_pass(x, 'finally')
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg is None and len(n.args) + len(n.keywords) < 2:
                    continue
                a, b = seg(k)
                # remove together with a comma
                j = b
                while data[j:j + 1] in b' \n\t':
                    j += 1
                if data[j:j + 1] == b',':
                    add(a, j + 1, '', 'kwarg', k)
                else:
                    i = a
                    while data[i - 1:i] in b' \n\t':
                        i -= 1
                    if data[i - 1:i] == b',':
                        add(i - 1, b, '', 'kwarg', k)
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ('copy', 'upper',
                                                           'sort'):
                a, b = seg(n)
                add(a, b, data[slice(*seg(f.value))].decode(), 'uncall', n)
            if isinstance(f, ast.Name) and f.id in ('copy', 'deepcopy',
                                                    'sorted', 'list', 'set',
                                                    'float', 'str', 'int'):
                if len(n.args) == 1:
                    a, b = seg(n)
                    add(a, b, data[slice(*seg(n.args[0]))].decode(),
                        'uncall', n)
        for c in ast.iter_child_nodes(n):
            visit(c, func)
    visit(ast.parse(src), None)
    seen = set()
    res = []
    for a, b, new, kind, line in out:
        if (a, b, new) in seen:
            continue
        seen.add((a, b, new))
        text = (data[:a] + new.encode() + data[b:]).decode()
        try:
            ast.parse(text)
        except SyntaxError:
            continue
        res.append({'file': os.path.relpath(path, '/repo'), 'line': line,
                    'kind': kind, 'old': data[a:b].decode(), 'new': new,
                    'text': text})
    return res


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                              timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        return None


def run_tests(out, files):
    n = 8
    copies = Queue()
    for i in range(n):
        d = '/tmp/mutt%d' % i
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, symlinks=True)
        copies.put(d)
    ms = [m for f in files for m in mutants(f)]
    print(len(ms), 'mutants', flush=True)

    def one(m):
        d = copies.get()
        p = os.path.join(d, m['file'])
        old = open(p).read()
        try:
            open(p, 'w').write(m['text'])
            r = sh('. /opt/vp/env.sh; export OMP_NUM_THREADS=1 '
                   'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s; cd %s; timeout '
                   '100 $PY -m pytest -q -p no:cacheprovider -x -o python_functions=__none__ rf/tests '
                   % (d, d), 120)
            m['pass'] = bool(r and r.returncode == 0)
        finally:
            open(p, 'w').write(old)
            copies.put(d)
        return m
    with ThreadPoolExecutor(n) as ex, open(out, 'w') as fh:
        for m in ex.map(one, ms):
            if m['pass']:
                fh.write(json.dumps(m) + '\n')
                fh.flush()
    for i in range(n):
        shutil.rmtree('/tmp/mutt%d' % i, ignore_errors=True)


FRAC = float(os.environ.get('FRAC', '.5'))


def run_checks(out, resfile, checks):
    v = '/tmp/mutverif'
    shutil.rmtree(v, ignore_errors=True)
    shutil.copytree('/verif', v, ignore=shutil.ignore_patterns('.git',
                                                               'evidence'))
    d = '/tmp/mutcheck'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    sys.path.insert(0, '/verif')
    import importlib
    runs = {c: max(16, int(importlib.import_module(
        'dst.props.' + c.lower()).RUNS['quick'] * FRAC)) for c in checks}
    done = set()
    if os.path.exists(resfile):
        for l in open(resfile):
            m = json.loads(l)
            done.add((m['file'], m['line'], m['kind'], m['old'], m['new']))
    with open(resfile, 'a') as fh:
        for l in open(out):
            m = json.loads(l)
            if (m['file'], m['line'], m['kind'], m['old'], m['new']) in done:
                continue
            p = os.path.join(d, m['file'])
            old = open(p).read()
            open(p, 'w').write(m.pop('text'))
            try:
                m['killed'] = None
                for c in checks:
                    r = sh('RFDST_FAST=1 RFDST_REPO=%s RFDST_RUNS=%d ./check '
                           '%s' % (d, runs[c], c), 400, cwd=v)
                    if r is None or r.returncode != 0:
                        m['killed'] = c
                        m['by'] = r.stdout[-400:] if r else 'timeout'
                        m['rc'] = r.returncode if r else None
                        break
            finally:
                open(p, 'w').write(old)
            fh.write(json.dumps(m) + '\n')
            fh.flush()
            print(m['file'], m['line'], m['kind'], repr(m['old'][:50]), '->',
                  repr(m['new'][:30]), m['killed'], flush=True)
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(v, ignore_errors=True)


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'list':
        for f in sys.argv[2:]:
            print(f, len(mutants(f)))
    elif cmd == 'tests':
        run_tests(sys.argv[2], sys.argv[3:])
    else:
        run_checks(sys.argv[2], sys.argv[3], sys.argv[4:] or
                   ['R%02d' % i for i in (8, 2, 1, 12, 11, 6, 13, 9, 5, 7, 16, 15, 17, 18, 4, 3, 14, 10)])
