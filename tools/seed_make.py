"""Make and confirm planted bugs.

seed_make.py make SPECFILE     write /verif/seeded/<id>/ from the specs
seed_make.py check [ID...]     confirm them in a scratch copy of /repo and run
                               the check of the property against the copy
"""
import json
import os
import shutil
import subprocess
import sys

SEEDED = '/verif/seeded'
SCRATCH = '/tmp/seedcopy%d' % os.getpid()
DEMO = '''#!/bin/bash
# run with cwd /repo; 0: behaviour as stated, 1: broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
export RF_REPO=$PWD
tmp=$(mktemp -d)
export MPLCONFIGDIR=$tmp/mpl HOME=$tmp
mkdir -p $tmp/work
cd $tmp/work
PYTHONPATH=$RF_REPO timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
rc=$?
cd /
rm -rf "$tmp"
exit $rc
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          **kw)


def copy_repo():
    shutil.rmtree(SCRATCH, ignore_errors=True)
    shutil.copytree('/repo', SCRATCH, symlinks=True)


def make(fname, ids=()):
    ns = {}
    exec(open(fname).read(), ns)
    for s in ns['SPECS']:
        if ids and s['id'] not in ids:
            continue
        d = os.path.join(SEEDED, s['id'])
        copy_repo()
        for f, old, new in s['edits']:
            p = os.path.join(SCRATCH, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'pattern', t.count(old), 'times:', old[:60])
                sys.exit(1)
            open(p, 'w').write(t.replace(old, new))
        os.makedirs(d, exist_ok=True)
        diff = sh('git diff', cwd=SCRATCH).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(ns.get('PRELUDE', '') + s['demo'])
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['what']},
                  open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(SCRATCH, ignore_errors=True)


def check(ids):
    for i in ids or sorted(os.listdir(SEEDED)):
        d = os.path.join(SEEDED, i)
        meta = json.load(open(d + '/meta.json'))
        copy_repo()
        out = {}
        out['clean'] = sh('bash %s/demo.sh' % d, cwd=SCRATCH).returncode
        r = sh('git apply %s/patch.diff' % d, cwd=SCRATCH)
        if r.returncode:
            print(i, 'does not apply', r.stderr)
            continue
        r = sh('bash %s/demo.sh' % d, cwd=SCRATCH)
        out['patched'] = r.returncode
        r2 = sh('. /opt/vp/env.sh; export PYTHONPATH=%s; cd %s; $PY -m pytest '
                '-q -p no:cacheprovider -x --timeout=300 -o '
                'python_functions=__none__ rf/tests' % (SCRATCH, SCRATCH))
        out['tests'] = r2.stdout.strip().splitlines()[-1][:60]
        if '-n' not in sys.argv:
            r3 = sh('RFDST_REPO=%s ./check %s' % (SCRATCH, meta['property']),
                    cwd='/verif')
            out['check'] = r3.returncode
            out['viol'] = [l[:150] for l in r3.stdout.splitlines()
                           if l.startswith('violation')][:3]
        print(i, meta['property'], json.dumps(out))
        if out['clean'] or not out['patched']:
            print(r.stdout[-600:], r.stderr[-600:])
        if ' failed' in out['tests']:
            print(r2.stdout[-1500:])
        sys.stdout.flush()
    shutil.rmtree(SCRATCH, ignore_errors=True)


if sys.argv[1] == 'make':
    make(sys.argv[2], sys.argv[3:])
else:
    check([a for a in sys.argv[2:] if a != '-n'])
