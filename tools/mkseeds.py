"""Generate seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json) from
tools/seed_specs/*.py and validate them in scratch copies.

usage: mkseeds.py gen [ID...]     write the folders
       mkseeds.py test ID...      build, tests and demo in a scratch copy
       mkseeds.py scheck ID...    run the quick check on a patched copy
       mkseeds.py check ID...     run this property's quick check on /repo
                                  with the patch applied (and undo it)
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
DEMO = '''#!/bin/bash
# cwd: the repository to judge. Exit 0: fine; nonzero: broken.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
%s
export PYTHONPATH="$PWD" PYTHONWARNINGS=ignore
repo="$PWD"
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 3
REPO="$repo" timeout 280 "$PY" "$here/demo.py"
'''


def specs():
    out = {}
    ns = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'tools/seed_specs/*.py'))):
        exec(open(f).read(), ns)
    for s in ns['SEEDS']:
        assert s['id'] not in out, s['id']
        out[s['id']] = s
    return out


def scratch():
    d = tempfile.mkdtemp(prefix='seed_')
    t = os.path.join(d, 'r')
    subprocess.run(['git', 'clone', '-q', '/repo', t], check=True)
    return d, t


def gen(ids):
    sp = specs()
    d, t = scratch()
    try:
        for i in ids or sp:
            s = sp[i]
            for fn, old, new in s['edits']:
                p = os.path.join(t, fn)
                c = open(p).read()
                n = c.count(old)
                assert n == 1, (i, fn, n, old)
                open(p, 'w').write(c.replace(old, new))
            diff = subprocess.run(['git', '-C', t, 'diff'],
                                  capture_output=True, text=True).stdout
            subprocess.run(['git', '-C', t, 'checkout', '-q', '--', '.'])
            o = os.path.join(SEEDED, i)
            os.makedirs(o, exist_ok=True)
            open(o + '/patch.diff', 'w').write(diff)
            open(o + '/demo.py', 'w').write(s['demo'].lstrip())
            open(o + '/demo.sh', 'w').write(
                DEMO % ('' if s.get('jit') else 'export NUMBA_DISABLE_JIT=1'))
            os.chmod(o + '/demo.sh', 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'],
                       'what_it_breaks': s['breaks']},
                      open(o + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(d)


def demo(i, cwd):
    return subprocess.run(['bash', os.path.join(SEEDED, i, 'demo.sh')],
                          cwd=cwd, capture_output=True, text=True)


def test(ids, tests=True):
    for i in ids:
        d, t = scratch()
        try:
            a = demo(i, t)
            subprocess.run(['git', '-C', t, 'apply',
                            os.path.join(SEEDED, i, 'patch.diff')], check=True)
            b = demo(i, t)
            msg = 'demo clean=%d patched=%d' % (a.returncode, b.returncode)
            if a.returncode != 0:
                msg += ' CLEAN-FAILS ' + (a.stdout + a.stderr)[-800:]
            if b.returncode == 0:
                msg += ' NOT-DETECTED'
            else:
                msg += ' [' + (b.stdout + b.stderr).strip().split('\n')[-1][:100] + ']'
            if tests:
                r = subprocess.run(
                    ['bash', '-c', '. /opt/vp/env.sh; "$PY" -m pytest -q -x '
                     '-p no:cacheprovider -n 8 --dist loadfile tests '
                     '2>&1 | tail -4'],
                    cwd=t, capture_output=True, text=True)
                msg += ' tests: ' + r.stdout.strip().split('\n')[-1]
            print(i, msg, flush=True)
        finally:
            shutil.rmtree(d)


def scheck(ids):
    """The quick check of the property on a patched scratch copy."""
    for i in ids:
        d, t = scratch()
        try:
            subprocess.run(['git', '-C', t, 'apply',
                            os.path.join(SEEDED, i, 'patch.diff')], check=True)
            prop = json.load(open(SEEDED + '/%s/meta.json' % i))['property']
            r = subprocess.run(
                ['bash', HERE + '/tools/against.sh', t, prop],
                capture_output=True, text=True,
                env=dict(os.environ, MC_WORKERS='3'))
            print(i, 'rc=%d' % r.returncode,
                  [l[:120] for l in r.stdout.split('\n') if '  - ' in l][:1],
                  flush=True)
        finally:
            shutil.rmtree(d)


def check(ids):
    sp = specs()
    for i in ids:
        p = os.path.join(SEEDED, i, 'patch.diff')
        assert not subprocess.run(
            ['git', '-C', '/repo', 'status', '--porcelain'],
            capture_output=True, text=True).stdout.strip()
        subprocess.run(['git', '-C', '/repo', 'apply', p], check=True)
        try:
            r = subprocess.run([HERE + '/run.sh', sp[i]['property'], 'quick'],
                               capture_output=True, text=True)
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
        lines = [x for x in r.stdout.split('\n') if x.startswith('  -')]
        print(i, sp[i]['property'], 'CAUGHT' if r.returncode == 1 and
              'VIOLATION property=' + sp[i]['property'] in r.stdout
              else 'MISSED rc=%d' % r.returncode, (lines or [''])[0][:150],
              flush=True)


if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    {'gen': gen, 'test': test, 'check': check, 'scheck': scheck,
     'demo': lambda ids: test(ids, False)}[cmd](ids)
