"""makes /verif/seeded/<id>/ from tools/seeds.py and says whether each one counts and which check catches it.

usage: mkseed.py [ID-SUBSTRING ...] [--check] (--check: also run the property's check against the changed copy)
The copy of the repository lives in /tmp/seedrepo.<pid> and is removed at the end."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seeds import SEEDS, PRELUDE   # noqa

PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def stable(copy):
    rc, out = sh(f'PYTHONDONTWRITEBYTECODE=1 {PY} -m pytest -q -p no:cacheprovider tests 2>&1 | tail -8; '
                 f'PYTHONDONTWRITEBYTECODE=1 {PY} -m pytest -q -p no:cacheprovider --doctest-modules kolombos pytermor 2>&1 | tail -8', copy)
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    check = '--check' in sys.argv
    copy = f'/tmp/seedrepo.{os.getpid()}'
    bad = []
    try:
        sh(f'cp -a /repo {copy}')
        base = stable(copy)
        basefail = sorted(x.split(' - ')[0] for x in base.split('\n') if x.startswith('FAILED'))
        for s in SEEDS:
            if args and not any(a in s['id'] for a in args):
                continue
            d = os.path.join(HERE, 'seeded', s['id'])
            sh('git checkout -q -- . && git clean -fdq', copy)
            try:
                for f, old, new in s['edits']:
                    p = os.path.join(copy, f)
                    t = open(p).read()
                    assert t.count(old) == 1, f'{s["id"]}: {f}: {t.count(old)} occurrences of {old!r}'
                    open(p, 'w').write(t.replace(old, new))
            except AssertionError as e:
                print('BAD ', e)
                bad.append(s['id'])
                continue
            os.makedirs(d, exist_ok=True)
            _, diff = sh('git diff', copy)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.py'), 'w').write(PRELUDE + s['demo'].strip('\n') + '\n')
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            r0, o0 = sh(f'bash {d}/demo.sh', '/repo')
            r1, o1 = sh(f'bash {d}/demo.sh', copy)
            t = stable(copy)
            fails = sorted(x.split(' - ')[0] for x in t.split('\n') if x.startswith('FAILED'))
            ok = r0 == 0 and r1 != 0 and fails == basefail and 'error' not in t.lower().replace('errors', '')
            caught = ''
            if check:
                ids = [s['property']] + s.get('also', [])
                for i in ids:
                    rc, out = sh(f'KV_REPO={copy} timeout 900 python3-vt -m kv.run {i} --tier quick', HERE)
                    v = [x for x in out.split('\n') if x.startswith('VIOLATION')]
                    caught += f' {i}:{rc}' + (' ' + ' | '.join(x.split('replay=')[1].split('/')[-1] for x in v[:4]) if v else ' ---')
                    if rc not in (0, 1):
                        caught += out[-500:]
            print('ok  ' if ok else 'BAD ', s['id'], f'demo {r0}/{r1}', '' if fails == basefail else f'tests {fails}', caught, flush=True)
            if not ok:
                bad.append(s['id'])
                print(o0[-600:], '\n--', o1[-300:], '\n--', '' if fails == basefail else t)
    finally:
        if copy.startswith('/tmp/seedrepo.'):
            sh(f'rm -rf {copy}')
    print('bad:', bad)


main()
