"""Makes /verif/seeded/<id>/ from the bug list in tools/bugs.py: each bug is a set of
replacements in /repo's sources plus a demonstration.  A bug is kept only when, in a scratch
copy, it applies, passes the stable tests, changes lines of the original repository, and its
demonstration passes without it and fails with it.   usage: seed.py [ID...]"""
import json, os, shutil, subprocess, sys, textwrap
sys.path.insert(0, os.path.dirname(__file__))
from bugs import BUGS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, WORK, PY, BASE = '/repo', '/tmp/seedwork', '/opt/venv/bin/python', '8f439e6'
DEMO = '''#!/bin/sh
# run with cwd = the repository; exit 0 when the behaviour is right
PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''

def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)

def original_lines(path):
    r = sh(f'git -C {REPO} show {BASE}:src/pyrusgeom/{path}')
    return set(r.stdout.splitlines())

def main():
    want = sys.argv[1:]
    stable = json.load(open('/opt/vp/BASELINE.json'))
    for bug in BUGS:
        if want and bug['id'] not in want:
            continue
        shutil.rmtree(WORK, ignore_errors=True)
        sh(f'git clone -q {REPO} {WORK}')
        msg = None
        touched_original = False
        for f, old, new in bug['edits']:
            p = f'{WORK}/src/pyrusgeom/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                msg = f'{f}: {s.count(old)} matches of {old!r}'
                break
            orig = original_lines(f)
            touched_original |= any(l.strip() and l in orig for l in old.splitlines()
                                    if l not in new.splitlines())
            open(p, 'w').write(s.replace(old, new))
        if msg is None and not touched_original:
            # partial-line replacement: compare whole changed lines
            d = sh('git diff -U0', WORK).stdout
            minus = [l[1:] for l in d.splitlines() if l.startswith('-') and not l.startswith('---')]
            ok = any(l.strip() and l in original_lines(f) for f, _, _ in bug['edits'] for l in minus)
            if not ok:
                msg = 'changes no original line'
        if msg is None:
            diff = sh('git diff', WORK).stdout
            env = f'cd {WORK} && PYTHONPATH={WORK}/src PYTHONDONTWRITEBYTECODE=1 {PY} -m pytest -q -p no:cacheprovider tests 2>&1 | tail -15'
            t = sh(env)
            if 'failed' in t.stdout or 'error' in t.stdout.lower():
                msg = 'tests: ' + t.stdout.strip()[-600:]
        if msg is None:
            out = f'{ROOT}/seeded/{bug["id"]}'
            os.makedirs(out, exist_ok=True)
            open(f'{out}/patch.diff', 'w').write(diff)
            open(f'{out}/demo.sh', 'w').write(DEMO)
            os.chmod(f'{out}/demo.sh', 0o755)
            open(f'{out}/demo.py', 'w').write(textwrap.dedent(bug['demo']).strip() + '\n')
            json.dump({'property': bug['property'], 'needs': bug['needs'],
                       'what_it_breaks': bug['breaks']}, open(f'{out}/meta.json', 'w'), indent=1)
            with_ = sh(f'sh {out}/demo.sh', WORK)
            without = sh(f'sh {out}/demo.sh', REPO)
            if with_.returncode == 0 or without.returncode != 0:
                msg = f'demo: with={with_.returncode} without={without.returncode} {without.stderr[-300:]}'
                shutil.rmtree(out)
        print(bug['id'], 'kept' if msg is None else 'DROPPED ' + msg, flush=True)
    shutil.rmtree(WORK, ignore_errors=True)

main()
