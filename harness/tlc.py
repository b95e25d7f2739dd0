"""Running TLC on the specification."""
import os
import re
import shutil
import subprocess
import tempfile
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
OV = os.path.join(ROOT, 'build', 'ov')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'


def ensure_overrides():
    src = os.path.join(ROOT, 'java', 'pyrusov', 'PyrusOverrides.java')
    cls = os.path.join(OV, 'pyrusov', 'PyrusOverrides.class')
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    tmp = tempfile.mkdtemp(prefix='ov.', dir=os.path.join(ROOT, 'build') if os.path.isdir(os.path.join(ROOT, 'build'))
                           else ROOT)
    try:
        subprocess.run(['javac', '-cp', JAR, '-d', tmp, src], check=True, capture_output=True)
        os.makedirs(OV, exist_ok=True)
        shutil.copytree(tmp, OV, dirs_exist_ok=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(module, cfg=None, env=None, workers=8, heap='6g', extra=(), timeout=800, overrides=True, simulate=False):
    """-> (exit status, output)"""
    if overrides:
        ensure_overrides()
    meta = tempfile.mkdtemp(prefix='tlc.')
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-Xss16m', '-Xmx' + heap, '-XX:+UseParallelGC']
    if overrides:
        cmd += ['-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:pyrusov.PyrusOverrides',
                '-cp', ':'.join([OV, JAR, CM])]
    else:
        cmd += ['-cp', ':'.join([JAR, CM])]
    cmd += ['tlc2.TLC', '-deadlock', '-nowarning', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', meta,
            '-config', (cfg or module) + '.cfg'] + list(extra) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return -1, (x.stdout or b'').decode() if isinstance(x.stdout, bytes) else (x.stdout or '')
    finally:
        shutil.rmtree(meta, ignore_errors=True)


_V = re.compile(r'<<\s*"V",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>')
_STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def verdicts(out):
    res = {}
    for m in _V.finditer(out):
        res[(int(m.group(1)), int(m.group(2)))] = set(re.findall(r'"([^"]*)"', m.group(3)))
    return res


def states(out):
    m = None
    for m in _STATES.finditer(out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def failing_state(out):
    """(sid, i) of the state whose evaluation failed, if TLC reports an error"""
    if 'Error:' not in out:
        return None
    s = re.findall(r'/\\ sid = (\d+)', out)
    i = re.findall(r'/\\ i = (\d+)', out)
    if s and i:
        return int(s[-1]), int(i[-1])
    s = re.findall(r'sid = (\d+)', out)
    return (int(s[-1]), 0) if s else (0, 0)
