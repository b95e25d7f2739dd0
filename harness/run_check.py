#!/usr/bin/env python3
"""Decides one property.

  run_check.py ID [quick|thorough]     run the check (VERIF_SEED, VERIF_TIER)
  run_check.py --replay FILE           re-run a recorded violation

1. the property's models are checked by TLC (spec/MC_*.tla) and the behaviours
   they generate are turned into sessions;
2. sessions (from the models, and generated from the operations' signatures) are
   executed on the library in /repo by harness/driver.py;
3. TLC judges every recorded call against spec/Trace.tla / spec/PyrusGeom.tla."""
import json
import os
import random
import subprocess
import sys
import tempfile
import time
import zlib
import shutil

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import tlc                                   # noqa: E402
import driver                                # noqa: E402

PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
EVIDENCE = os.path.join(ROOT, 'evidence')
REPLAYS = os.path.join(ROOT, 'replays')
KNOWN = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
WORKERS = 8


class Broken(Exception):
    """the library cannot be exercised at all"""


def execute(sessions, work, tag=''):
    """run the sessions on the library; -> {index: (events, origin)}, [indices of sessions that killed the driver]"""
    n = min(WORKERS, max(1, len(sessions)))
    shards = [[] for _ in range(n)]
    for i, s in enumerate(sessions):
        shards[i % n].append((i, s))
    dead = []
    got = {}

    def launch(k, shard):
        src, out = os.path.join(work, 'in%s%d.json' % (tag, k)), os.path.join(work, 'out%s%d.ndjson' % (tag, k))
        json.dump([[i, [[s[0], driver.entuple(s[1]), s[2]] for s in st]] for i, st in shard], open(src, 'w'))
        return out, subprocess.Popen([PY, os.path.join(HERE, 'driver.py'), src, out], stdout=subprocess.DEVNULL,
                                     stderr=open(out + '.err', 'w'), cwd=work)

    todo = [s for s in shards if s]
    rounds = 0
    while todo:
        rounds += 1
        procs = [launch(rounds * 100 + k, s) for k, s in enumerate(todo)]
        nxt = []
        for (out, p), shard in zip(procs, todo):
            try:
                p.wait(timeout=240)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            done, seen = False, set()
            if os.path.exists(out):
                for line in open(out):
                    try:
                        r = json.loads(line)
                    except ValueError:
                        break
                    if r == 'done':
                        done = True
                        break
                    got[r['i']] = (r['e'], r['o'])
                    seen.add(r['i'])
            if not done:
                err = open(out + '.err').read()
                if not seen and rounds == 1 and ('ImportError' in err or 'SyntaxError' in err or 'Traceback' in err) and 'run_session' not in err:
                    raise Broken(err.strip().splitlines()[-1] if err.strip() else 'driver failed')
                rest = [(i, s) for i, s in shard if i not in seen]
                if rest:
                    dead.append(rest[0][0])
                    if rest[1:] and rounds < 4:
                        nxt.append(rest[1:])
        todo = nxt
    return got, dead


def judge(runs, work):
    """runs: list of (index, events); -> verdicts {(index, event number): clauses}, states, generated"""
    verdicts = {}
    total_states = total_gen = 0
    pending = [r for r in runs if r[1]]
    for attempt in range(6):
        if not pending:
            break
        path = os.path.join(work, 'trace.ndjson')
        with open(path, 'w') as f:
            for _, ev in pending:
                f.write(json.dumps(ev) + '\n')
        rc, out = tlc.run('Trace', env={'TRACE_FILE': path}, workers=WORKERS, timeout=840)
        v = tlc.verdicts(out)
        gen, distinct = tlc.states(out)
        for (s, i), c in v.items():
            verdicts[(pending[s - 1][0], i)] = c
        expected = sum(len(ev) + 1 for _, ev in pending)
        if rc == 0 and distinct == expected:
            total_states += distinct
            total_gen += gen
            break
        bad = tlc.failing_state(out)
        if bad is None or not bad[0]:
            raise RuntimeError('TLC failed: %s' % out[-2000:])
        s, i = bad
        verdicts[(pending[s - 1][0], i + 1)] = {'unjudgeable'}
        keep = pending[s - 1][1][:i]
        pending = pending[:s - 1] + ([(pending[s - 1][0], keep)] if keep else []) + pending[s:]
    return verdicts, total_states, total_gen


def known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            w = line.split()
            if len(w) > 2 and w[0] == 'known:' and w[1].startswith('property='):
                out.setdefault(w[1][9:], {})[w[2]] = ' '.join(w[3:])
    return out


def plain(d):
    if isinstance(d, tuple):
        if d and d[0] == 'ref':
            return d[1]
        return '%s(%s)' % (d[0], ', '.join(plain(x) for x in d[1:]))
    if isinstance(d, list):
        return '[%s]' % ', '.join(plain(x) for x in d)
    return repr(d)


def save_replay(pid, steps, upto, op, clauses, note=''):
    os.makedirs(REPLAYS, exist_ok=True)
    body = {'property': pid, 'op': op, 'clauses': sorted(clauses), 'note': note,
            'session': [[s[0], driver.entuple(s[1]), s[2]] for s in steps[:upto + 1]],
            'calls': ['%s%s(%s)' % (s[2] + ' = ' if s[2] else '', s[0], ', '.join(plain(a) for a in s[1])) for s in steps[:upto + 1]]}
    text = json.dumps(body, indent=1)
    path = os.path.join(REPLAYS, '%s-%08x.json' % (pid, zlib.crc32(text.encode())))
    open(path, 'w').write(text)
    return path


def literally(ev, j):
    """the j-th call of this trace on new objects with the same values, as a session; None if they cannot be built"""
    import models
    heap = {}
    for e in ev[:j - 1]:
        if e['k']:
            heap[e['k']] = e['r']
        for i, v in e['ch']:
            heap[i] = v
    e = ev[j - 1]
    op = e['c'] + '.' + e['m']
    try:
        return [(op, models.whole(op, [models.desc(heap[a['id']] if a['t'] == 'ref' else a) for a in e['a']]), None)]
    except (ValueError, KeyError):
        return None


def check(pid, tier, seed):
    import props
    import models
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    work = tempfile.mkdtemp(prefix='pyrus.%s.' % pid)
    stats = {'calls': 0, 'undecided': 0, 'states': 0, 'transitions': 0, 'traces': 0, 'rounds': 0, 'per_op': {}, 'open_op': {}}
    violations, knowns, samples, notes = [], {}, [], []
    listed = known().get(pid, {})
    model_info = []

    def consume(sess):
        sess = [[(driver.QUIET, [], None)] + s if i % 2 else s for i, s in enumerate(sess)]
        runs, dead = execute(sess, work, 'r%d_' % stats['rounds'])
        stats['rounds'] += 1
        for i in dead:
            p = save_replay(pid, sess[i], len(sess[i]) - 1, 'session', ['interpreter-died'])
            violations.append((p, 'the interpreter died or hung in this session', {'interpreter-died'}))
        verdicts, states, gen = judge([(i, e) for i, (e, _) in sorted(runs.items())], work)
        stats['states'] += states
        stats['transitions'] += sum(len(e) for e, _ in runs.values())
        stats['traces'] += len(runs)
        for i, (ev, origin) in runs.items():
            for j, e in enumerate(ev):
                op = e['c'] + '.' + e['m']
                if op not in props.SCOPE[pid] and pid != 'C06':
                    continue
                stats['calls'] += 1
                stats['per_op'][op] = stats['per_op'].get(op, 0) + 1
        suspects = []
        for (i, j), clauses in sorted(verdicts.items()):
            ev, origin = runs[i]
            e = ev[j - 1]
            op = e['c'] + '.' + e['m']
            if clauses == {'?'} and op in props.SCOPE[pid]:
                stats['undecided'] += 1
                stats['open_op'][op] = stats['open_op'].get(op, 0) + 1
            mine = props.reports(pid, op, clauses)
            for c in sorted(mine):
                if c.startswith('known:') and c[6:] in listed:
                    knowns[c[6:]] = knowns.get(c[6:], 0) + 1
            mine = {c for c in mine if not (c.startswith('known:') and c[6:] in listed)}
            if mine and len(violations) < 5:
                upto = origin[j - 1]
                p = save_replay(pid, sess[i], upto, op, mine)
                violations.append((p, '%s(%s): %s' % (op, ', '.join(plain(a) for a in sess[i][upto][1]), ' '.join(sorted(mine))), mine))
            if pid in ('C06', 'C07') and not mine and len(suspects) < 200:
                wrong = {c for c in clauses if c != '?' and not c.startswith('known:')}
                lit = literally(ev, j) if wrong else None
                if lit:
                    suspects.append((i, j, wrong, lit))
        # a wrong answer that new objects with the same values would not give comes from what the objects remember
        if suspects:
            fresh, _ = execute([s[3] for s in suspects], work, 'f%d_' % stats['rounds'])
            again, _, _ = judge([(n, e) for n, (e, _) in sorted(fresh.items())], work)
            for n, (i, j, wrong, lit) in enumerate(suspects):
                stale = wrong - again.get((n, 1), set())
                if n in fresh and fresh[n][0] and stale and len(violations) < 5:
                    upto = runs[i][1][j - 1]
                    p = save_replay(pid, sess[i], upto, lit[0][0], stale | {'history-dependent'})
                    violations.append((p, '%s(%s): depends on earlier calls: %s' % (
                        lit[0][0], ', '.join(plain(a) for a in sess[i][upto][1]), ' '.join(sorted(stale))), stale))
        if not samples:
            for i in sorted(runs)[:1]:
                samples.append(['%s(%s)' % (s[0], ', '.join(plain(a) for a in s[1])) for s in sess[i][:6]])

    try:
        try:
            # 1. the models, and the behaviours they generate
            for m in models.for_property(pid, tier):
                info, sess = m(seed)
                model_info.append(info)
                stats['states'] += info['states']
                stats['transitions'] += info['transitions']
                if info.get('error'):
                    raise RuntimeError('model %s: %s' % (info['model'], info['error']))
                if sess:
                    for a in range(0, len(sess), 2000):
                        consume(sess[a:a + 2000])
            # 2. generated sessions
            if tier == 'quick':
                consume(props.sessions(pid, random.Random('%s/%d' % (pid, seed)), 1.0))
            else:
                budget = float(os.environ.get('VERIF_BUDGET', '600'))
                k = 0
                while time.time() - t0 < budget and not violations:
                    consume(props.sessions(pid, random.Random('%s/%d/%d' % (pid, seed, k)), 1.5))
                    k += 1
        except Broken as x:
            p = save_replay(pid, [], 0, 'import', ['library-unusable'], str(x))
            violations.append((p, 'the library cannot be loaded: %s' % x, {'library-unusable'}))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': stats['states'], 'transitions': stats['transitions'],
                       'traces_validated_against_impl': stats['traces'],
                       'calls_judged_in_scope': stats['calls'], 'undecided_near_a_threshold': stats['undecided'],
                       'operations': len(stats['per_op']), 'calls_per_operation_min': min(stats['per_op'].values() or [0]),
                       'undecided_share_by_operation': {o: round(n / max(1, stats['per_op'].get(o, n)), 3) for o, n in
                                                        sorted(stats['open_op'].items(), key=lambda x: -x[1])[:12]},
                       'models': model_info, 'samples': samples or [[]],
                       'known_findings': knowns},
          'assumptions': ['arithmetic of the specification: exact rationals; transcendental functions to 25 digits',
                          'facts closer to a decision boundary than floating point can settle are counted as undecided'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    json.dump(ev, open(os.path.join(EVIDENCE, pid + '.json'), 'w'), indent=1)
    for k in sorted(knowns):
        print('KNOWN-FINDING: property=%s %s %s' % (pid, k, listed[k]))
    print('%s: %d calls in %d sessions judged, %d undecided, %d states, %.1f s' % (
        pid, stats['calls'], stats['traces'], stats['undecided'], stats['states'], time.time() - t0))
    if violations:
        for p, text, _ in violations:
            print('  ' + text[:600])
        print('VIOLATION property=%s replay=%s' % (pid, violations[0][0]))
        return 1
    return 0


def replay(path):
    import props
    b = json.load(open(path))
    steps = [(s[0], driver.detuple(s[1]), s[2]) for s in b['session']]
    print('\n'.join(b['calls']))
    work = tempfile.mkdtemp(prefix='pyrus.replay.')
    try:
        try:
            runs, dead = execute([steps], work)
        except Broken as x:
            print('the library cannot be loaded: %s' % x)
            return 1
        if dead:
            print('interpreter died')
            return 1
        verdicts, _, _ = judge([(0, runs[0][0])], work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    bad = False
    for (i, j), c in sorted(verdicts.items()):
        e = runs[0][0][j - 1]
        op = e['c'] + '.' + e['m']
        r = props.reports(b['property'], op, c)
        if 'history-dependent' in b['clauses'] and op == b['op']:
            r = r | (set(c) & set(b['clauses']))
        if r:
            print(j, op, sorted(r), json.dumps(e)[:1500])
            bad = True
    print('VIOLATION property=%s replay=%s' % (b['property'], path) if bad else 'no violation')
    return 1 if bad else 0


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(check(sys.argv[1], tier, int(os.environ.get('VERIF_SEED', '1'))))
