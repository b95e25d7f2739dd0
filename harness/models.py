"""The models of spec/MC_*.tla: checked by TLC, and their behaviours turned into
sessions which are replayed on the library."""
import json
import os
import random
from collections import deque

import tlc

# --- values of the specification -> descriptions of arguments ----------------------


def _big(b):
    n = 0
    for d in reversed(b[1:]):
        n = n * 10000 + d
    return b[0] * n


def num(r, rng=None):
    n, d = _big(r[0]), _big(r[1])
    if d == 1:
        return float(n) if rng and rng.random() < .5 else n
    return n / d


# numbers of steps are whole numbers, not just whole-valued
WHOLE = {'soc.inertia_n_step_travel': 1, 'soc.inertia_n_step_point': 2, 'soc.inertia_n_step_distance': 1,
         'soc.calc_first_term_geom_series': 2}


def whole(op, args):
    i = WHOLE.get(op)
    if i is not None:
        args[i] = int(args[i])
    return args


def desc(v, rng=None):
    """a value of spec/Val.tla as an argument description"""
    t = v['t']
    q = lambda x: num(x, rng)                                        # noqa: E731
    w = lambda x: desc(x, rng)                                       # noqa: E731
    if t == 'num':
        return q(v['v'])
    if t == 'bool':
        return v['v']
    if t == 'none':
        return None
    if t == 'vec':
        return ('vec', q(v['x']), q(v['y'])) if v['ok'] else ('vec', q(v['x']), q(v['y']), False)
    if t == 'ang':
        return ('ang', q(v['d']))
    if t == 'line':
        return ('line', q(v['a']), q(v['b']), q(v['c']))
    if t == 'ray':
        return ('ray', w(v['o']), q(v['d']))
    if t == 'seg':
        return ('seg', w(v['o']), w(v['e']))
    if t == 'tri':
        return ('tri', w(v['a']), w(v['b']), w(v['c']))
    if t == 'circ':
        return ('circ', w(v['c']), q(v['r']))
    if t == 'sect':
        return ('sect', w(v['c']), q(v['r0']), q(v['r1']), q(v['s']), q(v['e']))
    if t == 'size':
        return ('size', q(v['l']), q(v['w']))
    if t == 'rect':
        return ('rect', q(v['x0']), q(v['y0']), q(v['l']), q(v['w']))
    if t == 'mat':
        return ('mat',) + tuple(q(v[k]) for k in 'abcdxy')
    if t == 'poly':
        return ('poly', [w(p) for p in v['v']])
    if t == 'list':
        return [w(p) for p in v['v']]
    if t == 'hull' and not v['v']:
        return ('hull', [w(p) for p in v['i']])
    raise ValueError(t)


def build(name, v, rng):
    """the step that creates this value under this name"""
    t = v['t']
    d = desc(v, rng) if t != 'hull' else None
    if t == 'ang':
        return ('ang.newA', [d], name)
    if t == 'vec':
        return ('vec.newV', [d], name)
    if t == 'seg':
        return ('seg.newPP', list(d[1:]), name)
    if t == 'tri':
        return ('tri.new3', list(d[1:]), name)
    if t == 'circ':
        return ('circ.new', list(d[1:]), name)
    if t == 'sect':
        return ('sect.new', list(d[1:]), name)
    if t == 'ray':
        return ('ray.newA', list(d[1:]), name)
    if t == 'size':
        return ('size.new', list(d[1:]), name)
    if t == 'rect':
        return ('rect.new4', list(d[1:]), name)
    if t == 'mat':
        return ('mat.new6', list(d[1:]), name)
    if t == 'poly':
        return ('poly.newL', [d[1]], name)
    if t == 'hull':
        return ('hull.new', [[desc(p, rng) for p in v['i']]], name)
    raise ValueError(t)


# --- tours through a state graph ------------------------------------------------------
def tours(edges, rng, limit, length=60):
    """sessions that together take every edge (or `limit` calls)"""
    heaps, out = {}, {}
    for src, op, toks, bind, dst, stays in edges:
        a, b = json.dumps(src, sort_keys=True), json.dumps(dst, sort_keys=True)
        heaps.setdefault(a, src)
        heaps.setdefault(b, dst)
        out.setdefault(a, []).append((op, toks, bind, b, stays))
    # edges back to the same state first, edges that leave the explored region last
    for a, es in out.items():
        rng.shuffle(es)
        es.sort(key=lambda e: (0 if e[4] else 1, 1 if e[3] == a else 0))      # popped from the end
    for a in out:
        es = out[a]
        leave = [e for e in es if not e[4]]
        out[a] = leave + [e for e in es if e[4] and e[3] != a] + [e for e in es if e[4] and e[3] == a]
    moves = {a: sorted({e[3]: e for e in es if e[4] and e[3] != a}.values(), key=str) for a, es in out.items()}
    left = {a: list(es) for a, es in out.items()}
    startable = [a for a in out if all(v['t'] != 'hull' or not v['v'] for v in heaps[a].values())]
    todo = set(left)
    sessions, calls = [], 0

    def step(e):
        op, toks, bind, _, _ = e
        return (op, whole(op, [('ref', t['n']) if 'n' in t else desc(t['v'], rng) for t in toks]), bind or None)

    def path(a):
        """shortest way from a to a state with an edge still to take"""
        prev, queue = {a: None}, deque([a])
        while queue:
            x = queue.popleft()
            if left.get(x):
                way = []
                while prev[x]:
                    x, e = prev[x]
                    way.append(e)
                return way[::-1]
            for e in moves.get(x, ()):
                if e[3] not in prev:
                    prev[e[3]] = (x, e)
                    queue.append(e[3])
        return None

    starts = list(startable)
    rng.shuffle(starts)
    while todo and calls < limit:
        while starts and not left.get(starts[-1]):
            starts.pop()
        at = starts[-1] if starts else rng.choice(startable)
        steps = [build(n, v, rng) for n, v in sorted(heaps[at].items())]
        taken = 0
        while len(steps) < length:
            if not left.get(at):
                todo.discard(at)
                way = path(at)
                if way is None:
                    break
                for e in way:
                    steps.append(step(e))
                    at = e[3]
            e = left[at].pop()
            taken += 1
            steps.append(step(e))
            if not e[4]:
                break
            at = e[3]
        if not taken:
            if starts:
                starts.pop()
            elif not any(left.values()):
                break
            else:
                todo = {a for a in todo if left.get(a)}
                if rng.random() < .05:
                    break
            continue
        calls += len(steps)
        sessions.append(steps)
    remaining = sum(len(x) for x in left.values())
    return sessions, remaining


def heap_model(scen, tier, limit):
    def run(seed):
        rc, out = tlc.run('MC_Heap', env={'SCEN': scen, 'MC_TIER': tier, 'MC_REJECT': '1' if tier == 'thorough' else '0'},
                          timeout=600)
        gen, distinct = tlc.states(out)
        edges = [json.loads(json.loads(line)[1:]) for line in out.splitlines() if line.startswith('"E[')]
        info = {'model': 'MC_Heap/' + scen, 'states': distinct, 'transitions': len(edges),
                'checked': 'functional and relational semantics agree on every transition; objects well-formed'}
        if rc != 0:
            info['error'] = '\n'.join(x for x in out.splitlines() if not x.startswith('"E'))[-1500:]
            return info, []
        sessions, remaining = tours(edges, random.Random('%s/%d' % (scen, seed)), limit)
        info['transitions_replayed'] = len(edges) - remaining
        info['replayed_calls'] = sum(len(s) for s in sessions)
        return info, sessions
    return run


def enum_model(scen, tier, limit, ops):
    """all small inputs of a scenario, those of `ops` as calls on the library"""
    def run(seed):
        rc, out = tlc.run('MC_Enum', env={'SCEN': scen, 'MC_TIER': tier, 'MC_REJECT': '1' if tier == 'thorough' else '0'},
                          timeout=780)
        gen, distinct = tlc.states(out)
        rng = random.Random('%s/%d' % (scen, seed))
        seen, every = set(), 0
        for line in out.splitlines():
            if line.startswith('"E['):
                for op, args in json.loads(json.loads(line)[1:]):
                    key = op + json.dumps(args)
                    every += 1
                    if op in ops:
                        seen.add(key)
        info = {'model': 'MC_Enum/' + scen, 'states': distinct, 'transitions': every,
                'checked': 'functional and relational semantics agree on every call with every input of the scenario'}
        if rc != 0:
            info['error'] = '\n'.join(x for x in out.splitlines() if not x.startswith('"E'))[-1500:]
            return info, []
        keys = sorted(seen)
        if len(keys) > limit:
            keys = rng.sample(keys, limit)
        else:
            rng.shuffle(keys)
        steps = []
        for key in keys:
            k = key.index('[')
            steps.append((key[:k], whole(key[:k], [desc(v, rng) for v in json.loads(key[k:])]), None))
        info['inputs_in_scope'] = len(seen)
        info['replayed_calls'] = len(steps)
        return info, [steps[a:a + 40] for a in range(0, len(steps), 40)]
    return run


HEAP = {'C01': ['ang'], 'C05': ['vec'], 'C13': ['rect'], 'C14': ['rect2', 'size'], 'C11': ['seg'], 'C16': ['tri'], 'C12': ['circ'],
        'C24': ['sect'], 'C09': ['ray'], 'C17': ['poly'], 'C19': ['hull'], 'C20': ['mat'],
        'C06': ['vec', 'rect', 'seg', 'sect'], 'C07': ['circ', 'ray', 'tri', 'poly']}
ALL = ['ang', 'vec', 'rect', 'rect2', 'seg', 'tri', 'circ', 'sect', 'ray', 'poly', 'hull', 'mat', 'size']


ENUM = {'C02': ['order'], 'C03': ['bisect', 'bisectline'], 'C04': ['trig', 'polar'], 'C08': ['line', 'linedir', 'linepair', 'bisectline'],
        'C09': ['linepair', 'raypair', 'linedir'], 'C10': ['segpair', 'segline'], 'C11': ['segpt', 'segpair'],
        'C12': ['circhit', 'circray', 'circpair', 'circum', 'quad'], 'C14': ['rectset', 'rectpt'],
        'C15': ['recthit', 'rectray', 'trihit', 'triray'], 'C16': ['tript', 'centres'], 'C17': ['polypt', 'poly23', 'poly5'], 'C18': ['clip'],
        'C19': ['hullset', 'centres'], 'C20': ['mat', 'mat2'], 'C21': ['coast', 'series'], 'C22': ['round', 'clamp', 'range'],
        'C23': ['server', 'speed'], 'C24': ['sector'], 'C25': ['text']}


def for_property(pid, tier):
    import props
    names = HEAP.get(pid, [])
    enums = ENUM.get(pid, [])
    if tier == 'quick':
        limit = 9000 if len(names) == 1 else 4000
        elimit = 9000 // max(1, len(enums))
    else:
        limit = elimit = 10 ** 6
        if pid in ('C06', 'C07'):
            names = ALL
    ops = set(props.SCOPE[pid])
    return [heap_model(n, tier, limit) for n in names] + [enum_model(n, tier, elimit, ops) for n in enums]
