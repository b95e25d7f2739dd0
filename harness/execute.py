"""Runs sessions (sequences of calls on shared live objects) on the real code and
records them as events for spec/Trace.tla.

A session is a list of steps (op, [argument descriptions], keep): keep names
the result so that later steps can use ('ref', name).  A session that starts
with the step QUIET is recorded from copies of the objects: no accessor of a
live object is called except by the session's own steps, so that reading it for
the record cannot refresh (or spoil) what the object remembers."""
import copy
import io
import os
import resource
import signal
import sys

import codec
from codec import BAD
from driver import QUIET

CALL_SECONDS = 3.0      # processor time
TIMEOUTS = 0


class TooLong(BaseException):
    pass


def _alarm(*_):
    raise TooLong()


def limits():
    signal.signal(signal.SIGPROF, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(2000)


def call(f, args):
    out = sys.stdout
    sys.stdout = io.StringIO()
    signal.setitimer(signal.ITIMER_PROF, CALL_SECONDS)
    try:
        return f(*args), None
    except TooLong:
        global TIMEOUTS
        TIMEOUTS += 1
        return None, 'Timeout'
    except Exception as e:
        return None, type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout = out


BUILD_OP = {'vec': 'new', 'ang': 'new', 'line': 'new', 'linepp': 'newPP', 'ray': 'newA', 'seg': 'newPP', 'tri': 'new3',
            'circ': 'new', 'sect': 'new', 'size': 'new', 'rect': 'new4', 'mat': 'new6', 'poly': 'newL', 'hull': 'new'}


def project_copy(o):
    if codec.is_object(o):
        try:
            o = copy.deepcopy(o)
        except Exception:
            pass
    return codec.project(o)


def run_session(steps, OPS):
    """-> (events, origin): origin[i] is the index of the step behind event i"""
    project = project_copy if steps and steps[0][0] == QUIET else codec.project
    live = []            # objects by id-1
    names = {}           # name -> id
    proj = []            # their last projection
    events, origin = [], []
    for si, (op, descs, keep) in enumerate(steps):
        if op == QUIET:
            continue
        args, refs, ok = [], [], True
        for d in descs:
            if isinstance(d, tuple) and d[0] == 'ref':
                i = names.get(d[1])
                if i is None:
                    ok = False
                    break
                args.append(live[i - 1])
                refs.append(i)
            else:
                o, err = call(codec.build, (d,))
                if err:
                    kind = d[0] if isinstance(d, tuple) else 'vec'
                    events.append({'c': 'line' if kind == 'linepp' else kind, 'm': BUILD_OP.get(kind, 'new'), 'a': [],
                                   'r': {'t': 'exc'}, 'p': [], 'ch': [], 'k': 0, 's': 0, 'h': 0, 'g': False})
                    origin.append(si)
                    ok = False
                    break
                args.append(o)
                refs.append(0)
        if not ok:
            continue
        before = [proj[r - 1] if r else project(a) for a, r in zip(args, refs)]
        if not all(codec.sane(b, 2 ** 50 if op.startswith('soc.') else 10 ** 8) for b in before):
            continue
        # rectangles made from an invalid point are left open
        if op.startswith('rect.') and any(b.get('t') == 'vec' and not b['ok'] for b in before if isinstance(b, dict)):
            continue
        res, err = call(OPS[op], args)
        c, m = op.split('.')
        if err:
            r = {'t': 'exc', 'n': err}
        else:
            r = project(res)
            if r is not BAD and r['t'] == 'bad':
                r = BAD
        same = elsewhere = 0
        if not err and codec.is_object(res):
            for j, a in enumerate(args):
                if a is res:
                    same = j + 1
                    break
            if not same:
                for j, o in enumerate(live):
                    if o is res:
                        elsewhere = j + 1
                        break
        ch = []
        for j, o in enumerate(live):
            p = project(o)
            if p != proj[j]:
                ch.append([j + 1, p])
                proj[j] = p
        changed = []
        for j, (a, rf) in enumerate(zip(args, refs)):
            if not rf and codec.is_object(a):
                p = project(a)
                if p != before[j]:
                    changed.append([j + 1, p])
        k = 0
        if keep and not err and codec.is_object(res) and not same and not elsewhere and r['t'] != 'bad':
            live.append(res)
            proj.append(r)
            names[keep] = len(live)
            k = len(live)
        events.append({'c': c, 'm': m, 'a': [{'t': 'ref', 'id': rf} if rf else b for rf, b in zip(refs, before)],
                       'r': r, 'p': changed, 'ch': ch, 'k': k, 's': same, 'h': elsewhere,
                       'g': all(codec.exact(b) for b in before)})
        origin.append(si)
    return events, origin
