"""Executes sessions on the real library in a process of its own.

  driver.py IN.json OUT.ndjson

IN: list of [index, steps]; OUT: one line per session {"i":, "e": events, "o": origin}"""
import json
import os
import sys

QUIET = 'observe.quietly'       # see execute.py


def detuple(x):
    """JSON -> step descriptions (tuples are written as {"k": [...]})"""
    if isinstance(x, dict):
        return tuple(detuple(y) for y in x['k'])
    if isinstance(x, list):
        return [detuple(y) for y in x]
    return x


def entuple(x):
    if isinstance(x, tuple):
        return {'k': [entuple(y) for y in x]}
    if isinstance(x, list):
        return [entuple(y) for y in x]
    return x


def main():
    import execute
    import api
    execute.limits()
    todo = json.load(open(sys.argv[1]))
    with open(sys.argv[2], 'w') as out:
        for i, steps in todo:
            if execute.TIMEOUTS >= 12:
                break
            steps = [(s[0], detuple(s[1]), s[2]) for s in steps]
            ev, origin = execute.run_session(steps, api.OPS)
            out.write(json.dumps({'i': i, 'e': ev, 'o': origin}) + '\n')
            out.flush()
        out.write('"done"\n')


if __name__ == '__main__':
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    main()
