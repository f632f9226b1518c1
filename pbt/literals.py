"""Literals of the code under test (dictionary for the generators, as fuzzers use one).

`mined()` returns the string and integer literals of the current source. Those that are absent from the recorded
baseline (the tree the checks were developed on) come first: a change that introduces a special value is reached by
generating that value. The literals steer generation only; nothing is ever judged by them.
"""
import ast
import functools
import json
import os

from . import env

_BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'baseline_literals.json')


def collect(root=env.FICUS):
    """{relative file: {'kind:repr': count}}"""
    result = {}
    for folder, _dirs, files in os.walk(root):
        for name in sorted(files):
            if not name.endswith('.py') or name.endswith(('_pb2.py', '_pb2_grpc.py')):
                continue
            path = os.path.join(folder, name)
            try:
                with open(path, encoding='utf-8') as f:
                    tree = ast.parse(f.read())
            except (SyntaxError, OSError, UnicodeDecodeError):
                continue
            counts = {}
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    v = node.value
                    if isinstance(v, (str, int, float)) and not isinstance(v, bool) and len(repr(v)) <= 60:
                        k = f'{type(v).__name__}:{json.dumps(v)}'
                        counts[k] = counts.get(k, 0) + 1
            if counts:
                result[os.path.relpath(path, root)] = counts
    return result


def _split(keys):
    out = {'strings': set(), 'ints': set(), 'floats': set()}
    for k in keys:
        kind, text = k.split(':', 1)
        out[{'str': 'strings', 'int': 'ints', 'float': 'floats'}[kind]].add(json.loads(text))
    return {k: sorted(v) for k, v in out.items()}


@functools.lru_cache(maxsize=None)
def mined():
    now = collect()
    try:
        with open(_BASE) as f:
            base = json.load(f)
    except OSError:
        base = {}
    new, every = set(), set()
    known = {}
    for counts in base.values():
        for k, n in counts.items():
            known[k] = known.get(k, 0) + n
    total = {}
    for path, counts in now.items():
        every.update(counts)
        for k, n in counts.items():
            total[k] = total.get(k, 0) + n
            if path in base and n > base[path].get(k, 0):
                new.add(k)
    # code that merely moved to another file adds nothing
    new = {k for k in new if total[k] > known.get(k, 0)} | {k for k in total if k not in known}
    result = _split(every)
    result.update({'new_' + k: v for k, v in _split(new).items()})
    return result


if __name__ == '__main__':
    with open(_BASE, 'w') as f:
        json.dump(collect(), f, indent=0, sort_keys=True)
