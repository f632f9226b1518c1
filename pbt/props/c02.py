"""Equality of events, traces and logs is equality of their content."""
import copy

from .. import gen, logs
from ..core import Inapplicable, check
from ..fx import CN, MyEvent

CASES = {'quick': 14000, 'thorough': 700000}
RULE = ('a full log, the same log rebuilt with permuted payload keys, and one edited at a single place; non-trivial: the '
        'edit changes the textual content of the log')
ASSUMPTIONS = ['values are compared by their textual form (1 and "1" are the same value); trace attributes and global '
               'values are not part of equality']

EDITS = ['value', 'key', 'drop_key', 'add_key', 'boundary', 'swap_values', 'swap_events', 'dup_event', 'del_event',
         'move_event', 'split_trace', 'merge_traces', 'empty_trace', 'swap_traces', 'dup_trace', 'del_trace',
         'attr', 'ext', 'cls', 'prop', 'char', 'meta_order', 'meta_char', 'meta_move', 'meta_swap']


METADATA = ['attributes', 'extensions', 'classifiers', 'properties']


def generate(d):
    return {'log': logs.full_log(d), 'edit': d.choice(EDITS), 'i': d.below(40), 'j': d.below(40), 'k': d.below(40),
            'order': [d.below(7) for _ in range(6)], 'value': gen.scalar(d), 'name': gen.key(d)}


def permuted(p, order):
    keys = sorted(p, key=lambda x: (order[len(x) % len(order)], x))
    return {k: p[k] for k in keys}


def edit(case):
    log = copy.deepcopy(case['log'])
    m, i, j, k = case['edit'], case['i'], case['j'], case['k']
    if m in ('attr', 'ext', 'cls', 'prop'):
        target = log[{'attr': 'attributes', 'ext': 'extensions', 'cls': 'classifiers', 'prop': 'properties'}[m]]
        new = {'attr': 'v', 'ext': {'prefix': 'p', 'uri': 'u'}, 'cls': ['k'], 'prop': case['value']}[m]
        if target and i % 3 == 0:
            del target[list(target)[j % len(target)]]
        elif target and i % 3 == 1:
            target[list(target)[j % len(target)]] = new
        else:
            target[case['name']] = new
        return log
    if m.startswith('meta'):
        kinds = [kind for kind in METADATA if log[kind]]
        if not kinds:
            raise Inapplicable
        kind = kinds[i % len(kinds)]
        target = log[kind]
        key = list(target)[j % len(target)]
        if m == 'meta_order':
            if kind != 'classifiers' or len(target[key]) < 2:
                target = log['classifiers']
                key = case['name']
                target[key] = ['a', 'b', case['name']]
                case['log']['classifiers'][key] = list(target[key])
            a, b = k % len(target[key]), (k + 1 + j) % len(target[key])
            target[key][a], target[key][b] = target[key][b], target[key][a]
        elif m == 'meta_char':
            if kind == 'classifiers' and target[key]:
                target[key][k % len(target[key])] += 'x'
            elif kind == 'extensions' and target[key]:
                inner = list(target[key])[k % len(target[key])]
                target[key][inner] = str(target[key][inner])[1:] if k % 2 else f'{target[key][inner]} '
            else:
                target[key] = f'{target[key]}x'
        elif m == 'meta_move':
            other = METADATA[k % len(METADATA)]
            log[other][key] = target.pop(key)
        else:
            o = list(target)[k % len(target)]
            target[key], target[o] = target[o], target[key]
        return log
    traces = log['traces']
    if m == 'empty_trace':
        traces.insert(i % (len(traces) + 1), {'events': [], 'attributes': {}})
        return log
    if not traces:
        raise Inapplicable
    ti = i % len(traces)
    t = traces[ti]['events']
    if m == 'swap_traces':
        o = j % len(traces)
        traces[ti], traces[o] = traces[o], traces[ti]
        return log
    if m == 'dup_trace':
        traces.insert(ti, copy.deepcopy(traces[ti]))
        return log
    if m == 'del_trace':
        del traces[ti]
        return log
    if m == 'merge_traces':
        if ti + 1 >= len(traces):
            raise Inapplicable
        t.extend(traces[ti + 1]['events'])
        del traces[ti + 1]
        return log
    if m == 'split_trace':
        cut = j % (len(t) + 1)
        traces.insert(ti + 1, {'events': t[cut:], 'attributes': {}})
        del t[cut:]
        return log
    if not t:
        raise Inapplicable
    ei = j % len(t)
    if m == 'swap_events':
        o = k % len(t)
        t[ei], t[o] = t[o], t[ei]
        return log
    if m == 'dup_event':
        t.insert(ei, copy.deepcopy(t[ei]))
        return log
    if m == 'del_event':
        del t[ei]
        return log
    if m == 'move_event':
        traces[k % len(traces)]['events'].append(t.pop(ei))
        return log
    e = t[ei]
    if m == 'add_key':
        e[case['name']] = case['value']
        return log
    if not e:
        raise Inapplicable
    key = list(e)[k % len(e)]
    if m == 'value':
        e[key] = case['value']
    elif m == 'char':
        s = str(e[key])
        pos = i % (len(s) + 1)
        e[key] = s[:pos] + chr((ord(s[pos]) if pos < len(s) else 96) + 1) + s[pos + 1:]
    elif m == 'drop_key':
        del e[key]
    elif m == 'key':
        e[case['name']] = e.pop(key)
    elif m == 'boundary':
        v = str(e.pop(key))
        if not v:
            raise Inapplicable
        e[key + v[0]] = v[1:]
    elif m == 'swap_values':
        o = list(e)[i % len(e)]
        e[key], e[o] = e[o], e[key]
    return log


def text(log):
    """The content equality is about, in a canonical textual form."""
    return ([[sorted((str(k), str(v)) for k, v in e.items()) for e in t['events']] for t in log['traces']],
            *[sorted((str(k), str(v)) for k, v in log[m].items())
              for m in ('attributes', 'extensions', 'classifiers', 'properties')])


def become(log, other):
    while len(log) > len(other):
        del log[len(log) - 1]
    for i, u in enumerate(other):
        if i == len(log):
            log.append(copy.deepcopy(u))
            continue
        t = log[i]
        while len(t) > len(u):
            del t[len(t) - 1]
        for j, f in enumerate(u):
            if j == len(t):
                t.append(copy.deepcopy(f))
                continue
            e = t[j]
            for key in [k for k in e if k not in f]:
                del e[key]
            for key in f:
                e[key] = f[key]
    for m in METADATA:
        target = getattr(log, m)
        target.clear()
        target.update(getattr(other, m))


def run(case):
    case = copy.deepcopy(case)
    changed = edit(case)
    a = logs.build(case['log'])
    other = copy.deepcopy(case['log'])
    for t in other['traces']:
        t['events'] = [permuted(e, case['order']) for e in t['events']]
    for m in ('attributes', 'extensions', 'classifiers', 'properties'):
        other[m] = permuted(other[m], case['order'])
    b = logs.build(other)
    check(a == b and b == a and not (a != b), 'logs with the same content are equal')
    check(hash(a) == hash(b), 'logs with the same content have the same hash')
    for t, u in zip(a, b):
        check(t == u and not (t != u) and hash(t) == hash(u), 'traces with the same content are equal')
        for e, f in zip(t, u):
            check(e == f and not (e != f) and hash(e) == hash(f), 'events with the same content are equal')
            check(e in {f} and f in t, 'an equal event is found in collections')

    c = logs.build(changed)
    same = text(changed) == text(case['log'])
    if same:
        check(a == c and c == a and hash(a) == hash(c), 'logs with the same textual content are equal')
    else:
        check(a != c and c != a and not (a == c), f'logs with different content are not equal (edit {case["edit"]})')
    ta, tc = text(case['log'])[0], text(changed)[0]
    for i, t in enumerate(a):
        for j, u in enumerate(c):
            check((t == u) == (ta[i] == tc[j]), 'trace equality is content equality', ta[i], tc[j])
        if len(t):
            for u in c:
                if len(u):
                    for x in (0, -1):
                        check((t[x] == u[x]) == (sorted((str(k), str(v)) for k, v in t[x].payload.items()) ==
                                                 sorted((str(k), str(v)) for k, v in u[x].payload.items())),
                              'event equality is content equality', t[x].payload, u[x].payload)
    # the first log becomes the other one step by step: nothing of earlier comparisons may be remembered
    become(a, c)
    check(a == c and c == a and hash(a) == hash(c), 'a log edited in place equals the log it became')
    check((a == b) == same, 'a log edited in place is compared by what it holds now')
    for i, t in enumerate(a):
        check(t == c[i] and hash(t) == hash(c[i]), 'a trace edited in place equals the trace it became')
        if i < len(ta) and i < len(tc):
            check((t == b[i]) == (ta[i] == tc[i]), 'a trace edited in place is compared by what it holds now')
    return {'nontrivial': not same, case['edit']: not same}
