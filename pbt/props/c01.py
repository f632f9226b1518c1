"""Copies of events, traces and logs: same content, and isolated from later changes."""
import copy

from .. import gen, logs
from ..core import check, check_eq
from ..fx import MyEvent, MyEventLog, MyTrace

CASES = {'quick': 16000, 'thorough': 600000}
RULE = ('full logs (nested payload values, trace attributes, extensions, classifiers, properties, globals), a copy kind '
        'and a mutation of one side; non-trivial: at least one trace with an event')

MUTATIONS = ['event_set', 'event_del', 'event_add', 'nested', 'trace_append', 'trace_insert', 'trace_del', 'trace_set',
             'trace_attr', 'log_append', 'log_del', 'log_set', 'attr', 'ext', 'cls', 'prop', 'glob', 'ext_nested',
             'cls_nested', 'glob_nested', 'trace_attr_nested', 'prop_nested']


def generate(d):
    return {'log': logs.full_log(d, values=logs.nested, make_event=logs.event), 'kind': d.choice(['deep', 'shallow']),
            'mutation': d.choice(MUTATIONS), 'side': d.bool(), 'i': d.below(50), 'j': d.below(50), 'k': d.below(50)}


def _mutate_value(v, k):
    """Changes one of the containers in the value, on any depth."""
    places = logs.containers(v)
    if not places:
        return False
    place = places[-1 - k % len(places)]
    if isinstance(place, dict):
        place['__new'] = 1
    else:
        place.append('__new')
    return True


def mutate(log, m, i, j, k):
    """Changes the log; returns whether something changed, and at which level (what a shallow copy may see)."""
    if m in ('attr', 'ext', 'cls', 'prop', 'glob'):
        target = {'attr': log.attributes, 'ext': log.extensions, 'cls': log.classifiers, 'prop': log.properties,
                  'glob': log.global_values}[m]
        if target and i % 2:
            del target[sorted(target)[j % len(target)]]
        else:
            target['__new'] = {'x': 'y'}
        return 'log'
    if m in ('ext_nested', 'cls_nested', 'glob_nested', 'prop_nested'):
        target = {'ext': log.extensions, 'cls': log.classifiers, 'glob': log.global_values, 'prop': log.properties}[m[:-7].replace('prop', 'prop')]
        for v in target.values():
            if _mutate_value(v, k):
                return 'shared'
        return None
    if m == 'log_append':
        log.append(MyTrace([MyEvent({'a': 1})]))
        return 'log'
    if not len(log):
        return None
    i %= len(log)
    if m == 'log_del':
        del log[i]
        return 'log'
    if m == 'log_set':
        log[i] = MyTrace([MyEvent({'__new': 2})])
        return 'log'
    trace = log[i]
    if m == 'trace_attr':
        trace.attributes['__new'] = 1
        return 'shared'
    if m == 'trace_attr_nested':
        for v in trace.attributes.values():
            if _mutate_value(v, k):
                return 'shared'
        return None
    if m == 'trace_append':
        trace.append(MyEvent({'__new': 1}))
        return 'shared'
    if m == 'trace_insert':
        trace.insert(MyEvent({'__new': 1}), j % (len(trace) + 1))
        return 'shared'
    if not len(trace):
        return None
    j %= len(trace)
    if m == 'trace_del':
        del trace[j]
        return 'shared'
    if m == 'trace_set':
        trace[j] = MyEvent({'__new': 1})
        return 'shared'
    event = trace[j]
    if m == 'event_add':
        event['__new'] = 3
        return 'shared'
    if not len(event):
        return None
    key = list(event)[k % len(event)]
    if m == 'event_set':
        event[key] = ('__changed',)
    elif m == 'event_del':
        del event[key]
    elif m == 'nested':
        return 'shared' if _mutate_value(event[key], i) else None
    return 'shared'


def _sub_copies(log, case):
    """Copies of single events and traces."""
    i, j = case['i'], case['j']
    for t in log:
        deep, shallow = copy.deepcopy(t), copy.copy(t)
        for c in (deep, shallow):
            check(type(c) is type(t), 'a copy of a trace is a trace')
            check_eq([dict(e.payload) for e in c], [dict(e.payload) for e in t], 'events of a copied trace')
            check_eq(dict(c.attributes), dict(t.attributes), 'attributes of a copied trace')
            check(c == t and not (c != t) and hash(c) == hash(t), 'a copied trace equals the original')
        before = [copy.deepcopy(dict(e.payload)) for e in t], copy.deepcopy(dict(t.attributes))
        for e in deep:
            for v in e.payload.values():
                _mutate_value(v, case['k'])
            e['__x'] = 1
        for v in deep.attributes.values():
            _mutate_value(v, case['k'])
        deep.attributes['__x'] = 1
        deep.append(MyEvent())
        shallow.append(MyEvent())
        shallow.attributes['__x'] = 1
        check_eq(([dict(e.payload) for e in t], dict(t.attributes)), before, 'the original after changing its copies')
        for x, y in zip(t, shallow):
            check(x is y, 'a shallow copy of a trace shares its events')
    if len(log) and len(log[i % len(log)]):
        t = log[i % len(log)]
        e = t[j % len(t)]
        deep, shallow = copy.deepcopy(e), copy.copy(e)
        for c in (deep, shallow):
            check_eq(dict(c.payload), dict(e.payload), 'payload of a copied event')
            check_eq(list(c), list(e), 'key order of a copied event')
            check(c == e and hash(c) == hash(e), 'a copied event equals the original')
        before = copy.deepcopy(dict(e.payload))
        for k in list(deep):
            _mutate_value(deep[k], case['k'])
            deep[k] = '__changed'
        for k in list(shallow):
            check(shallow[k] is e[k], 'a shallow copy of an event shares its values')
            shallow[k] = '__changed'
        shallow['__x'] = 1
        check_eq(dict(e.payload), before, 'the original event after changing its copies')


class Plain:
    def __init__(self, inner):
        self.inner = inner

    def __str__(self):
        return f'plain {self.inner}'


# values that hold something that can be changed: how to make them, what is in them
OBJECTS = {
    'event': (lambda x: MyEvent({'x': x}), lambda v: v['x']),
    'events': (lambda x: [MyEvent({'a': 1}), MyEvent({'x': x})], lambda v: v[1]['x']),
    'trace': (lambda x: MyTrace([MyEvent({'a': 1})], {'x': x}), lambda v: v.attributes['x']),
    'events_of_trace': (lambda x: MyTrace([MyEvent({'x': x})]), lambda v: v[0]['x']),
    'log': (lambda x: MyEventLog([MyTrace([MyEvent({'x': x})])]), lambda v: v[0][0]['x']),
    'tuple': (lambda x: (1, x), lambda v: v[1]),
    'object': (lambda x: Plain(x), lambda v: v.inner),
    'in_dict': (lambda x: {'y': (x,)}, lambda v: v['y'][0]),
    'set_in_list': (lambda x: [x], lambda v: v[0]),
}
INNER = {'list': (lambda: [1], lambda v: v.append(2)), 'set': (lambda: {1}, lambda v: v.add(2)), 'dict': (lambda: {1: 1}, lambda v: v.update({2: 2})),
         'bytes': (lambda: bytearray(b'a'), lambda v: v.append(98)), 'event': (lambda: MyEvent({'a': 1}), lambda v: v.__setitem__('b', 2))}


def _objects(case):
    """Values that are events, traces, tuples or objects: a deep copy has its own ones down to the bottom, a shallow copy shares them."""
    make, look = OBJECTS[sorted(OBJECTS)[case['i'] % len(OBJECTS)]]
    empty, change = INNER[sorted(INNER)[case['j'] % len(INNER)]]
    value = make(empty())
    where = ['event', 'trace', 'attributes', 'extensions', 'classifiers', 'properties', 'global_values'][case['k'] % 7]
    log = MyEventLog([MyTrace([MyEvent({'k': value} if where == 'event' else {})], {'k': value} if where == 'trace' else {})])
    if where not in ('event', 'trace'):
        getattr(log, where)['k'] = value
    get = {'event': lambda x: x[0][0]['k'], 'trace': lambda x: x[0].attributes['k']}.get(where, lambda x: getattr(x, where)['k'])
    copied = (copy.deepcopy if case['kind'] == 'deep' else copy.copy)(log)
    check(type(get(copied)) is type(value), 'the type of a copied value')
    if case['kind'] == 'shallow':
        check(get(copied) is value, 'a shallow copy shares the values')
        return
    check(get(log) is value, 'copying does not change the original')
    check_eq(str(vars_of(look(get(copied)))), str(vars_of(look(value))), 'content of a copied value')
    one, other = (log, copied) if case['side'] else (copied, log)
    before = str(vars_of(look(get(other))))
    change(look(get(one)))
    check(str(vars_of(look(get(one)))) != before, 'the change is visible where it was made')
    check_eq(str(vars_of(look(get(other)))), before, f'deep copy isolation of a value of the {where}')


def vars_of(v):
    return dict(v.payload) if isinstance(v, MyEvent) else v


def run(case):
    original = logs.build(case['log'])
    before = logs.picture(original)
    check_eq(before, case['log'], 'a log holds what it was built from')
    copied = copy.deepcopy(original) if case['kind'] == 'deep' else copy.copy(original)
    check(type(copied) is type(original), 'a copy of a log is a log')
    check_eq(logs.picture(copied), before, f'content of a {case["kind"]} copy')
    check_eq(logs.picture(original), before, 'copying does not change the original')
    check(copied == original and not (copied != original) and hash(copied) == hash(original), 'a copy equals the original')
    if case['kind'] == 'shallow':
        for x, y in zip(original, copied):
            check(x is y, 'a shallow copy of a log shares its traces')

    changed, other = (original, copied) if case['side'] else (copied, original)
    level = mutate(changed, case['mutation'], case['i'], case['j'], case['k'])
    if level == 'log' or (level == 'shared' and case['kind'] == 'deep'):
        check_eq(logs.picture(other), before, f'{case["kind"]} copy isolation after {case["mutation"]}')
    if level is not None:
        check(logs.picture(changed) != before, 'the change is visible where it was made')
    _sub_copies(logs.build(case['log']), case)
    _objects(case)
    return {'nontrivial': any(t['events'] for t in case['log']['traces']), case['kind']: True,
            'mutated': level is not None, case['mutation']: level is not None}
