"""Full event logs (payloads, attributes, metadata) as plain cases, and their conversion."""
import copy

from . import gen
from .fx import CN, MyEvent, MyEventLog, MyTrace


def nested(d, depth=3):
    k = d.below(6)
    if k <= 3 or depth == 0:
        return None if d.below(16) == 15 else gen.scalar(d)
    if k == 4:
        return {gen.key(d): nested(d, depth - 1) if d.below(3) == 0 else gen.scalar(d) for _ in range(d.int(1, 2))}
    return [nested(d, depth - 1) if d.below(3) == 0 else gen.scalar(d) for _ in range(d.int(1, 3))]


def containers(v):
    """All dictionaries and lists in a value, the value itself included, outer ones first."""
    result = []
    if isinstance(v, dict):
        result.append(v)
        for x in v.values():
            result += containers(x)
    elif isinstance(v, list):
        result.append(v)
        for x in v:
            result += containers(x)
    return result


def event(d, values=gen.scalar, max_extra=3):
    p = {} if d.below(12) == 11 else {CN: gen.name(d)}
    p.update({gen.key(d): values(d) for _ in range(d.int(0, max_extra))})
    return p


def named_event(d, values=gen.scalar, max_extra=3):
    p = {CN: gen.name(d)}
    p.update({gen.key(d): values(d) for _ in range(d.int(0, max_extra))})
    return p


def extensions(d):
    return {gen.name(d): {'prefix': gen.name(d), 'uri': 'http://' + gen.text(d, 0, 4)} for _ in range(d.int(0, 2))}


def classifiers(d):
    return {gen.name(d): [gen.choice_key(d) for _ in range(d.int(1, 3))] for _ in range(d.int(0, 2))}


def globals_(d):
    return {scope: {gen.key(d): gen.name_e(d) for _ in range(d.int(0, 3))}
            for scope in ('event', 'trace') if d.bool()}


def full_log(d, values=gen.scalar, max_traces=4, max_len=4, make_event=event, attr_values=gen.name_e,
             attr_keys=('xes.version', 'xes.features', 'openxes.version', 'xmlns_x')):
    n = gen.size(d, 0, max_traces, 30)
    traces = [{'events': [make_event(d, values) for _ in range(gen.size(d, 0, max_len, 40 if n < 4 else max_len))],
               'attributes': {gen.key(d): values(d) for _ in range(d.int(0, 2))}} for _ in range(n)]
    if traces and d.below(1500) == 1499:
        if d.bool():
            traces = [copy.deepcopy(traces[i % n]) for i in range(d.choice([130, 257, 520]))]
        else:
            events = traces[0]['events']
            traces[0]['events'] = [copy.deepcopy(events[i % len(events)]) for i in range(d.choice([130, 257, 1100]))] if events else []
    return {'traces': traces,
            'attributes': {d.choice(attr_keys): attr_values(d) for _ in range(d.int(0, 2))},
            'extensions': extensions(d), 'classifiers': classifiers(d),
            'properties': {gen.key(d): values(d) for _ in range(d.int(0, 2))},
            'global_values': globals_(d)}


def build(case):
    case = copy.deepcopy(case)
    return MyEventLog([MyTrace([MyEvent(p) for p in t['events']], t['attributes']) for t in case['traces']],
                      case['attributes'], case['extensions'], case['classifiers'], case['properties'],
                      case['global_values'])


def picture(log):
    """The content of a log in the shape of the case."""
    return copy.deepcopy({
        'traces': [{'events': [dict(e.payload) for e in t], 'attributes': dict(t.attributes)} for t in log],
        'attributes': dict(log.attributes), 'extensions': dict(log.extensions),
        'classifiers': dict(log.classifiers), 'properties': dict(log.properties),
        'global_values': dict(log.global_values)})
