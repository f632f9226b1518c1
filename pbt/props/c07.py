"""Conversion to and from pm4py logs preserves traces, events and metadata, without sharing state."""
import copy

from pm4py.objects.log.obj import Event, EventLog, Trace

from .. import gen, logs
from ..core import check, check_eq
from ..fx import MyEvent, share
from python.ficus.legacy.log.pm4py_converters import (from_pm4py_log, my_event_to_pm4py_event, pm4py_event_to_my_event,
                                                      to_pm4py_log)

CASES = {'quick': 64000, 'thorough': 1600000}
RULE = 'full logs with nested values, both directions; non-trivial: at least one event with two keys'


def generate(d):
    log = logs.full_log(d, values=logs.nested)
    for _ in range(gen.size(d, 0, 2, 12) if log['traces'] and d.below(3) == 0 else 0):
        log['traces'].insert(d.below(len(log['traces']) + 1), copy.deepcopy(d.choice(log['traces'])))
    return {'log': log, 'direction': d.choice(['to', 'from']), 'share': d.choice([0, 0, 0, 1, 2])}


def pm_picture(log):
    return copy.deepcopy([[{k: e[k] for k in e} for e in t] for t in log])


def scramble(value):
    """Changes every container in the value."""
    for place in logs.containers(value):
        if isinstance(place, dict):
            place['__x'] = 1
        else:
            place.append('__x')


def scramble_log(log):
    for t in log:
        for e in t:
            for k in list(e):
                scramble(e[k])
                e[k] = '__x'
        for v in t.attributes.values():
            scramble(v)
        t.attributes['__x'] = 1
        t.append(MyEvent({'__x': 1}))
    for m in (log.attributes, log.extensions, log.classifiers, log.global_values, log.properties):
        for v in m.values():
            scramble(v)
        m['__x'] = 1


def separate(log):
    """No trace, event or container in a value occurs in two places."""
    places = [id(t) for t in log] + [id(e) for t in log for e in t]
    places += [id(c) for t in log for e in t for k in e for c in logs.containers(e[k])]
    return len(places) == len(set(places))


def run(case):
    events = [t['events'] for t in case['log']['traces']]
    if case['direction'] == 'to':
        log = share(logs.build(case['log']), case['share'])
        pm = to_pm4py_log(log)
        check(isinstance(pm, EventLog) and all(isinstance(t, Trace) for t in pm) and
              all(isinstance(e, Event) for t in pm for e in t), 'a pm4py log is made')
        check_eq(pm_picture(pm), events, 'events of the pm4py log')
        check(separate(pm), 'traces and events of the pm4py log are objects of their own')
        check_eq(logs.picture(log), case['log'], 'converting does not change the log')
        back = from_pm4py_log(pm)
        check_eq([[dict(e.payload) for e in t] for t in back], events, 'events after there and back')
        for t in pm:
            for e in t:
                for k in list(e):
                    scramble(e[k])
                    e[k] = '__x'
        check_eq(logs.picture(log), case['log'], 'changing the pm4py log does not change the log')
        pm = to_pm4py_log(log)
        scramble_log(log)
        check_eq(pm_picture(pm), events, 'changing the log does not change the pm4py log')
        check_eq([[dict(e.payload) for e in t] for t in back], events, 'changing the pm4py log does not change a converted log')
    else:
        source, seen = copy.deepcopy(case['log']), {}
        event = lambda e: seen.setdefault(repr(e), Event(e)) if case['share'] else Event(e)
        pm = EventLog([Trace([event(e) for e in t['events']], attributes=t['attributes']) for t in source['traces']],
                      attributes=source['attributes'], extensions=source['extensions'], classifiers=source['classifiers'],
                      omni_present=source['global_values'], properties=source['properties'])
        # pm4py adds properties of its own to a log: expect what the pm4py log holds
        expected = dict(case['log'], properties=copy.deepcopy(dict(pm.properties)))
        check(all(k in expected['properties'] for k in case['log']['properties']), 'pm4py keeps the properties')
        log = from_pm4py_log(pm)
        check_eq(logs.picture(log), expected, 'log made from a pm4py log')
        check(separate(log), 'traces and events of the log are objects of their own')
        check_eq(pm_picture(pm), events, 'converting does not change the pm4py log')
        twin = from_pm4py_log(pm)
        scramble_log(twin)
        check_eq(pm_picture(pm), events, 'changing the log does not change the events of the pm4py log')
        check_eq(([dict(t.attributes) for t in pm], dict(pm.attributes), dict(pm.extensions), dict(pm.classifiers),
                  dict(pm.omni_present), dict(pm.properties)),
                 ([t['attributes'] for t in expected['traces']], expected['attributes'], expected['extensions'],
                  expected['classifiers'], expected['global_values'], expected['properties']),
                 'changing the log does not change the metadata of the pm4py log')
        for t in pm:
            for e in t:
                for k in list(e):
                    scramble(e[k])
                    e[k] = '__x'
            for v in t.attributes.values():
                scramble(v)
            t.attributes['__x'] = 1
        for m in (pm.attributes, pm.extensions, pm.classifiers, pm.omni_present, pm.properties):
            for v in m.values():
                scramble(v)
            m['__x'] = 1
        check_eq(logs.picture(log), expected, 'changing the pm4py log does not change the log')
        check_eq(pm_picture(to_pm4py_log(log)), events, 'events after there and back')
    for t in events[:3]:
        for p in t[:3]:
            e = my_event_to_pm4py_event(MyEvent(copy.deepcopy(p)))
            check_eq({k: e[k] for k in e}, p, 'event to pm4py')
            check_eq(dict(pm4py_event_to_my_event(e).payload), p, 'event from pm4py')
    return {'nontrivial': any(len(e) > 1 for t in events for e in t), case['direction']: True}
