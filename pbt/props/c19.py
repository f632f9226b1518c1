"""Abstraction: replacing instances by activities keeps every event inside, and can be undone."""
from ..activities import build, describe, descendants, draw_setting, draw_spans, place
from ..core import Inapplicable, check, check_eq
from ..fx import CN, ids_of, snapshot
from ..fx import WarmPipeline as Pipeline
from python.ficus.legacy.analysis.patterns.event_log_patterns import (calculate_underlying_events_count,
                                                                      count_underlying_events,
                                                                      create_new_log_from_activities,
                                                                      execute_with_underlying_events)
from python.ficus.legacy.analysis.patterns.patterns_models import UndefinedActivityHandlingStrategy as Strategy
from python.ficus.legacy.analysis.patterns.util import substitute_original_events
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import CreateLogFromActivities
from python.ficus.legacy.pipelines.contexts.accessors import log as get_log
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from python.ficus.legacy.pipelines.mutations.mutations_parts import SubstituteUnderlyingEvents

CASES = {'quick': 32000, 'thorough': 800000}
RULE = 'a log and a history of 1-3 (rarely up to 20) abstraction steps, each with arbitrary disjoint instances in the current log and one of the ' \
       'three ways to treat the other events; non-trivial: a step replaces at least two events by an activity'
ASSUMPTIONS = ['events carry a name', 'instances are ordered, disjoint and inside of their traces']

STRATEGIES = {'all': Strategy.InsertAllEvents, 'single': Strategy.InsertAsSingleEvent, 'none': Strategy.DontInsert}


def generate(d):
    case = draw_setting(d, source_weight=6)
    lengths = [len(t) for t in case['log']]
    case['steps'] = [{'spans': draw_spans(d, [[0] * n for n in lengths], 6), 'how': d.choice(['all', 'all', 'single', 'none', 'default']),
                      'hashes': d.choice([None, True, False]), 'part': d.bool()} for _ in range(d.int(1, 3))]
    if d.below(150) == 149:
        # the first events of the traces again and again: events many levels deep
        case['steps'] = [{'spans': [[[0, d.int(1, 2), d.below(50)]] if n else [] for n in lengths], 'how': 'all', 'hashes': d.bool(),
                          'part': d.bool()} for _ in range(d.choice([6, 9, 13, 20]))]
    return case


def clip(spans, lengths):
    result = []
    for here, n in zip(spans, lengths):
        at, kept = 0, []
        for gap, length, number in here:
            if at + gap + length > n:
                break
            kept.append([gap, length, number])
            at += gap + length
        result.append(kept)
    return result


def run(case):
    log, roots = build(case)
    nodes = [n for r in roots for n in [r] + descendants(r)]
    if not nodes:
        raise Inapplicable()
    check_eq(len({n.unique_name() for n in nodes}), len(nodes), 'every activity has a unique name of its own')
    original = snapshot(log)
    # the model: an event is ('event', id), ('undefined',) or ('activity', node, [events])
    model = [[('event', x) for x in t] for t in ids_of(log)]
    current = log
    nontrivial = nested = False

    def same(event, m):
        if m[0] == 'event':
            check('UnderlyingEvents' not in event, 'a plain event stays plain')
            check_eq(event['__id'], m[1], 'the event at this place')
        elif m[0] == 'undefined':
            check_eq(dict(event.payload), {CN: 'UndefinedActivity'}, 'place holder for events outside of instances')
        else:
            check(CN in event and 'UnderlyingEvents' in event, 'an abstract event', dict(event.payload))
            check_eq(event[CN], m[3], 'name of an abstract event')
            check_eq(len(event['UnderlyingEvents']), len(m[2]), 'number of events below an abstract event')
            for e, x in zip(event['UnderlyingEvents'], m[2]):
                same(e, x)
            check_eq([id(a) for a in event['UnderlyingActivities']], [id(a) for a in below(m)], 'activities below an abstract event')

    def below(m):
        return [a for x in m[2] if x[0] == 'activity' for a in below(x)] + [m[1]]

    def leaves(m):
        return [m] if m[0] != 'activity' else [y for x in m[2] for y in leaves(x)]

    for number, step in enumerate(case['steps']):
        spans = clip(step['spans'], [len(t) for t in model])
        instances = place(spans, nodes)
        places = describe(instances)
        how = step['how']
        kw = {} if how == 'default' else {'strategy': STRATEGIES[how]}
        if step['hashes'] is not None:
            kw['use_hashes_as_names'] = step['hashes']
        if step['part']:
            new = get_log(Pipeline(CreateLogFromActivities(**kw))(PipelinePartResult().with_log(current).with_trace_activities(instances)))
            how = 'all' if how == 'default' else how
        else:
            new = create_new_log_from_activities(current, instances, **kw)
            how = 'single' if how == 'default' else how
        check_eq(describe(instances), places, 'the instances are left as they were')
        result = []
        for t, here in zip(model, instances):
            at, events = 0, []

            def gap(a, b):
                if a < b:
                    events.extend(t[a:b] if how == 'all' else [('undefined',)] if how == 'single' else [])
            for i in here:
                gap(at, i.start_pos)
                at = i.start_pos + i.length
                inner = t[i.start_pos:at]
                nontrivial = nontrivial or len(inner) > 1
                nested = nested or any(x[0] == 'activity' for x in inner)
                events.append(('activity', i.node, inner, i.node.name if step['hashes'] is False else i.node.unique_name()))
            gap(at, len(t))
            result.append(events)
        check_eq([len(t) for t in new], [len(t) for t in result], 'number of events after abstraction')
        for t, m in zip(new, result):
            for e, x in zip(t, m):
                same(e, x)
        # the log before the step is untouched
        check_eq([len(t) for t in current], [len(t) for t in model], 'the log given is left as it was')
        for t, m in zip(current, model):
            for e, x in zip(t, m):
                same(e, x)
        current, model = new, result

        flat = [[y for x in t for y in leaves(x)] for t in model]
        check_eq(calculate_underlying_events_count(current), sum(map(len, flat)), 'number of underlying events')
        for t, m in zip(current, model):
            for e, x in zip(t, m):
                check_eq(count_underlying_events(e), len(leaves(x)), 'number of events below one event')
                seen = []
                execute_with_underlying_events(e, lambda u: seen.append(u['__id'] if '__id' in u else -1))
                check_eq(sorted(seen), sorted(y[1] if y[0] == 'event' else -1 for y in leaves(x)), 'every underlying event is visited once')
        back = get_log(Pipeline(SubstituteUnderlyingEvents())(PipelinePartResult().with_log(current)))
        check_eq([[e['__id'] if '__id' in e else e[CN] for e in t] for t in back],
                 [[y[1] if y[0] == 'event' else 'UndefinedActivity' for y in t] for t in flat],
                 'substituting the underlying events gives the events back in order')
        for t, m in zip(current, flat):
            check_eq(len(substitute_original_events(t)), len(m), 'substituted trace')
        if all(s['how'] == 'all' or (s['how'] == 'default' and s['part']) for s in case['steps'][:number + 1]):
            check_eq([[dict(e.payload) for e in t] for t in back], original['traces'], 'abstraction is undone by substitution')
    check_eq(snapshot(log), original, 'the original log is left as it was')
    return {'nontrivial': nontrivial, 'nested': nested}
