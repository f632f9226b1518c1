"""Events inside and outside of activity instances are told apart exactly, and none is lost, invented or taken twice."""
import contextlib
import io
import re

from .. import gen
from ..activities import build, build_roots, class_set_of, describe, descendants, draw_setting, draw_spans, place
from ..core import Inapplicable, check, check_close, check_eq
from ..fx import context_of, CN, ids_of, make_log_payloads, payloads_of, snapshot, truthy
from ..fx import WarmPipeline as Pipeline
from ..patterns import EXTRACTORS, all_nodes, classes_of, extract_instances
from python.ficus.legacy.analysis.patterns.event_log_patterns import (add_unattached_activities, create_logs_for_activities,
                                                                      create_logs_for_activities_with_promote,
                                                                      create_unattached_events_log)
from python.ficus.legacy.analysis.patterns.patterns_models import SubArrayWithTraceIndex
from python.ficus.legacy.analysis.patterns.util import (default_class_extractor, get_activities_for_level,
                                                        select_traces_activities_for_activity_level,
                                                        split_activities_by_level)
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import (AddActivityNameToAllEvents,
                                                                            CalculatePercentageOfUnattachedEvents,
                                                                            CreateLogsForActivities,
                                                                            CreateLogsForActivitiesWithPromote,
                                                                            DiscoverActivitiesInUnattachedSubTraces)
from python.ficus.legacy.pipelines.contexts.accessors import activities_to_logs, traces_activities

CASES = {'quick': 24000, 'thorough': 600000}
RULE = 'a log, activities of three levels, arbitrary disjoint instances of them in the traces, further activities to look for ' \
       'in the gaps; non-trivial: a trace with an instance and an event outside of instances'
ASSUMPTIONS = ['events carry a name', 'instances are ordered, disjoint and inside of their traces']

LEVELS = ['name', 'first', 'const']


def generate(d):
    case = draw_setting(d, source_weight=6)
    case['spans'] = draw_spans(d, case['log'])
    case.update(narrow=d.choice([None, True, False]), min_events=d.choice([None, 0, 1, 2, 3]), min_length=d.choice([0, 0, 2]), part=d.bool(),
                level=d.choice([0, 1, 2]), chain=[d.choice(['name', 'first', 'lower', 'length', 'const', 'blank']) for _ in range(3)],
                adjust=d.choice([None, True, False]), bare=d.bool(), merged=d.below(3) == 0, used=d.below(3) == 2)
    return case


def run(case):
    log, roots = build(case)
    names = case['log']
    before = snapshot(log)
    f = EXTRACTORS[case['class']] or default_class_extractor
    classes = classes_of(names, case['class'])
    nodes = [n for r in roots for n in [r] + descendants(r)]
    for level in (1, 2):
        extra = build_roots(log, case['marks'], EXTRACTORS[LEVELS[level]], level)
        nodes += all_nodes(extra)
    if not nodes:
        raise Inapplicable()
    own_classes = {}
    for n in nodes:
        r, g = n.repeat_set, [f, EXTRACTORS['first'], EXTRACTORS['const']][n.activity_level]
        own_classes[id(n)] = {g(e) for e in list(log[r.trace_index])[r.first_pos:r.first_pos + r.length]}
    sets = {id(n): class_set_of(n, classes) for r in roots for n in [r] + descendants(r)}
    if case['merged']:
        # as if the activities had been discovered in one trace merged of all traces
        for n in nodes:
            r = n.repeat_set
            n.repeat_set = SubArrayWithTraceIndex(r.first_pos + sum(len(t) + 1 for t in names[:r.trace_index]), r.length, 0)
    instances = place(case['spans'], nodes)
    places = describe(instances)
    ids = ids_of(log)

    covered = [set(p for i in t for p in range(i.start_pos, i.start_pos + i.length)) for t in instances]
    free = create_unattached_events_log(log, instances)
    check_eq(ids_of(free), [[x for p, x in enumerate(t) if p not in c] for t, c in zip(ids, covered)],
             'the unattached log holds the events outside of instances')

    total, outside = sum(map(len, ids)), sum(len(t) - len(c) for t, c in zip(ids, covered))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        Pipeline(CalculatePercentageOfUnattachedEvents())(context_of(log, case['used']).with_trace_activities(instances))
    if total:
        numbers = re.findall(r'[0-9.]+(?:e-?[0-9]+)?', out.getvalue())
        check(numbers, 'the share of unattached events is printed', out.getvalue())
        check_close(float(numbers[-1]), outside / total, 'share of unattached events')

    # activities found in the gaps
    min_events = 1 if case['min_events'] is None else case['min_events']
    narrow = case['narrow'] is not False
    kw = {} if case['narrow'] is None else {'should_narrow_activity': case['narrow']}
    if case['min_length']:
        kw['activities_in_trace_filter'] = truthy(lambda i: i.length >= case['min_length'])
    if case['part']:
        if case['min_events'] is not None:
            kw['min_numbers_of_events'] = min_events
        merged = traces_activities(Pipeline(DiscoverActivitiesInUnattachedSubTraces(f, **kw))(
            context_of(log, case['used']).with_activities(roots).with_trace_activities(instances)))
    else:
        if case['min_events'] is not None:
            kw['min_number_of_events'] = min_events
        merged = add_unattached_activities(log, roots, instances, f, **kw)
    check_eq(describe(instances), places, 'the instances given are left as they were')
    check_eq(len(merged), len(names), 'instances for each trace')
    for got, old, trace in zip(merged, instances, classes):
        expected = [(i.start_pos, i.length, [i.node]) for i in old]
        bounds, at = [], 0
        for i in old:
            bounds.append((at, i.start_pos))
            at = i.start_pos + i.length
        bounds.append((at, len(trace)))
        for a, b in bounds:
            if a == b or b - a < min_events:
                continue
            for root, start, length, met in extract_instances(trace[a:b], [(sets[id(r)], r.name, r) for r in roots]):
                fitting = [n for n in descendants(root) if met <= sets[id(n)]] if narrow else []
                smallest = min((len(sets[id(n)]) for n in fitting), default=0)
                choices = [n for n in fitting if len(sets[id(n)]) == smallest] or [root]
                if length >= case['min_length']:
                    expected.append((a + start, length, choices))
        expected.sort(key=lambda x: x[0])
        check_eq([(i.start_pos, i.length) for i in got], [e[:2] for e in expected], 'old instances and instances in the gaps')
        for i, e in zip(got, expected):
            check(any(i.node is c for c in e[2]), 'activity of an instance', i.node.name, [c.name for c in e[2]])

    # logs of activities
    level = case['level']
    if case['bare']:
        log = make_log_payloads([[{CN: n} for n in t] for t in names])
        before = snapshot(log)
    if case['part']:
        logs = activities_to_logs(Pipeline(CreateLogsForActivities(level, f))(
            context_of(log, case['used']).with_trace_activities(instances)))
    else:
        logs = create_logs_for_activities(log, instances, level, f)
    expected = {}
    for t, instances_here in zip(log, instances):
        for i in instances_here:
            if i.node.activity_level == level:
                expected.setdefault(i.node.name, []).append(
                    [{**e.payload, CN: f(e)} for e in list(t)[i.start_pos:i.start_pos + i.length]])
    check_eq({k: payloads_of(v) for k, v in logs.items()}, expected, 'logs of activities')

    # logs of activities with promotion to the wanted level
    chain = [EXTRACTORS[k] for k in case['chain'][:level + 1]]
    adjust = case['adjust'] is not False
    kw = {} if case['adjust'] is None else {'adjust_events_to_max_level': case['adjust']}
    if case['part']:
        logs = activities_to_logs(Pipeline(CreateLogsForActivitiesWithPromote(level, chain, **kw))(
            context_of(log, case['used']).with_trace_activities(instances)))
    else:
        logs = create_logs_for_activities_with_promote(log, instances, level, chain, **kw)
    expected, promoted, ambiguous = {}, False, False
    for t, instances_here in zip(log, instances):
        for i in instances_here:
            own = i.node.activity_level
            if own > level:
                continue
            events = [dict(e.payload) for e in list(t)[i.start_pos:i.start_pos + i.length]]
            if own == level:
                result = [{**e, CN: chain[level](e) if adjust else e[CN]} for e in events]
            else:
                lifted = [dict(e) for e in events]
                for g in chain[own:level + 1]:
                    for e in lifted:
                        e[CN] = g(e)
                # the classes of the activity on the wanted level, by any event of the log that has one of its classes
                g = [f, EXTRACTORS['first'], EXTRACTORS['const']][own]
                above = {}
                for e in (e for t2 in log for e in t2):
                    above.setdefault(g(e), set()).add(chain[level](e))
                above = [above[c] for c in own_classes[id(i.node)]]
                if any(len(x) > 1 for x in above):
                    ambiguous = True
                    break
                if {c for x in above for c in x} != {e[CN] for e in lifted}:
                    continue
                promoted = True
                result = lifted if adjust else events
            expected.setdefault(i.node.name, []).append(result)
    if not ambiguous:
        check_eq({k: payloads_of(v) for k, v in logs.items()}, expected, 'logs of activities with promotion')
    check_eq(snapshot(log), before, 'the log is left as it was')

    # levels
    by_level = {}
    for n in nodes:
        by_level.setdefault(n.activity_level, []).append(n)
    check_eq([(lv, [id(n) for n in ns]) for lv, ns in split_activities_by_level(nodes)],
             [(lv, [id(n) for n in by_level[lv]]) for lv in sorted(by_level)], 'activities by level')
    check_eq([id(n) for n in get_activities_for_level(nodes, nodes[0].activity_level)],
             [id(n) for n in by_level[nodes[0].activity_level]], 'activities of a level')
    check_eq(describe(select_traces_activities_for_activity_level(instances, level)),
             [[x for x, i in zip(p, t) if i.node.activity_level == level] for p, t in zip(places, instances)],
             'instances of a level')

    # marking the events with the activity
    Pipeline(AddActivityNameToAllEvents())(context_of(log, case['used']).with_trace_activities(instances))
    expected = before['traces']
    for t, instances_here in zip(expected, instances):
        for i in instances_here:
            for p in range(i.start_pos, i.start_pos + i.length):
                t[p]['activity'] = i.node.unique_name()
    check_eq(payloads_of(log), expected, 'activity attribute of the events')
    shifted = place([[[gap, length, number + 1] for gap, length, number in here] for here in case['spans']], nodes)
    AddActivityNameToAllEvents().execute(context_of(log, False).with_trace_activities(shifted))
    for t, instances_here in zip(expected, shifted):
        for i in instances_here:
            for p in range(i.start_pos, i.start_pos + i.length):
                t[p]['activity'] = i.node.unique_name()
    check_eq(payloads_of(log), expected, 'activity attribute of the events after another search')
    return {'nontrivial': any(c and len(c) < len(t) for c, t in zip(covered, ids)), 'promoted': promoted,
            'ambiguous': ambiguous, 'found_in_gaps': sum(map(len, merged)) > sum(map(len, instances))}
