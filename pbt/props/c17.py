"""Activity instances in traces: ordered, disjoint, complete, and attributed to the right activity."""
from .. import gen
from ..activities import build, class_set_of, descendants, draw_setting
from ..core import check, check_eq
from ..fx import context_of, snapshot, truthy
from ..fx import WarmPipeline as Pipeline
from ..patterns import EXTRACTORS, classes_of, extract_instances
from python.ficus.legacy.analysis.patterns.event_log_patterns import extract_activities_from_log
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import DiscoverActivitiesInTraces
from python.ficus.legacy.pipelines.contexts.accessors import traces_activities

CASES = {'quick': 40000, 'thorough': 1000000}
RULE = 'a log, activities built from arbitrary or discovered patterns, narrowing on or off and a filter of instances; ' \
       'non-trivial: an instance with at least two classes'
ASSUMPTIONS = ['events carry a name', 'activities are the roots of a tree built from class sets met in the log']


def generate(d):
    case = draw_setting(d)
    case.update(narrow=d.choice([None, True, False]), min_length=d.choice([0, 0, 2, 3]), min_classes=d.choice([0, 0, 2]),
                part=d.bool(), shuffle=d.below(100), used=d.below(3) == 2)
    return case


def run(case):
    log, roots = build(case)
    before = snapshot(log)
    f = EXTRACTORS[case['class']]
    classes = classes_of(case['log'], case['class'])
    k = case['shuffle'] % (len(roots) or 1)
    roots = roots[k:] + roots[:k]
    sets = {id(n): class_set_of(n, classes) for r in roots for n in [r] + descendants(r)}
    keep = lambda length, size: length >= case['min_length'] and size >= case['min_classes']
    seen = []

    def instance_filter(info):
        if id(info.node) not in sets:
            return True  # another run of the part
        seen.append(info)
        return keep(info.length, len(sets[id(info.node)]))

    kw = {}
    if case['narrow'] is not None:
        kw['should_narrow_activity'] = case['narrow']
    if case['min_length'] or case['min_classes']:
        kw['activity_in_trace_filter' if case['part'] else 'activity_filter'] = truthy(instance_filter)
    if case['part']:
        if f is not None:
            kw['class_extractor'] = f
        got = traces_activities(Pipeline(DiscoverActivitiesInTraces(**kw))(
            context_of(log, case['used']).with_activities(roots)))
    else:
        got = extract_activities_from_log(log, roots, event_class_extractor=f, **kw)
    narrow = case['narrow'] is not False

    check_eq(len(got), len(classes), 'one list of instances for each trace')
    nontrivial = narrowed = dropped = False
    for instances, trace in zip(got, classes):
        expected = []
        for key, start, length, met in extract_instances(trace, [(sets[id(r)], r.name, r) for r in roots]):
            choices = [key]
            if narrow:
                fitting = [n for n in descendants(key) if met <= sets[id(n)]]
                if fitting:
                    smallest = min(len(sets[id(n)]) for n in fitting)
                    choices = [n for n in fitting if len(sets[id(n)]) == smallest]
                    narrowed = True
            if keep(length, len(sets[id(choices[0])])):
                expected.append((choices, start, length))
                nontrivial = nontrivial or len(met) > 1
            else:
                dropped = True
        check_eq([(i.start_pos, i.length) for i in instances], [(s, n) for _, s, n in expected], 'places of the instances')
        end = 0
        for i, (choices, start, length) in zip(instances, expected):
            check(start >= end, 'instances are ordered and disjoint')
            end = start + length
            check(any(i.node is c for c in choices), 'activity of the instance', i.node.name, [c.name for c in choices], start)
            check(set(trace[start:end]) <= sets[id(i.node)], 'classes of an instance belong to its activity')
    check_eq(snapshot(log), before, 'the log is left as it was')
    return {'nontrivial': nontrivial, 'narrowed': narrowed, 'dropped': dropped}
