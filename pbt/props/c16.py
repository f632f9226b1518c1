"""Activities: one for each distinct set of event classes met in a pattern, organised in a tree by inclusion."""
from .. import gen
from ..core import check, check_eq
from ..fx import context_of, make_log, snapshot
from ..fx import WarmPipeline as Pipeline
from ..patterns import EXTRACTORS, all_nodes, classes_of, extractor_kind
from python.ficus.legacy.analysis.common.common_models import SubArrayInEventLog
from python.ficus.legacy.analysis.patterns.event_log_patterns import (build_repeat_set_tree, create_repeat_sets,
                                                                      find_maximal_repeats, find_maximal_tandem_arrays,
                                                                      find_near_super_maximal_repeats,
                                                                      find_primitive_tandem_arrays,
                                                                      find_super_maximal_repeats)
from python.ficus.legacy.analysis.patterns.util import (convert_log_sub_arrays_to_event_names, convert_sub_arrays_to_event_names,
                                                        create_activity_name_from_log, default_class_extractor)
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import DiscoverActivities, DiscoverRepeatsSets
from python.ficus.legacy.pipelines.contexts.accessors import activities, repeat_sets

CASES = {'quick': 36000, 'thorough': 900000}
RULE = 'logs with arbitrary sub-sequences or discovered patterns marked in them, a class extractor and a level; non-trivial: ' \
       'at least two different class sets'
ASSUMPTIONS = ['events carry a name', 'patterns lie inside of their traces']

SOURCES = {'maximal': find_maximal_repeats, 'super': find_super_maximal_repeats, 'near': find_near_super_maximal_repeats,
           'tandem': find_maximal_tandem_arrays, 'primitive': find_primitive_tandem_arrays}


def generate(d):
    hub = d.below(12) == 11
    abc = gen.alphabet(d, *((10, 24) if hub else (d.choice([1, 3, 4]), 8)))
    log = [[abc[i] for i in t][:40] for t in gen.index_log(d, len(abc), 4, 14, d.choice([0, 1, 2]), 120)]
    log = gen.enlarge(d, log, 1500, (130,), (70, 100), (130, 257))
    if d.below(3) == 0:
        marks = d.choice(sorted(SOURCES))
    else:
        marks = []
        for t in log:
            here = []
            for _ in range(gen.size(d, d.choice([0, 2]), 6, 40) if t else 0):
                start = d.below(len(t))
                here.append([start, d.int(1, min(len(t) - start, 2 + d.below(len(t))))])
            marks.append(here)
        if hub and log:  # all of a trace, and every single event of it
            i = d.below(len(log))
            if d.bool():
                log[i] = list(dict.fromkeys(log[i] + abc))
            marks[i] = [[0, len(log[i]) - k] for k in range(d.int(1, 2)) if len(log[i]) > k] + [[p, 1] for p in range(min(len(log[i]), 60))]
    return {'log': log, 'marks': marks, 'class': extractor_kind(d), 'level': gen.integer(d, 0, 5), 'part': d.bool(), 'used': d.below(3) == 2}


def run(case):
    names = case['log']
    log = make_log(names)
    before = snapshot(log)
    f = EXTRACTORS[case['class']]
    classes = classes_of(names, case['class'])
    if isinstance(case['marks'], str):
        marks = SOURCES[case['marks']](log, event_class_extractor=f)
    else:
        marks = [[SubArrayInEventLog(first_pos=m[0], length=m[1]) for m in t] for t in case['marks']]

    check_eq(convert_log_sub_arrays_to_event_names(log, marks),
             [[t[m.first_pos:m.first_pos + m.length] for m in ms] for ms, t in zip(marks, names)], 'names of the events of patterns')

    context = context_of(log, case['used']).with_patterns(marks)
    if case['part']:
        sets = repeat_sets(Pipeline(DiscoverRepeatsSets(f))(context))
    else:
        sets = create_repeat_sets(log, marks, f)
    expected = {}
    for i, (ms, t) in enumerate(zip(marks, classes)):
        for m in ms:
            expected.setdefault(frozenset(t[m.first_pos:m.first_pos + m.length]), (i, m.first_pos, m.length))
    check_eq([(s.trace_index, s.first_pos, s.length) for s in sets], list(expected.values()),
             'the first pattern of every distinct class set')
    check_eq([sorted(x) for x in convert_sub_arrays_to_event_names(log, sets)],
             [sorted(set(names[i][p:p + n])) for i, p, n in expected.values()], 'names in the class sets')

    level = case['level']
    if case['part']:
        roots = activities(Pipeline(DiscoverActivities(level, f))(context.with_repeat_sets(sets)))
    else:
        g = f or default_class_extractor
        roots = build_repeat_set_tree(log, sets, lambda s: create_activity_name_from_log(log, s, g), level, g)
    nodes = all_nodes(roots)
    where = {v: k for k, v in expected.items()}
    class_set = {}
    for n in nodes:
        r = n.repeat_set
        place = (r.trace_index, r.first_pos, r.length)
        check(place in where, 'an activity stands for one of the class sets', place)
        class_set[id(n)] = where[place]
        check_eq(n.name, '::'.join(sorted(where[place])), 'activity name')
        check_eq(n.activity_level, level, 'activity level')
        check_eq((n.length, len(n.set_of_events)), (len(where[place]),) * 2, 'number of classes of an activity')
    check_eq(sorted(sorted(class_set[id(n)]) for n in nodes), sorted(sorted(k) for k in expected), 'every class set is in the tree once')
    parent = {id(c): n for n in nodes for c in n.child_nodes}
    for n in nodes:
        mine = class_set[id(n)]
        for o in nodes:
            check_eq(n.contains_other(o), class_set[id(o)] <= mine, f'inclusion of {o.name!r} in {n.name!r}')
        wider = [s for s in expected if mine < s]
        if id(n) in parent:
            over = class_set[id(parent[id(n)])]
            check(mine < over, 'a child is included in its parent', mine, over)
            check_eq(len(over), min(map(len, wider)), 'the parent of an activity is one of the smallest activities that include it')
        else:
            check(not wider, 'an activity included in another one is not a root', mine, wider)
    check_eq(len({n.unique_name() for n in nodes}), len(nodes), 'unique names of activities')
    check_eq(snapshot(log), before, 'the log is left as it was')
    return {'nontrivial': len(expected) > 1, 'nested': bool(parent), 'deep': any(id(n) in parent and id(parent[id(n)]) in parent for n in nodes)}
