"""Maximal, super-maximal and near super-maximal repeats agree with their definitions."""
from .. import gen
from ..core import check, check_eq
from ..fx import discovered, make_log, snapshot
from ..patterns import EXTRACTORS, classes_of, extractor_kind, maximal_repeats, near_super_maximal, super_maximal
from python.ficus.legacy.analysis.patterns.event_log_patterns import (find_maximal_repeats, find_near_super_maximal_repeats,
                                                                      find_super_maximal_repeats)
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import DiscoverRepeats
from python.ficus.legacy.pipelines.contexts.accessors import patterns
from python.ficus.legacy.pipelines.contexts.part_results import RepeatActivitiesSource

CASES = {'quick': 24000, 'thorough': 600000}
RULE = 'logs with shared and repeated sub-sequences and a class extractor; non-trivial: some trace has at least two maximal repeats'
ASSUMPTIONS = ['events carry a name', 'which occurrence of a repeat is reported is not specified']


def generate(d):
    abc = gen.alphabet(d, 1, 5)
    log = [[abc[i] for i in t] for t in gen.index_log(d, len(abc), 4, 14, 0, 120)]
    log = gen.enlarge(d, [t[:60] for t in log], 800, (130,), (70, 100), (130, 257))
    kind = extractor_kind(d)
    # the search is cubic for one class repeated: names merged by the extractor are kept short
    log = [t if len(t) < 105 or len(set(c)) * 2 > len(set(t)) else t[:100] for t, c in zip(log, classes_of(log, kind))]
    return {'log': log, 'class': kind, 'part': d.bool(), 'used': d.below(3) == 2}


def contents(log_repeats, classes, what):
    check_eq(len(log_repeats), len(classes), f'{what}: one list for each trace')
    result = []
    for repeats, trace in zip(log_repeats, classes):
        found = []
        for r in repeats:
            check(0 <= r.first_pos and r.length > 0 and r.first_pos + r.length <= len(trace), f'{what}: position inside of the trace', r)
            found.append(tuple(trace[r.first_pos:r.first_pos + r.length]))
        check_eq(len(set(found)), len(found), f'{what}: every repeat is reported once')
        result.append(set(found))
    return result


def run(case):
    log = make_log(case['log'])
    before = snapshot(log)
    f = EXTRACTORS[case['class']]
    classes = classes_of(case['log'], case['class'])
    if case['part']:
        find = lambda kind: patterns(discovered(log, case['used'], DiscoverRepeats(kind, f)))
        got = [find(RepeatActivitiesSource.MaximalRepeats), find(RepeatActivitiesSource.SuperMaximalRepeats),
               find(RepeatActivitiesSource.NearSuperMaximalRepeats)]
    else:
        got = [g(log, f) for g in (find_maximal_repeats, find_super_maximal_repeats, find_near_super_maximal_repeats)]
    expected = [maximal_repeats(t) for t in classes]
    check_eq(contents(got[0], classes, 'maximal repeats'), [set(e) for e in expected], 'maximal repeats of each trace')
    check_eq(contents(got[1], classes, 'super-maximal repeats'), [super_maximal(e) for e in expected],
             'super-maximal repeats of each trace')
    check_eq(contents(got[2], classes, 'near super-maximal repeats'), [near_super_maximal(e) for e in expected],
             'near super-maximal repeats of each trace')
    check_eq(snapshot(log), before, 'the log is left as it was')
    return {'nontrivial': any(len(e) > 1 for e in expected),
            'super_differs': any(len(super_maximal(e)) < len(near_super_maximal(e)) < len(e) for e in expected)}
