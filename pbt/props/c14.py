"""Tandem arrays (loops): exactly the blocks that are immediately repeated, with all their repetitions."""
from .. import gen
from ..core import check, check_eq
from ..fx import discovered, make_log, snapshot
from ..patterns import EXTRACTORS, classes_of, extractor_kind, is_primitive, tandem_arrays
from python.ficus.legacy.analysis.patterns.event_log_patterns import find_maximal_tandem_arrays, find_primitive_tandem_arrays
from python.ficus.legacy.pipelines.analysis.patterns.models import TandemArrayKind
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import DiscoverTandemArrays
from python.ficus.legacy.pipelines.contexts.accessors import patterns

CASES = {'quick': 32000, 'thorough': 800000}
RULE = 'logs with repeated blocks and interruptions, a class extractor and a limit of the block length; non-trivial: some ' \
       'trace holds a tandem array'
ASSUMPTIONS = ['events carry a name', 'the block length limit is exclusive and blocks have at least two events, as in the code']


def loopy(d, k):
    """A trace with nested and interrupted loops."""
    result = []
    body = [d.below(k) for _ in range(d.int(1, 4))]
    for _ in range(d.int(1, 4)):
        w = d.below(6)
        if w == 0:
            result += [d.below(k) for _ in range(d.int(0, 3))]
        elif w == 1:
            body = body + body[:d.int(0, len(body))]
        elif w == 2:
            body = [d.below(k) for _ in range(d.int(1, 5))]
        result += body * gen.size(d, 1, 4, 90)
        if d.below(4) == 0:
            result = result[:-1]
    return result[:240]


def generate(d):
    abc = gen.alphabet(d, 1, 5)
    log = [[abc[i] for i in t] for t in gen.index_log(d, len(abc), 3, 18, 0, 200)]
    log = gen.enlarge(d, log, 1000)
    for _ in range(d.int(0, 2)):
        log.append([abc[i] for i in loopy(d, len(abc))])
    limit = d.choice([None, 2, 3, 4, 5, 6, 7, 8, 12]) if d.below(3) else gen.integer(d, 0, 40)
    return {'log': log, 'limit': limit, 'class': extractor_kind(d), 'part': d.bool(), 'used': d.below(3) == 2}


def triples(arrays):
    return [[(a.first_pos, a.length, a.repeat_count) for a in t] for t in arrays]


def run(case):
    log = make_log(case['log'])
    before = snapshot(log)
    f = EXTRACTORS[case['class']]
    limit = case['limit']
    classes = classes_of(case['log'], case['class'])
    if case['part']:
        kw = {} if limit is None else {'max_loop_length': limit}
        effective = 20 if limit is None else limit
        maximal = patterns(discovered(log, case['used'], DiscoverTandemArrays(TandemArrayKind.MaximalArray, class_extractor=f, **kw)))
        primitive = patterns(discovered(log, case['used'], DiscoverTandemArrays(TandemArrayKind.PrimitiveArray, class_extractor=f, **kw)))
    else:
        kw = {} if limit is None else {'max_tandem_array_length': limit}
        effective = 10 if limit is None else limit
        maximal = find_maximal_tandem_arrays(log, event_class_extractor=f, **kw)
        primitive = find_primitive_tandem_arrays(log, event_class_extractor=f, **kw)
    expected = [tandem_arrays(t, effective) for t in classes]
    check_eq([sorted(t) for t in triples(maximal)], [sorted(t) for t in expected], 'maximal tandem arrays of each trace')
    check_eq([sorted(t) for t in triples(primitive)],
             [sorted(a for a in t if is_primitive(c, a[0], a[1])) for t, c in zip(expected, classes)],
             'primitive tandem arrays of each trace')
    check_eq(snapshot(log), before, 'the log is left as it was')
    return {'nontrivial': any(expected), 'nested': any(len(t) > len(p) for t, p in zip(maximal, primitive)),
            'long_block': any(a[1] > 9 for t in expected for a in t), 'many': any(a[2] > 3 for t in expected for a in t)}
