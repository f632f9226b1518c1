"""Positional entropies: the fast and the direct computation agree with the definition."""
import math

from .. import entropy, gen
from ..core import check, check_close, check_eq
from ..fx import make_log, names_of, share
from python.ficus.legacy.analysis.event_log_analysis_entropy import (PositionEntropyIgnoredEvents,
                                                                     calculate_pos_entropy_std, calculate_pos_entropy_var,
                                                                     calculate_position_entropies,
                                                                     calculate_position_entropies_fast,
                                                                     calculate_position_entropies_fast_sum,
                                                                     calculate_position_entropies_sum,
                                                                     calculate_position_entropy,
                                                                     calculate_position_entropy_fast,
                                                                     create_events_positions)
from python.ficus.legacy.analysis.event_log_info import calculate_events_in_each_trace

CASES = {'quick': 28000, 'thorough': 700000}
RULE = 'logs of names (empty traces included) with ignored classes; non-trivial: two non-empty traces and a class are left'
ASSUMPTIONS = ['floating point tolerance 1e-7 relative']


def generate(d):
    log = gen.enlarge(d, gen.named_log(d), 800)
    names = sorted({n for t in log for n in t})
    return {'log': log, 'ignored': d.subset(names, 1, 3) + (['absent'] if d.below(6) == 5 else []), 'cached': d.bool(), 'share': d.choice([0, 0, 0, 1, 2])}


def same(actual, expected, what):
    check_eq(set(actual), set(expected), what + ': classes')
    for k, v in expected.items():
        check_close(float(actual[k]), v, f'{what} of {k!r}')


def run(case):
    log = share(make_log(case['log']), case['share'])
    full = entropy.pos_entropies(case['log'])
    left = entropy.without(case['log'], set(case['ignored']))
    reduced = entropy.pos_entropies(left)
    ignored = PositionEntropyIgnoredEvents(set(case['ignored']), calculate_events_in_each_trace(log))
    check_eq(ignored.calculate_max_vector_length(), max(map(len, left), default=0), 'longest trace without the ignored events')

    positions = create_events_positions(log)
    check_eq([({n: list(p) for n, p in t.positions.items()}, t.length) for t in positions.traces_positions],
             [({n: [i for i, x in enumerate(t) if x == n] for n in t}, len(t)) for t in case['log']], 'positions of the events')
    positions = positions if case['cached'] else None

    same(calculate_position_entropies(log), full, 'positional entropy')
    same(calculate_position_entropies_fast(log, positions=positions), full, 'positional entropy (fast)')
    same(calculate_position_entropies(log, ignored), reduced, 'positional entropy with ignored classes')
    same(calculate_position_entropies_fast(log, ignored, positions), reduced, 'positional entropy (fast) with ignored classes')
    same(calculate_position_entropies(make_log(left)), reduced, 'positional entropy after removal')
    for n, v in list(full.items())[:2]:
        check_close(float(calculate_position_entropy(log, n)), v, 'positional entropy of one class')
        check_close(float(calculate_position_entropy_fast(log, n, cached_positions=positions)), v,
                    'positional entropy of one class (fast)')
    for n, v in list(reduced.items())[:2]:
        check_close(float(calculate_position_entropy(log, n, ignored)), v, 'positional entropy of one class, ignoring')
        check_close(float(calculate_position_entropy_fast(log, n, ignored, positions)), v,
                    'positional entropy of one class (fast), ignoring')
    check_close(float(calculate_position_entropies_sum(log)), sum(full.values()), 'sum')
    check_close(float(calculate_position_entropies_sum(log, ignored)), sum(reduced.values()), 'sum, ignoring')
    check_close(float(calculate_position_entropies_fast_sum(log, positions=positions)), sum(full.values()), 'sum (fast)')
    check_close(float(calculate_position_entropies_fast_sum(log, ignored, positions)), sum(reduced.values()),
                'sum (fast), ignoring')
    if full:
        mean = sum(full.values()) / len(full)
        var = math.fsum((v - mean) ** 2 for v in full.values()) / len(full)
        check_close(float(calculate_pos_entropy_var(log)), var, 'variance', 1e-6)
        check_close(float(calculate_pos_entropy_std(log)), math.sqrt(var), 'standard deviation', 1e-6)
    check_eq(names_of(log), case['log'], 'the log is not changed')
    return {'nontrivial': len([t for t in left if t]) > 1 and bool(reduced), 'ignored': bool(case['ignored']),
            'trace_emptied': len([t for t in left if t]) < len([t for t in case['log'] if t])}
