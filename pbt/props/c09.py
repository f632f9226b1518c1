"""Entropies of event classes based on the directly-follows relation follow their definition."""
from .. import entropy, gen
from ..core import check, check_close, check_eq
from ..fx import make_log, names_of, share
from python.ficus.legacy.analysis.event_log_analysis_entropy import (calculate_default_entropies,
                                                                     calculate_default_entropy_average,
                                                                     calculate_default_entropy_sum,
                                                                     calculate_laplace_entropies,
                                                                     calculate_laplace_or_default_entropies,
                                                                     create_entropies_df)

CASES = {'quick': 30000, 'thorough': 750000}
RULE = 'logs of names with ignored classes, plain and Laplace-smoothed; non-trivial: at least two classes are left'
ASSUMPTIONS = ['no class has a name reserved for the artificial start and end', 'floating point tolerance 1e-7 relative']


def _name(d):
    n = gen.name(d)
    return 'a' if n in ('FAKE_START', 'FAKE_END') else n


def generate(d):
    log = gen.enlarge(d, gen.named_log(d, names=_name if d.below(3) == 0 else None), 800)
    log = [[n if n not in ('FAKE_START', 'FAKE_END') else 'a' for n in t] for t in log]
    names = sorted({n for t in log for n in t})
    return {'log': log, 'ignored': d.subset(names, 1, 4) + (['absent'] if d.below(6) == 5 else []), 'share': d.choice([0, 0, 0, 1, 2])}


def same(actual, expected, what):
    check_eq(set(actual), set(expected), what + ': classes')
    for k, v in expected.items():
        check_close(actual[k], v, f'{what} of {k!r}')


def run(case):
    log = share(make_log(case['log']), case['share'])
    ignored = set(case['ignored'])
    left = entropy.without(case['log'], ignored)
    for laplace, func in ((False, calculate_default_entropies), (True, calculate_laplace_entropies)):
        what = 'Laplace entropy' if laplace else 'entropy'
        full = entropy.dfg_entropies(case['log'], laplace)
        reduced = entropy.dfg_entropies(left, laplace)
        same(func(log), full, what)
        same(func(log, ignored), reduced, what + ' with ignored classes')
        same(func(make_log(left)), reduced, what + ' after removal of the ignored classes')
        same(calculate_laplace_or_default_entropies(log, laplace), full, what)
        same(calculate_laplace_or_default_entropies(log, laplace, ignored), reduced, what)
        check_close(calculate_default_entropy_sum(log, laplace), sum(full.values()), 'sum of entropies')
        check_close(calculate_default_entropy_sum(log, laplace, ignored), sum(reduced.values()), 'sum of entropies')
        check_close(calculate_default_entropy_average(log, laplace), sum(full.values()) / len(full) if full else 0,
                    'average entropy')
        check_close(calculate_default_entropy_average(log, laplace, ignored),
                    sum(reduced.values()) / len(reduced) if reduced else 0, 'average entropy')
    check_close(calculate_default_entropy_average(log), (lambda f: sum(f.values()) / len(f) if f else 0)(
        entropy.dfg_entropies(case['log'], True)), 'average entropy is smoothed by default')
    check_close(calculate_default_entropy_sum(log), sum(entropy.dfg_entropies(case['log'], True).values()), 'sum of entropies is smoothed by default')
    if case['log'] and len(case['log']) % 5 == 1:
        df = create_entropies_df(log)
        full = entropy.dfg_entropies(case['log'], False)
        same({k: v for k, v in zip(df.index, df['Entropy'])}, full, 'entropy table')
        values = list(df['Entropy'])
        check(all(a >= b for a, b in zip(values, values[1:])), 'the table is sorted by falling entropy')
    check_eq(names_of(log), case['log'], 'the log is not changed')
    return {'nontrivial': len({n for t in left for n in t}) > 1, 'ignored': bool(ignored), 'empty': not case['log']}
