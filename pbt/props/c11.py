"""Entropy filters: greedy removal of whole classes under threshold, limit and untouchable rules."""
from .. import entropy, gen
from ..core import check, check_close, check_eq
from ..fx import CN, make_log, names_of, truthy
from ..fx import WarmPipeline as Pipeline
from python.ficus.legacy.filtering.event_log_filters import (TillEndFilteringMetricKind, filter_events_default_entropy_direct,
                                                             filter_events_default_entropy_indirect,
                                                             filter_events_pos_entropy_direct,
                                                             filter_events_pos_entropy_direct_till_end,
                                                             filter_events_pos_entropy_indirect,
                                                             filter_events_pos_entropy_indirect_till_end,
                                                             next_event_remove_pos_entropy_direct,
                                                             next_event_remove_pos_entropy_indirect,
                                                             next_event_to_remove_default_entropy_direct,
                                                             next_removal_default_entropy_indirect)
from matplotlib import pyplot as plt
from python.ficus.legacy.analysis.event_log_analysis_entropy import create_events_positions
from python.ficus.legacy.analysis.event_log_info import calculate_events_in_each_trace, create_log_information
from python.ficus.legacy.pipelines.contexts.accessors import log as context_log
from python.ficus.legacy.pipelines.filtering.filter_parts import (DfgEntropyDirectFilter, DfgEntropyIndirectFilter,
                                                                  DrawPosEntropyDirectTillEndFilteringDiagram,
                                                                  DrawPosEntropyIndirectTillEndFilteringDiagram,
                                                                  PosEntropyDirectFilter, PosEntropyIndirectFilter)
from python.ficus.legacy.pipelines.start.start_parts import UseExistingLog

CASES = {'quick': 18000, 'thorough': 450000}
RULE = ('logs of names, a filter kind (positional or DFG metric, direct or indirect), threshold, limit, untouchable classes; '
        'the chain of results for limits 1, 2, 3, ... is checked step by step; non-trivial: at least one class was removed')
ASSUMPTIONS = ['floating point tolerance 1e-9 when metrics tie', 'no class has a name reserved for the artificial start and end']
EPS = 1e-9


def generate(d):
    log = gen.enlarge(d, gen.named_log(d, max_traces=5, max_len=8, max_classes=5, max_events=60), 500, (130, 257), (130, 257), None)
    log = [[n if n not in ('FAKE_START', 'FAKE_END') else 'a' for n in t] for t in log]
    names = sorted({n for t in log for n in t})
    kind = d.choice(['pos_direct', 'pos_indirect', 'dfg_direct', 'dfg_indirect'])
    return {'log': log, 'kind': kind, 'laplace': d.bool(), 'pipeline': d.bool(),
            'threshold': d.choice([0, 0, 0, 0.25, 0.5, 1, 1.5, 2, 3, -1, 0.1, 5, 10] + gen.NEW_FLOATS),
            'untouchable': d.subset(names, 1, 4) if d.bool() else [],
            'top': d.choice([1, 1, 0.5, 0.3, 0.05, 0.75]), 'lean': d.bool(), 'plot': d.below(12) == 11, 'given': d.below(8), 'till': d.choice(['BeforeOnly', 'AfterBeforeDelta'])}


def lean(case, defaults, kw):
    """The arguments without those that are the default anyway"""
    return {k: v for k, v in kw.items() if not case['lean'] or k not in defaults or v != defaults[k]}


def apply(case, log, limit):
    k, t, lap = case['kind'], case['threshold'], case['laplace']
    unt = truthy(lambda n: n in case['untouchable'])
    kw = {} if limit is None else {'max_events_to_remove': limit}
    untouchable = {} if case['lean'] and not case['untouchable'] else {'untouchable_event_func': unt}
    if case['pipeline'] and (k.startswith('pos') or not case['untouchable']):
        part = {'pos_direct': lambda: PosEntropyDirectFilter(t, **untouchable, **kw),
                'pos_indirect': lambda: PosEntropyIndirectFilter(t, **untouchable, **kw),
                'dfg_direct': lambda: DfgEntropyDirectFilter(t, lap, **kw),
                'dfg_indirect': lambda: DfgEntropyIndirectFilter(t, lap, **lean(case, {'top_percent': 0.05}, {'top_percent': case['top']}), **kw)}[k]()
        return context_log(Pipeline(UseExistingLog(), part)(log))
    defaults = {'threshold': 5 if k == 'dfg_indirect' else 0, 'laplace': True, 'top_percent': 0.05}
    arguments = {'threshold': t, **({'laplace': lap} if k.startswith('dfg') else {}), **({'top_percent': case['top']} if k == 'dfg_indirect' else {})}
    func = {'pos_direct': filter_events_pos_entropy_direct, 'pos_indirect': filter_events_pos_entropy_indirect,
            'dfg_direct': filter_events_default_entropy_direct, 'dfg_indirect': filter_events_default_entropy_indirect}[k]
    return func(log, **lean(case, defaults, arguments), **untouchable, **kw)


def metrics(case, log):
    return entropy.pos_entropies(log) if case['kind'].startswith('pos') else entropy.dfg_entropies(log, case['laplace'])


def total(case, log):
    m = metrics(case, log)
    if case['kind'].startswith('pos'):
        return sum(m.values())
    return sum(m.values()) / len(m) if m else 0


def above(case, value):
    """Whether the value may count as above the threshold: a plain 0 is not above 0."""
    return value > case['threshold'] - EPS and not (value == 0 and case['threshold'] == 0)


def candidates(case, log):
    """Classes the next removal may take (ties within EPS included), and whether a removal must / may happen."""
    m = metrics(case, log)
    free = {n: v for n, v in m.items() if n not in case['untouchable']}
    if case['kind'].endswith('direct') and not case['kind'].endswith('indirect'):
        if not free:
            return set(), False, False
        best = max(free.values())
        return ({n for n, v in free.items() if v >= best - EPS}, best > case['threshold'] + EPS, above(case, best))
    value = total(case, log)
    if case['kind'] == 'pos_indirect':
        pool, optional = set(free), set(free)
    else:
        count = max(1, int(len(m) * case['top']))
        ranked = sorted(m.values())
        bound = ranked[-count] if len(ranked) >= count else float('-inf')
        # classes that are surely / possibly among the top share
        pool = {n for n in free if m[n] > bound + EPS}
        optional = {n for n in free if m[n] >= bound - EPS}
        if len([n for n in m if m[n] >= bound - EPS]) == count:
            pool = optional
    after = {n: total(case, entropy.without(log, {n})) for n in optional}
    if not optional:
        return set(), False, False
    # the minimum over the pool bounds the minimum over the actual top share from above
    upper = min((after[n] for n in pool), default=float('inf'))
    allowed = {n for n in optional if after[n] <= upper + EPS}
    if pool != optional and not pool:
        allowed = optional
    return allowed, bool(pool) and value > case['threshold'] + EPS, above(case, value)


def run(case):
    original = make_log(case['log'])
    current = [list(t) for t in case['log']]
    removed = []
    check_eq(names_of(apply(case, original, 0)), case['log'], 'nothing is removed when no removal is asked for')
    result = original
    for step in range(1, len({n for t in current for n in t}) + 2):
        result = apply(case, original, step)
        names = names_of(result)
        gone = {n for t in current for n in t} - {n for t in names for n in t}
        allowed, must, may = candidates(case, current)
        if not gone:
            check(not must, 'a class with a metric above the threshold is left although it may be removed', current, case['kind'])
            check_eq([t for t in names if t], [t for t in current if t], 'nothing else changes')
            break
        check(len(gone) == 1, 'one class is removed per step', gone)
        name = next(iter(gone))
        check(name not in case['untouchable'], 'untouchable classes are never removed', name)
        check(may, 'nothing is removed when the threshold is met', name, current)
        check(name in allowed, 'the class removed is the best choice', name, sorted(allowed), current)
        current = [t for t in entropy.without(current, {name}) if t]
        check_eq(names, current, 'the result is the log without the removed classes')
        removed.append(name)
    final = apply(case, original, None)
    check_eq([t for t in names_of(final) if t], [t for t in current if t], 'result without a limit')
    check_eq(names_of(original), case['log'], 'the input log is not changed')
    kept = [e['__id'] for t in final for e in t]
    want, uid = [], 0
    for t in case['log']:
        for n in t:
            if n not in removed:
                want.append(uid)
            uid += 1
    check_eq(kept, want, 'the surviving events are the original ones, in order')

    till_end(case, original)
    if case['plot']:
        plots(case, original)
    next_choices(case, original)
    return {'nontrivial': bool(removed), case['kind']: bool(removed), 'untouchable': bool(case['untouchable']),
            'stopped_by_threshold': bool(removed) and any(t for t in current)}


def till_end(case, log):
    kind = TillEndFilteringMetricKind[case['till']]
    unt = truthy(lambda n: n in case['untouchable'])
    for direct, func in ((True, filter_events_pos_entropy_direct_till_end),
                         (False, filter_events_pos_entropy_indirect_till_end)):
        current = [list(t) for t in case['log']]
        sub = dict(case, kind='pos_direct' if direct else 'pos_indirect', threshold=-1e9)
        measure = lambda l: sum(v for n, v in entropy.pos_entropies(l).items() if not direct or n not in case['untouchable'])
        removals = func(log, kind, untouchable_event_func=unt)
        for name, value in removals:
            allowed, _, _ = candidates(sub, current)
            check(name in allowed, 'till-end removal takes the best choice', name, sorted(allowed))
            before = measure(current)
            current = [t for t in entropy.without(current, {name}) if t]
            expected = before if case['till'] == 'BeforeOnly' else before - measure(current)
            check_close(float(value), expected, 'metric reported for a removal', 1e-6)
        check(all(unt(n) for t in current for n in t), 'till-end removal takes every class it may')
        check_eq(len(removals), len({n for t in case['log'] for n in t if not unt(n)}), 'number of till-end removals')


def plots(case, log):
    kind = TillEndFilteringMetricKind[case['till']]
    for part, func in ((DrawPosEntropyDirectTillEndFilteringDiagram, filter_events_pos_entropy_direct_till_end),
                       (DrawPosEntropyIndirectTillEndFilteringDiagram, filter_events_pos_entropy_indirect_till_end)):
        plt.close('all')
        result = Pipeline(UseExistingLog(), part(kind)).execute(log)
        check(context_log(result) is log, 'the log is passed on')
        expected = [float(v) for _, v in func(log, kind)]
        lines = [list(map(float, line.get_ydata())) for axes in plt.gcf().axes for line in axes.lines]
        check_eq(len(lines), 1, 'one curve')
        check_eq(len(lines[0]), len(expected), 'a point for every removal')
        for a, b in zip(lines[0], expected):
            check_close(a, b, 'metric drawn for a removal', 1e-6)
        plt.close('all')


def next_choices(case, log):
    if not any(case['log']):
        return
    unt = truthy(lambda n: n in case['untouchable'])
    base = dict(case, threshold=-1e9)
    name, value = next_event_remove_pos_entropy_direct(log)
    m = entropy.pos_entropies(case['log'])
    check(name in m and m[name] >= max(m.values()) - EPS, 'next positional direct removal', name)
    check_close(float(value), m[name], 'metric of the next removal')
    given = {k: v for bit, k, v in ((1, 'trace_counts', calculate_events_in_each_trace), (2, 'log_info', create_log_information),
                                    (4, 'positions', create_events_positions)) if case['given'] & bit}
    name, value = next_event_remove_pos_entropy_indirect(log, untouchable_event_func=unt, **{k: v(log) for k, v in given.items()})
    allowed = candidates(dict(base, kind='pos_indirect'), case['log'])[0]
    check(name in allowed or (name is None and not allowed), 'next positional indirect removal', name)
    name, value = next_event_to_remove_default_entropy_direct(log, untouchable_event_func=unt, **lean(case, {'laplace': True}, {'laplace': case['laplace']}))
    allowed = candidates(dict(base, kind='dfg_direct'), case['log'])[0]
    check(name in allowed or (name is None and not allowed), 'next DFG direct removal', name)
    name, value = next_removal_default_entropy_indirect(
        log, untouchable_event_func=unt, **lean(case, {'laplace': True, 'top_percent': 0.05}, {'laplace': case['laplace'], 'top_percent': case['top']}))
    allowed, must, _ = candidates(dict(base, kind='dfg_indirect'), case['log'])
    check(name in allowed or (name is None and not must), 'next DFG indirect removal', name, sorted(allowed))
    if name is not None:
        check_close(value, total(dict(base, kind='dfg_indirect'), entropy.without(case['log'], {name})),
                    'average entropy after the next removal')
