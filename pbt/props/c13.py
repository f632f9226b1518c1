"""Trace variants: grouping by variant is exactly grouping by the sequence of event names; merging keeps every event."""
from .. import gen
from ..core import check, check_eq
from ..fx import CN, ids_of, make_log, names_of, snapshot
from ..fx import WarmPipeline as Pipeline
from python.ficus.legacy.analysis.event_log_split import create_unique_event, merge_all_traces_in_one_log, split_log_by_traces
from python.ficus.legacy.pipelines.contexts.accessors import log as get_log
from python.ficus.legacy.pipelines.filtering.filter_parts import FilterTracesByVariants
from python.ficus.legacy.pipelines.start.start_parts import UseExistingLog

CASES = {'quick': 80000, 'thorough': 2000000}
RULE = 'logs with copies and near copies (one edit) of traces, names that collide under weak hashes; non-trivial: at ' \
       'least two traces of equal length'
ASSUMPTIONS = ['events carry a name']


def generate(d):
    log = gen.enlarge(d, gen.named_log(d, max_traces=9, max_len=8), 1500)
    for _ in range(d.below(4)):
        if log:
            t = list(d.choice(log))
            if t and d.bool():
                i, j = d.below(len(t)), d.below(len(t))
                t[i], t[j] = t[j], t[i]
            log.insert(d.below(len(log) + 1), t)
    if d.below(4) == 3 and log:
        # names with one character changed, so that only full comparison tells the variants apart
        t = list(d.choice(log))
        if t:
            i = d.below(len(t))
            t[i] = d.choice([t[i] + d.choice('ab '), t[i][::-1] or 'a', t[i].upper(), t[i].lower(), t[i][:-1] or 'a'])
            log.append(t)
    if d.below(12) == 11 and log:
        # long names that differ in one place only
        t = list(d.choice(log)) or ['a']
        i, before, behind = d.below(len(t)), d.choice([0, 10, 31, 48, 63, 70, 130, 260, 600]), d.choice([0, 10, 31, 48, 70, 130, 260])
        for c in ('a', 'b'):
            log.insert(d.below(len(log) + 1), t[:i] + ['x' * before + c + 'x' * behind] + t[i + 1:])
    return {'log': log}


def run(case):
    names = case['log']
    log = make_log(names)
    before = snapshot(log)
    expected = {}
    for i, t in enumerate(names):
        expected.setdefault(tuple(t), []).append(i)
    position = {id(t): i for i, t in enumerate(log)}
    groups = split_log_by_traces(log)
    seen = []
    for g in groups:
        check(len(g) > 0, 'no group of traces is empty')
        members = []
        for t in g:
            check(id(t) in position, 'groups hold the traces of the log')
            members.append(position[id(t)])
        variants = {tuple(names[i]) for i in members}
        check(len(variants) == 1, 'traces in a group have the same sequence of names', variants)
        check_eq(members, expected[variants.pop()], 'a group holds all traces of its variant, in order')
        seen.extend(members)
    check_eq(sorted(seen), list(range(len(names))), 'every trace is in exactly one group')
    check_eq(snapshot(log), before, 'grouping leaves the log as it was')

    kept = get_log(Pipeline(UseExistingLog(), FilterTracesByVariants())(log))
    kept_ids = sorted((i if i else [-1]) for i in ids_of(kept))
    all_ids = ids_of(log)
    check_eq(kept_ids, sorted((all_ids[v[0]] if all_ids[v[0]] else [-1]) for v in expected.values()),
             'the variants filter keeps the first trace of every variant')
    check_eq(sorted(names_of(kept)), sorted(list(v) for v in expected), 'names of the kept traces')
    check_eq(snapshot(log), before, 'filtering variants leaves the log as it was')

    merged = merge_all_traces_in_one_log(log)
    check_eq(len(merged), 1, 'merging yields one trace')
    events = list(merged[0])
    rest, separators = iter(events), []
    for t in log:
        for e in t:
            m = next(rest, None)
            check(m is not None, 'merged trace is too short')
            check_eq(dict(m.payload), dict(e.payload), 'merged trace keeps the events in order')
            check(m is not e, 'merged events are copies')
        m = next(rest, None)
        check(m is not None and CN in m, 'traces are followed by a separator')
        separators.append(m[CN])
    check(next(rest, None) is None, 'merged trace has nothing else')
    check_eq(len(set(separators)), len(separators), 'separators are unique')
    check(not set(separators) & {n for t in names for n in t}, 'separators differ from all names')
    for e in events:
        e[CN] = 'changed'
    check_eq(snapshot(log), before, 'editing the merged log leaves the log as it was')
    check(create_unique_event()[CN] != create_unique_event()[CN], 'unique events differ')
    lengths = [len(t) for t in names]
    return {'nontrivial': len(set(lengths)) < len(lengths), 'variants': len(expected) < len(names),
            'same_length_variants': len({len(v) for v in expected}) < len(expected)}
