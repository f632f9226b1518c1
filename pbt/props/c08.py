"""Log statistics and the directly-follows graph count exactly what is in the log."""
from collections import Counter

from .. import gen
from ..core import check, check_eq
from ..fx import CN, make_log, names_of, share, truthy
from python.ficus.legacy.analysis.event_log_info import (DirectlyFollowsGraph, apply_to_all_events,
                                                         calculate_events_count, calculate_events_in_each_trace, create_dfg,
                                                         create_log_information, find_all_events_names)

CASES = {'quick': 60000, 'thorough': 1500000}
RULE = 'logs of names with a set of ignored names and a predicate on events; non-trivial: some pair of events follows another'
ASSUMPTIONS = ['events carry a name']

START, END = 'FAKE_START', 'FAKE_END'


def generate(d):
    log = gen.enlarge(d, gen.named_log(d), 800)
    names = sorted({n for t in log for n in t})
    return {'log': log, 'ignored': d.choice([None, []]) if d.below(3) == 0 else d.subset(names, 1, 3) + [gen.name(d)] * d.below(2),
            'share': d.choice([0, 0, 1, 2]), 'bad': [d.below(8) == 7 for _ in range(sum(map(len, log)))]}


def pairs_of(log, ignored, fake):
    pairs, counts = Counter(), Counter()
    for t in log:
        t = [n for n in t if n not in ignored]
        counts.update(t)
        if t:
            ext = [START] + t + [END] if fake else t
            pairs.update(zip(ext, ext[1:]))
    return dict(pairs), dict(counts)


def check_dfg(dfg, pairs):
    check_eq(dict(dfg.pairs), pairs, 'directly-follows pairs')
    followers = {}
    for (a, b), c in pairs.items():
        followers.setdefault(a, {})[b] = c
    check_eq({k: dict(v) for k, v in dfg.followed_events.items()}, followers, 'followers of each event')
    check_eq(set(dfg.events_with_single_follower), {a for a, f in followers.items() if len(f) == 1},
             'events with a single follower')


def run(case):
    log = share(make_log(case['log']), case.get('share', 0))
    ignored = None if case['ignored'] is None else set(case['ignored'])
    for fake in (True, False):
        info = create_log_information(log, ignored, fake)
        pairs, counts = pairs_of(case['log'], ignored or (), fake)
        check_dfg(info.dfg, pairs)
        check_eq(dict(info.events_count), counts, 'numbers of events')
    info = create_log_information(log)
    pairs, counts = pairs_of(case['log'], (), True)
    check_dfg(info.dfg, pairs)
    check_eq(dict(info.events_count), counts, 'numbers of events')
    plain, _ = pairs_of(case['log'], (), False)
    check_dfg(create_dfg(log), plain)
    check_dfg(DirectlyFollowsGraph(plain), plain)

    per_trace = calculate_events_in_each_trace(log)
    check_eq([(dict(c.counts), c.overall_count) for c in per_trace], [(dict(Counter(t)), len(t)) for t in case['log']],
             'numbers of events in each trace')
    check_eq(calculate_events_count(log), sum(map(len, case['log'])), 'overall number of events')

    log = make_log(case['log'])
    seen = []
    apply_to_all_events(log, lambda e: seen.append(e['__id']))
    check_eq(seen, list(range(sum(map(len, case['log'])))), 'every event is visited once, in order')

    bad = case['bad']
    verdicts = {}
    for t in log:
        for e in t:
            verdicts.setdefault(e[CN], []).append(not bad[e['__id']])
    check_eq(set(find_all_events_names(log, truthy(lambda e: not bad[e['__id']]))), {n for n, v in verdicts.items() if all(v)},
             'names whose events all satisfy the predicate')
    check_eq(names_of(log), case['log'], 'statistics do not change the log')
    return {'nontrivial': bool(plain), 'ignored': bool(ignored), 'self_loop': any(a == b for a, b in plain)}
