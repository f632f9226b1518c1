"""High-level activity discovery: right activities and instances on every level, nothing lost, always finishes."""
from .. import gen
from ..activities import descendants, draw_spans
from ..core import check, check_eq
from ..fx import CN, WarmPipeline, discovered, elsewhere, ids_of, make_log, names_of, snapshot
from ..patterns import all_nodes, extract_instances, is_primitive, maximal_repeats, near_super_maximal, super_maximal, \
    tandem_arrays
from python.ficus.legacy.analysis.patterns.event_log_patterns import calculate_underlying_events_count
from python.ficus.legacy.pipelines.analysis.high_level import (DiscoverActivitiesForSeveralLevels,
                                                               DiscoverActivitiesFromTandemArrays,
                                                               DiscoverActivitiesInstancesFromRepeats,
                                                               DiscoverActivitiesInstancesFromRepeatsUntilNoMore,
                                                               ExecuteWithEachActivityLog)
from python.ficus.legacy.pipelines.analysis.patterns.models import AdjustingMode, TandemArrayKind
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import ActivitiesDiscoveryStrategy, CreateLogsForActivities
from python.ficus.legacy.pipelines.contexts.accessors import activities, activity_name, log as get_log, traces_activities
from python.ficus.legacy.pipelines.contexts.keys import activity_name_key
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult, RepeatActivitiesSource
from python.ficus.legacy.pipelines.mutations.mutations_parts import SubstituteUnderlyingEvents
from python.ficus.legacy.pipelines.pipelines import InternalPipelinePart, Pipeline
from python.ficus.legacy.pipelines.start.start_parts import UseExistingLog
from python.ficus.legacy.util import calculate_string_poly_hash

CASES = {'quick': 24000, 'thorough': 600000}
RULE = 'a log and one of: discovery from tandem arrays, from one of three kinds of repeats, on several levels of event classes, ' \
       'or repeated until nothing more is found, with strategies, filters and narrowing; non-trivial: an activity instance is found'
ASSUMPTIONS = ['events carry a name', 'event classes do not merge the separators put between merged traces']

CLASSES = {'name': lambda e: e[CN], 'lower': lambda e: e[CN].lower(), 'dot': lambda e: e[CN].split('.')[0],
           'two': lambda e: e[CN].split('.')[0] + ('.x' if '.' in e[CN] else '')}
KINDS = {'maximal': RepeatActivitiesSource.MaximalRepeats, 'super': RepeatActivitiesSource.SuperMaximalRepeats,
         'near': RepeatActivitiesSource.NearSuperMaximalRepeats}
DOTTED = ['a', 'b', 'c', 'a.b', 'a.c', 'b.a', 'B', 'A', 'A.B', 'c.d.e', 'd', 'e']


def generate(d):
    names = (lambda x: x.choice(DOTTED)) if d.bool() else None
    abc = gen.alphabet(d, d.choice([1, 3, 4]), 7, names)
    log = [[abc[i] for i in t][:40] for t in gen.index_log(d, len(abc), 4, 14, d.choice([0, 1, 2]), 110)]
    log = gen.enlarge(d, log, 1500, (130,), (70, 90), (130, 257))
    return {'log': log, 'what': d.choice(['tandem', 'repeats', 'levels', 'until']), 'kind': d.choice(sorted(KINDS)),
            'primitive': d.bool(), 'limit': d.choice([None, 3, 4, 6, 30]), 'level': gen.integer(d, 0, 4),
            'merged': d.bool(), 'unattached': d.bool(), 'classes': [d.choice(sorted(CLASSES)) for _ in range(d.int(1, 3))],
            'narrow': d.choice([None, True, False]), 'min_length': d.choice([0, 0, 2, 3]), 'min_events': d.choice([1, 1, 2, 3]),
            'hashes': d.choice([None, True, False]), 'grow': d.bool(), 'names': d.below(3) == 2, 'lean': d.bool(), 'used': d.below(3) == 2}


def merge(traces):
    result = []
    for i, t in enumerate(traces):
        result += t + [('separator', i)]
    return [result]


def special_name(sub_array, log, class_extractor):
    events = list(log.traces[sub_array.trace_index])[sub_array.first_pos:sub_array.first_pos + sub_array.length]
    return '<' + '|'.join(sorted({class_extractor(e) for e in events})) + '>'


def check_tree(roots, expected, table, level, what, special=False):
    nodes = all_nodes(roots)
    sets = {}
    for n in nodes:
        check(all(h in table for h in n.set_of_events), f'{what}: activity of known classes')
        sets[id(n)] = frozenset(table[h] for h in n.set_of_events)
        check_eq(n.activity_level, level, f'{what}: activity level')
        check_eq(n.name, '<' + '|'.join(sorted(sets[id(n)])) + '>' if special else '::'.join(sorted(sets[id(n)])), f'{what}: activity name')
    check_eq(sorted(map(sorted, sets.values())), sorted(map(sorted, expected)), f'{what}: class sets of activities')
    return sets


def expected_instances(trace, roots, sets, narrow, min_length, offset=0):
    result = []
    for root, start, length, met in extract_instances(trace, [(sets[id(r)], r.name, r) for r in roots]):
        fitting = [n for n in descendants(root) if met <= sets[id(n)]] if narrow else []
        smallest = min((len(sets[id(n)]) for n in fitting), default=0)
        if length >= min_length:
            result.append((offset + start, length, [n for n in fitting if len(sets[id(n)]) == smallest] or [root]))
    return result


def check_instances(got, expected, what):
    check_eq([(i.start_pos, i.length) for i in got], [e[:2] for e in expected], f'{what}: places of instances')
    for i, e in zip(got, expected):
        check(any(i.node is c for c in e[2]), f'{what}: activity of an instance', i.node.name, [c.name for c in e[2]])


def class_sets(traces, repeats_of):
    return {frozenset(c) for t in traces for c in repeats_of(t)}


class Record(InternalPipelinePart):
    def __init__(self, action):
        self.action = action

    def execute(self, current_input):
        if not elsewhere():
            self.action(current_input)
        return current_input


def run(case):
    names = case['log']
    log = make_log(names)
    before = snapshot(log)
    narrow = case['narrow'] is not False
    kw = {} if case['narrow'] is None else {'should_narrow_activity': case['narrow']}
    if case['min_length']:
        kw['activity_in_trace_filter'] = lambda i: i.length >= case['min_length']
    extractors = case['classes']
    classes = {k: [[CLASSES[k]({CN: n}) for n in t] for t in names] for k in extractors}
    table = {calculate_string_poly_hash(c): c for k in extractors for t in classes[k] for c in t}
    first = extractors[0]
    strategy = ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace if case['merged'] else \
        ActivitiesDiscoveryStrategy.DiscoverFromAllTraces
    source = lambda traces: merge(traces) if case['merged'] else traces
    level = case['level']
    found = False
    what = case['what']

    def lean(defaults, **arguments):
        return {k: v for k, v in arguments.items() if not case['lean'] or k not in defaults or v != defaults[k]}

    if what in ('tandem', 'repeats'):
        if case['names']:
            kw['activity_name_creator'] = special_name
        if what == 'tandem':
            limit = 20 if case['limit'] is None else case['limit']
            opts = dict(kw) if case['limit'] is None else dict(kw, max_loop_length=limit)
            part = DiscoverActivitiesFromTandemArrays(TandemArrayKind.PrimitiveArray if case['primitive'] else TandemArrayKind.MaximalArray,
                                                      **lean({'activity_level': 0, 'class_extractor': CLASSES['name']}, activity_level=level,
                                                             class_extractor=CLASSES[first]), **opts)
            repeats = lambda t: [t[a[0]:a[0] + a[1]] for a in tandem_arrays(t, limit)
                                 if not case['primitive'] or is_primitive(t, a[0], a[1])]
            sets_expected = class_sets(classes[first], repeats)
        else:
            part = DiscoverActivitiesInstancesFromRepeats(KINDS[case['kind']], **lean(
                {'activity_level': 0, 'class_extractor': CLASSES['name'], 'activities_discovery_strategy': ActivitiesDiscoveryStrategy.DiscoverFromAllTraces},
                activity_level=level, class_extractor=CLASSES[first], activities_discovery_strategy=strategy), **kw)
            pick = {'maximal': lambda r: r, 'super': super_maximal, 'near': near_super_maximal}[case['kind']]
            sets_expected = class_sets(source(classes[first]), lambda t: pick(maximal_repeats(t)))
        result = discovered(log, case['used'], part)
        roots = activities(result)
        sets = check_tree(roots, sets_expected, table, level, what, case['names'])
        got = traces_activities(result)
        check_eq(len(got), len(names), f'{what}: instances of each trace')
        for instances, trace in zip(got, classes[first]):
            check_instances(instances, expected_instances(trace, roots, sets, narrow, case['min_length']), what)
            found = found or bool(instances)
        check(get_log(result) is log, f'{what}: the log is passed on')

        calls = []

        def visit(c):
            check(not c.has_value('mark'), 'the log of every activity is handled in a context of its own')
            c.with_custom_data('mark', len(calls))
            calls.append((activity_name(c), names_of(get_log(c))))

        named = result.has_value(activity_name_key)
        after = Pipeline(CreateLogsForActivities(level, CLASSES[first]), ExecuteWithEachActivityLog(Pipeline(Record(visit))))(result)
        check(get_log(after) is log and activities(after) is roots and not after.has_value('mark') and after.has_value(activity_name_key) == named,
              'handling the logs of activities leaves the context around as it was')
        per_activity = {}
        for instances, trace in zip(got, classes[first]):
            for i in instances:
                per_activity.setdefault(i.node.name, []).append(trace[i.start_pos:i.start_pos + i.length])
        check_eq(sorted(calls), sorted(per_activity.items()), 'a pipeline runs once for the log of every activity')

    elif what == 'levels':
        part = DiscoverActivitiesForSeveralLevels([CLASSES[k] for k in extractors], **lean(
            {'discovering_strategy': ActivitiesDiscoveryStrategy.DiscoverFromSingleMergedTrace, 'initial_activity_level': 0, 'min_events_in_traces': 1,
             'adjusting_mode': AdjustingMode.FromAllLog},
            discovering_strategy=strategy, initial_activity_level=level, min_events_in_traces=case['min_events'],
            adjusting_mode=AdjustingMode.FromUnattachedSubTraces if case['unattached'] else AdjustingMode.FromAllLog), **kw)
        result = WarmPipeline(UseExistingLog(), part)(log)
        roots_by_level = {}
        for r in activities(result):
            roots_by_level.setdefault(r.activity_level, []).append(r)
        check_eq([r.activity_level for r in activities(result)], sorted(r.activity_level for r in activities(result)),
                 'activities of lower levels come first')
        known, sets = [], {}
        instances = [[] for _ in names]
        for k, kind in enumerate(extractors):
            traces = classes[kind]
            free = traces
            if case['unattached']:
                free = []
                for t, here in zip(traces, instances):
                    covered = {p for s, n, _ in here for p in range(s, s + n)}
                    free.append([c for p, c in enumerate(t) if p not in covered])
            mine = roots_by_level.pop(level + k, [])
            sets.update(check_tree(mine, class_sets(source(free), maximal_repeats), table, level + k, f'level {k}'))
            known = known + mine
            updated = []
            for t, here in zip(traces, instances):
                at, new = 0, list(here)
                for s, n, _ in here + [(len(t), 0, None)]:
                    if s > at and s - at >= case['min_events']:
                        new += expected_instances(t[at:s], known, sets, narrow, case['min_length'], at)
                    at = s + n
                updated.append(sorted(new, key=lambda x: x[0]))
            # an instance with several possible activities: follow the code under test
            instances = updated
        check_eq(roots_by_level, {}, 'no activities of other levels')
        for got, e in zip(traces_activities(result), instances):
            check_instances(got, e, 'levels')
            found = found or bool(got)
        check(get_log(result) is log, 'levels: the log is passed on')

    else:
        sizes, found_counts, made = [sum(map(len, names))], [], []

        def note_before(c):
            found_counts.append(sum(map(len, traces_activities(c))))
            # the round does what the single steps do
            here = len(found_counts) - 1
            here_level = level + (here if case['grow'] else 0)
            traces = [[CLASSES[first](e) for e in t] for t in get_log(c)]
            table.update({calculate_string_poly_hash(x): x for t in traces for x in t})
            roots = activities(c)
            sets = check_tree(roots, class_sets(source(traces), maximal_repeats), table, here_level, 'until')
            check_eq(len(traces_activities(c)), len(traces), 'until: instances of each trace')
            made.append([])
            for here, trace in zip(traces_activities(c), traces):
                check_instances(here, expected_instances(trace, roots, sets, narrow, case['min_length']), 'until')
                covered = {p: i for i in here for p in range(i.start_pos, i.start_pos + i.length)}
                made[-1].append([None if p not in covered else covered[p].node.name if case['hashes'] is False else covered[p].node.unique_name()
                                 for p in range(len(trace)) if p not in covered or covered[p].start_pos == p])

        def note_after(c):
            sizes.append(sum(map(len, get_log(c))))
            check_eq([len(t) for t in get_log(c)], [len(t) for t in made[-1]], 'until: events after a round')
            for t, expected in zip(get_log(c), made[-1]):
                for e, n in zip(t, expected):
                    check(n is None or e[CN] == n, 'until: name of an abstract event', e[CN], n)
        note = {} if case['hashes'] is None else {'use_hashes_as_event_name': case['hashes']}
        rounds = {'before_log_creation_pipeline': Pipeline(Record(note_before)), 'after_log_creation_pipeline': Pipeline(Record(note_after))}
        bare = case['lean'] and case['limit'] is None
        part = DiscoverActivitiesInstancesFromRepeatsUntilNoMore(
            CLASSES[first], **note, **({} if bare else rounds), **lean(
                {'discovery_strategy': ActivitiesDiscoveryStrategy.DiscoverFromAllTraces, 'initial_activity_level': 0, 'increase_activity_level': False},
                discovery_strategy=strategy, initial_activity_level=level, increase_activity_level=case['grow']), **kw)
        result = discovered(log, case['used'], part)
        final = get_log(result)
        check(all(c > 0 for c in found_counts), 'until: a round goes on only with instances found', found_counts)
        check_eq(len(found_counts), len(sizes) - 1, 'until: one abstraction for each round')
        for i in range(1, len(sizes)):
            check(sizes[i] < sizes[i - 1] or (sizes[i] == sizes[i - 1] and i == len(sizes) - 1), 'until: the log shrinks in every round but the last', sizes)
        if bare:
            sizes.append(sum(map(len, final)))
        check_eq(sum(map(len, final)), sizes[-1], 'until: the last log is returned')
        if not bare and (len(sizes) == 1 or sizes[-1] < sizes[-2]):
            more = Pipeline(UseExistingLog(), DiscoverActivitiesInstancesFromRepeats(
                RepeatActivitiesSource.MaximalRepeats, activity_level=level, class_extractor=CLASSES[first],
                activities_discovery_strategy=strategy, **kw))(final)
            check(not any(traces_activities(more)), 'until: it ends when nothing more is found', sizes)
            check(activities(result) == [] and not any(traces_activities(result)), 'until: nothing is left of the round that found no instances')
        check_eq(calculate_underlying_events_count(final), sizes[0], 'until: number of underlying events is kept')
        back = get_log(Pipeline(SubstituteUnderlyingEvents())(PipelinePartResult().with_log(final)))
        check_eq([[dict(e.payload) for e in t] for t in back], before['traces'], 'until: every event is kept in order')
        found = len(sizes) > 1
    check_eq(snapshot(log), before, 'the log is left as it was')
    return {'nontrivial': found, what: True, 'several_rounds': what == 'until' and len(sizes) > 2}
