"""The code under test, and small bridges between plain cases and its objects."""
import contextlib
import copy
import io
import random
import sys
import warnings
import zlib

from . import env  # noqa: F401

from python.ficus.legacy.log.event_log import MyEvent, MyEventLog, MyTrace
from python.ficus.legacy.pipelines.pipelines import Pipeline
from python.ficus.legacy.util import concept_name

CN = 'concept:name'
LC = 'lifecycle:transition'
TS = 'time:timestamp'


def make_log(names):
    """[[name, ...], ...] -> MyEventLog. Each event carries a unique id, so that identity can be followed."""
    uid = 0
    log = MyEventLog()
    for t in names:
        trace = MyTrace()
        for n in t:
            trace.append(MyEvent({CN: n, '__id': uid}))
            uid += 1
        log.append(trace)
    return had_a_former_life(log)


def make_log_payloads(traces):
    """[[{...}, ...], ...] -> MyEventLog"""
    log = MyEventLog()
    for t in traces:
        trace = MyTrace()
        for p in t:
            trace.append(MyEvent(copy.deepcopy(p)))
        log.append(trace)
    return had_a_former_life(log)


def share(log, kind):
    """Equal traces (1) or equally named events (2) of the log become one object each: for code that only reads the log."""
    seen = {}
    if kind == 1:
        for i, t in enumerate(log):
            log[i] = seen.setdefault(repr([[e.payload.get(CN) for e in t], [{k: v for k, v in e.payload.items() if k != '__id'} for e in t], dict(t.attributes)]), t)
    elif kind == 2:
        for t in log:
            for i, e in enumerate(t):
                t[i] = seen.setdefault(repr({k: v for k, v in e.payload.items() if k != '__id'}), e)
    return log


def names_of(log):
    return [[e[CN] for e in t] for t in log]


def ids_of(log):
    return [[e['__id'] for e in t] for t in log]


def payloads_of(log):
    return [[dict(e.payload) for e in t] for t in log]


def snapshot(log):
    """A deep, independent picture of the whole log."""
    return {
        'traces': [[copy.deepcopy(dict(e.payload)) for e in t] for t in log],
        'trace_attrs': [copy.deepcopy(dict(t.attributes)) for t in log],
        'attributes': copy.deepcopy(dict(log.attributes)), 'extensions': copy.deepcopy(dict(log.extensions)),
        'classifiers': copy.deepcopy(dict(log.classifiers)), 'properties': copy.deepcopy(dict(log.properties)),
        'global_values': copy.deepcopy(dict(log.global_values)),
    }


# ------------------------------------------------------------------------------------------ parts that were used before

CURRENT = {'case': None, 'warm': None, 'elsewhere': False, 'former': None}


def _warm_now():
    """A third of the cases (told by their content) use their parts on something else first."""
    if CURRENT['case'] is None:
        return False
    if CURRENT['warm'] is None:
        from .core import dumps
        CURRENT['warm'] = zlib.crc32(dumps(CURRENT['case']).encode()) % 3 == 0
    return CURRENT['warm']


def other_log():
    return MyEventLog([MyTrace([MyEvent({CN: n, LC: 'start', '__id': 10 * i + j}) for j, n in enumerate(t)])
                       for i, t in enumerate(['abcabcb', 'babcab', 'c', 'abab', ''])])


def other_context():
    from python.ficus.legacy.analysis.patterns.event_log_patterns import (build_class_tree, build_repeat_set_tree, create_repeat_sets,
                                                                          extract_activities_from_log, find_maximal_repeats)
    from python.ficus.legacy.analysis.patterns.patterns_graphs import build_graph
    from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    log = other_log()
    name = lambda e: e[CN]
    patterns = find_maximal_repeats(log, name)
    sets = create_repeat_sets(log, patterns, name)
    activities = build_repeat_set_tree(log, sets, lambda s: f'other {s.first_pos} {s.length}', 0, name)
    instances = extract_activities_from_log(log, activities, name)
    above = build_repeat_set_tree(log, sets, lambda s: f'above {s.first_pos} {s.length}', 1, name)
    tree = build_class_tree(log, [str.upper])
    return (PipelinePartResult().with_log(log).with_patterns(patterns).with_repeat_sets(sets).with_activities(activities + above)
            .with_trace_activities(instances).with_event_class_tree(tree).with_graph(build_graph(tree, 'other')))


def use_elsewhere(run, given):
    """Runs something on another log or context, in some of the cases: nothing of it may be seen later."""
    if not _warm_now():
        return
    from .core import CaseTimeout  # noqa: F401 (not an Exception: it goes through)
    state = random.getstate()
    CURRENT['elsewhere'] = True
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            run(other_log() if isinstance(given, MyEventLog) else other_context())
        except Exception:
            pass
        finally:
            CURRENT['elsewhere'] = False
    random.setstate(state)


def elsewhere():
    return CURRENT['elsewhere']


def warmed(part):
    use_elsewhere(part.execute, None)
    return part


class WarmPipeline(Pipeline):
    def __call__(self, *args, **kwargs):
        if args and not isinstance(args[0], str):
            use_elsewhere(super().__call__, args[0])
        return super().__call__(*args, **kwargs)


def used_context(log):
    """A context of the log in which other things were found before."""
    from python.ficus.legacy.analysis.common.common_models import SubArrayInEventLog
    from python.ficus.legacy.analysis.patterns.patterns_models import ActivityInTraceInfo, ActivityNode, SubArrayWithTraceIndex
    from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    node = ActivityNode('found before', SubArrayWithTraceIndex(0, 1, 0), {12345}, lambda e: e[CN], 7)
    return (PipelinePartResult().with_log(log).with_patterns([[SubArrayInEventLog(0, 1)] if len(t) else [] for t in log])
            .with_repeat_sets([SubArrayWithTraceIndex(0, 1, i) for i, t in enumerate(log) if len(t)][:1]).with_activities([node])
            .with_trace_activities([[ActivityInTraceInfo(node, 0, 1)] if len(t) else [] for t in log]))


def context_of(log, used):
    from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
    return used_context(log).with_activities_logs({'found before': other_log()}) if used else PipelinePartResult().with_log(log)


def discovered(log, used, *parts):
    """What parts make of a log, alone or in a context where something was found before."""
    from python.ficus.legacy.pipelines.start.start_parts import UseExistingLog
    if used:
        return WarmPipeline(*parts)(used_context(log))
    return WarmPipeline(UseExistingLog(), *parts)(log)


TRUTHS = [(True, False), (1, 0), ('yes', ''), ([0], None), (0.5, ()), (float('nan'), {})]


# ------------------------------------------------------------------------------------- logs that were something else before

def _uses():
    from python.ficus.legacy.analysis import event_log_analysis_entropy as ent, event_log_info as info
    from python.ficus.legacy.analysis.event_log_split import split_log_by_traces
    from python.ficus.legacy.analysis.patterns import event_log_patterns as elp
    from python.ficus.legacy.log.functions import serialize_log
    name = lambda e: e[CN]

    def activities(log):
        sets = elp.create_repeat_sets(log, elp.find_maximal_repeats(log, name), name)
        nodes = elp.build_repeat_set_tree(log, sets, lambda x: f'{x.first_pos} {x.length}', 0, name)
        instances = elp.extract_activities_from_log(log, nodes, name)
        elp.create_new_log_from_activities(log, instances)
        elp.create_unattached_events_log(log, instances)
        elp.create_logs_for_activities(log, instances, 0, name)

    return [info.create_log_information, info.create_dfg, info.calculate_events_in_each_trace, info.calculate_events_count, ent.create_events_positions,
            lambda log: info.find_all_events_names(log, lambda e: True), ent.calculate_default_entropies, ent.calculate_laplace_entropies,
            ent.calculate_position_entropies_fast, ent.calculate_position_entropies, hash, lambda log: [hash(x) for t in log for x in [t] + list(t)],
            lambda log: log == copy.deepcopy(log), serialize_log, split_log_by_traces, lambda log: elp.find_maximal_tandem_arrays(log, 5, name),
            elp.find_maximal_tandem_arrays, elp.find_primitive_tandem_arrays, elp.find_near_super_maximal_repeats, elp.find_super_maximal_repeats, activities]


def had_a_former_life(log):
    """Some of the logs held other names before, were used, and became what they are in place: nothing of it may be remembered."""
    if CURRENT['case'] is None or CURRENT['elsewhere']:
        return log
    if CURRENT['former'] is None:
        from .core import dumps
        CURRENT['former'] = (zlib.crc32(dumps(CURRENT['case']).encode()) // 3) % 8
    kind = CURRENT['former']
    events = [e for t in log for e in t]
    if kind > 2 or not 0 < len(events) <= 40 or not all(isinstance(e.payload.get(CN), str) for e in events) or len({id(e) for e in events}) < len(events):
        return log
    names = [e[CN] for e in events]
    taken = []
    if kind == 1:
        for e, n in zip(events, names[1:] + [names[0] + '~']):
            e[CN] = n
    elif kind == 2:
        taken = [t[len(t) - 1] if len(t) else None for t in log]
        for t in log:
            if len(t):
                del t[len(t) - 1]
    else:
        for e, n in zip(events, names):
            e[CN] = names[0]
    state = random.getstate()
    CURRENT['elsewhere'] = True
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for use in _uses():
                try:
                    use(log)
                except Exception:
                    pass
    finally:
        CURRENT['elsewhere'] = False
        random.setstate(state)
    for t, e in zip(log, taken):
        if e is not None:
            t.append(e)
    for e, n in zip(events, names):
        e[CN] = n
    return log


def truthy(predicate, form=None):
    """The same predicate, telling yes and no by other values than True and False (which ones, is told by the case)."""
    from .core import dumps
    yes, no = TRUTHS[(zlib.crc32(dumps(CURRENT['case']).encode()) // 3 if form is None else form) % len(TRUTHS)]
    return lambda *args: yes if predicate(*args) else no


@contextlib.contextmanager
def replaced(replacements):
    """Objects of libraries are replaced by stand-ins, in their own modules and wherever the code under test has imported them."""
    changed = []
    for original, stand_in in replacements.items():
        home = sys.modules[original.__module__]
        for module in [home] + [m for n, m in list(sys.modules.items()) if n.startswith(('python.ficus', home.__name__.partition('.')[0]))]:
            for name, value in list(vars(module).items()):
                if value is original:
                    changed.append((module, name, original))
                    setattr(module, name, stand_in)
    try:
        yield
    finally:
        for module, name, original in changed:
            setattr(module, name, original)
