"""Generating activities (class sets marked in a log) and building them with the code under test."""
from . import gen
from .fx import make_log
from .patterns import EXTRACTORS, all_nodes, extractor_kind
from python.ficus.legacy.analysis.common.common_models import SubArrayInEventLog
from python.ficus.legacy.analysis.patterns.event_log_patterns import (build_repeat_set_tree, create_repeat_sets,
                                                                      find_maximal_repeats, find_near_super_maximal_repeats,
                                                                      find_primitive_tandem_arrays, find_super_maximal_repeats)
from python.ficus.legacy.analysis.patterns.patterns_models import ActivityNode, SubArrayWithTraceIndex
from python.ficus.legacy.analysis.patterns.util import create_activity_name_from_log, default_class_extractor
from python.ficus.legacy.util import calculate_string_poly_hash

SOURCES = {'maximal': find_maximal_repeats, 'super': find_super_maximal_repeats, 'near': find_near_super_maximal_repeats,
           'primitive': find_primitive_tandem_arrays}


def draw_setting(d, max_traces=4, max_len=16, classes=7, source_weight=3):
    hub = d.below(12) == 11  # an activity of everything that is in a trace, and one of every single event of it
    abc = gen.alphabet(d, *((10, 24) if hub else (d.choice([1, 3, 4]), classes)))
    log = [[abc[i] for i in t][:60] for t in gen.index_log(d, len(abc), max_traces, max_len, d.choice([0, 1, 2]), 160)]
    log = gen.enlarge(d, log, 1500, (130,), (70, 90), (130, 257))
    if d.below(source_weight) == 0:
        marks = d.choice(sorted(SOURCES))
    else:
        marks = []
        for t in log:
            here = []
            for _ in range(d.int(0, 4) if t else 0):
                start = d.below(len(t))
                here.append([start, d.int(1, min(len(t) - start, 1 + d.below(5)))])
            marks.append(here)
        if hub and log:
            i = d.below(len(log))
            if d.bool():
                log[i] = list(dict.fromkeys(log[i] + abc))
            marks[i] = [[0, len(log[i]) - k] for k in range(d.int(1, 2)) if len(log[i]) > k] + [[p, 1] for p in range(min(len(log[i]), 60))]
            log.append([x for e in log[i][:20] for x in ('outside', e)])
            marks.append([])
    setting = {'log': log, 'marks': marks, 'class': extractor_kind(d), 'nested': None}
    if d.below(4) == 0:
        setting['nested'] = draw_nested(d, log)
    return setting


def draw_nested(d, log):
    """A tree of activities given directly: [[trace, parent, start, length], ...], children inside of their parents."""
    result = []
    for _ in range(d.int(1, 12)):
        parent = d.int(-1, len(result) - 1) if result else -1
        if parent < 0:
            t = d.below(len(log) or 1)
            if t >= len(log) or not log[t]:
                continue
            start = d.below(len(log[t]))
            result.append([t, -1, start, d.int(1, min(12, len(log[t]) - start))])
        else:
            t, _, first, n = result[parent]
            start = first + d.below(n)
            result.append([t, parent, start, d.int(1, first + n - start)])
    return result


def build(setting, level=0):
    """(log, root activities) of the code under test; class_set_of(node) gives the plain classes of an activity."""
    log = make_log(setting['log'])
    f = EXTRACTORS[setting['class']] or default_class_extractor
    if setting.get('nested'):
        return log, build_nested(log, setting['nested'], f, level)
    return log, build_roots(log, setting['marks'], f, level)


def build_nested(log, nested, f, level):
    """Only children smaller than their parent are kept, and one root for each set of classes."""
    nodes, roots, known = {}, [], set()
    for k, (t, parent, start, length) in enumerate(nested):
        classes = frozenset(f(e) for e in list(log[t])[start:start + length])
        place = SubArrayWithTraceIndex(start, length, t)
        node = ActivityNode(create_activity_name_from_log(log, place, f), place, {calculate_string_poly_hash(c) for c in classes}, f, level)
        if parent < 0:
            if classes in known:
                continue
            known.add(classes)
            roots.append(node)
        elif parent in nodes and classes < nodes[parent][1]:
            nodes[parent][0].child_nodes.append(node)
        else:
            continue
        nodes[k] = (node, classes)
    return roots


def build_roots(log, marks, f, level=0):
    if isinstance(marks, str):
        subs = SOURCES[marks](log, event_class_extractor=f)
    else:
        subs = [[SubArrayInEventLog(first_pos=m[0], length=m[1]) for m in t] for t in marks]
    sets = create_repeat_sets(log, subs, f)
    return build_repeat_set_tree(log, sets, lambda s: create_activity_name_from_log(log, s, f), level, f)


def class_set_of(node, classes):
    r = node.repeat_set
    return frozenset(classes[r.trace_index][r.first_pos:r.first_pos + r.length])


def descendants(node):
    return all_nodes(node.child_nodes)


def draw_spans(d, log, density=4):
    """Disjoint places of instances: for each trace [[gap, length, activity number], ...]"""
    result = []
    for t in log:
        here, at = [], 0
        while at < len(t) and len(here) < 30:
            gap = d.choice([0, 0, 1, 2, 5, 60, 110] if len(t) > 60 else [0, 0, 1, 2, 5])
            length = d.int(1, 4) if d.below(3 if len(t) > 60 else 8) else d.int(1, min(len(t), 140))
            at += gap + length
            if at > len(t) or d.below(density) == 0:
                break
            here.append([gap, length, d.below(50)])
        result.append(here)
    return result


def place(spans, nodes):
    """The spans as instances (of the code under test) of the given activities."""
    from python.ficus.legacy.analysis.patterns.patterns_models import ActivityInTraceInfo
    result = []
    for here in spans:
        at, instances = 0, []
        for gap, length, number in here:
            instances.append(ActivityInTraceInfo(node=nodes[number % len(nodes)], start_pos=at + gap, length=length))
            at += gap + length
        result.append(instances)
    return result


def describe(instances):
    return [[(id(i.node), i.start_pos, i.length) for i in t] for t in instances]
