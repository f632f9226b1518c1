"""Diagrams show every event and every activity instance at its place, in the color of its name."""
import copy
import os
import shutil
import tempfile

import numpy
from matplotlib import pyplot as plt

from .. import activities as act, figures, gen
from ..core import check, check_eq
from ..entropy import dfg_entropies
from ..fx import make_log_payloads, share, snapshot, truthy
from ..patterns import all_nodes
from python.ficus.legacy.analysis import event_log_analysis as ela
from python.ficus.legacy.analysis.common.common_models import SubArrayInEventLog
from python.ficus.legacy.analysis.event_log_analysis_entropy import calculate_position_entropies_fast
from python.ficus.legacy.analysis.patterns import patterns_graphs as pg
from python.ficus.legacy.analysis.patterns.util import default_class_extractor
from python.ficus.legacy.pipelines.analysis import analysis_parts as ap
from python.ficus.legacy.pipelines.analysis.patterns import patterns_parts as pp
from python.ficus.legacy.pipelines.contexts import accessors
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from python.ficus.legacy.log.functions import save_event_log_to_xes
from python.ficus.legacy.util import random_unique_color_provider_instance

CASES = {'quick': 2400, 'thorough': 60000}
RULE = 'one to three diagrams of a non-empty log in a common context (all kinds of diagrams, scales, legends, titles, shown or saved, by function or by part), ' \
       'random colors taken from 512 ones; non-trivial: at least two traces and three events'
ASSUMPTIONS = ['the log has at least one trace', 'no event has a name that is reserved for the ends of traces when entropies are drawn', 'matplotlib leaves names that begin with an underscore out of legends',
               'the content of saved image files is taken from the figure that is saved']
KINDS = ['diversity', 'diversity', 'concrete', 'placement', 'full', 'full', 'short', 'patterns', 'patterns_short', 'single', 'single', 'histogram',
         'histograms', 'entropy', 'positions']
BLACK = '#000000'


def generate(d):
    abc = gen.alphabet(d, 1, 6)
    log = [[abc[i] for i in t][:40] for t in gen.index_log(d, len(abc), 5, 12, 1, 120)]
    log = gen.enlarge(d, log, 60, (66, 130), (130, 520), (70,))
    abc = list(dict.fromkeys(abc + [n for t in log for n in t]))
    marks = []
    for t in log:
        marks.append([[start, d.int(1, min(len(t) - start, 4))] for start in (d.below(len(t)) for _ in range(d.int(0, 3) if t else 0))])
    diagrams = []
    for _ in range(d.int(1, 3)):
        diagrams.append({'kind': d.choice(KINDS), 'height': d.choice([1, 1, 2, 3]), 'width': d.choice([1, 1, 2, 5]), 'legend': d.bool(),
                         'title': d.choice([None, 'title', '', 'Ж']), 'save': d.choice([None, None, 'plain', 'creator']), 'part': d.bool(),
                         'select': [d.bool() for _ in abc[:12]], 'different': d.bool(), 'which': d.below(20), 'lean': d.bool()})
    spans2 = act.draw_spans(d, log)
    if len(log) > 1 and d.below(3) == 2:  # patterns that begin alike
        t, u = log[:2]
        same = next((i for i, (a, b) in enumerate(zip(t, u)) if a != b), min(len(t), len(u)))
        spans2[:2] = [[[0, d.int(max(1, min(same, len(x) - 1)), min(same + 1, len(x))), 0]] if x else [] for x in (t, u)]
    return {'log': log, 'marks': marks, 'spans': act.draw_spans(d, log), 'spans2': spans2, 'diagrams': diagrams, 'palette': d.below(1000),
            'cached': [d.below(6) for _ in abc[:6]] if d.below(3) == 2 else [], 'abc': abc, 'payload': d.choice([0, 0, 1, 2]),
            'real_save': d.below(150) == 149, 'close': d.bool(), 'share': d.choice([0, 0, 0, 1, 2]), 'others': [gen.named_log(d, 4, 5, min_traces=1) for _ in range(d.int(0, 4))]}


class Colors:
    """Colors of the names of one context."""

    def __init__(self, cached):
        self.of, self.cached = {}, cached

    def see(self, name, color, what):
        if name in self.of:
            check_eq(color, self.of[name], f'{what}: the color of {name!r} stays')
            return
        check(color not in self.of.values(), f'{what}: the color of {name!r} is not that of another name', color, self.of)
        self.of[name] = color


def run(case):
    payloads = [[{'concept:name': n, **({} if case['payload'] == 0 else {'k': i % 3} if case['payload'] == 1 else {'i': 100 * j + i})} for i, n in enumerate(t)]
                for j, t in enumerate(case['log'])]
    log = share(make_log_payloads(payloads), case['share'])
    roots = act.build_roots(log, case['marks'], default_class_extractor)
    nodes = all_nodes(roots)
    instances = act.place(case['spans'], nodes) if nodes else [[] for _ in case['log']]
    before = snapshot(log)
    random_unique_color_provider_instance.reset()
    cached = {n: f'#1{c}3{c}5{c}' for n, c in zip(case['abc'], case['cached'])} if len(set(case['cached'])) == len(case['cached']) else {}
    context = PipelinePartResult().with_log(log).with_activities(roots).with_trace_activities(instances)
    if cached:
        context.with_cached_colors(cached)
    else:
        cached = accessors.cached_colors(context)
    colors = Colors(cached)
    for n, c in cached.items():
        colors.of[n] = c
    scratch = tempfile.mkdtemp(prefix='c24_')
    try:
        with figures.captured(case['real_save'], case['palette'], 4 if sum(map(len, case['log'])) < 12 else 8) as shown:
            for index, o in enumerate(case['diagrams']):
                name = f'{index}.png'
                path = os.path.join(scratch, 'new', name) if o['save'] == 'creator' and o['kind'] not in ('histogram', 'histograms', 'entropy') \
                    else os.path.join(scratch, name) if o['save'] else None
                if o['kind'] == 'positions' or case['close']:
                    plt.close('all')
                figures_before = len(plt.get_fignums())
                del shown[:]
                draw(case, o, log, roots, nodes, instances, cached, context, path)
                if path is not None and o['kind'] != 'positions' and (o['kind'] != 'single' or nodes):
                    check_eq(len(plt.get_fignums()), figures_before, f'{o["kind"]}: a saved diagram is closed')
                verify(case, o, log, nodes, instances, colors, shown, path)
                if o['kind'] == 'single' and nodes and o['different']:
                    # the colors of the instances start anew after such a diagram
                    random_unique_color_provider_instance.used_colors.update(colors.of.values())
        check_eq(snapshot(log), before, 'the log stays as it was')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return {'nontrivial': len(case['log']) > 1 and sum(map(len, case['log'])) > 2, **{o['kind']: True for o in case['diagrams']}}


def draw(case, o, log, roots, nodes, instances, cached, context, path):
    kind, by_part = o['kind'], o['part']
    chosen = {'title': o['title'], 'save_path': path, 'plot_legend': o['legend'], 'height_scale': o['height'], 'width_scale': o['width']}

    def options(legend, wide=True, creator=False, **more):
        """The options of this diagram; if it is drawn with few arguments, without those that are the default anyway."""
        defaults = {'title': None, 'save_path': None, 'plot_legend': legend, 'height_scale': 1, 'width_scale': 1, 'use_different_colors': by_part,
                    'short_diagram': False}
        result = {**chosen, **more}
        if not wide:
            del result['width_scale']
        if creator and path is not None and o['save'] == 'creator':
            result['save_path'] = lambda r: path if r is context else None
        return {k: v for k, v in result.items() if not o['lean'] or v != defaults[k]}
    selected = {n for n, s in zip(case['abc'], o['select'] * len(case['abc'])) if s}
    if kind == 'diversity':
        ap.TracesDiversityDiagram(**options(None, creator=True)).execute(context) if by_part else ela.draw_traces_diversity_diagram(log, cached, **options(True))
    elif kind == 'concrete':
        if by_part:
            ap.EventsPlacement(set(selected), **options(None, False)).execute(context)
        else:
            ela.draw_placements_of_concrete_events(log, cached, set(selected), **options(True, False))
    elif kind == 'placement':
        if by_part:
            ap.DrawPlacementOfEvents(truthy(selected.__contains__), **options(False, creator=True)).execute(context)
        else:
            ela.draw_placements_of_events(log, cached, truthy(selected.__contains__), **options(True))
    elif kind in ('full', 'short'):
        if by_part:
            part = {'full': pp.DrawFullActivitiesDiagram, 'short': pp.DrawShortActivitiesDiagram}[kind](**options(False, creator=True)) if o['different'] else \
                pp.DrawActivitiesDiagram(kind == 'short', **options(False, creator=True))
            part.execute(context)
        else:
            {'full': pg.draw_full_activity_diagram, 'short': pg.draw_short_activity_diagram}[kind](log, instances, cached, **options(True))
    elif kind in ('patterns', 'patterns_short'):
        patterns = pattern_marks(case)
        if by_part:
            pp.DrawPatterns(kind == 'patterns_short', **options(False, creator=True)).execute(context.with_patterns(patterns))
        else:
            pg.draw_patterns(log, patterns, cached, **options(True, short_diagram=kind == 'patterns_short'))
    elif kind == 'single':
        if not nodes:
            return
        node = nodes[o['which'] % len(nodes)]
        if o['select'][0]:  # an activity is known by its name: it may come from another search
            node = copy.copy(node)
        if by_part:
            pp.DrawSingleActivityPlacement(lambda xs: node if xs is roots else None, **options(False, creator=True, use_different_colors=o['different'])).execute(context)
        else:
            pg.draw_activity_placement_diagram(log, node, instances, **options(False, use_different_colors=o['different']))
    elif kind == 'histogram':
        if by_part:
            ap.TracesHistogram(save_path=path, title=o['title']).execute(context)
        else:
            ela.draw_traces_histogram(log, save_path=path, title=o['title'])
    elif kind == 'histograms':
        logs = [log] + [make_log_payloads([[{'concept:name': n} for n in t] for t in x]) for x in case['others']]
        if o['different'] and all(c >= ' ' and c.isprintable() for x in [case['log'], *case['others']] for t in x for n in t for c in n):
            folder = tempfile.mkdtemp(prefix='c24_')
            try:
                paths = [os.path.join(folder, f'log{i}.x.xes') for i in range(len(logs))]
                for one, to in zip(logs, paths):
                    save_event_log_to_xes(one, to)
                ela.plot_logs_traces_histograms_for_paths(paths, save_path=path, title=o['title'])
            finally:
                shutil.rmtree(folder, ignore_errors=True)
        else:
            ela.plot_logs_traces_histograms(logs, [f'some/where/log{i}.x.xes' for i in range(len(logs))], save_path=path, title=o['title'])
    elif kind == 'entropy':
        if by_part:
            ap.DrawDefaultEntropyHistogram(save_path=path, title=o['title']).execute(context)
        else:
            ela.draw_events_entropy_histogram(log, save_path=path, title=o['title'])
    else:
        if not any(case['log']):
            return
        ap.DrawPosEntropyHistogram().execute(context)


def pattern_marks(case):
    result = []
    for here in case['spans2']:
        at, marks = 0, []
        for gap, length, _ in here:
            marks.append(SubArrayInEventLog(first_pos=at + gap, length=length))
            at += gap + length
        result.append(marks)
    return result


def verify(case, o, log, nodes, instances, colors, shown, path):
    kind = o['kind']
    if kind == 'positions':
        if any(case['log']):
            ax = plt.gcf().axes[0]
            counts, edges = numpy.histogram(list(calculate_position_entropies_fast(log).values()))
            check_eq(figures.heights(ax, [(a + b) / 2 for a, b in zip(edges, edges[1:])]), [float(c) for c in counts], 'histogram of entropies')
        return
    if kind == 'single' and not nodes:
        return
    check_eq([p for _, p in shown], [path], f'{kind}: where the one diagram goes')
    if path is not None:
        check(os.path.exists(path) and os.path.getsize(path) > 0, f'{kind}: the diagram is saved')
    figure = shown[0][0]
    if kind in ('histogram', 'histograms'):
        if o['title']:
            check_eq(figure._suptitle.get_text(), o['title'], 'title')
        logs = [case['log']] + (case['others'] if kind == 'histograms' else [])
        check(len(figure.axes) >= len(logs), 'one histogram per log')
        for i, ax in enumerate(figure.axes):
            if i >= len(logs):
                check(not ax.patches, 'no further histograms')
                continue
            sizes = variants(logs[i])
            got = figures.heights(ax, [k + 0.5 for k in range(0, len(sizes) + 3)])
            check_eq(sorted(x for x in got if x), sorted(map(float, sizes)), 'sizes of the trace variants')
            check_eq(got[1:len(sizes) + 1], [x for x in got if x], 'variants side by side')
            if kind == 'histograms':
                check_eq(ax.get_title(), f'log{i}.x', 'title of a histogram')
        return
    check_eq(len(figure.axes), 1, 'one diagram')
    ax = figure.axes[0]
    if o['title'] is not None:
        check_eq(ax.get_xlabel(), o['title'], 'title')
    figures.everything_visible(ax)
    box = figures.legend(ax)
    if kind == 'entropy':
        entropy_diagram(case, ax, box)
        return
    width = o['width'] if kind not in ('concrete',) else 1
    names = case['log']
    if kind == 'diversity':
        expected = [[(1, n) for n in t] for t in names]
    elif kind in ('concrete', 'placement'):
        selected = {n for n, s in zip(case['abc'], o['select'] * len(case['abc'])) if s}
        expected = [[(1, n if n in selected else ('black', n)) for n in t] for t in names]
    elif kind in ('full', 'short'):
        expected = [fill([(i.start_pos, i.length, i.node.name) for i in here], len(t), kind == 'short') for here, t in zip(instances, names)]
    elif kind in ('patterns', 'patterns_short'):
        marked = [[(m.first_pos, m.length, key_of(log, j, m)) for m in here] for j, here in enumerate(pattern_marks(case))]
        expected = [fill(here, len(t), kind == 'patterns_short') for here, t in zip(marked, names)]
    else:
        node = nodes[o['which'] % len(nodes)]
        expected = [fill([(i.start_pos, i.length, ('instance', j, n)) for n, i in enumerate(here) if i.node.name == node.name], len(t), False)
                    for j, (here, t) in enumerate(zip(instances, names))]
    rows = figures.rows(ax, o['height'])
    check(all(0 <= r < len(names) for r in rows), f'{kind}: rows of traces', sorted(rows))
    seen = {}
    for r, row in enumerate(expected):
        at, wanted = 0, []
        for length, _ in row:
            if length:
                wanted.append((at * width, length * width))
            at += length
        got = rows.get(r, [])
        check_eq([(x, w) for x, w, _ in got], wanted, f'{kind}: places of rectangles of trace {r}')
        for (_, key), (_, _, color) in zip([x for x in row if x[0]], got):
            seen.setdefault(key, []).append((r, color))
    for key, places in seen.items():
        if isinstance(key, tuple) and key[0] == 'black':
            check(all(c == BLACK for _, c in places), f'{kind}: the color of what is not selected', places)
        elif key is UNDEFINED:
            check(all(c == (BLACK if kind == 'single' else colors.cached.get('UndefinedActivity', BLACK)) for _, c in places), f'{kind}: the color of what is undefined', places)
        elif isinstance(key, tuple) and key[0] in ('instance',):
            continue
        else:
            check_eq(len({c for _, c in places}), 1, f'{kind}: one color for {key!r}')
            if key == 'UndefinedActivity' and kind in ('full', 'short'):
                continue  # an activity of that name looks like what is undefined
            colors.see(key, places[0][1], kind)
    for key, color in colors.cached.items():
        if key in seen or key in colors.of:
            check_eq(color.upper(), colors.of.get(key, color).upper(), f'{kind}: the color kept for {key!r}')
    if kind == 'single':
        for r in range(len(names)):
            here = [p[1] for k, places in seen.items() if isinstance(k, tuple) and k[1] == r for p in places]
            check(BLACK not in here, 'instances are told from the rest', here)
            check_eq(len(set(here)), len(here) if o['different'] else min(1, len(here)), f'colors of the instances in trace {r}')
    # the legend
    if not o['legend']:
        check(box is None, f'{kind}: no legend was asked for')
    else:
        check(box is not None, f'{kind}: the legend')
        text = {}
        for key, places in seen.items():
            label = 'UndefinedActivity' if key is UNDEFINED else key[1] if isinstance(key, tuple) and key[0] == 'black' else \
                nodes[o['which'] % len(nodes)].name if isinstance(key, tuple) and key[0] == 'instance' else key
            text.setdefault(label, set()).update(c for _, c in places)
        if kind in ('patterns', 'patterns_short'):
            undefined = [(t, c) for t, c in box if t == 'UndefinedActivity']
            check_eq(bool(undefined), UNDEFINED in seen or ('short' in kind and not all(names)) or not all(names) , 'legend of what is outside of patterns')
            pattern_colors = sorted(p[0][1] for k, p in seen.items() if k is not UNDEFINED)
            check_eq(sorted(c for t, c in box if t != 'UndefinedActivity'), pattern_colors, 'legend of patterns')
        else:
            got = dict(box)
            check_eq(len(got), len(box), f'{kind}: names in the legend')
            if not all(names):  # an empty trace counts as undefined
                got.pop('UndefinedActivity', None)
                text.pop('UndefinedActivity', None)
            check_eq(sorted(got), sorted(n for n in text if not n.startswith('_')), f'{kind}: names in the legend')
            for n, c in got.items():
                check(c in text[n], f'{kind}: the color of {n!r} in the legend', c, text[n])
    (x, x_text), (y, y_text) = figures.ticks(ax)
    check_eq(figures.ticks(ax, 0), ((0.0, '0' if max(map(len, names)) else x_text), (0.0, '0')), f'{kind}: the axes begin at 0')
    longest = max(map(len, names))
    check_eq((y, y_text), (float(len(names) * o['height']), str(len(names))), f'{kind}: the number of traces at the axis')
    check_eq((x, x_text), (float(longest * width), str(longest)), f'{kind}: the longest length at the axis')


UNDEFINED = ('undefined', None)


def fill(marks, length, short):
    """[(length, key), ...] of a whole trace with undefined stretches in between"""
    result, at = [], 0
    for start, n, key in marks:
        if start > at:
            result.append((1 if short else start - at, UNDEFINED))
        result.append((1 if short else n, key))
        at = start + n
    if at < length or not marks:
        result.append((1 if short else length - at, UNDEFINED))
    return result


def key_of(log, j, m):
    return repr([sorted(e.payload.items()) for e in log.traces[j][m.first_pos:m.first_pos + m.length]])


def variants(names):
    result = {}
    for t in names:
        result[tuple(t)] = result.get(tuple(t), 0) + 1
    return list(result.values())


def entropy_diagram(case, ax, box):
    if any(n in ('FAKE_START', 'FAKE_END') for t in case['log'] for n in t):
        return
    expected = dfg_entropies(case['log'], False)
    shapes = figures.rectangles(ax)
    check_eq(sorted((x, w) for x, y, w, h, _ in shapes), [(float(i), 1.0) for i in range(len(expected))], 'entropies side by side')
    height = {c: h for _, _, _, h, c in shapes}
    check_eq(len(height), len(shapes), 'a color for every event')
    listed, last = {}, None
    for text, color in box or []:
        name, value = text.rsplit(' ', 1)
        value = float(value)
        check(last is None or value <= last + 1e-9, 'the legend goes from high to low')
        last = value
        check(name in expected and name not in listed, 'names in the legend', name)
        listed[name] = value
        for what, x in (('value in the legend', value), ('height', height.get(color))):
            check(x is not None and abs(x - expected[name]) < 1e-7, f'{what} of the entropy of {name!r}', x, expected[name])
    check_eq(sorted(listed), sorted(n for n in expected if not n.startswith('_')), 'names in the legend')
