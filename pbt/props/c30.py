"""Coloured logs and clustered datasets of the backend are drawn as they are sent."""
import os
import random
import shutil
import tempfile

import IPython.display
import ipycanvas
import numpy
from matplotlib.colors import to_hex
from sklearn import manifold

from .. import figures, fx, gen
from ..core import check, check_eq
from .c25 import color, pm_colors
from python.ficus.grpc_pipelines import activities_parts as acp, drawing_parts as dp
from python.ficus.grpc_pipelines.models import pipelines_and_context_pb2 as pc, pm_models_pb2 as pm, util_pb2 as ut
from python.ficus.legacy.analysis import event_log_analysis as ela, event_log_analysis_canvas as canvas_module

CASES = {'quick': 6000, 'thorough': 150000}
RULE = 'coloured logs drawn on a figure or a canvas by any remote part, and labeled datasets shown in one to three dimensions; ' \
       'non-trivial: at least three rectangles or three points'
ASSUMPTIONS = ['the log has at least one trace', 'matplotlib leaves names that begin with an underscore out of legends',
               'the rows of a dataset differ, and there are at least 7 rows and 3 columns (Isomap needs more than 5 rows)']
FIGURES = {'TracesDiversityDiagram2': [], 'DrawPlacementsOfEventByName2': ['a'], 'DrawPlacementOfEventsByRegex2': ['.*'], 'DrawFullActivitiesDiagram2': [],
           'DrawShortActivitiesDiagram2': []}
ORDER = ['title', 'save_path', 'plot_legend', 'height_scale', 'width_scale']
CANVAS_ORDER = ['save_path', 'plot_legend', 'title', 'height_scale', 'width_scale']
LOOKS = {'show_visualization': True, 'fig_size': (7, 9), 'view_params': (-140, 60), 'font_size': 14, 'save_path': None, 'n_components': ela.NComponents.Three,
         'visualization_method': ela.DatasetVisualizationMethod.Pca, 'legend_cols': 2}
CLUSTERS = {'ClusterizeActivitiesFromTracesKMeans': 'labeled_traces_activities_dataset', 'ClusterizeLogTracesDbscan': 'labeled_log_traces_dataset',
            'ClusterizeActivitiesFromTracesKMeansGridSearch': 'labeled_traces_activities_dataset',
            'ClusterizeActivitiesFromTracesDbscan': 'labeled_traces_activities_dataset'}


def generate(d):
    kind = d.choice(['figure', 'canvas', 'canvas', 'points'])
    if kind == 'points':
        tsne = d.below(60) == 59
        n, columns = d.int(31, 33) if tsne else d.int(7, 10), d.int(3, 5)
        rows = [[float(d.int(0, 9)) for _ in range(columns)] for _ in range(n)]
        for i, r in enumerate(rows):
            r[i % columns] += i * 0.5
        labels = d.int(1, 4)
        if d.below(8) == 7 and not tsne:  # more clusters than usual
            labels, n = d.int(9, 22), n + d.int(10, 20)
            rows += [[float(d.int(0, 9)) + i * 0.25 for _ in range(columns)] for i in range(n - len(rows))]
        values = list(range(labels)) if d.below(4) else sorted({d.choice([-1, 0, 3, 9, 10, 255, 256, 70000, 2 ** 31 - 1000, -2 ** 31]) + i * d.int(1, 9) for i in range(labels)})
        return {'kind': kind, 'rows': rows, 'labels': [d.below(len(values)) for _ in range(n)], 'values': values, 'colors': distinct_colors(d, labels), 'dimensions': d.int(1, 3),
                'method': 'TSNE' if tsne else d.weighted((6, lambda d: 'Pca'), (1, lambda d: 'Isomap'), (1, lambda d: 'MDS')), 'save': d.bool(),
                'show': d.below(6) != 5, 'part': d.choice(sorted(CLUSTERS) + ['VisualizeTracesActivities2', 'function', 'function']),
                'uncolored': d.below(4) == 3, 'font': d.int(5, 20), 'size': d.choice([[3, 4], [8, 5]]), 'view': d.choice([[10, 20], [-30, 45]]),
                'cols': d.int(1, 5), 'given': d.subset(sorted(LOOKS))}
    names = [gen.name_e(d) + d.choice(['', '', 'x' * 49, 'y' * 60]) for _ in range(d.int(1, 5))]
    colors = distinct_colors(d, len(names))
    log = gen.several(d, d.choice([40, 130]) if d.below(150) == 149 else d.int(1, 4),
                      lambda d: gen.several(d, d.int(0, 5), lambda d: [d.below(len(names)), gen.size(d, 1, 6, 20)]))
    if d.below(100) == 99:  # far to the right
        log[-1] = log[-1] + [[0, d.choice([60, 130, 257, 520])]] + log[0] * d.int(1, 6)
    scale = (lambda: d.choice([1, 1, 2, 3])) if kind == 'figure' else (lambda: d.choice([1, 1, 2, 0.5, 10, 7.25]))
    return {'kind': kind, 'names': names, 'colors': colors, 'log': log, 'height': scale(), 'width': scale(), 'legend': d.bool(),
            'title': d.choice([None, 'title', '', 'Ж']), 'save': d.below(4) == 3, 'how': d.choice(sorted(FIGURES) + ['function']),
            'given': d.subset(ORDER, 2, 3), 'starts': d.below(3), 'positional': d.below(4) == 3}


def distinct_colors(d, n):
    result = []
    while len(result) < n:
        c = color(d)
        while c in result:
            c = [(c[0] + 1) % 256, c[1], c[2]]
        result.append(c)
    return result


def run(case):
    scratch = tempfile.mkdtemp(prefix='c30_')
    try:
        with figures.captured() as shown:
            return {'figure': on_figure, 'canvas': on_canvas, 'points': points}[case['kind']](case, scratch, shown)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def hex_of(c):
    return '#' + ''.join(f'{x:02X}' for x in c)


def draw(case, path, suffix, function):
    # where a stretch lies in the trace has nothing to do with where it is drawn: in short diagrams stretches are shorter
    start = [lambda t, j: 0, lambda t, j: sum(n for _, n in t[:j]), lambda t, j: (j * 7 + 3) % 11][case['starts']]
    log = [[[case['colors'][i], start(t, j), n, case['names'][i]] for j, (i, n) in enumerate(t)] for t in case['log']]
    message = pm_colors(log)
    options = {'title': case['title'], 'save_path': path, 'plot_legend': case['legend'], 'height_scale': case['height'], 'width_scale': case['width']}
    wanted = {'title': None, 'save_path': None, 'plot_legend': suffix == '', 'height_scale': 1, 'width_scale': 1}
    options = {k: v for k, v in options.items() if k in case['given']}
    wanted.update(options)
    by_position = [wanted[k] for k in (CANVAS_ORDER if suffix else ORDER)] if case['positional'] else []
    if case['how'] == 'function':
        function([[ela.ColoredRectangle(ela.Color(*c), at, n, name) for c, at, n, name in t] for t in log], **options)
    else:
        part = getattr(dp, case['how'] + suffix)(*FIGURES[case['how']], *by_position, **({} if by_position else options))
        part.execute_callback({'colors_event_log': pc.GrpcContextValue(colors_log=message)})
    return wanted


def on_figure(case, scratch, shown):
    path = os.path.join(scratch, 'new', 'd.png') if case['save'] else None
    wanted_options = draw(case, path, '', ela.draw_colors_event_log)
    height, width, title = (wanted_options[k] for k in ('height_scale', 'width_scale', 'title'))
    check_eq([p for _, p in shown], [wanted_options['save_path']], 'where the diagram goes')
    ax = shown[0][0].axes[0]
    rows = figures.rows(ax, height)
    check(all(0 <= r < len(case['log']) for r in rows), 'rows of traces', sorted(rows))
    for r, t in enumerate(case['log']):
        at, wanted = 0, []
        for i, n in t:
            wanted.append((float(at * width), float(n * width), hex_of(case['colors'][i])))
            at += n
        check_eq(rows.get(r, []), wanted, f'rectangles of trace {r}')
    figures.everything_visible(ax)
    if title is not None:
        check_eq(ax.get_xlabel(), title, 'title')
    box = figures.legend(ax)
    if not wanted_options['plot_legend']:
        check(box is None, 'no legend was asked for')
    else:
        wanted = {}
        for t in case['log']:
            for i, _ in t:
                wanted.setdefault(case['names'][i][:50], set()).add(hex_of(case['colors'][i]))
        got = dict(box)
        check_eq(len(got), len(box), 'names in the legend')
        check_eq(sorted(got), sorted(n for n in wanted if not n.startswith('_')), 'names in the legend')
        for n, c in got.items():
            check(c in wanted[n], f'the color of {n!r} in the legend', c, wanted[n])
    longest = max(sum(n for _, n in t) for t in case['log'])
    (x, x_text), (y, y_text) = figures.ticks(ax)
    check_eq((y, y_text), (float(len(case['log']) * height), str(len(case['log']))), 'the number of traces at the axis')
    check_eq((x, x_text), (float(longest * width), str(longest)), 'the longest length at the axis')
    return {'nontrivial': sum(map(len, case['log'])) > 2, 'figure': True}


class Recorder:
    """Stands in for a canvas: records what is painted, with the color at that time."""
    instances = []

    def __init__(self, width=0, height=0, **kwargs):
        self.width, self.height, self.kwargs = width, height, kwargs
        self.fill_style, self.rects, self.texts, self.lines, self.observers, self.saved = 'black', [], [], [], [], []
        Recorder.instances.append(self)

    def fill_rect(self, x, y, width, height=None):
        self.rects.append((x, y, width, width if height is None else height, self.fill_style))

    def fill_text(self, text, x, y, *_):
        self.texts.append((text, x, y))

    def observe(self, handler, names=None, type='change'):
        if names is None or 'image_data' in ([names] if isinstance(names, str) else names):
            self.observers.append(handler)

    def to_file(self, path):
        self.saved.append(path)

    def __getattr__(self, name):
        return lambda *args, **kwargs: None


def on_canvas(case, scratch, _shown):
    displayed = []
    del Recorder.instances[:]
    with fx.replaced({ipycanvas.Canvas: Recorder, IPython.display.display: displayed.append}):
        options = draw(case, os.path.join(scratch, 'd.png') if case['save'] else None, 'Canvas', canvas_module.draw_colors_event_log_canvas)
    check_eq(len(Recorder.instances), 1, 'one canvas')
    c = Recorder.instances[0]
    path, height, width, title = (options[k] for k in ('save_path', 'height_scale', 'width_scale', 'title'))
    check_eq(displayed, [] if path is not None else [c], 'the canvas is displayed')
    # the picture comes later; it is saved then
    check_eq(c.saved, [], 'nothing is saved before there is a picture')
    if path is not None:
        check(c.kwargs.get('sync_image_data'), 'the picture of the canvas is asked for')
    for handler in c.observers:
        handler({'name': 'image_data', 'owner': c, 'old': b'', 'new': b'picture', 'type': 'change'})
    check_eq(c.saved, [] if path is None else [path], 'where the picture goes')
    background, rest = c.rects[0], c.rects[1:]
    check_eq(background, (0, 0, c.width, c.height, 'white'), 'background')
    wanted, total = [], sum(map(len, case['log']))
    for r, t in enumerate(case['log']):
        at = 0
        for i, n in t:
            wanted.append((at * width, r * height, n * width, height, hex_of(case['colors'][i])))
            at += n
    drawn, listed = rest[:total], rest[total:]
    if [g[2:4] for g in drawn] != [w[2:4] for w in wanted]:
        listed, drawn = rest[:len(rest) - total], rest[len(rest) - total:]  # the legend comes first
    check_eq(len(drawn), total, 'number of rectangles')
    # everything may be moved, but by the same distance
    offset = [(g[0] - w[0], g[1] - w[1]) for g, w in zip(drawn, wanted)]
    for (g, w), o in zip(zip(drawn, wanted), offset):
        check(abs(o[0] - offset[0][0]) < 1e-6 and abs(o[1] - offset[0][1]) < 1e-6, 'place of a rectangle', g, w, offset[0])
        check(abs(g[2] - w[2]) < 1e-9 and abs(g[3] - w[3]) < 1e-9, 'size of a rectangle', g, w)
        check_eq(g[4].upper(), w[4], 'color of a rectangle')
        check(0 <= g[0] and g[0] + g[2] <= c.width + 1e-6 and 0 <= g[1] and g[1] + g[3] <= c.height + 1e-6, 'rectangles are inside of the canvas', g)
    names = {}
    for t in case['log']:
        for i, _ in t:
            names.setdefault(case['names'][i], set()).add(hex_of(case['colors'][i]))
    texts = list(c.texts)
    if title is not None:
        check(any(x[0] == title for x in texts), 'title', texts)
        texts.remove(next(x for x in texts if x[0] == title))
    for number in (len(case['log']), max(sum(n for _, n in t) for t in case['log'])):
        check(any(x[0] == str(number) for x in texts), f'{number} at the axis', texts)
        texts.remove(next(x for x in texts if x[0] == str(number)))
    check_eq(sorted(x[0] for x in texts), sorted(names) if options['plot_legend'] else [], 'names in the legend')
    check_eq(len(listed), len(names) if options['plot_legend'] else 0, 'colors in the legend')
    bottom = max([g[1] + g[3] for g in drawn], default=0)
    for g in listed:
        check(g[1] >= bottom - 1e-6 and g[1] + g[3] <= c.height + 1e-6, 'the legend is below of the diagram', g, bottom, c.height)
        beside = [x for x in texts if g[1] <= x[2] <= g[1] + g[3]]
        check_eq(len(beside), 1, 'a name beside of the color')
        check(g[4].upper() in names[beside[0][0]] and beside[0][1] >= g[0] + g[2], 'the color beside of a name', g, beside)
    return {'nontrivial': total > 2, 'canvas': True}


def points(case, scratch, shown):
    path = os.path.join(scratch, 'd.png') if case['save'] else None
    n = ela.NComponents(case['dimensions'])
    method = ela.DatasetVisualizationMethod[case['method']]
    columns = [f'c{i}' for i in range(len(case['rows'][0]))]
    message = pm.GrpcLabeledDataset(
        dataset=pm.GrpcDataset(matrix=pm.GrpcMatrix(rows=[pm.GrpcMatixRow(values=r) for r in case['rows']]), columnsNames=columns,
                               rowNames=[f'r{i}' for i in range(len(case['rows']))]),
        labels=[case['values'][x] for x in case['labels']],
        labelsColors=[] if case['uncolored'] else [ut.GrpcColor(red=c[0], green=c[1], blue=c[2]) for c in (case['colors'][x] for x in case['labels'])])
    options = {'show_visualization': case['show'], 'n_components': n, 'visualization_method': method, 'save_path': path, 'font_size': case['font'],
               'fig_size': tuple(case['size']), 'view_params': tuple(case['view']), 'legend_cols': case['cols']}
    if case['part'] != 'function':
        options = {k: v for k, v in options.items() if k in case['given']}
        if case['part'] == 'VisualizeTracesActivities2':
            options.pop('show_visualization', None)
        if method.name == 'TSNE':  # not when it is not asked for
            options['visualization_method'] = method
    options = {**LOOKS, **options} if case['part'] == 'function' else options
    asked = {**LOOKS, **options}
    n, method, path = asked['n_components'], asked['visualization_method'].name, asked['save_path']
    labels = sorted(set(case['labels']))
    colors = {x: '#FFFFFF' if case['uncolored'] else hex_of(case['colors'][x]) for x in labels}
    value = pc.GrpcContextValue(labeled_dataset=message)
    numpy.random.seed(5)
    random.seed(5)
    plain = case['part'] == 'VisualizeTracesActivities2'
    if plain:
        acp.VisualizeTracesActivities2(**options).execute_callback({'traces_activities_dataset': pc.GrpcContextValue(dataset=message.dataset)})
    elif case['part'] == 'function':
        from python.ficus.grpc_pipelines.context_values import from_grpc_labeled_dataset
        f = {'Pca': ela.visualize_dataset_pca, 'Isomap': ela.visualize_dataset_isomap, 'MDS': ela.visualize_dataset_mds,
             'TSNE': ela.visualize_dataset_tsne}[method]
        f(from_grpc_labeled_dataset(message), n, {} if case['uncolored'] else {case['values'][x]: ela.Color(*case['colors'][x]) for x in labels}, asked['fig_size'],
          asked['view_params'], asked['font_size'], asked['legend_cols'], path, 'cluster_labels')
    else:
        from python.ficus.grpc_pipelines.grpc_pipelines import Pipeline2
        first = [Pipeline2()] if case['part'] == 'ClusterizeLogTracesDbscan' else []
        getattr(acp, case['part'])(*first, **options).execute_callback({CLUSTERS[case['part']]: value})
    if case['part'] != 'function' and not asked['show_visualization']:
        check_eq(shown, [], 'nothing is shown')
        return {'nontrivial': True, 'hidden': True}
    check_eq([p for _, p in shown], [path], 'where the diagram goes')
    ax = shown[0][0].axes[0]
    dimensions = n.value
    groups = [None] if plain else labels
    check_eq(len(ax.collections), len(groups), 'one set of points per label')
    check_eq(tuple(float(x) for x in shown[0][0].get_size_inches()), tuple(float(x) for x in asked['fig_size']), 'size of the figure')
    if plain:
        handles = ax.collections
        check(ax.get_legend() is None, 'no legend without labels')
    else:
        handles, texts = ax.get_legend_handles_labels()
        wanted = [f'CLUSTER_{case["values"][x]}' for x in labels]
        check_eq(sorted(texts), sorted(wanted), 'labels')
        handles = [handles[texts.index(x)] for x in wanted]
        check(ax.get_legend() is not None, 'legend')
        check_eq(sorted(t.get_text() for t in ax.get_legend().get_texts()), sorted(texts), 'labels in the legend')
        check_eq(ax.get_legend()._ncols, asked['legend_cols'], 'columns of the legend')
    coordinates = {}
    for x, c in zip(groups, handles):
        faces = {to_hex(f).upper() for f in c.get_facecolors()}
        check(len(faces) == 1 if plain else faces == {colors[x]}, f'color of label {x}', faces)
        xyz = numpy.array(c._offsets3d).T if dimensions == 3 else numpy.asarray(c.get_offsets())
        mine = [i for i, y in enumerate(case['labels']) if plain or y == x]
        check_eq(len(xyz), len(mine), f'points of label {x}')
        for i, p in zip(mine, xyz):
            coordinates[i] = [float(v) for v in p]
    got = numpy.array([coordinates[i] for i in range(len(case['rows']))])
    if dimensions == 1:
        check(bool((got[:, 1] == 0).all()), 'one dimension')
        got = got[:, :1]
    data = numpy.array(case['rows'])
    if method == 'Pca':
        # centred, uncorrelated, and the distances are those of the best projection
        data = data - data.mean(axis=0)
        spread = numpy.linalg.svd(data, compute_uv=False)[:dimensions]
        check(bool(numpy.allclose(got.mean(axis=0), 0, atol=1e-3)), 'points are centred')
        check(bool(numpy.allclose(got.T @ got, numpy.diag(spread ** 2), atol=1e-2 * max(1.0, spread[0] ** 2 * 1e-2))), 'spread of the points',
              (got.T @ got).tolist(), (spread ** 2).tolist())
    else:
        numpy.random.seed(5)
        random.seed(5)
        same = {'Isomap': manifold.Isomap, 'MDS': manifold.MDS, 'TSNE': manifold.TSNE}[method](n_components=dimensions).fit_transform(data)
        check(bool(numpy.allclose(got, same, rtol=1e-3, atol=1e-3 * max(1.0, float(numpy.abs(same).max())))), f'points of {method}', got.tolist(),
              same.tolist())
    axes = [ax.xaxis, ax.yaxis] + ([ax.zaxis] if dimensions == 3 else [])
    check_eq([a.label.get_text() for a in axes], ['Component 1', 'Component 2', 'Component 3'][:len(axes)], 'names of the axes')
    check_eq([float(a.label.get_size()) for a in axes], [float(asked['font_size'])] * len(axes), 'font size of the names of the axes')
    if dimensions == 3:
        check_eq((float(ax.elev), float(ax.azim)), tuple(float(x) for x in asked['view_params']), 'point of view')
    return {'nontrivial': True, method: True, f'{dimensions}d': True, 'unlabeled': plain}
