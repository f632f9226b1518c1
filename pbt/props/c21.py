"""Event class trees and the graphs drawn of trees show exactly the classes, activities and their relations."""
import contextlib
import io
import os
import shutil
import tempfile
from unittest import mock

import graphviz

from .. import gen
from ..activities import SOURCES, build_roots
from ..core import check, check_eq
from ..dot import by_label, read_graphs
from ..fx import CN, WarmPipeline, make_log, snapshot
from ..patterns import all_nodes
from python.ficus.legacy.analysis.patterns.event_log_patterns import build_class_tree
from python.ficus.legacy.analysis.patterns.patterns_graphs import build_graph, draw_activity_graph, draw_event_class_tree
from python.ficus.legacy.pipelines.analysis.patterns.patterns_graph_parts import (BuildActivityGraph, BuildEventClassGraph,
                                                                                  BuildEventClassTree,
                                                                                  DrawActivitiesGraphByEventClassLevels,
                                                                                  DrawEventClassTree, SerializeGraph)
from python.ficus.legacy.pipelines.analysis.patterns.patterns_parts import DrawActivitiesGraph
from python.ficus.legacy.pipelines.contexts.accessors import event_class_tree, graph, serialized_graph
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from python.ficus.legacy.pipelines.pipelines import Pipeline

CASES = {'quick': 4800, 'thorough': 120000}
RULE = 'a log with dotted and unusual names, chains of class extractors and activities of several levels, drawn with and without ' \
       'a root; non-trivial: a tree with an inner node'
ASSUMPTIONS = ['graphviz decides what a graph description means; rendering to images is stubbed']

CHAIN = {'same': lambda n: n, 'dot': lambda n: n.rsplit('.', 1)[0], 'first': lambda n: n.split('.')[0], 'colon': lambda n: n.split(':')[0],
         'const': lambda n: 'all', 'short': lambda n: n[:2], 'lower': lambda n: n.lower()}
NAMES = ['a', 'b', 'a.b', 'a.c', 'a.b.c', 'a.b.d', 'b.a', 'B', 'A.b', 'a:b', 'a::b', 'b::a', 'a:c', '<a>', '<init>', 'a<b', '%', '%3A', 'a%3Ab',
         '1', '01', 'a b', 'é', '"q"', 'node', 'graph', 'edge', 'a\'b', 'a;b', 'a->b', '{a}', 'a|b', '#a', '//a', 'root', 'root.a', '%root', 'a\\b', 'a\\nb', '\\N', 'a\\', '\\', '&amp;', 'a&lt;b', 'R&D', '&#65;', '', '"q"::', 'a::', '"::']


def pick(d):
    if d.below(4):
        return d.choice(NAMES)
    return gen.name(d, True)


def generate(d):
    abc = gen.alphabet(d, 2, 8, pick, 14)
    log = [[abc[i] for i in t][:30] for t in gen.index_log(d, len(abc), 4, 10, 1, 80)]
    return {'log': log, 'chain': [d.choice(sorted(CHAIN)) for _ in range(d.int(0, 3))], 'root': d.choice([None, True, False]),
            'marks': d.choice(sorted(SOURCES)), 'part': d.bool(), 'rotate': d.below(10), 'prefix': d.bool(),
            'path': d.choice(['g.png', 'x/g.png', 'g', 'a.b/g.svg']), 'hashes': d.choice([None, True, False]), 'setter': d.bool(), 'mutator': d.below(4) == 3,
            'show': d.below(4) == 3, 'named': d.choice([0, 0, 2, 3])}


def tree_graph(roots, add_root, name=lambda n: n.name):
    nodes, edges = set(), []

    def walk(n, parent):
        nodes.add(name(n))
        if parent is not None:
            edges.append((name(n), parent))
        for c in n.child_nodes:
            walk(c, name(n))
    for r in roots:
        walk(r, 'root' if add_root else None)
    return sorted(list(nodes) + ['root'] * bool(add_root and roots)), sorted(edges)


def run(case):
    names = case['log']
    log = make_log(names)
    before = snapshot(log)
    chain = [CHAIN[c] for c in case['chain']]
    leaves = sorted({n for t in names for n in t})

    # the tree of event classes (a setter counts its calls)
    Part = Pipeline if case['setter'] else WarmPipeline
    context = PipelinePartResult().with_log(log)
    if case['part']:
        context = Part(BuildEventClassTree(chain))(context)
        tree = event_class_tree(context)
    else:
        tree = build_class_tree(log, chain)
        context.with_event_class_tree(tree)

    def up(n, k):
        for f in chain[:k]:
            n = f(n)
        return n

    def collect(node, depth):
        """[(path of names from the top, ...)]"""
        if depth == 0:
            check_eq(node.child_nodes, [], 'leaves of the class tree')
            return [(node.name,)]
        check(node.child_nodes, 'an inner class has children')
        return [(node.name,) + p for c in node.child_nodes for p in collect(c, depth - 1)]
    paths = sorted(p for n in tree for p in collect(n, len(chain)))
    check_eq(paths, sorted(tuple(up(n, k) for k in range(len(chain), -1, -1)) for n in leaves),
             'every event name is in the class tree once, under its classes')
    check_eq(len(tree), len({up(n, len(chain)) for n in leaves}), 'one top class for each')

    # graphs
    add_root = case['root'] is not False
    kw = {} if case['root'] is None else {'add_root_node': case['root']}
    creator = (lambda n: 'p:' + n.name) if case['prefix'] else (lambda n: n.name)
    attributed = []
    if case['setter']:
        def setter(drawn):
            attributed.append(drawn)
            drawn.graph_attr['comment'] = f'set {len(attributed)}'
        set_kw = {'graph_attributes_setter': setter}
        function_kw = {'set_attributes_to_func': setter}
    else:
        set_kw = function_kw = {}
    name_kw = {'node_name_creator': creator} if case['prefix'] else {}
    sources, expected = [], []
    g = graph(Part(BuildEventClassGraph('classes', **kw, **name_kw, **set_kw))(context)) if case['part'] else \
        build_graph(tree, 'classes', **kw, **name_kw, **function_kw)
    sources.append(g.source)
    expected.append(tree_graph(tree, add_root, creator))

    again_kw = {'set_attributes_to_func': lambda drawn: drawn.graph_attr.update(comment='set 1')} if case['setter'] else {}
    text = serialized_graph(Part(SerializeGraph())(PipelinePartResult().with_graph(g)))
    k = case['rotate'] % (len(tree) or 1)
    other = build_graph(tree[k:] + tree[:k], 'another name', **kw, **name_kw, **again_kw)
    check_eq(serialized_graph(Part(SerializeGraph())(PipelinePartResult().with_graph(other))), text,
             'serialized form does not depend on the order of nodes or the name of the graph')
    if tree:
        fewer = build_graph(tree[1:], 'classes', **kw, **name_kw, **again_kw)
        check(serialized_graph(Part(SerializeGraph())(PipelinePartResult().with_graph(fewer))) != text,
              'serialized form tells different graphs apart')

    roots = {}
    for level, f in enumerate([lambda e: e[CN], lambda e: e[CN].split('.')[0]]):
        found = build_roots(log, case['marks'], f, level)
        if found:
            roots[level] = found
    if case['named']:
        # names given by the user, which several activities share
        for i, n in enumerate(n for level in sorted(roots) for n in all_nodes(roots[level])):
            n.name = f'activity {i % case["named"]}'
    everything = [r for level in sorted(roots) for r in roots[level]]
    context.with_activities(everything)
    for level in roots:
        g = graph(Part(BuildActivityGraph(level, f'activities {level}', **kw, **name_kw, **set_kw))(context))
        sources.append(g.source)
        expected.append(tree_graph(roots[level], add_root, creator))

    # drawing (rendering is recorded)
    rendered = []
    hashes = {} if case['hashes'] is None else {'use_hashes_as_name': case['hashes']}
    path = {} if case['show'] else {'save_path': case['path']}
    mutator = {'save_path_mutator': lambda base, level: f'{level}/{base}'} if case['mutator'] else {}
    scratch = tempfile.mkdtemp(prefix='c21_')

    def render(self, filename=None, *args, **kwargs):
        rendered.append((filename, self.source, kwargs.get('format') or (args[3] if len(args) > 3 else None) or self.format))
        name = os.path.join(scratch, 'image.png')
        with open(name, 'wb') as f:
            f.write(b'\x89PNG\r\n\x1a\n')
        return name
    out = io.StringIO()
    try:
        with mock.patch.object(graphviz.Digraph, 'render', render), contextlib.redirect_stdout(out):
            Pipeline(DrawActivitiesGraphByEventClassLevels(**path, **kw, **name_kw, **set_kw, **mutator))(context)
            base, ext = os.path.splitext(case['path'])
            if not case['show']:
                check_eq([f for f, _, _ in rendered], [f'{level}/{case["path"]}' if case['mutator'] else f'{base}_{level}{ext}' for level in sorted(roots)],
                         'one file for each level')
            expected += [tree_graph(roots[level], add_root, creator) for level in sorted(roots)]
            if case['part']:
                Pipeline(DrawEventClassTree(**path, **kw, **set_kw))(context)
                Pipeline(DrawActivitiesGraph(**path, **hashes, **kw, **set_kw))(context)
            else:
                draw_event_class_tree(tree, **path, **kw, **function_kw)
                draw_activity_graph(everything, **path, **hashes, **kw, **function_kw)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    check_eq(len(rendered), len(roots) + 2, 'number of drawings')
    check_eq([f for _, _, f in rendered], ['png'] * len(rendered), 'drawings are images')
    if case['show']:
        check_eq(out.getvalue().count('Image object'), len(rendered), 'drawings are shown')
    else:
        check_eq([f for f, _, _ in rendered[-2:]], [case['path']] * 2, 'files of drawings')
        check_eq(out.getvalue().count('Image object'), 0, 'saved drawings are not shown')
    rendered = [(f, s) for f, s, _ in rendered]
    sources += [s for _, s in rendered]
    expected.append(tree_graph(tree, add_root))
    expected.append(tree_graph(everything, add_root, (lambda n: '\n'.join(n.name.split('::'))) if case['hashes'] is False else lambda n: str(hash(n))))

    graphs = read_graphs(sources)
    check_eq(len(graphs), len(expected), 'graphs')
    if case['setter']:
        check_eq([g['graph'].get('comment') for g in graphs], [f'set {i + 1}' for i in range(len(graphs))], 'attributes of the graph')
    for g, (nodes, edges) in zip(graphs, expected):
        got_nodes, got_edges = by_label(g)
        plain = lambda x: x.replace('\n', ' ').strip()  # white space at the borders is not kept by graphviz
        got_nodes, nodes = sorted(map(plain, got_nodes)), sorted(map(plain, nodes))
        got_edges, edges = (sorted((plain(a), plain(b)) for a, b in e) for e in (got_edges, edges))
        check_eq(got_nodes, nodes, 'nodes of the graph')
        check_eq(got_edges, edges, 'edges of the graph')
    check_eq(snapshot(log), before, 'the log is left as it was')
    return {'nontrivial': bool(chain) and bool(tree), 'merged_names': len({n.name for n in all_nodes(tree)}) < len(all_nodes(tree)),
            'activities': bool(roots), 'nested': any(r.child_nodes for r in everything)}
