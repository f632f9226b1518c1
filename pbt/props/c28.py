"""Drawn Petri nets and graphs show exactly the places, transitions, arcs, nodes, edges, names, markings and annotations."""
import contextlib
import io
import json
import os
import shutil
import subprocess
import tempfile
import warnings

from .. import gen
from ..core import Inapplicable, check, check_eq
from ..dot import read_graphs, shown
from .c25 import make_net
from python.ficus.grpc_pipelines import context_values as cv
from python.ficus.grpc_pipelines.discovery_parts import (AnnotatePetriNetWithCount2, AnnotatePetriNetWithFrequency2,
                                                         AnnotatePetriNetWithTraceFrequency2, ViewDirectlyFollowsGraph2, ViewGraph2, ViewPetriNet2)
from python.ficus.grpc_pipelines.models import pipelines_and_context_pb2 as pc, pm_models_pb2 as pm
from python.ficus.legacy.discovery.graph import draw_graph
from python.ficus.legacy.discovery.petri_net import draw_petri_net

CASES = {'quick': 7200, 'thorough': 180000}
RULE = 'nets and graphs with any names, drawn directly or by the callbacks of the remote parts, shown or exported; non-trivial: at least two arcs or edges'
ASSUMPTIONS = []


def label_text(d):
    return gen.name_e(d) if d.below(4) else d.choice(['<init>', '<b>x</b>', '<', 'a\\nb', '\\N', '\\', 'a\\', '"', '<a', '{a|b}', 'a\\lb', '->', '#', '&amp;', 'a&lt;b', '&#65;', 'R&D', '&', '&&nbsp;;', 'a\nb', '\\"', '\\\\', '%3A'])


def generate(d):
    ids = d.shuffle(range(1, 60)) if d.bool() else list(range(1, 60))
    ids = [i * 10 ** 12 if d.below(30) == 29 else i for i in ids]
    if d.bool():
        places = [ids.pop() for _ in range(d.int(0, 5))]
        transitions = [ids.pop() for _ in range(d.int(0, 5))]
        arcs = iter(range(1000, 9999))
        some = lambda: [[next(arcs), d.choice(places), d.int(0, 2)] for _ in range(d.int(0, 3))] if places else []
        marking = lambda: [[p, d.int(0, 2)] for p in d.subset(places, 1, 4)]
        net = {'places': [[p, label_text(d)] for p in places], 'transitions': [[t, some(), some(), label_text(d)] for t in transitions],
               'initial': marking(), 'final': marking()}
        every = [a[0] for t in net['transitions'] for a in t[1] + t[2]]
        case = {'kind': 'net', 'net': net, 'annotation': [[a, d.choice([0, 1, 3, 0.5, 0.25, 17])] for a in d.subset(every)] if d.bool() else None,
                'show_names': d.bool(), 'via': d.choice(['direct', 'view', 'count', 'frequency', 'trace_frequency'])}
    else:
        nodes = [ids.pop() for _ in range(d.int(0, 6))]
        case = {'kind': 'graph', 'nodes': [[n, label_text(d)] for n in nodes],
                'edges': gen.several(d, d.int(0, 7), lambda d: [d.choice(nodes), d.choice(nodes), label_text(d)]) if nodes else [],
                'via': d.choice(['direct', 'view', 'dfg'])}
    return {**case, 'export': d.choice([None, None, 'json', 'sub/json', 'svg']), 'stem': d.choice(['out', 'out', 'out.v2', 'a b', 'Ж.1', '.out']),
            'place': d.choice(['there', 'there', 'over', 'bare']), 'rankdir': d.choice(['LR', 'TB', 'RL']),
            'background': d.choice(['white', 'red', '#00ff00']), 'name': d.choice(['net', 'petri_net', 'x y', 'dfg_graph']),
            'engine': d.weighted((5, lambda d: 'dot'), (1, lambda d: 'neato'), (1, lambda d: 'circo'), (1, lambda d: 'twopi')),
            'given': d.subset(['rankdir', 'background_color', 'name', 'engine', 'show_places_names']), 'positional': d.below(4) == 3}


def places(g):
    return {o['name']: (o.get('pos'), o.get('shape')) for o in g.get('objects', [])}, g.get('bb')


def run(case):
    scratch = tempfile.mkdtemp(prefix='c28')
    old, here = tempfile.tempdir, os.getcwd()
    try:
        tempfile.tempdir = scratch
        os.chdir(scratch)
        return draw(case, scratch)
    finally:
        tempfile.tempdir = old
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)


def draw(case, scratch):
    export = case['export']
    path = None
    if export is not None:
        folder, extension = {'json': ('', 'json'), 'sub/json': ('some.where/else', 'json'), 'svg': ('', 'svg')}[export]
        path = os.path.join(folder, f'{case["stem"]}.{extension}')
        if case['place'] != 'bare':
            path = os.path.join(scratch, path)
        if case['place'] == 'over' and folder == '':
            with open(path, 'w') as f:
                f.write('{"name": "of before"}' * 500)
    via, values = case['via'], {}
    wanted = {'name': 'dfg_graph' if case['kind'] == 'graph' and via != 'direct' else 'petri_net', 'background_color': 'white', 'engine': 'dot',
              'rankdir': 'LR', 'show_places_names': False}
    asked = dict(rankdir=case['rankdir'], background_color=case['background'], name=case['name'], engine=case['engine'],
                 show_places_names=case.get('show_names', False))
    asked = {k: v for k, v in asked.items() if k in case['given'] and (k != 'show_places_names' or case['kind'] == 'net')}
    wanted.update(asked)

    def show(function, first, last, path):
        # arguments in the order of the signature: [show_places_names,] name, background_color, engine, export_path, rankdir
        order = (['show_places_names'] if case['kind'] == 'net' else []) + ['name', 'background_color', 'engine', 'export_path', 'rankdir']
        if case['positional']:
            every = {**wanted, 'export_path': path}
            return function(*first, *[every[k] for k in order], **last)
        return function(*first, **last, **asked, **({} if path is None else {'export_path': path}))

    if case['kind'] == 'net':
        net = case['net']
        message = make_net(net)
        annotation = case['annotation']
        values['petri_net'] = pc.GrpcContextValue(petriNet=message)
        if via in ('count', 'frequency', 'trace_frequency'):
            annotation = annotation or []
        if via == 'count':
            annotation = [[a, int(x)] for a, x in annotation]
            values['petri_net_count_annotation'] = pc.GrpcContextValue(count_annotation=pm.GrpcCountAnnotation(
                annotations=[pm.GrpcEntityCountAnnotation(entityId=a, count=x) for a, x in annotation]))
        elif via in ('frequency', 'trace_frequency'):
            annotation = [[a, float(x)] for a, x in annotation]
            values[f'petri_net_{via}_annotation'] = pc.GrpcContextValue(frequency_annotation=pm.GrpcFrequenciesAnnotation(
                annotations=[pm.GrpcEntityFrequencyAnnotation(entityId=a, frequency=x) for a, x in annotation]))
        texts = None if annotation is None else {a: str(x) for a, x in annotation}
        cls = {'view': ViewPetriNet2, 'count': AnnotatePetriNetWithCount2, 'frequency': AnnotatePetriNetWithFrequency2,
               'trace_frequency': AnnotatePetriNetWithTraceFrequency2}
        if via == 'direct':
            action = lambda path: show(draw_petri_net, [cv.from_grpc_petri_net(message)], {} if texts is None else {'annotation': texts}, path)
        elif via == 'view':
            action = lambda path: show(cls[via], [], {} if texts is None else {'annotation': texts}, path).execute_callback(values)
        else:
            action = lambda path: show(cls[via], [False] if case['positional'] else [], {}, path).execute_callback(values)
    else:
        message = pc.GrpcGraph(nodes=[pc.GrpcGraphNode(id=i, data=x) for i, x in case['nodes']],
                               edges=[pc.GrpcGraphEdge(from_node=a, to_node=b, data=x) for a, b, x in case['edges']])
        values['graph'] = pc.GrpcContextValue(graph=message)
        if via == 'direct':
            action = lambda path: show(draw_graph, [cv.from_grpc_graph(message)], {}, path)
        else:
            action = lambda path: show(ViewGraph2 if via == 'view' else ViewDirectlyFollowsGraph2, [], {}, path).execute_callback(values)

    def source_of(path):
        out = io.StringIO()
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            action(path)
        return out.getvalue()
    source = source_of(path)
    if path is None:
        check(source.strip() != '', 'a graph is shown')
        graph = read_graphs([source])[0]
    else:
        check(os.path.isfile(path), 'the picture is exported', path)
        with open(path, encoding='utf-8') as f:
            text = f.read()
        if export == 'svg':
            check('<svg' in text, 'the picture is an SVG image')
            return {'nontrivial': False, 'svg': True}
        g = json.loads(text)
        if wanted['engine'] != 'dot' or case['background'] == 'red':
            # the same drawing as the engine makes of the graph that is shown
            same = subprocess.run(['dot', '-K' + wanted['engine'], '-Tjson'], input=source_of(None), capture_output=True, text=True, encoding='utf-8',
                                  timeout=120)
            check_eq(places(g), places(json.loads(same.stdout)), f'layout by {wanted["engine"]}')
        nodes = [{**o, 'label': o['name'] if o.get('label', '\\N') == '\\N' else o['label']} for o in g.get('objects', [])]
        by = {n['_gvid']: n for n in nodes}
        graph = {'graph': g, 'nodes': nodes, 'edges': [{**e, 'tail': by[e['tail']], 'head': by[e['head']]} for e in g.get('edges', [])]}
    check_eq(graph['graph'].get('name'), wanted['name'], 'name of the graph')
    check_eq(graph['graph'].get('rankdir'), wanted['rankdir'], 'direction')
    check_eq(graph['graph'].get('bgcolor'), wanted['background_color'], 'background')
    nodes = {n['name']: n for n in graph['nodes']}
    edges = sorted((e['tail']['name'], e['head']['name'], shown(e.get('label', ''), '')) for e in graph['edges'])
    if case['kind'] == 'graph':
        check_eq({n: shown(x['label'], n) for n, x in nodes.items()}, {str(i): x for i, x in case['nodes']}, 'nodes')
        check_eq(edges, sorted((str(a), str(b), x) for a, b, x in case['edges']), 'edges')
        return {'nontrivial': len(case['edges']) > 1, 'graph': True}
    initial, final = {p for p, _ in net['initial']}, {p for p, _ in net['final']}
    check_eq(sorted(nodes), sorted(str(x[0]) for x in net['places'] + net['transitions']), 'nodes of the net')
    for p, name in net['places']:
        n = nodes[str(p)]
        check_eq(n.get('shape'), 'doublecircle' if p in final and p not in initial else 'circle', f'shape of place {p}')
        if p in initial or p in final:
            check('●' in shown(n['label']), f'token on place {p}', n['label'])
        else:
            check_eq(shown(n['label'], str(p)), name if wanted['show_places_names'] else '', f'name of place {p}')
    arcs = []
    for t, incoming, outgoing, data in net['transitions']:
        check_eq(nodes[str(t)].get('shape'), 'box', f'shape of transition {t}')
        check_eq(shown(nodes[str(t)]['label'], str(t)), data, f'name of transition {t}')
        text = lambda a: (texts or {}).get(a, '')
        arcs += [(str(p), str(t), text(a)) for a, p, _ in incoming] + [(str(t), str(p), text(a)) for a, p, _ in outgoing]
    check_eq(edges, sorted(arcs), 'arcs')
    return {'nontrivial': len(arcs) > 1, 'net': True, 'annotated': bool(texts)}
