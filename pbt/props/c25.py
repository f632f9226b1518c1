"""Values cross the wire between frontend and backend unchanged."""
import math

from .. import gen
from ..core import check, check_eq
from ..grpc_parts import f32
from python.ficus.grpc_pipelines import context_values as cv
from python.ficus.grpc_pipelines.models import pipelines_and_context_pb2 as pc, pm_models_pb2 as pm, util_pb2 as ut

CASES = {'quick': 150000, 'thorough': 3750000}
RULE = 'values of every kind that is exchanged; non-trivial: at least two elements in it'
ASSUMPTIONS = []


def u32(d):
    return gen.integer(d, 0, 1000) if d.below(4) else d.choice([0, 255, 2 ** 31, 2 ** 32 - 1])


def u64(d):
    return gen.integer(d, 0, 1000) if d.below(4) else d.choice([2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1])


def real(d):
    return f32(d.choice([0.0, 0.5, 1.0, 0.1, 1e-5, -1.0, 3.25, 1e10, 2.0, -0.25, 1e-9, 0.12345678, 16777216.0, 1e30]))


def few(d, f, high=5):
    n = d.choice([130, 260, 1030]) if d.below(400) == 399 else gen.size(d, 0, high, 30)
    return gen.several(d, n, f)


def distinct(d, f, high=6):
    return list(dict.fromkeys(few(d, f, high)))


def names_log(d):
    return gen.several(d, gen.size(d, 0, 4, 20), lambda d: few(d, gen.name_e))


def color(d):
    return [d.choice([0, 1, 9, 15, 16, 127, 128, 255]) if d.bool() else d.below(256) for _ in range(3)]


def net(d):
    places = distinct(d, u64)
    transitions = [x for x in distinct(d, u64) if x not in places]
    ids = iter(range(100000, 200000))
    arcs = lambda: [[next(ids), d.choice(places), d.int(0, 3)] for _ in range(d.int(0, 3))] if places else []
    marking = lambda: [[d.choice(places), d.int(0, 3)] for _ in range(d.int(0, 2))] if places else []
    return {'places': [[p, gen.name_e(d)] for p in places], 'transitions': [[t, arcs(), arcs(), gen.name_e(d)] for t in transitions],
            'initial': marking(), 'final': marking()}


def dataset(d):
    rows, columns = d.int(0, 5), d.int(1, 4)
    return {'matrix': gen.several(d, rows, lambda d: [real(d) for _ in range(columns)]), 'columns': [f'c{i}' + gen.text(d, 0, 2) for i in range(columns)],
            'rows': [gen.name(d) for _ in range(rows)], 'labels': [d.int(0, 3) for _ in range(rows)]}


KINDS = {
    'string': gen.name_e, 'float': real, 'uint32': u32, 'bool': gen.boolean,
    'hashes': lambda d: gen.several(d, d.int(0, 4), lambda d: few(d, u64)), 'names': names_log,
    'enum': lambda d: [gen.name_e(d), gen.name_e(d)], 'strings': lambda d: few(d, gen.name_e),
    'info': lambda d: [u32(d), u32(d), u32(d)],
    'colors': lambda d: gen.several(d, gen.size(d, 0, 4, 20), lambda d: gen.several(d, d.int(0, 4), lambda d: [color(d), u32(d), d.int(0, 9), gen.name_e(d)])),
    'net': net, 'count': lambda d: [[i, u64(d) if d.below(4) else d.below(2)] for i in distinct(d, u64)], 'frequency': lambda d: [[i, real(d)] for i in distinct(d, u64)],
    'dataset': dataset, 'graph': lambda d: {'nodes': [[i, gen.name_e(d)] for i in distinct(d, u64)],
                                            'edges': few(d, lambda d: [u64(d), u64(d), gen.name_e(d)])}}


def generate(d):
    kind = d.choice(sorted(KINDS))
    return {'kind': kind, 'value': KINDS[kind](d)}


def wire(value):
    check(isinstance(value, pc.GrpcContextValue), 'a context value is sent', type(value).__name__)
    return pc.GrpcContextValue.FromString(value.SerializeToString())


def which(message, kind):
    check_eq(message.WhichOneof('contextValue'), kind, 'kind of the value')
    return getattr(message, kind)


def again(message):
    return type(message).FromString(message.SerializeToString())


def run(case):
    kind, v = case['kind'], case['value']
    big = len(v) > 1 if isinstance(v, list) else isinstance(v, dict)
    if kind == 'string':
        check_eq(which(wire(cv.StringContextValue(v).to_grpc_context_value()), 'string'), v, 'string')
    elif kind == 'float':
        check_eq(which(wire(cv.FloatContextValue(v).to_grpc_context_value()), 'float'), v, 'float')
    elif kind == 'uint32':
        check_eq(which(wire(cv.Uint32ContextValue(v).to_grpc_context_value()), 'uint32'), v, 'number')
    elif kind == 'bool':
        check_eq(which(wire(cv.BoolContextValue(v).to_grpc_context_value()), 'bool'), v, 'flag')
    elif kind == 'hashes':
        m = which(wire(cv.HashesLogContextValue(v).to_grpc_context_value()), 'hashes_log')
        check_eq([list(t.events) for t in m.log.traces], v, 'hashes')
    elif kind == 'names':
        m = which(wire(cv.NamesLogContextValue(v).to_grpc_context_value()), 'names_log')
        check_eq([list(t.events) for t in m.log.traces], v, 'names')
        check_eq(cv.from_grpc_names_log(m), v, 'names read back')
    elif kind == 'enum':
        m = which(wire(cv.EnumContextValue(*v).to_grpc_context_value()), 'enum')
        check_eq([m.enumType, m.value], v, 'enum')
    elif kind == 'strings':
        given = list(v)
        check_eq(list(which(wire(cv.StringsContextValue(given).to_grpc_context_value()), 'strings').strings), v, 'strings')
        check_eq(given, v, 'the given strings')
    elif kind == 'info':
        m = which(wire(cv.EventLogInfo(events_count=v[0], event_classes_count=v[1], traces_count=v[2]).to_grpc_context_value()), 'event_log_info')
        check_eq([m.events_count, m.event_classes_count, m.traces_count], v, 'information')
        info = cv.from_grpc_event_log_info(m)
        check_eq([info.events_count, info.event_classes_count, info.traces_count], v, 'information read back')
    elif kind == 'colors':
        m = pm_colors(v)
        got = cv.from_grpc_colors_log(again(m))
        check_eq([[[[r.color.red, r.color.green, r.color.blue], r.start_pos, r.length, r.name] for r in t] for t in got], v, 'colors')
        for t, e in zip(got, v):
            for r, (c, *_rest) in zip(t, e):
                check_eq(r.color.to_hex().upper(), '#' + ''.join(f'{x:02X}' for x in c), 'color as text')
    elif kind == 'net':
        m = make_net(v)
        n = cv.from_grpc_petri_net(again(m))
        check_eq({i: (p.id, p.name) for i, p in n.places.items()}, {i: (i, name) for i, name in v['places']}, 'places')
        arcs = lambda xs: [[a.id, a.place_id, a.tokens_count] for a in xs]
        check_eq({i: [t.id, arcs(t.incoming_arcs), arcs(t.outgoing_arcs), t.data] for i, t in n.transitions.items()},
                 {t[0]: list(t) for t in v['transitions']}, 'transitions')
        for which_one, marking in (('initial', n.initial_marking), ('final', n.final_marking)):
            check_eq([[x.place_id, x.tokens_count] for x in (marking.markings if marking is not None else [])], v[which_one], f'{which_one} marking')
    elif kind == 'count':
        m = pm.GrpcCountAnnotation(annotations=[pm.GrpcEntityCountAnnotation(entityId=i, count=c) for i, c in v])
        check_eq(cv.from_grpc_count_annotation(again(m)), {i: str(c) for i, c in v}, 'count annotation')
    elif kind == 'frequency':
        m = pm.GrpcFrequenciesAnnotation(annotations=[pm.GrpcEntityFrequencyAnnotation(entityId=i, frequency=c) for i, c in v])
        got = cv.from_grpc_frequency_annotation(again(m))
        check_eq({i: float(x) for i, x in got.items()}, dict(map(tuple, v)), 'frequency annotation')
        check(all(isinstance(x, str) for x in got.values()), 'annotations are texts')
    elif kind == 'dataset':
        m = pm.GrpcDataset(matrix=pm.GrpcMatrix(rows=[pm.GrpcMatixRow(values=r) for r in v['matrix']]), columnsNames=v['columns'], rowNames=v['rows'])
        df = cv.from_grpc_ficus_dataset(again(m))
        check_frame(df, v, v['columns'])
        labeled = cv.from_grpc_labeled_dataset(again(pm.GrpcLabeledDataset(dataset=m, labels=v['labels'])))
        check_frame(labeled, v, v['columns'] + ['cluster_labels'])
        check_eq(labeled['cluster_labels'].tolist(), v['labels'], 'labels')
    else:
        m = pc.GrpcGraph(nodes=[pc.GrpcGraphNode(id=i, data=x) for i, x in v['nodes']],
                         edges=[pc.GrpcGraphEdge(from_node=a, to_node=b, data=x) for a, b, x in v['edges']])
        g = cv.from_grpc_graph(again(m))
        check_eq([[n.id, n.data] for n in g.nodes], v['nodes'], 'nodes')
        check_eq([[e.from_node, e.to_node, e.data] for e in g.edges], v['edges'], 'edges')
    return {'nontrivial': big, kind: True}


def check_frame(df, v, columns):
    check_eq(list(df.columns), columns, 'columns')
    check_eq(list(df.index), v['rows'], 'rows')
    check_eq(df[v['columns']].values.tolist(), v['matrix'], 'matrix')


def pm_colors(v):
    return pc.GrpcColorsEventLog(traces=[pc.GrpcColorsTrace(event_colors=[
        pc.GrpcColoredRectangle(color=ut.GrpcColor(red=c[0], green=c[1], blue=c[2]), start_index=s, length=n, name=name)
        for c, s, n, name in t]) for t in v])


def make_net(v):
    arcs = lambda xs: [pm.GrpcPetriNetArc(id=a, placeId=p, tokens_count=c) for a, p, c in xs]
    marking = lambda xs: pm.GrpcPetriNetMarking(markings=[pm.GrpcPetriNetSinglePlaceMarking(placeId=p, tokensCount=c) for p, c in xs])
    return pm.GrpcPetriNet(places=[pm.GrpcPetriNetPlace(id=i, name=name) for i, name in v['places']],
                           transitions=[pm.GrpcPetriNetTransition(id=i, incomingArcs=arcs(a), outgoingArcs=arcs(b), data=x)
                                        for i, a, b, x in v['transitions']],
                           initial_marking=marking(v['initial']), final_marking=marking(v['final']))
