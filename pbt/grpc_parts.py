"""What the parts of remote pipelines send to the backend, recorded from the backend's own readers of the configuration
(src/rust/ficus_backend/src/pipelines/*_parts.rs, parts_names.rs, keys/context_keys_init.rs, grpc/converters.rs)."""
import importlib
import struct

from . import gen
from python.ficus.grpc_pipelines import data_models as dm
from python.ficus.grpc_pipelines.grpc_pipelines import Pipeline2
from python.ficus.legacy.analysis.event_log_analysis import DatasetVisualizationMethod, NComponents
from python.ficus.legacy.analysis.patterns.patterns_models import UndefinedActivityHandlingStrategy
from python.ficus.legacy.pipelines.analysis.patterns.models import AdjustingMode

REQUIRED = object()

# enum: python class, name of the type in the backend, variants the backend parses
ENUMS = {
    'strategy': (dm.PatternsDiscoveryStrategy, 'PatternsDiscoveryStrategy', ['FromAllTraces', 'FromSingleMergedTrace']),
    'kind': (dm.PatternsKind, 'PatternsKindDto', ['PrimitiveTandemArrays', 'MaximalTandemArrays', 'MaximalRepeats',
                                                  'SuperMaximalRepeats', 'NearSuperMaximalRepeats']),
    'narrow': (dm.NarrowActivityKind, 'ActivityNarrowingKind', ['DontNarrow', 'StayTheSame', 'NarrowUp', 'NarrowDown']),
    'filter': (dm.ActivityFilterKind, 'ActivityInTraceFilterKind', ['NoFilter', 'DefaultFilter']),
    'source': (dm.ActivitiesLogsSource, 'ActivitiesLogsSourceDto', ['Log', 'TracesActivities']),
    'repr': (dm.ActivitiesRepresentationSource, 'ActivityRepresentationSource', ['EventClasses', 'SubTraces', 'SubTracesUnderlyingEvents']),
    'distance': (dm.Distance, 'FicusDistance', ['Cosine', 'L1', 'L2', 'Levenshtein']),
    'traces': (dm.TracesRepresentationSource, 'TracesRepresentationSource', ['Events', 'UnderlyingEvents', 'DeepestUnderlyingEvents']),
    'adjust': (AdjustingMode, 'AdjustingMode', ['FromAllLog', 'FromUnattachedSubTraces']),
    'undef': (UndefinedActivityHandlingStrategy, 'UndefActivityHandlingStrategyDto', ['DontInsert', 'InsertAsSingleEvent', 'InsertAllEvents']),
}

PARTS = {}


def part(cls, module, backend, params=(), keys=None, simple=None, ignored=(), nested=None):
    """params: (parameter, key, type, default) in the order of the constructor (key None: not sent).
    keys: requested context values (a part with a callback); simple: the one key requested without a part before it."""
    PARTS[cls] = dict(cls=cls, module=module, backend=backend, params=list(params), keys=keys, simple=simple, ignored=list(ignored), nested=nested)


# what a part is drawn with is not sent
FIGURE = [('title', None, 'look', None), ('save_path', None, 'look', None), ('plot_legend', None, 'look', True), ('height_scale', None, 'look', 1),
          ('width_scale', None, 'look', 1)]
CANVAS = [('save_path', None, 'look', None), ('plot_legend', None, 'look', False), ('title', None, 'look', None), ('height_scale', None, 'look', 1),
          ('width_scale', None, 'look', 1)]
VIEW = [('name', None, 'look', 'petri_net'), ('background_color', None, 'look', 'white'), ('engine', None, 'look', 'dot'),
        ('export_path', None, 'look', None), ('rankdir', None, 'look', 'LR')]
NET = [('show_places_names', None, 'look', False), *VIEW]
A, D, DR, F, M, P, U, X = ('activities_parts', 'discovery_parts', 'drawing_parts', 'filtering_parts', 'mutation_parts', 'patterns_parts',
                           'util_parts', 'xes_parts')
TANDEM, LEVEL, COUNT, MIN = 'tandem_array_length', 'activity_level', 'events_count', 'min_activity_length'
REGEX = 'event_class_regex'
STRATEGY = 'patterns_discovery_strategy'

part('DiscoverActivities2', A, 'DiscoverActivities', [('activity_level', LEVEL, 'u32', REQUIRED)])
part('DiscoverActivitiesInstances2', A, 'DiscoverActivitiesInstances', [
    ('narrow_activities', 'narrow_activities', 'narrow', 'NarrowDown'), ('min_events_in_activity', MIN, 'u32', 0),
    ('activity_filter_kind', 'activity_in_trace_filter_kind', 'filter', 'DefaultFilter')])
part('CreateLogFromActivitiesInstances2', A, 'CreateLogFromActivities', [
    ('strategy', 'undef_activity_handling_strategy', 'undef', 'DontInsert')])
part('DiscoverActivitiesForSeveralLevels2', A, 'DiscoverActivitiesForSeveralLevels', [
    ('event_classes', 'event_classes_regexes', 'strings', REQUIRED), ('patterns_kind', 'patterns_kind', 'kind', REQUIRED),
    ('narrow_activities', 'narrow_activities', 'narrow', 'NarrowDown'), ('activity_level', LEVEL, 'u32', 0),
    ('strategy', STRATEGY, 'strategy', 'FromAllTraces'), ('max_array_length', TANDEM, 'u32', 20),
    ('adjusting_mode', 'adjusting_mode', 'adjust', 'FromAllLog'), ('min_events_in_unattached_subtrace_count', COUNT, 'u32', 0),
    ('min_events_in_activity_count', MIN, 'u32', 0), ('activity_filter_kind', 'activity_in_trace_filter_kind', 'filter', 'DefaultFilter')])
part('DiscoverActivitiesFromPatterns2', A, 'ExecuteFrontendPipeline', [
    ('patterns_kind', None, 'kind', REQUIRED), ('strategy', None, 'strategy', 'FromAllTraces'), ('max_array_length', None, 'u32', 20),
    ('activity_level', None, 'u32', 0)], nested='from_patterns')
part('DiscoverActivitiesUntilNoMore2', A, 'DiscoverActivitiesUntilNoMore', [
    ('event_class', REGEX, 'ostr', None), ('patterns_kind', 'patterns_kind', 'kind', 'MaximalRepeats'),
    ('narrow_activities', 'narrow_activities', 'narrow', 'NarrowDown'), ('activity_level', LEVEL, 'u32', 0),
    ('strategy', STRATEGY, 'strategy', 'FromAllTraces'), ('undef_strategy', 'undef_activity_handling_strategy', 'undef', 'DontInsert'),
    ('max_array_length', TANDEM, 'u32', 20), ('adjusting_mode', 'adjusting_mode', 'adjust', 'FromAllLog'),
    ('min_events_in_unattached_subtrace_count', COUNT, 'u32', 0), ('min_events_in_activity_count', MIN, 'u32', 0),
    ('activity_filter_kind', 'activity_in_trace_filter_kind', 'filter', 'DefaultFilter'),
    ('after_activities_extraction_pipeline', 'pipeline', 'opipe', None),
    ('execute_only_on_last_extraction', 'execute_only_on_last_extraction', 'bool', False)])
part('ExecuteWithEachActivityLog2', A, 'ExecuteWithEachActivityLog', [
    ('activities_logs_source', 'activities_logs_source', 'source', REQUIRED), ('activity_level', LEVEL, 'u32', REQUIRED),
    ('activity_log_pipeline', 'pipeline', 'pipe', REQUIRED)])
part('SubstituteUnderlyingEvents2', A, 'SubstituteUnderlyingEvents')
part('ClearActivitiesRelatedStuff2', A, 'ClearActivities')
part('PrintNumberOfUnderlyingEvents2', A, 'GetUnderlyingEventsCount', keys=['underlying_events_count'])
part('ApplyClassExtractor2', A, 'ApplyClassExtractor', [('class_extractor_regex', REGEX, 'str', REQUIRED), ('filter_regex', 'regex', 'str', '.*')])

LOOKS = [('show_visualization', None, 'look', True), ('fig_size', None, 'look', (7, 9)), ('view_params', None, 'look', (-140, 60)),
         ('font_size', None, 'look', 14)]
COMMON = [('save_path', None, 'look', None), ('n_components', None, 'look', NComponents.Three),
          ('visualization_method', None, 'look', DatasetVisualizationMethod.Pca), ('legend_cols', None, 'look', 2)]
REPR = ('activities_repr_source', 'activities_repr_source', 'repr', 'EventClasses')
DISTANCE = ('distance', 'distance', 'distance', 'Cosine')
CLASS = ('class_extractor', REGEX, 'ostr', None)
TOL = ('tolerance', 'tolerance', 'float', 1e-5)
part('ClusterizeActivitiesFromTracesKMeans', A, 'ClusterizeActivitiesFromTracesKMeans', [
    ('activity_level', LEVEL, 'u32', 0), ('clusters_count', 'clusters_count', 'u32', 10),
    ('learning_iterations_count', 'learning_iterations_count', 'u32', 200), TOL, CLASS, *LOOKS, COMMON[0], REPR, DISTANCE, *COMMON[1:]],
     keys=['labeled_traces_activities_dataset'])
part('ClusterizeActivitiesFromTracesKMeansGridSearch', A, 'ClusterizeActivitiesFromTracesKMeansGridSearch', [
    ('activity_level', LEVEL, 'u32', 0), ('learning_iterations_count', 'learning_iterations_count', 'u32', 200), TOL, CLASS, *LOOKS, REPR,
    COMMON[0], DISTANCE, *COMMON[1:]], keys=['labeled_traces_activities_dataset'])
part('ClusterizeActivitiesFromTracesDbscan', A, 'ClusterizeActivitiesFromTracesDbscan', [
    ('activity_level', LEVEL, 'u32', 0), ('min_events_count_in_cluster', 'min_events_in_cluster_count', 'u32', 1), TOL, CLASS, *LOOKS, REPR,
    COMMON[0], DISTANCE, *COMMON[1:]], keys=['labeled_traces_activities_dataset'])
part('VisualizeTracesActivities2', A, 'CreateTracesActivitiesDataset', [
    ('activity_level', LEVEL, 'u32', 0), CLASS, *LOOKS[1:], COMMON[0], REPR, *COMMON[1:]], keys=['traces_activities_dataset'])
part('ClusterizeLogTracesDbscan', A, 'ClusterizeLogTraces', [
    ('after_clusterization_pipeline', 'pipeline', 'pipe', REQUIRED), ('min_events_count_in_cluster', 'min_events_in_cluster_count', 'u32', 1),
    TOL, *LOOKS, COMMON[0], DISTANCE, *COMMON[1:], ('traces_repr_source', 'traces_repr_source', 'traces', 'Events'), CLASS],
     keys=['labeled_log_traces_dataset'])

for suffix in ('Alpha', 'AlphaPlus', 'AlphaPlusPlus', 'AlphaPlusPlusNfc'):
    part(f'DiscoverPetriNet{suffix}2', D, f'DiscoverPetriNet{suffix}')
part('DiscoverPetriNetHeuristic2', D, 'DiscoverPetriNetHeuristic', [
    ('dependency_threshold', 'dependency_threshold', 'float', 0.5), ('positive_observations_threshold', 'positive_observations_threshold', 'u32', 1),
    ('relative_to_best_threshold', 'relative_to_best_threshold', 'float', 1.0), ('and_threshold', 'and_threshold', 'float', 0.1),
    ('loop_length_two_threshold', 'loop_length_two_threshold', 'float', 0.5)])
part('DiscoverFuzzyGraph', D, 'DiscoverFuzzyGraph', [
    ('unary_frequency_threshold', 'unary_frequency_threshold', 'float', 0.0),
    ('binary_significance_threshold', 'binary_frequency_significance_threshold', 'float', 0.0),
    ('preserve_threshold', 'preserve_threshold', 'float', 0.0), ('ratio_threshold', 'ratio_threshold', 'float', 0.0),
    ('utility_rate', 'utility_rate', 'float', 0.0), ('edge_cutoff_threshold', 'edge_cutoff_threshold', 'float', 0.0),
    ('node_cutoff_threshold', 'node_cutoff_threshold', 'float', 0.0)])
part('SerializePetriNetToPNML2', D, 'SerializePetriNet', [('save_path', 'path', 'str', REQUIRED),
                                                         ('use_names_as_ids', 'pnml_use_names_as_ids', 'bool', False)])
part('ViewPetriNet2', D, None, NET, simple='petri_net')
part('ViewDirectlyFollowsGraph2', D, 'DiscoverDirectlyFollowsGraph', VIEW, keys=['graph'])
part('ViewGraph2', D, None, VIEW, simple='graph')
for kind, key in (('Count', 'count'), ('Frequency', 'frequency'), ('TraceFrequency', 'trace_frequency')):
    part(f'AnnotatePetriNetWith{kind}2', D, f'AnnotatePetriNetWith{kind}', [
        ('terminate_on_unreplayable_trace', 'terminate_on_unreplayable_traces', 'bool', False), *NET],
        keys=['petri_net', f'petri_net_{key}_annotation'])
part('EnsureInitialMarking', D, 'EnsureInitialMarking')

COLORS = ['colors_event_log']
for suffix, draw in (('', FIGURE), ('Canvas', CANVAS)):
    part(f'TracesDiversityDiagram2{suffix}', DR, 'TracesDiversityDiagram', draw, keys=COLORS)
    part(f'DrawPlacementsOfEventByName2{suffix}', DR, 'DrawPlacementOfEventByName', [('event_name', 'event_name', 'str', REQUIRED), *draw], keys=COLORS)
    part(f'DrawPlacementOfEventsByRegex2{suffix}', DR, 'DrawPlacementOfEventsByRegex', [('regex', 'regex', 'str', REQUIRED), *draw], keys=COLORS)
    part(f'DrawFullActivitiesDiagram2{suffix}', DR, 'DrawFullActivitiesDiagram', draw, keys=COLORS)
    part(f'DrawShortActivitiesDiagram2{suffix}', DR, 'DrawShortActivitiesDiagram', draw, keys=COLORS)

part('FilterTracesByEventsCount2', F, 'FilterTracesByEventsCount', [('min_events_in_trace', COUNT, 'u32', REQUIRED)])
part('FilterEventsByName2', F, 'FilterEventsByName', [('event_name', 'event_name', 'str', REQUIRED)])
part('FilterEventsByRegex2', F, 'FilterEventsByRegex', [('regex', 'regex', 'str', REQUIRED)])
part('FilterLogByVariants2', F, 'FilterLogByVariants')
part('AddStartEndArtificialEvents2', M, 'AddArtificialStartEndEvents')
part('AddStartArtificialEvents2', M, 'AddArtificialStartEvents')
part('AddEndArtificialEvents2', M, 'AddArtificialEndEvents')
for kind in ('Primitive', 'Maximal'):
    part(f'Find{kind}TandemArrays2', P, f'Find{kind}TandemArrays', [('max_array_length', TANDEM, 'u32', REQUIRED), CLASS])
for kind in ('Maximal', 'SuperMaximal', 'NearSuperMaximal'):
    part(f'Find{kind}Repeats2', P, f'Find{kind}Repeats', [('strategy', STRATEGY, 'strategy', REQUIRED), CLASS])
part('UseNamesEventLog2', U, 'UseNamesEventLog')
part('PrintEventLog2', U, 'GetNamesEventLog', keys=['names_event_log'])
part('PrintEventlogInfoBeforeAfter', U, 'ExecuteFrontendPipeline', [('inner_pipeline', 'pipeline', 'pipe', REQUIRED)], nested='info')
part('PrintEventLogInfo2', 'grpc_pipelines', 'GetEventLogInfo', keys=['event_log_info'])
for kind in ('Xes', 'Bxes'):
    part(f'ReadLogFrom{kind}2', X, f'ReadLogFrom{kind}')
    part(f'WriteLogTo{kind}2', X, f'WriteLogTo{kind}', [('save_path', 'path', 'str', REQUIRED)])

NAMES = sorted(PARTS)
SHALLOW = [n for n in NAMES if not any(p[2] in ('pipe', 'opipe') for p in PARTS[n]['params'])]
CONTAINERS = [n for n in NAMES if n not in SHALLOW]


# ------------------------------------------------------------------------------------------------- descriptions of parts

LOOK_VALUES = {
    'show_visualization': [False, True], 'fig_size': [[3, 4], [8, 5]], 'view_params': [[10, 20], [-30, 45]], 'font_size': [5, 30],
    'save_path': ['x.png', 'some/y.svg'], 'n_components': ['One', 'Two', 'Three'], 'visualization_method': ['Pca', 'Isomap', 'MDS', 'TSNE'],
    'legend_cols': [1, 5], 'title': ['title', ''], 'plot_legend': [True, False], 'height_scale': [2, 3], 'width_scale': [4, 5], 'name': ['n', 'net'],
    'background_color': ['red', 'blue'], 'engine': ['neato', 'circo'], 'export_path': ['x.png', 'some/y.svg'], 'rankdir': ['TB', 'RL'],
    'show_places_names': [True, False]}


def look(parameter, value):
    if parameter in ('fig_size', 'view_params'):
        return tuple(value)
    return {'n_components': NComponents, 'visualization_method': DatasetVisualizationMethod}[parameter][value] \
        if parameter in ('n_components', 'visualization_method') else value


def draw_value(d, kind, depth):
    if kind == 'u32':
        return gen.integer(d, 0, 50) if d.below(8) else d.choice([255, 256, 65535, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1])
    if kind == 'float':
        return d.choice([0.0, 0.5, 1.0, 0.1, 1e-5, -1.0, 3.25, 1e10, 0.7, 2.0, 1e-9, 0.12345678, 16777216.0, 1e30] + gen.NEW_FLOATS)
    if kind in ('str', 'ostr'):
        return gen.name_e(d)
    if kind == 'bool':
        return d.bool()
    if kind == 'strings':
        return [gen.name_e(d) for _ in range(d.int(0, 4))]
    if kind in ('pipe', 'opipe'):
        return draw_pipeline(d, depth - 1)
    return d.choice(ENUMS[kind][2])


def draw_part(d, depth):
    """[class name, number of positional arguments, {parameter: value}]"""
    name = d.choice(CONTAINERS) if depth > 0 and d.below(3) == 2 else d.choice(SHALLOW)
    spec, values = PARTS[name], {}
    for parameter, _key, kind, default in spec['params']:
        if kind == 'look':
            if d.below(4) == 3:
                values[parameter] = d.choice(LOOK_VALUES[parameter])
        elif default is REQUIRED or d.bool():
            values[parameter] = draw_value(d, kind, depth)
    if d.below(8) == 7:  # every argument, by position
        for parameter, _key, kind, _default in spec['params']:
            if parameter not in values:
                values[parameter] = d.choice(LOOK_VALUES[parameter]) if kind == 'look' else draw_value(d, kind, depth)
        return [name, len(spec['params']), values]
    positional = 0
    for parameter, _key, kind, _default in spec['params']:
        if parameter not in values or not spec['params'] or d.below(3) == 0:
            break
        positional += 1
    return [name, positional, values]


def draw_pipeline(d, depth, low=0, high=3):
    return [draw_part(d, depth) for _ in range(d.int(low, high))]


def find_class(name):
    return getattr(importlib.import_module(f'python.ficus.grpc_pipelines.{PARTS[name]["module"]}'), name)


def build_part(description):
    name, positional, values = description
    spec, args, kwargs = PARTS[name], [], {}
    inner = []
    for i, (parameter, _key, kind, _default) in enumerate(spec['params']):
        if parameter not in values:
            continue
        value = values[parameter]
        if kind in ENUMS:
            value = ENUMS[kind][0][value]
        elif kind in ('pipe', 'opipe'):
            value, built = build_pipeline(value)
            inner.append(built)
        elif kind == 'strings':
            value = list(value)
        elif kind == 'look':
            value = look(parameter, value)
        if i < positional:
            args.append(value)
        else:
            kwargs[parameter] = value
    return find_class(name)(*args, **kwargs), inner


def build_pipeline(descriptions):
    """(Pipeline2, [(description, part, nested)])"""
    built = []
    for description in descriptions:
        p, inner = build_part(description)
        built.append((description, p, inner))
    return Pipeline2(*[p for _, p, _ in built]), built


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


def expected_part(built):
    """What the backend has to receive, as plain data."""
    (name, _positional, values), p, inner = built
    spec = PARTS[name]
    if spec['simple']:
        return {'kind': 'simple', 'key': spec['simple'], 'uuid': str(p.uuid)}
    config, inner = {}, list(inner)

    def value_of(parameter, default):
        return values.get(parameter, default)
    for parameter, key, kind, default in spec['params']:
        value = value_of(parameter, default)
        if key is None or value is None or kind == 'look':
            continue
        if kind == 'u32':
            config[key] = ('uint32', value)
        elif kind == 'float':
            config[key] = ('float', f32(value))
        elif kind in ('str', 'ostr'):
            config[key] = ('string', value)
        elif kind == 'bool':
            config[key] = ('bool', value)
        elif kind == 'strings':
            config[key] = ('strings', list(value))
        elif kind in ('pipe', 'opipe'):
            config[key] = ('pipeline', [expected_part(b) for b in inner.pop(0)])
        else:
            config[key] = ('enum', (ENUMS[kind][1], value))
    if spec['nested'] == 'from_patterns':
        kind = value_of('patterns_kind', None)
        find = {'kind': 'default', 'name': f'Find{kind}', 'config':
                {TANDEM: ('uint32', value_of('max_array_length', 20))} if kind.endswith('TandemArrays') else
                {STRATEGY: ('enum', ('PatternsDiscoveryStrategy', value_of('strategy', 'FromAllTraces')))}}
        config['pipeline'] = ('pipeline', [find, {'kind': 'default', 'name': 'DiscoverActivities',
                                                  'config': {LEVEL: ('uint32', value_of('activity_level', 0))}}])
    if spec['nested'] == 'info':
        info = {'kind': 'complex', 'name': 'GetEventLogInfo', 'config': {}, 'keys': ['event_log_info'], 'uuid': '*'}
        config['pipeline'] = ('pipeline', [info, *config['pipeline'][1], info])
    if spec['keys']:
        return {'kind': 'complex', 'name': spec['backend'], 'config': config, 'keys': spec['keys'], 'uuid': str(p.uuid)}
    return {'kind': 'default', 'name': spec['backend'], 'config': config}


def read_config(config, problems):
    result = {}
    for kv in config.configurationParameters:
        if kv.key.name in result:
            problems.append(f'parameter {kv.key.name} is sent twice')
        result[kv.key.name] = read_value(kv.value, problems)
    return result


def read_value(value, problems):
    kind = value.WhichOneof('contextValue')
    if kind in ('uint32', 'float', 'string', 'bool'):
        return kind, getattr(value, kind)
    if kind == 'strings':
        return kind, list(value.strings.strings)
    if kind == 'enum':
        return kind, (value.enum.enumType, value.enum.value)
    if kind == 'pipeline':
        return kind, read_pipeline(value.pipeline, problems)
    return kind, str(value)


def read_part(base, problems):
    kind = base.WhichOneof('part')
    if kind == 'defaultPart':
        return {'kind': 'default', 'name': base.defaultPart.name, 'config': read_config(base.defaultPart.configuration, problems)}
    if kind == 'simpleContextRequestPart':
        p = base.simpleContextRequestPart
        return {'kind': 'simple', 'key': p.key.name, 'uuid': p.frontendPartUuid.uuid}
    if kind == 'complexContextRequestPart':
        p = base.complexContextRequestPart
        return {'kind': 'complex', 'name': p.beforePipelinePart.name, 'config': read_config(p.beforePipelinePart.configuration, problems),
                'keys': [k.name for k in p.keys], 'uuid': p.frontendPartUuid.uuid}
    problems.append(f'unexpected kind of part {kind}')
    return {'kind': kind}


def read_pipeline(pipeline, problems):
    return [read_part(p, problems) for p in pipeline.parts]


def callback_parts(built_list):
    """[(class name, part)] of the parts that wait for values, nested ones included; internal parts of the info part excluded"""
    result = []
    for (name, _n, _v), p, inner in built_list:
        if PARTS[name]['keys'] or PARTS[name]['simple']:
            result.append((name, p))
        for b in inner:
            result.extend(callback_parts(b))
    return result
