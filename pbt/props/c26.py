"""Every part of a remote pipeline sends the backend the name and the parameters the user asked for."""
from .. import grpc_parts as gp
from ..core import check, check_eq
from python.ficus.grpc_pipelines.grpc_pipelines import Pipeline2
from python.ficus.grpc_pipelines.models.pipelines_and_context_pb2 import GrpcPipeline

CASES = {'quick': 120000, 'thorough': 3000000}
RULE = 'pipelines of 1 to 5 parts (all part classes, arguments omitted, by position or by keyword, pipelines nested up to 3 levels); ' \
       'non-trivial: a nested pipeline, or at least two parts with parameters'
ASSUMPTIONS = ['the contract (names, keys, types of parameters) was recorded from the readers in src/rust/ficus_backend/src/pipelines; the backend itself '
               'cannot be built offline']


def generate(d):
    return {'parts': gp.draw_pipeline(d, 3, 1, 5)}


def match(actual, expected, wild, path):
    if expected['kind'] == 'complex' and expected['uuid'] == '*':
        wild.append(actual.get('uuid'))
        expected = {**expected, 'uuid': actual.get('uuid')}
    shallow = {k: v for k, v in expected.items() if k != 'config'}
    check_eq({k: v for k, v in actual.items() if k != 'config'}, shallow, f'part at {path}')
    if 'config' not in expected:
        return
    a, e = dict(actual['config']), dict(expected['config'])
    ap, ep = a.pop('pipeline', None), e.pop('pipeline', None)
    check_eq(a, e, f'parameters of {expected["name"]} at {path}')
    check_eq(ap is not None and ap[0], ep is not None and ep[0], f'nested pipeline of {expected["name"]} at {path}')
    if ep is not None:
        match_all(ap[1], ep[1], wild, path + [expected['name']])


def match_all(actual, expected, wild, path):
    check_eq([p.get('name', p.get('key')) for p in actual], [p.get('name', p.get('key')) for p in expected], f'parts in order at {path}')
    for i, (a, e) in enumerate(zip(actual, expected)):
        match(a, e, wild, path + [i])


def run(case):
    pipeline, built = gp.build_pipeline(case['parts'])
    expected = [gp.expected_part(b) for b in built]
    messages = []
    for _ in range(2):  # converting leaves no traces in the parts
        problems, wild = [], []
        message = pipeline.to_grpc_pipeline()
        wire = GrpcPipeline.FromString(message.SerializeToString())
        match_all(gp.read_pipeline(wire, problems), expected, wild, [])
        check(not problems, 'readable messages', problems)
        messages.append((message, wild))
    # every part that asks for values is known under the identifier it sent, exactly once
    registered = []
    pipeline.append_parts_with_callbacks(registered)
    ids = [str(p.uuid) for p in registered]
    wanted = [str(p.uuid) for _, p in gp.callback_parts(built)] + messages[-1][1]
    check_eq(sorted(ids), sorted(wanted), 'parts registered for values')
    check_eq(len(set(ids)), len(ids), 'identifiers are unique')
    check_eq(messages[0][1], messages[1][1], 'identifiers do not change')
    check_eq(messages[0][0], messages[1][0], 'converting twice')
    for bad in ('part', None, 5):
        try:
            Pipeline2(bad).to_grpc_pipeline()
        except TypeError:
            continue
        check(False, 'a pipeline takes only parts', bad)
    names = [p[0] for p in case['parts']]
    return {'nontrivial': any(n in gp.CONTAINERS for n in names) or sum(bool(p[2]) for p in case['parts']) > 1,
            'callback': bool(wanted), 'nested': any(n in gp.CONTAINERS for n in names)}
