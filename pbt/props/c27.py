"""A remote pipeline sends the request once, hands every result to the part that asked for it, in order, and releases the result."""
import contextlib
import io
import threading
import uuid
from concurrent import futures

import grpc
from google.protobuf import empty_pb2

from .. import gen, grpc_parts as gp
from ..core import check, check_eq
from ..fx import make_log  # noqa: F401  (sets up the import path)
from python.ficus.grpc_pipelines import context_values as cv
from python.ficus.grpc_pipelines.activities_parts import (ClusterizeLogTracesDbscan, DiscoverActivitiesUntilNoMore2, ExecuteWithEachActivityLog2,
                                                          PrintNumberOfUnderlyingEvents2)
from python.ficus.grpc_pipelines.data_models import ActivitiesLogsSource
from python.ficus.grpc_pipelines.filtering_parts import FilterEventsByName2
from python.ficus.grpc_pipelines.grpc_pipelines import Pipeline2, PipelinePart2WithCallback, PrintEventLogInfo2
from python.ficus.grpc_pipelines.models import backend_service_pb2 as bs, pipelines_and_context_pb2 as pc, pm_models_pb2 as pm, util_pb2 as ut
from python.ficus.grpc_pipelines.util_parts import PrintEventLog2, PrintEventlogInfoBeforeAfter
from python.ficus.grpc_pipelines.xes_parts import ReadLogFromXes2

CASES = {'quick': 9000, 'thorough': 225000}
RULE = 'pipelines with (nested) parts that wait for values, initial contexts and streams of results, log messages and outcomes of a fake backend on ' \
       'the loopback interface, executed once or twice; non-trivial: at least two results for waiting parts'
ASSUMPTIONS = ['the backend is a stand-in that follows protos/backend_service.proto; the real one cannot be built offline']


# ----------------------------------------------------------------------------------------------------------- generation

def draw_part(d, depth):
    k = d.below(11 if depth > 0 else 7)
    if k <= 2:
        return ['probe', d.choice(['a', 'b', 'c'])]
    if k == 3:
        return ['plain', gen.name_e(d)]
    if k == 4:
        return ['info']
    if k == 5:
        return ['log']
    if k == 6:
        return ['count']
    return [['until'], ['each'], ['cluster'], ['around']][k - 7] + [[draw_part(d, depth - 1) for _ in range(d.int(0, 3))]]


def value(d):
    k = d.below(5)
    if k == 0:
        return ['uint32', d.below(1000)]
    if k == 1:
        return ['string', gen.name_e(d)]
    if k == 2:
        return ['names', [[gen.name_e(d) for _ in range(d.int(0, 3))] for _ in range(d.int(0, 3))]]
    if k == 3:
        return ['bool', d.bool()]
    return ['float', d.choice([0.0, 0.5, 1.0, 2.25])]


def generate(d):
    stream = []
    for _ in range(gen.size(d, 0, 8, 40)):
        k = d.below(6)
        if k <= 3:
            stream.append(['result', d.below(30), [[d.choice(['k1', 'k2', 'k3', 'é']), value(d)] for _ in range(d.int(0, 3))]])
        elif k == 4:
            stream.append(['message', gen.text(d, 0, 6) + d.choice(['.', '.', '.', ' ', '\t', '. '])])
        else:
            stream.append(['stranger', d.below(100)])
    return {'parts': [draw_part(d, 2) for _ in range(d.int(1, 4))], 'stream': stream, 'after': d.below(3),
            'outcome': ['error', gen.name_e(d)] if d.below(4) == 3 else ['success', str(d.below(10 ** 9))],
            'context': {gen.name(d): value(d) for _ in range(d.int(0, 3))}, 'runs': d.int(1, 2), 'other': d.below(3), 'default_address': d.below(4) == 3,
            'big': d.below(300) == 299}


# ------------------------------------------------------------------------------------------------------------- backend

class Backend:
    """One server per process; what it answers is set per case."""
    instance = None

    @classmethod
    def get(cls):
        if cls.instance is None:
            cls.instance = cls()
        return cls.instance

    def __init__(self):
        self.lock = threading.Lock()
        self.requests, self.dropped, self.answers = [], [], []
        size = [('grpc.max_send_message_length', -1), ('grpc.max_receive_message_length', -1)]
        self.server = grpc.server(futures.ThreadPoolExecutor(max_workers=2), options=size)
        self.server.add_generic_rpc_handlers((grpc.method_handlers_generic_handler('ficus.GrpcBackendService', {
            'ExecutePipeline': grpc.unary_stream_rpc_method_handler(
                self.execute, bs.GrpcPipelineExecutionRequest.FromString, lambda m: m.SerializeToString()),
            'DropExecutionResult': grpc.unary_unary_rpc_method_handler(
                self.drop, ut.GrpcGuid.FromString, lambda m: m.SerializeToString())}),))
        self.port = self.server.add_insecure_port('127.0.0.1:0')
        self.server.start()

    def execute(self, request, _context):
        with self.lock:
            self.requests.append(request)
            answers = list(self.answers)
        yield from answers

    def drop(self, request, _context):
        with self.lock:
            self.dropped.append(request.guid)
        return empty_pb2.Empty()


def to_message(v):
    kind, x = v
    if kind == 'names':
        log = pm.GrpcNamesEventLog(traces=[pm.GrpcNamesTrace(events=t) for t in x])
        return pc.GrpcContextValue(names_log=pc.GrpcNamesEventLogContextValue(log=log))
    return pc.GrpcContextValue(**{kind: x})


def to_value(v):
    kind, x = v
    return {'names': cv.NamesLogContextValue, 'uint32': cv.Uint32ContextValue, 'string': cv.StringContextValue, 'bool': cv.BoolContextValue,
            'float': cv.FloatContextValue}[kind](x)


# ----------------------------------------------------------------------------------------------------------------- run

def run(case):
    seen, waiting = [], []

    class Probe(PipelinePart2WithCallback):
        def __init__(self, name):
            super().__init__()
            self.name = name

        def to_grpc_part(self):
            return pc.GrpcPipelinePartBase(simpleContextRequestPart=pc.GrpcSimpleContextRequestPipelinePart(
                frontendPartUuid=ut.GrpcUuid(uuid=str(self.uuid)), key=pc.GrpcContextKey(name=self.name)))

        def execute_callback(self, values):
            seen.append((self, dict(values)))
            print(f'PROBE {len(seen)}')

    def build(part):
        kind = part[0]
        if kind == 'probe':
            p = Probe(part[1])
            waiting.append(('probe', p))
        elif kind == 'plain':
            return FilterEventsByName2(part[1])
        elif kind == 'info':
            p = PrintEventLogInfo2()
            waiting.append(('info', p))
        elif kind == 'log':
            p = PrintEventLog2()
            waiting.append(('log', p))
        elif kind == 'count':
            p = PrintNumberOfUnderlyingEvents2()
            waiting.append(('count', p))
        else:
            inner = Pipeline2(*map(build, part[1]))
            if kind == 'until':
                return DiscoverActivitiesUntilNoMore2(after_activities_extraction_pipeline=inner)
            if kind == 'each':
                return ExecuteWithEachActivityLog2(ActivitiesLogsSource.Log, 0, inner)
            if kind == 'around':
                return PrintEventlogInfoBeforeAfter(inner)
            p = ClusterizeLogTracesDbscan(inner, show_visualization=False)
            waiting.append(('hidden', p))
        return p

    pipeline = Pipeline2(ReadLogFromXes2(), *map(build, case['parts']))
    request_pipeline = pipeline.to_grpc_pipeline()

    answers, lines, calls = [], [], []
    for item in case['stream']:
        if item[0] == 'message':
            answers.append(bs.GrpcPipelinePartExecutionResult(logMessage=bs.GrpcPipelinePartLogMessage(message=f'MESSAGE {item[1]}')))
            lines.append(f'MESSAGE {item[1]}')
            continue
        if item[0] == 'stranger' or not waiting:
            # the identifier of nobody, or one that looks like that of a part
            nobody = uuid.UUID(int=waiting[item[1] % len(waiting)][1].uuid.int ^ 1 << (item[1] * 37) % 128) if waiting and item[1] % 2 else uuid.UUID(int=item[1])
            result = bs.GrpcPipelinePartResult(uuid=ut.GrpcUuid(uuid=str(nobody)), contextValues=[])
        else:
            kind, p = waiting[item[1] % len(waiting)]
            values = {k: to_message(v) for k, v in item[2]}
            n = item[1]
            if kind == 'info':
                values['event_log_info'] = pc.GrpcContextValue(event_log_info=pc.GrpcEventLogInfo(
                    events_count=n, traces_count=n + 1000, event_classes_count=n + 2000))
                lines.append(('numbers', [n, n + 1000, n + 2000]))
            elif kind == 'log':
                log = [['PRINTED', *x[1][1][:2]] for x in item[2] if x[1][0] == 'string'] or [['PRINTED']]
                values['names_event_log'] = to_message(['names', log])
                lines.extend(str(t) for t in log)
            elif kind == 'count':
                values['underlying_events_count'] = pc.GrpcContextValue(uint32=n)
                lines.append(f'Underlying events count: {n}')
            elif kind == 'probe':
                if case['big']:
                    values['big'] = to_message(['string', 'x' * 5_000_000])
                calls.append((p, values))
                lines.append('PROBE')
            result = bs.GrpcPipelinePartResult(uuid=ut.GrpcUuid(uuid=str(p.uuid)), contextValues=[
                bs.GrpcContextValueWithKeyName(key_name=k, value=v) for k, v in values.items()])
        answers.append(bs.GrpcPipelinePartExecutionResult(pipelinePartResult=result))
    outcome, detail = case['outcome']
    final = bs.GrpcPipelineFinalResult(error=detail) if outcome == 'error' else bs.GrpcPipelineFinalResult(success=ut.GrpcGuid(guid=detail))
    answers.append(bs.GrpcPipelinePartExecutionResult(finalResult=final))
    # nothing after the final result counts
    for i in range(case['after']):
        answers.append(bs.GrpcPipelinePartExecutionResult(logMessage=bs.GrpcPipelinePartLogMessage(message=f'MESSAGE late{i}')))

    backend = Backend.get()
    backend.answers = answers
    targets, real = [], grpc.insecure_channel

    def channel(target, *args, **kwargs):
        targets.append(target)
        return real(f'127.0.0.1:{backend.port}', *args, **kwargs)

    context = {k: to_value(v) for k, v in case['context'].items() if k != 'backend'}
    if case['big']:
        context['big'] = cv.StringContextValue('y' * 5_000_000)
    address = 'localhost:8080' if case['default_address'] else f'127.0.0.1:{backend.port}'
    if not case['default_address']:
        context['backend'] = address
    given = dict(context)
    for number in range(case['runs']):
        if number == 1 and case['other']:
            # the same pipeline once more, with another context, another address and another answer
            context = {k: v for i, (k, v) in enumerate(context.items()) if k not in ('backend', 'big') and i % 2}
            context['again'] = cv.StringContextValue('again')
            address = f'127.0.0.1:{backend.port}' if case['default_address'] else 'localhost:8080'
            if case['default_address']:
                context['backend'] = address
            given = dict(context)
            outcome, detail = ('success', 'again') if case['other'] == 1 else ('error', 'again')
            final = bs.GrpcPipelineFinalResult(error=detail) if outcome == 'error' else bs.GrpcPipelineFinalResult(success=ut.GrpcGuid(guid=detail))
            backend.answers = [bs.GrpcPipelinePartExecutionResult(finalResult=final) if a.HasField('finalResult') else a for a in answers]
        del seen[:], targets[:], backend.requests[:], backend.dropped[:]
        out = io.StringIO()
        grpc.insecure_channel = channel
        try:
            with contextlib.redirect_stdout(out):
                result = pipeline.execute(context)
        finally:
            grpc.insecure_channel = real
        check_eq(list(context.items()), list(given.items()), 'the context of the caller')
        check(all(t == address for t in targets), 'address of the backend', targets, address)
        # the request
        check_eq(len(backend.requests), 1, 'the pipeline is executed once')
        request = backend.requests[0]
        check_eq(request.pipeline, request_pipeline, 'the pipeline of the request')
        sent = [(kv.key.name, kv.value) for kv in request.initialContext]
        check_eq(sorted(k for k, _ in sent), sorted(k for k in given if k != 'backend'), 'keys of the initial context')
        for k, v in sent:
            check_eq(v, given[k].to_grpc_context_value(), f'initial value of {k}')
        # the outcome
        check(result is not None and result.HasField('finalResult'), 'the final result is returned')
        check_eq(result.finalResult, final, 'final result')
        check_eq(backend.dropped, [detail] if outcome == 'success' else [], 'released results')
        # the callbacks and messages, in order
        check_eq([c[0].uuid for c in seen], [c[0].uuid for c in calls], 'parts that got values, in order')
        for (p, got), (_, wanted) in zip(seen, calls):
            check_eq(got, wanted, f'values for {p.name}')
        check_output(out.getvalue().split('\n'), lines)
    return {'nontrivial': sum(i[0] == 'result' for i in case['stream']) > 1 and bool(waiting), 'error': outcome == 'error',
            'nested': any(len(p) > 1 and isinstance(p[1], list) for p in case['parts']), 'twice': case['runs'] == 2}


def check_output(output, lines):
    """The expected lines appear in this order; nothing else of these kinds does."""
    relevant = [x for x in output if x.startswith(('MESSAGE ', 'PROBE ', "['PRINTED'", 'Underlying events count:', 'EventLogInfo'))]
    check_eq(len(relevant), len(lines), f'printed lines {relevant}, expected {lines}')
    for text, want in zip(relevant, lines):
        if isinstance(want, tuple):
            numbers = dict(p.split('=') for p in text[len('EventLogInfo('):-1].split(', '))
            check_eq([int(numbers['events_count']), int(numbers['traces_count']), int(numbers['event_classes_count'])], want[1], 'printed information')
        elif want == 'PROBE':
            check(text.startswith('PROBE '), 'order of callbacks and messages', text)
        else:
            check_eq(text, want, 'printed line')
