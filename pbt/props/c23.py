"""Text reports name exactly the events, activities, instances and numbers of the context."""
import ast
import contextlib
import io
import os
import re
import shutil
import tempfile

from .. import activities as act, gen
from ..core import check, check_eq
from ..fx import make_log, snapshot, truthy, warmed
from ..patterns import all_nodes
from .c08 import pairs_of
from python.ficus.legacy.analysis.patterns.util import default_class_extractor
from python.ficus.legacy.pipelines.analysis import analysis_parts as ap
from python.ficus.legacy.pipelines.analysis.patterns import patterns_parts as pp
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from python.ficus.legacy.pipelines.pipelines import Pipeline

CASES = {'quick': 24000, 'thorough': 600000}
RULE = 'logs with activities of up to three levels and disjoint instances, every report; non-trivial: at least one instance and two names'
ASSUMPTIONS = ['names hold no line breaks']


def generate(d):
    log = gen.enlarge(d, gen.named_log(d, 5, *d.choice([(10,), (10,), (10,), (24,)]), max_classes=d.choice([6, 6, 6, 20]), max_events=120), 1500, (130, 257))
    if log and log[0] and d.below(30) == 29:  # an event with many different followers
        log.append([x for i in range(d.choice([12, 22, 40])) for x in (log[0][0], f'f{i}')])
    levels = []
    for _ in range(d.int(1, 3)):
        marks = []
        for t in log:
            marks.append([[start, d.int(1, min(len(t) - start, 5))] for start in (d.below(len(t)) for _ in range(0 if not t else d.int(0, 3) if len(t) < 100 else d.int(3, 90)))])
        if log and d.below(6) == 5:  # activities of everything that is in a trace, and of every single event of it
            i = d.below(len(log))
            marks[i] = [[0, len(log[i]) - k] for k in range(d.int(1, 2)) if len(log[i]) > k] + [[p, 1] for p in range(min(len(log[i]), 60))]
        levels.append([d.choice([0, 1, 2, 5, 10]), marks])
    names = sorted({n for t in log for n in t})
    return {'log': log, 'levels': levels, 'spans': act.draw_spans(d, log), 'selected': d.subset(names, 1, 2), 'creator': d.bool(), 'operation': gen.name_e(d),
            'drop': d.subset(names, 1, 3)}


def printed(part, context):
    out = io.StringIO()
    warmed(part)
    with contextlib.redirect_stdout(out):
        result = part.execute(context)
    return result, out.getvalue()


def run(case):
    log = make_log(case['log'])
    roots = [r for level, marks in case['levels'] for r in act.build_roots(log, marks, default_class_extractor, level)]
    nodes = all_nodes(roots)
    instances = act.place(case['spans'], nodes) if nodes else [[] for _ in case['log']]
    names = list(dict.fromkeys(n for t in case['log'] for n in t))
    context = PipelinePartResult().with_log(log).with_activities(roots).with_trace_activities(instances)
    before = (snapshot(log), act.describe(instances))
    scratch = tempfile.mkdtemp(prefix='c23_')
    path = os.path.join(scratch, 'report.txt')

    def saved(part):
        check(warmed(part).execute(context) is context, 'the context goes on')
        with open(path, encoding='utf-8') as f:
            text = f.read()
        os.remove(path)
        return text

    try:
        # names of events
        text = saved(ap.SaveAllEventNames(path))
        check_eq(sorted(text.split('\n\n')) if names else text, sorted(names) if names else '', 'names of events')
        # names of activities by level
        text = saved(pp.SaveAllActivitiesNames(path))
        got, level, last = {}, None, None
        for line in text.split('\n'):
            heading = re.fullmatch(r'ACTIVITIES LEVEL (\d+)', line)
            if heading:
                level = int(heading.group(1))
                check(last is None or level > last, 'levels in order')
                last = level
                got[level] = []
            elif line and not re.fullmatch('={50,}', line):
                got[level].append(line)
        wanted = {}
        for r in roots:
            for n in all_nodes([r]):
                wanted.setdefault(r.activity_level, set()).add(n.name)
        check_eq({k: sorted(x for x in v if x) for k, v in got.items()}, {k: sorted(x for x in v if x) for k, v in wanted.items()}, 'names of activities')
        # names of the activities of instances
        met = {id(i.node): i.node for t in instances for i in t}
        creator = (lambda: path) if case['creator'] else path
        text = saved(pp.SaveAllActivitiesInstancesNames(creator))
        lines = text.split('\n')
        check_eq(lines.pop(), '', 'the report ends with a line break')
        check_eq(sorted(lines), sorted(f'{n.unique_name()}={n.name}' for n in met.values()), 'names of the activities of instances')
        check_eq(len({n.unique_name() for n in nodes}), len(nodes), 'unique names')
        # places of instances
        text = saved(pp.WriteActivitiesInstancesIndices(path))
        got = []
        for line in text.split('\n'):
            if line.startswith('Trace '):
                check_eq(line, f'Trace {len(got)}', 'number of a trace')
                got.append([])
            elif line:
                got[-1].append(line)
        check_eq(got, [[f'({i.node.unique_name()}, {i.start_pos}, {i.length})' for i in t] for t in instances], 'places of instances')
        # printed reports
        result, text = printed(ap.PrintEventLogInfo(), context)
        check(result is context, 'the context goes on')
        check_eq(numbers(text), info(case['log']), 'information about the log')
        dropped = [[n for n in t if n not in case['drop']] for t in case['log']]
        inner = Pipeline(Replace(make_log(dropped)))
        result, text = printed(ap.PrintEventLogInfoBeforeAndAfter(case['operation'], inner), PipelinePartResult().with_log(log))
        check_eq(numbers(text), info(case['log']) + info(dropped), 'information before and after')
        check_eq([[e['concept:name'] for e in t] for t in result.__log__()], dropped, 'the log after the operation')
        _, text = printed(ap.PrintDFG(truthy(case['selected'].__contains__)), context)
        pairs, _ = pairs_of(case['log'], (), True)
        dfg(text, pairs, case['selected'])
        _, text = printed(pp.PrintFoundActivitiesCount(), context)
        check_eq(numbers(text), [len(roots)], 'number of activities')
        _, text = printed(pp.PrintActivities(), context)
        check_eq(sorted(x for x in text.split('\n')[1:] if x), sorted(r.name for r in roots if r.name), 'printed activities')
        _, text = printed(pp.PrintActivities(False), context)
        check_eq(text, '', 'nothing is printed')
        _, text = printed(pp.PrintActivitiesNamesToHashes(), context)
        check_eq(sorted(text.split('\n')[:-1]), sorted(f'{hash(n)} = {n.name}' for n in nodes), 'printed hashes')
        _, text = printed(pp.PrintUnattachedEvents(), context)
        covered = [{p for i in t for p in range(i.start_pos, i.start_pos + i.length)} for t in instances]
        outside = {n for t, c in zip(case['log'], covered) for p, n in enumerate(t) if p not in c}
        check_eq(sorted(ast.literal_eval(text)), sorted(outside), 'printed events outside of instances')
        _, text = printed(pp.PrintNumberOfUnderlyingEvents(), context)
        check_eq(numbers(text), [sum(map(len, case['log']))], 'number of underlying events')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    check_eq((snapshot(log), act.describe(instances)), before, 'log and instances stay as they were')
    return {'nontrivial': bool(met) and len(names) > 1, 'levels': len({r.activity_level for r in roots}) > 1}


class Replace(ap.InternalPipelinePart):
    def __init__(self, log):
        self.log = log

    def execute(self, current_input):
        return PipelinePartResult().with_log(self.log)


def numbers(text):
    """The numbers at the ends of lines"""
    return [int(x) for line in text.split('\n') if not line.startswith('Operation') for x in re.findall(r'(?<!\S)\d+(?!\S)', line)]


def info(names):
    return [len(names), sum(map(len, names)), len({n for t in names for n in t})]


def dfg(text, pairs, selected):
    wanted = {}
    for (a, b), c in pairs.items():
        if a in selected:
            wanted.setdefault(a, {})[b] = c
    lines = text.split('\n')
    at, got = 0, {}
    known = {f'Followers of {a}:': a for a in wanted}
    while at < len(lines) and lines[at]:
        check(lines[at] in known, 'selected events', lines[at])
        a = known[lines[at]]
        check(a not in got, 'an event is listed once', a)
        got[a] = {}
        at += 1
        while lines[at]:
            name, count = lines[at].rsplit(': ', 1)
            check(name not in got[a], 'a follower is listed once', name)
            got[a][name] = int(count)
            at += 1
        at += 1
    check_eq(got, wanted, 'followers')
