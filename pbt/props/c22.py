"""Pipelines run their parts in order; branches work on copies; contexts hand back exactly what was put in."""
import contextlib
import copy
import io
import re

from .. import gen
from ..core import Inapplicable, check, check_eq
from ..fx import make_log, truthy
from python.ficus.legacy.pipelines.analysis.analysis_parts import PrintEventLogInfo, PrintEventLogInfoBeforeAndAfter
from python.ficus.legacy.pipelines.contexts import accessors, keys
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from python.ficus.legacy.pipelines.pipelines import (IfPipeline, InternalPipelinePart, ParallelPipeline, Pipeline, WithInputCopy,
                                                     WithTempInput)
from python.ficus.legacy.pipelines.start.start_parts import EmptyStartPart, UseExistingLog

CASES = {'quick': 80000, 'thorough': 2000000}
RULE = 'trees of pipeline combinators over parts that read, set, remove and replace values of the context, edited by append, insert and ' \
       'remove before the run; non-trivial: at least one branch combinator around a part that changes the context'
ASSUMPTIONS = ['values put into a context are not changed in place by the parts of a branch (contexts are copied one level deep)']

KEYS = ['k1', 'k2', 'k3']
ACCESS = {'log': 'with_log', 'activities': 'with_activities', 'repeat_sets': 'with_repeat_sets', 'traces_activities': 'with_trace_activities',
          'patterns': 'with_patterns', 'petri_net': 'with_petri_net', 'event_class_tree': 'with_event_class_tree',
          'activities_to_logs': 'with_activities_logs', 'serialized_graph': 'with_serialized_graph', 'graph': 'with_graph',
          'activity_name': 'with_activity_name', 'cached_colors': 'with_cached_colors'}


def draw_part(d, depth):
    w = d.below(12 if depth > 0 else 6)
    if w <= 2:
        return ['set', d.choice(KEYS), d.below(100)]
    if w == 3:
        return ['remove', d.choice(KEYS)]
    if w == 4:
        return ['fresh', d.choice(KEYS), d.below(100)]
    if w == 5:
        return ['none'] if d.below(3) == 0 else ['mark', d.below(100)]
    if w <= 7:
        return ['parallel', [draw_pipeline(d, depth - 1) for _ in range(d.int(1, 3))]]
    if w == 8:
        return ['copy', draw_pipeline(d, depth - 1)]
    if w == 9:
        return ['if', d.choice(KEYS), draw_pipeline(d, depth - 1)]
    if w == 10:
        return ['info', draw_pipeline(d, depth - 1)]
    return ['temp', d.choice(['copy', 'same', 'fresh']), d.choice(['result', 'input', 'merge']), draw_pipeline(d, depth - 1)]


def draw_pipeline(d, depth):
    return repeated(d, [draw_part(d, depth) for _ in range(d.int(0, 3))])


def repeated(d, parts):
    """Some part once more, anywhere."""
    for _ in range(d.choice([0, 0, 0, 1, 1, 2]) if parts else 0):
        parts.insert(d.below(len(parts) + 1), d.choice(parts))
    return parts


def generate(d):
    parts = repeated(d, [draw_part(d, 3) for _ in range(d.int(1, 5))])
    edits = []
    for _ in range(d.below(4)):
        part = d.choice(parts) if d.below(3) == 0 else draw_part(d, 1)
        edits.append(d.choice([['append', part], ['insert', d.below(6), part], ['del', d.below(6)]]))
    return {'parts': parts, 'edits': edits, 'same': d.bool(), 'log': gen.named_log(d, 3, 5), 'again': d.bool(),
            'values': [[d.choice(sorted(ACCESS)), d.below(1000)] for _ in range(d.int(0, 8))],
            'own': [[d.choice(KEYS), d.below(10)] for _ in range(d.int(0, 4))]}


class P(InternalPipelinePart):
    def __init__(self, action):
        self.action = action

    def execute(self, current_input):
        return self.action(current_input)


def visible(c):
    return {k: c.values[k] for k in KEYS if k in c.values}


def run(case):
    trail = []  # what the parts saw, in order
    holder = {}

    def build(part):
        # with 'same', equal parts are one object that is used in several places
        if not case['same'] or part[0] == 'none':
            return build_new(part)
        key = repr(part)
        if key not in holder:
            holder[key] = build_new(part)
        return holder[key]

    def build_new(part):
        kind = part[0]
        if kind == 'none':
            return None
        if kind in ('set', 'remove', 'fresh', 'mark'):
            def action(c):
                trail.append((part, visible(c)))
                if kind == 'set':
                    return c.with_custom_data(part[1], part[2])
                if kind == 'remove' and c.has_value(part[1]):
                    c.remove(part[1])
                if kind == 'fresh':
                    return PipelinePartResult().with_log(c.get_value_or_throw('log')).with_custom_data(part[1], part[2])
                return c
            return P(action)
        if kind == 'parallel':
            return ParallelPipeline(*[Pipeline(*map(build, p)) for p in part[1]])
        if kind == 'copy':
            return WithInputCopy(Pipeline(*map(build, part[1])))
        if kind == 'if':
            return IfPipeline(truthy(lambda c: c.has_value(part[1]) and c.get_value_or_throw(part[1]) % 2 == 0), Pipeline(*map(build, part[2])))
        if kind == 'info':
            return PrintEventLogInfoBeforeAndAfter('operation', Pipeline(*map(build, part[1])))
        transform = {'copy': copy.copy, 'same': lambda c: c,
                     'fresh': lambda c: PipelinePartResult().with_log(c.get_value_or_throw('log'))}[part[1]]
        merge = {'result': lambda a, b: b, 'input': lambda a, b: a,
                 'merge': lambda a, b: copy.copy(a).with_custom_data('k1', (b.values['k2'] if b.has_value('k2') else -1))}[part[2]]
        return WithTempInput(transform, merge, Pipeline(*map(build, part[3])))

    # the model works on plain dictionaries that may be shared, as contexts are
    expected = []
    state = {'branch': False}

    def model(part, c, inside):
        kind = part[0]
        if kind == 'none':
            return c
        if kind in ('set', 'remove', 'fresh', 'mark'):
            expected.append((part, dict(c)))
            if inside and kind != 'mark':
                state['branch'] = True
            if kind == 'set':
                c[part[1]] = part[2]
            elif kind == 'remove':
                c.pop(part[1], None)
            elif kind == 'fresh':
                return {part[1]: part[2]}
            return c
        if kind == 'parallel':
            last = None
            for p in part[1]:
                last = model_all(p, dict(c), True)
            return last
        if kind == 'copy':
            model_all(part[1], dict(c), True)
            return c
        if kind == 'if':
            return model_all(part[2], c, True) if part[1] in c and c[part[1]] % 2 == 0 else c
        if kind == 'info':
            return model_all(part[1], c, True)
        temp = {'copy': lambda: dict(c), 'same': lambda: c, 'fresh': lambda: {}}[part[1]]()
        result = model_all(part[3], temp, True)
        if part[2] == 'result':
            return result
        if part[2] == 'input':
            return c
        return {**c, 'k1': result.get('k2', -1)}

    def model_all(parts, c, inside=False):
        for p in parts:
            c = model(p, c, inside)
        return c

    parts = [p for p in case['parts'] if p[0] != 'none']
    pipeline = Pipeline(UseExistingLog(), *map(build, case['parts']))
    for edit in case['edits']:
        if edit[0] == 'append' and edit[1][0] != 'none':
            pipeline.append(build(edit[1]))
            parts.append(edit[1])
        elif edit[0] == 'insert' and edit[2][0] != 'none':
            i = edit[1] % (len(parts) + 1)
            pipeline.insert(i + 1, build(edit[2]))
            parts.insert(i, edit[2])
        elif edit[0] == 'del' and parts:
            i = edit[1] % len(parts)
            pipeline.remove(i + 1)
            del parts[i]
    log = make_log(case['log'])
    for _ in range(2 if case['again'] else 1):
        del trail[:], expected[:]
        result = pipeline(log)
        want = model_all(parts, {})
        check_eq(trail, expected, 'what the parts saw, in order')
        check_eq(visible(result), want, 'resulting context')
        check(accessors.log(result) is log, 'the log stays in the context')

    for bad in ('text', 5, Pipeline()):
        try:
            Pipeline(UseExistingLog(), bad)
        except TypeError:
            continue
        check(False, 'a pipeline takes only pipeline parts', bad)

    # contexts
    context, stored = EmptyStartPart()(None), {}
    copies = []
    for name, value in case['values']:
        data = ['value', value] if value < 500 else {0: [], 1: {}, 2: '', 3: 0, 4: False}.get(value % 7, (value,))
        check(getattr(context, ACCESS[name])(data) is context, f'{ACCESS[name]} returns the context')
        stored[name] = data
        if value % 3 == 0:
            copies.append((copy.copy(context), dict(stored)))
    copies.append((context, stored))
    for c, s in copies:
        for name in ACCESS:
            if name in s:
                check(getattr(accessors, name)(c) is s[name], f'{name} is handed back')
                check(c.has_value(getattr(keys, f'{name}_key')), f'{name} is present')
            elif name == 'cached_colors':
                colors = accessors.cached_colors(c)
                check_eq(colors, {}, 'no colors at first')
                check(accessors.cached_colors(c) is colors, 'colors are kept')
            else:
                try:
                    getattr(accessors, name)(c)
                except ValueError:
                    continue
                check(False, f'{name} was never put into the context')

    # values under keys of one's own: any value, None as well
    odd = [None, 0, False, '', [], {}, (), 5, 'text', context]
    own = EmptyStartPart()(None)
    for key, value in case['own']:
        data, known = odd[value], own.has_value(key)
        check(own.with_custom_data(key, data) is own, 'with_custom_data returns the context')
        check(own.has_value(key), 'a value put in is present', repr(data), known)
        check(own.get_value_or_throw(key) is data, 'a value put in is handed back', repr(data))
        twin = copy.copy(own)
        twin.remove(key)
        check(not twin.has_value(key) and own.has_value(key), 'removing from a copy leaves the original')

    # a pipeline over an existing log starts with that log, and refuses anything else
    check(accessors.log(Pipeline(UseExistingLog())(log)) is log, 'the existing log is used')
    for bad in (None, case['log'], 'log.xes', context):
        reached = []
        try:
            Pipeline(UseExistingLog(), P(reached.append))(bad)
        except (ValueError, TypeError):
            check(not reached, 'no part runs on what is no log')
        else:
            check(False, 'something that is no log is refused', bad)

    # what a part returns is what the next one receives, whatever it is
    passed = []

    def passing(value):
        def action(c):
            passed.append(c)
            return value
        return P(action)

    plain = [odd[v] for _, v in case['own']]
    outcome = Pipeline(*map(passing, plain)).execute(context)
    check(len(passed) == len(plain) and all(a is b for a, b in zip(passed, [context] + plain)), 'what the parts received', passed, plain)
    check(outcome is (plain[-1] if plain else context), 'what the last part returned is returned', outcome)

    # printed information
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        PrintEventLogInfo()(PipelinePartResult().with_log(log))
    numbers = [int(x) for x in re.findall(r': (\d+)', out.getvalue())]
    check_eq(numbers, [len(case['log']), sum(map(len, case['log'])), len({n for t in case['log'] for n in t})], 'printed information')
    return {'nontrivial': state['branch'], 'edited': bool(case['edits']), 'values': bool(case['values'])}
