"""Histories of log mutations and filters: exactly the events and traces asked for are dropped or changed."""
import copy

from .. import gen
from ..core import check, check_eq
from ..fx import CN, LC, Pipeline as ColdPipeline, make_log_payloads, payloads_of, truthy
from ..fx import WarmPipeline as Pipeline
from python.ficus.legacy.log.event_log import MyEventLog
from python.ficus.legacy.mutations.event_log_mutations import (filter_log, preprocess_event_names_inplace, preprocess_events,
                                                               remove_empty_traces, remove_event_from_log,
                                                               remove_events_from_log, remove_lifecycle_attribute)
from python.ficus.legacy.pipelines.contexts.accessors import log as get_log
from python.ficus.legacy.pipelines.filtering.filter_parts import FilterTracesByCount
from python.ficus.legacy.pipelines.mutations.mutations_parts import (AddArtificialStartEndEvents, ApplyClassExtractor,
                                                                     PreprocessEvents, PreprocessEventsNames,
                                                                     RemoveEventFromLogByName, RemoveEventsFromLogByNames,
                                                                     RemoveEventsFromLogPredicate,
                                                                     RemoveLifecycleTransitionsAttributes)
from python.ficus.legacy.pipelines.start.start_parts import UseExistingLog

CASES = {'quick': 36000, 'thorough': 900000}
RULE = 'a log of events with attributes and a history of 1-8 mutations and filters, each through the function or the ' \
       'pipeline part; non-trivial: some step changes the log'
ASSUMPTIONS = ['events carry a name']

OPS = ['remove_name', 'remove_names', 'remove_pred', 'min_count', 'rename', 'set_attr', 'del_lifecycle', 'artificial', 'classes']


def generate(d):
    names = gen.enlarge(d, gen.named_log(d, max_traces=6, max_len=10), 1500, (130, 257), (257, 1100), (257,))
    log = [[{**gen.payload(d, 2), **({LC: d.choice(['start', 'complete', 'COMPLETE'])} if d.below(3) == 0 else {}), CN: n}
            for n in t] for t in names]
    for t in log:
        for p in t:
            p['__id'] = 0
    pool = sorted({n for t in names for n in t}) or ['a']
    ops = []
    for _ in range(d.int(1, 8)):
        kind = d.choice(OPS)
        op = {'kind': kind, 'part': d.bool()}
        if kind == 'remove_name':
            op['name'] = d.choice(pool) if d.below(5) else gen.name(d)
        elif kind == 'remove_names':
            op['names'] = d.subset(pool, 1, 3) + [gen.name(d)] * d.below(2)
            op['as'] = d.choice(['list', 'tuple', 'set', 'generator', 'keys', 'text'])
            if op['as'] == 'text':
                # a text is an iterable of one letter names
                op['names'] = [c for n in op['names'] for c in n]
        elif kind in ('remove_pred', 'set_attr', 'classes'):
            op['mod'], op['rem'], op['truth'] = d.int(1, 4), d.below(4), d.below(6)
        elif kind == 'min_count':
            op['count'] = gen.integer(d, 0, 12)
            op['default'] = d.below(5) == 0
        if kind == 'rename':
            op['how'] = d.choice(['prefix', 'upper', 'const', 'same', 'first'])
        if kind == 'classes':
            op['how'] = d.choice(['prefix', 'id', 'attr'])
            op['all'] = d.below(3) == 0
        ops.append(op)
    return {'log': log, 'ops': ops}


AS = {'list': list, 'tuple': tuple, 'set': set, 'generator': iter, 'keys': lambda x: dict.fromkeys(x).keys(), 'text': ''.join}
RENAME = {'prefix': lambda n: 'p_' + n, 'upper': lambda n: n.upper(), 'const': lambda n: 'same', 'same': lambda n: n,
          'first': lambda n: n[:1]}
CLASS = {'prefix': lambda e: 'c_' + e[CN], 'id': lambda e: f'c{e["__id"] % 3}', 'attr': lambda e: f'k{len(e[CN])}'}


def run(case):
    model, uid = [], 0
    for t in case['log']:
        trace = []
        for p in t:
            trace.append({**p, '__id': uid})
            uid += 1
        model.append(trace)
    current = make_log_payloads(model)
    labels = {}
    changed = False

    def via(part, value):
        # an iterator of names is used up by one run
        once = op.get('as') == 'generator'
        return get_log((ColdPipeline if once else Pipeline)(UseExistingLog(), part)(value))

    for op in case['ops']:
        kind, part = op['kind'], op['part']
        before_log, before = current, copy.deepcopy(model)
        labels[kind] = True
        inplace = False
        if kind in ('remove_name', 'remove_names', 'remove_pred'):
            if kind == 'remove_name':
                drop = lambda e: e[CN] == op['name']
                current = via(RemoveEventFromLogByName(op['name']), current) if part else remove_event_from_log(current, op['name'])
            elif kind == 'remove_names':
                drop = lambda e: e[CN] in op['names']
                current = via(RemoveEventsFromLogByNames(AS[op['as']](op['names'])), current) if part else \
                    remove_events_from_log(current, set(op['names']))
            else:
                drop = lambda e: e.get('__id', 1) % op['mod'] == op['rem']
                real = truthy(lambda e: (e['__id'] if '__id' in e else 1) % op['mod'] == op['rem'], op.get('truth', 0))
                current = via(RemoveEventsFromLogPredicate(real), current) if part else filter_log(current, real)
            model = [[e for e in t if not drop(e)] for t in model]
            model = [t for t in model if t]
        elif kind == 'min_count':
            count = 0 if op['default'] else op['count']
            if part:
                current = via(FilterTracesByCount() if op['default'] else FilterTracesByCount(count), current)
            else:
                current = remove_empty_traces(current) if op['default'] else remove_empty_traces(current, count)
            model = [t for t in model if len(t) > count]
        else:
            inplace = True
            same = current
            if kind == 'rename':
                f = RENAME[op['how']]
                if part:
                    current = via(PreprocessEventsNames(f), current)
                else:
                    preprocess_event_names_inplace(current, f)
                for t in model:
                    for e in t:
                        e[CN] = f(e[CN])
            elif kind == 'set_attr':
                def touch(e):
                    if (e['__id'] if '__id' in e else 1) % op['mod'] == op['rem']:
                        e['touched'] = 'yes'
                if part:
                    current = via(PreprocessEvents(touch), current)
                else:
                    preprocess_events(current, touch)
                for t in model:
                    for e in t:
                        touch(e)
            elif kind == 'del_lifecycle':
                if part:
                    current = via(RemoveLifecycleTransitionsAttributes(), current)
                else:
                    remove_lifecycle_attribute(current)
                for t in model:
                    for e in t:
                        e.pop(LC, None)
            elif kind == 'artificial':
                current = via(AddArtificialStartEndEvents(), current)
                model = [[{CN: 'ARTIFICIAL_START'}] + t + [{CN: 'ARTIFICIAL_END'}] for t in model]
            else:
                f = CLASS[op['how']] if op['how'] != 'id' else (lambda e: f'c{(e["__id"] if "__id" in e else 7) % 3}')
                sel = (lambda e: True) if op['all'] else truthy(lambda e: (e['__id'] if '__id' in e else 1) % op['mod'] == op['rem'], op.get('truth', 0))
                current = via(ApplyClassExtractor(f) if op['all'] else ApplyClassExtractor(f, sel), current)
                for t in model:
                    for e in t:
                        if sel(e):
                            e[CN] = f(e)
            check(current is same, f'{kind} changes the log it was given')
        check(isinstance(current, MyEventLog), f'{kind} yields a log')
        check_eq(payloads_of(current), model, f'log after {kind}')
        if not inplace:
            check_eq(payloads_of(before_log), before, f'the log given to {kind} is left as it was')
        changed = changed or model != before
    labels['nontrivial'] = changed
    return labels
