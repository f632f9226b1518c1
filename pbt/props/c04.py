"""Writing a log to XES and reading it back loses and changes nothing."""
import os
import tempfile
from datetime import datetime, timedelta, timezone

from .. import gen, logs, xesmodel
from ..core import check
from ..fx import share
from ..fx import WarmPipeline as Pipeline
from python.ficus.legacy.log.functions import (read_log_from_xes, save_event_log_to_xes, serialize_log_to_xes,
                                               serialize_log_to_xes_beautiful)
from python.ficus.legacy.pipelines.serialization.pipeline_parts import SaveEventLogToXes
from python.ficus.legacy.pipelines.start.start_parts import ReadLogFromXes, UseExistingLog
from python.ficus.legacy.pipelines.contexts.accessors import log as context_log

CASES = {'quick': 48000, 'thorough': 1200000}
RULE = ('full logs with every XES value type, odd characters, defaults, extensions, classifiers and properties, written through '
        'the file, text, indented or pipeline route; non-trivial: at least one event with a payload')
ASSUMPTIONS = ['keys and texts contain only characters XML can carry; '
               'classifier keys contain no blanks']

ODD = ['a\nb', 'a\tb', '\r', 'a\r\nb', '  ', '<event/>', '&amp;', '&#10;', ']]>', '"', "'", '>', '/>', 'true', 'False', '5',
       '2020-01-01', 'None', '\u00a0', '\u2028', '\ufeffx', '{x}y', '}']


def value(d):
    return d.choice(ODD) if d.below(8) == 7 else gen.scalar(d)


def event(d, _values):
    p = {}
    for _ in range(d.int(0, 4)):
        p['concept:name' if d.below(3) == 0 else gen.key(d)] = value(d)
    if d.below(15) == 14:
        p['UnderlyingEvents'] = [1, 2]
    return p


def twin(d, v):
    """A value much like this one, maybe of another type."""
    w = d.below(6)
    if w == 0 and isinstance(v, (bool, int, float)) and v == v and abs(v) < 1e300:
        return d.choice([int, float, bool])(v)
    if w == 1:
        return str(v)
    if w == 2 and isinstance(v, datetime):
        return v.astimezone(timezone(timedelta(hours=d.int(-3, 3)))) if v.tzinfo and 1900 < v.year < 2100 else v.replace(tzinfo=timezone.utc)
    if w == 3 and v == 0 and isinstance(v, float):
        return -v
    return v


def generate(d):
    log = logs.full_log(d, values=value, make_event=event)
    for defaults in log['global_values'].values():
        for k in defaults:
            if d.bool():
                defaults[k] = value(d) if d.bool() else d.choice([0, 1, 0.0, 1.0, True, False, '1', 'True'])
    if d.bool() and log['global_values']:
        # events and traces that hold their default value, or one that looks or compares like it
        for scope, defaults in log['global_values'].items():
            for k, v in defaults.items():
                for t in log['traces']:
                    for target in ([t['attributes']] if scope == 'trace' else t['events']):
                        if d.below(3) == 1:
                            target[k] = twin(d, v)
    if d.below(6) == 5:
        # what XES has no element for is left out, wherever it is
        for target in [log['properties']] + [t['attributes'] for t in log['traces']]:
            if d.bool():
                rest = list(target.items())
                rest.insert(d.below(len(rest) + 1), (d.choice(['UnderlyingEvents', 'x y']), d.choice([None, [1, 'a'], {'a': 'b'}])))
                target.clear()
                target.update(rest)
    return {'log': log, 'route': d.choice(['file', 'text', 'beautiful', 'pipeline', 'bare', 'overwrite']), 'share': d.choice([0, 0, 0, 1, 2])}


def expected(case):
    log = case['log']
    keep = lambda p: {k: xesmodel.typed(v) for k, v in p.items() if type(v) in xesmodel.TYPES}
    ev = {k: xesmodel.typed(v) for k, v in log['global_values'].get('event', {}).items()}
    tr = {k: xesmodel.typed(v) for k, v in log['global_values'].get('trace', {}).items()}
    return {'traces': [([{**ev, **keep(e)} for e in t['events']], {**tr, **keep(t['attributes'])}) for t in log['traces']],
            'attributes': log['attributes'], 'extensions': log['extensions'], 'classifiers': log['classifiers'],
            'properties': keep(log['properties']), 'global_values': {k: xesmodel.typed_dict(v) for k, v in log['global_values'].items()}}


def run(case):
    log = share(logs.build(case['log']), case['share'])
    before = logs.picture(log)
    want = expected(case)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'x', 'y', 'log.xes')
        route = case['route']
        if route in ('file', 'overwrite'):
            if route == 'overwrite':
                os.makedirs(os.path.dirname(path))
                with open(path, 'w') as f:
                    f.write('<log>' + '<trace/>' * 3000 + '</log>')
            save_event_log_to_xes(log, path)
        elif route == 'bare':
            cwd = os.getcwd()
            os.chdir(tmp)
            try:
                save_event_log_to_xes(log, 'log.xes')
            finally:
                os.chdir(cwd)
            path = os.path.join(tmp, 'log.xes')
        elif route == 'pipeline':
            Pipeline(UseExistingLog(), SaveEventLogToXes(lambda _: path))(log)
        else:
            text = serialize_log_to_xes(log) if route == 'text' else serialize_log_to_xes_beautiful(log)
            path = os.path.join(tmp, 'log.xes')
            with open(path, 'w', encoding='utf-8', newline='') as f:
                f.write(text)
        with open(path, encoding='utf-8', newline='') as f:
            document = f.read()
        xesmodel.compare(xesmodel.read_document(document), want, 'the written document')
        back = read_log_from_xes(path) if route != 'pipeline' else context_log(Pipeline(ReadLogFromXes())(path))
    xesmodel.compare(xesmodel.picture(back), want, 'the log read back')
    check(logs.picture(log) == before, 'writing does not change the log')
    types = {type(v).__name__ for t in case['log']['traces'] for e in t['events'] for v in e.values()}
    return {'nontrivial': any(e for t in case['log']['traces'] for e in t['events']), case['route']: True,
            'defaults': bool(case['log']['global_values']), **{'value_' + t: True for t in types}}
