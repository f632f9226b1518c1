"""An independent, minimal reading of the XES format: the oracle for both directions."""
import xml.etree.ElementTree as ET
from datetime import datetime

from .core import check

TYPES = {str: 'string', int: 'int', float: 'float', bool: 'boolean', datetime: 'date'}


def typed(value):
    """A value with its type, comparable."""
    if isinstance(value, datetime):
        off = value.utcoffset()
        return 'date', value.replace(tzinfo=None).isoformat(), None if off is None else off.total_seconds()
    if isinstance(value, float):
        return 'float', repr(value)
    return TYPES.get(type(value), type(value).__name__), value


def typed_dict(d):
    return {k: typed(v) for k, v in d.items()}


def picture(log):
    """What a log read from XES holds, type-exact."""
    return {
        'traces': [([typed_dict(e.payload) for e in t], typed_dict(t.attributes)) for t in log],
        'attributes': dict(log.attributes), 'extensions': dict(log.extensions),
        'classifiers': {k: list(v) for k, v in log.classifiers.items()},
        'properties': typed_dict(log.properties), 'global_values': {k: typed_dict(v) for k, v in log.global_values.items()}}


def local(tag):
    return tag.rsplit('}', 1)[-1]


def lexical(tag, value):
    if tag == 'string':
        return value
    if tag == 'int':
        return int(value)
    if tag == 'float':
        return float(value)
    if tag == 'boolean':
        return {'true': True, 'false': False, '1': True, '0': False}[value.strip().lower()]
    return datetime.fromisoformat(value)


def read_document(text):
    """Our own reading of a XES document, in the shape of `picture`."""
    root = ET.fromstring(text)
    check(local(root.tag) == 'log', 'the root element is <log>', root.tag)
    result = {'traces': [], 'attributes': dict(root.attrib), 'extensions': {}, 'classifiers': {}, 'properties': {},
              'global_values': {}}
    values = {'string', 'int', 'float', 'boolean', 'date'}
    for child in root:
        tag = local(child.tag)
        a = child.attrib
        if tag == 'extension':
            result['extensions'][a['name']] = {'prefix': a['prefix'], 'uri': a['uri']}
        elif tag == 'classifier':
            result['classifiers'][a['name']] = a['keys'].split(' ')
        elif tag == 'global':
            result['global_values'].setdefault(a['scope'], {}).update(
                {g.attrib['key']: typed(lexical(local(g.tag), g.attrib['value'])) for g in child if local(g.tag) in values})
        elif tag in values:
            result['properties'][a['key']] = typed(lexical(tag, a['value']))
    for child in root:
        if local(child.tag) != 'trace':
            continue
        attributes = dict(result['global_values'].get('trace', {}))
        events = []
        for c in child:
            tag = local(c.tag)
            if tag in values:
                attributes[c.attrib['key']] = typed(lexical(tag, c.attrib['value']))
            elif tag == 'event':
                payload = dict(result['global_values'].get('event', {}))
                for v in c:
                    if local(v.tag) in values:
                        payload[v.attrib['key']] = typed(lexical(local(v.tag), v.attrib['value']))
                events.append(payload)
        result['traces'].append((events, attributes))
    return result


def compare(actual, expected, what):
    for k in expected:
        if actual[k] != expected[k]:
            from .core import Violation
            detail = actual[k], expected[k]
            if isinstance(actual[k], list) and isinstance(expected[k], list) and len(actual[k]) == len(expected[k]):
                for x, y in zip(actual[k], expected[k]):
                    if x != y:
                        detail = x, y
                        break
            raise Violation(f'{what}: {k} differ: actual={str(detail[0])[:600]} expected={str(detail[1])[:600]}')
