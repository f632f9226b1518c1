"""Reading a XES document yields exactly the log the document describes."""
import os
import tempfile
from xml.sax.saxutils import escape

from .. import gen, xesmodel
from ..core import check
from python.ficus.legacy.log.functions import read_log_from_xes

CASES = {'quick': 96000, 'thorough': 2400000}
RULE = ('XES documents assembled element by element (namespaces, comments, unknown elements, nested attributes, globals and '
        'extensions in any position, several encodings and quoting styles, all value types); non-trivial: at least one event '
        'with an attribute')
ASSUMPTIONS = ['documents are well-formed XML and values are in the lexical form of their type']

DATES = ['2020-01-02T03:04:05', '2020-01-02T03:04:05Z', '2020-12-31T23:59:59.999+01:00', '1999-02-03T00:00:00.123456-05:30',
         '2011-10-01T00:38:44.546+02:00', '2020-02-29 12:00:00', '2015-06-07']


def attribute(d, depth=0):
    tag = d.choice(['string', 'int', 'float', 'boolean', 'date'])
    if tag == 'string':
        v = gen.name_e(d) if d.below(6) < 5 else d.choice(['a\nb', ' x ', '<&>', '"', "'"])
    elif tag == 'int':
        v = str(gen.big_int(d))
    elif tag == 'float':
        v = d.choice(['1', '1.5', '-0.25', '1e5', '1E-3', '0', '100000000000000000000.0'])
    elif tag == 'boolean':
        v = d.choice(['true', 'false', 'True', 'False', '1', '0', ' true ', 'false\n', ' 1 '])
    else:
        v = d.choice(DATES)
    nested = [attribute(d, 1) for _ in range(d.int(1, 2))] if depth == 0 and d.below(12) == 11 else []
    return {'el': 'value', 'tag': tag, 'key': 'concept:name' if d.below(4) == 0 else gen.key(d), 'value': v, 'nested': nested}


def junk(d):
    return {'el': d.choice(['comment', 'unknown', 'list', 'id'])}


def trace(d, n_events):
    items = []
    for _ in range(n_events):
        items.append({'el': 'event', 'items': [junk(d) if d.below(12) == 11 else attribute(d) for _ in range(d.int(0, 3))]})
    for _ in range(d.int(0, 2)):
        items.insert(d.below(len(items) + 1), attribute(d))
    if d.below(8) == 7:
        items.insert(d.below(len(items) + 1), junk(d))
    return {'el': 'trace', 'items': items}


def generate(d):
    items = [trace(d, gen.size(d, 0, 4, 30)) for _ in range(gen.size(d, 0, 3, 12))]
    for _ in range(d.int(0, 5)):
        kind = d.below(5)
        if kind == 0:
            el = {'el': 'global', 'scope': d.choice(['event', 'trace', 'other']),
                  'items': [junk(d) if d.below(12) == 11 else attribute(d) for _ in range(d.int(0, 3))]}
        elif kind == 1:
            el = {'el': 'extension', 'name': gen.name(d), 'prefix': gen.name(d), 'uri': 'http://' + gen.text(d, 0, 3)}
        elif kind == 2:
            el = {'el': 'classifier', 'name': gen.name(d), 'keys': [gen.choice_key(d) for _ in range(d.int(1, 3))]}
        elif kind == 3:
            el = attribute(d)
        else:
            el = junk(d)
        items.insert(d.below(len(items) + 1), el)
    return {'items': items, 'ns': d.choice(['', '', 'http://www.xes-standard.org/', 'p']), 'pretty': d.bool(),
            'single': d.bool(), 'encoding': d.choice(['utf-8', 'utf-8', 'utf-16', 'iso-8859-1', None, 'bom']),
            'attrs': {d.choice(['xes.version', 'xes.features', 'openxes.version']): gen.name_e(d) for _ in range(d.int(0, 2))}}


def render(case):
    prefix = 'p:' if case['ns'] == 'p' else ''
    q = "'" if case['single'] else '"'
    nl = '\n  ' if case['pretty'] else ''

    def quote(v):
        v = escape(v, {'\n': '&#10;', '\t': '&#9;', '\r': '&#13;'})
        return q + (v.replace("'", '&apos;') if q == "'" else v.replace('"', '&quot;')) + q

    def emit(el):
        k = el['el']
        if k == 'comment':
            return '<!-- <event/> <string key="a" value="b"/> -->' + nl
        if k in ('unknown', 'list', 'id'):
            inner, attrs = f'<{prefix}string key="hidden" value="hidden"/>' if k == 'list' else '', 'key="zz"' + (' value="zz"' if k != 'list' else '')
            return f'<{prefix}{k} {attrs}>{inner}</{prefix}{k}>' + nl
        if k == 'value':
            pairs = [('key', el['key']), ('value', el['value'])]
            if case['single']:
                pairs.reverse()
            attrs = ' '.join(f'{a}={quote(v)}' for a, v in pairs)
            inner = ''.join(map(emit, el['nested']))
            return (f'<{prefix}{el["tag"]} {attrs}>{inner}</{prefix}{el["tag"]}>' if inner or case['single']
                    else f'<{prefix}{el["tag"]} {attrs}/>') + nl
        if k == 'extension':
            return f'<{prefix}extension name={quote(el["name"])} prefix={quote(el["prefix"])} uri={quote(el["uri"])}/>' + nl
        if k == 'classifier':
            return f'<{prefix}classifier name={quote(el["name"])} keys={quote(" ".join(el["keys"]))}/>' + nl
        body = nl + ''.join(map(emit, el['items']))
        scope = f' scope={quote(el["scope"])}' if k == 'global' else ''
        return f'<{prefix}{k}{scope}>{body}</{prefix}{k}>' + nl

    ns = {'': '', 'p': ' xmlns:p="http://www.xes-standard.org/"'}.get(case['ns'], f' xmlns="{case["ns"]}"')
    attrs = ''.join(f' {k}={quote(v)}' for k, v in case['attrs'].items())
    return f'<{prefix}log{ns}{attrs}>{nl}{"".join(map(emit, case["items"]))}</{prefix}log>'


def expected(case):
    result = {'traces': [], 'attributes': case['attrs'], 'extensions': {}, 'classifiers': {}, 'properties': {},
              'global_values': {}}

    def value(el):
        v = el['value']
        if el['tag'] == 'date':
            return xesmodel.typed(xesmodel.lexical('date', v))
        return xesmodel.typed(xesmodel.lexical(el['tag'], v))

    for el in case['items']:
        k = el['el']
        if k == 'extension':
            result['extensions'][el['name']] = {'prefix': el['prefix'], 'uri': el['uri']}
        elif k == 'classifier':
            result['classifiers'][el['name']] = el['keys']
        elif k == 'value':
            result['properties'][el['key']] = value(el)
        elif k == 'global':
            g = result['global_values'].setdefault(el['scope'], {})
            for a in el['items']:
                if a['el'] == 'value':
                    g[a['key']] = value(a)
    for el in case['items']:
        if el['el'] != 'trace':
            continue
        attributes = dict(result['global_values'].get('trace', {}))
        events = []
        for c in el['items']:
            if c['el'] == 'value':
                attributes[c['key']] = value(c)
            elif c['el'] == 'event':
                p = dict(result['global_values'].get('event', {}))
                for a in c['items']:
                    if a['el'] == 'value':
                        p[a['key']] = value(a)
                events.append(p)
        result['traces'].append((events, attributes))
    return result


def run(case):
    text = render(case)
    enc = case['encoding']
    if enc == 'bom':
        data = b'\xef\xbb\xbf' + text.encode()
    elif enc is None:
        data = text.encode()
    else:
        data = (f'<?xml version="1.0" encoding="{enc}" ?>\n' + text).encode(enc, 'xmlcharrefreplace')
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'лог 1.xes')
        with open(path, 'wb') as f:
            f.write(data)
        log = read_log_from_xes(path)
        os.remove(path)
        try:
            read_log_from_xes(path)
            raised = False
        except FileNotFoundError:
            raised = True
        check(raised, 'reading a missing file is reported')
    xesmodel.compare(xesmodel.picture(log), expected(case), 'the log read')
    return {'nontrivial': any(c['el'] == 'event' and c['items'] for t in case['items'] if t['el'] == 'trace'
                              for c in t['items']),
            'globals': any(i['el'] == 'global' for i in case['items']), 'namespace': bool(case['ns']),
            'encoding_' + str(enc): True}
