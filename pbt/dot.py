"""What a graph description says, according to graphviz itself."""
import json
import re
import subprocess
from html.entities import name2codepoint


def shown(label, name=''):
    """The text graphviz puts on a picture for the label of a node (edge) of this name."""
    def entity(m):
        e = m.group(1)
        if e.startswith('#'):
            n = int(e[2:], 16) if e[1] in 'xX' else int(e[1:])
            return chr(n) if 0 < n < 0x110000 else m.group()
        return chr(name2codepoint[e]) if e in name2codepoint else m.group()

    def escape(m):
        return {'n': '\n', 'l': '\n', 'r': '\n', 'N': name}.get(m.group(1), m.group(1))
    if label == '\\N':
        label = name
    return re.sub(r'\\(.)', escape, re.sub(r'&(#\d+|#[xX][0-9a-fA-F]+|[A-Za-z0-9]+);', entity, label), flags=re.S)


def read_graphs(sources):
    """[{'name', 'attrs', 'nodes': [{'name', 'label', ...}], 'edges': [(tail name, head name, label)]}] for DOT texts."""
    if not sources:
        return []
    p = subprocess.run(['dot', '-Tdot_json'], input='\n'.join(sources), capture_output=True, text=True, encoding='utf-8', timeout=120)
    if p.returncode != 0:
        raise ValueError(f'graphviz rejects the description: {p.stderr[:300]}')
    decoder, text, at, result = json.JSONDecoder(), p.stdout, 0, []
    while True:
        while at < len(text) and text[at].isspace():
            at += 1
        if at >= len(text):
            break
        g, at = decoder.raw_decode(text, at)
        nodes = []
        for o in g.get('objects', []):
            label = o.get('label', '\\N')
            nodes.append({**o, 'label': o['name'] if label == '\\N' else label, 'text': shown(label, o['name'])})
        by_id = {n['_gvid']: n for n in nodes}
        edges = [{**e, 'tail': by_id[e['tail']], 'head': by_id[e['head']]} for e in g.get('edges', [])]
        result.append({'graph': g, 'nodes': nodes, 'edges': edges})
    return result


def by_label(g):
    """(sorted texts of nodes, sorted (text of tail, text of head))"""
    return (sorted(n['text'] for n in g['nodes']),
            sorted((e['tail']['text'], e['head']['text']) for e in g['edges']))
