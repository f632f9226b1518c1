"""Discovered Petri nets: the inductive net replays every trace, every algorithm gives the net it gives for the plain log."""
import os
import re
import shutil
import tempfile
import warnings

import graphviz
import pm4py
from pm4py.objects.log.obj import Event, EventLog, Trace

from .. import gen
from ..core import Inapplicable, check, check_eq
from ..dot import read_graphs
from ..fx import make_log, share, snapshot, warmed
from python.ficus.legacy.pipelines.contexts import accessors
from python.ficus.legacy.pipelines.contexts.part_results import PipelinePartResult
from python.ficus.legacy.pipelines.discovery.discovery_parts import (DiscoverPetriNetAlpha, DiscoverPetriNetAlphaPlus, DiscoverPetriNetHeuristic,
                                                                     DiscoverPetriNetInductive, DrawPetriNet)

CASES = {'quick': 16000, 'thorough': 600000}
RULE = 'logs over up to 5 classes, all algorithms with generated thresholds; non-trivial: at least two different traces of length two or more'
ASSUMPTIONS = ['pm4py implements the algorithms; what is decided is what reaches it and what is made of its answer']


def generate(d):
    log = gen.enlarge(d, gen.named_log(d, 5, 8, max_classes=5, max_events=60), 500, (130, 257), (130, 257), None)
    big = len(log) > 100
    if d.below(6) == 5 and log and not big:
        log = log[:1] * d.choice([5, 12, 25, 60]) + log[1:]
    draw = d.below(30) == 29
    if draw:
        log = [[n.rstrip('\\') or 'a' for n in t] for t in log]  # graphviz has no way to end a quoted text with a backslash
    return {'log': log, 'algorithm': d.choice(['inductive', 'inductive', 'noise', 'alpha', 'alpha+', 'heuristic'][:4 if big else 6]),
            'noise': d.choice([0.0, 0.03, 0.1, 0.2, 0.5, 0.9, 1.0]), 'draw': draw,
            'thresholds': [d.choice([0.0, 0.1, 0.3, 0.5, 0.65, 0.8, 0.95, 1.0]) for _ in range(3)], 'defaults': d.below(4) == 3, 'share': d.choice([0, 0, 0, 1, 2])}


def plain(names):
    log = EventLog()
    for t in names:
        trace = Trace()
        for n in t:
            trace.append(Event({'concept:name': n}))
        log.append(trace)
    return log


def canonical(net, start, end):
    places = sorted((sorted(str(a.source.label) for a in p.in_arcs), sorted(str(a.target.label) for a in p.out_arcs), start.get(p, 0), end.get(p, 0))
                    for p in net.places)
    return places, sorted(str(t.label) for t in net.transitions)


def successors(net, start, end):
    """Which visible transitions can follow each other with silent ones in between. The nets of the heuristic miner differ from run to run
    (pm4py iterates over sets of objects) in the way choices and parallel parts are grouped, not in this relation."""
    result = set()
    for t in net.transitions:
        if t.label is None:
            continue
        for forward in (True, False):
            todo, seen = [t], set()
            while todo:
                x = todo.pop()
                for arc in (x.out_arcs if forward else x.in_arcs):
                    y = arc.target if forward else arc.source
                    if y in seen:
                        continue
                    seen.add(y)
                    label = getattr(y, 'label', None)
                    if label is not None:
                        result.add((t.label, label) if forward else (label, t.label))
                    else:
                        todo.append(y)
                        if forward and end.get(y, 0):
                            result.add((t.label, None, 'end'))
                        if not forward and start.get(y, 0):
                            result.add((None, t.label, 'start'))
    return result, sorted(str(t.label) for t in net.transitions if t.label is not None)


class Junk:
    pass


def grouped(found, direct, part):
    """The heuristic miner has a few answers for some logs, according to where objects lie in memory: is one of those found one of the direct ones?"""
    theirs, ours, kept = set(), {repr(canonical(*found))}, []
    for i in range(400):
        kept.append([Junk() for _ in range(i * 37 % 101)][::2])
        theirs.add(repr(canonical(*direct())))
        if ours & theirs or len(theirs) > 6:
            return True
        if i % 4 == 3:
            other = part()
            ours.add(repr(canonical(other.petri_net, other.start_marking, other.end_marking)))
    return False


def replays(net, start, end, trace, limit=20000):
    """Is the trace a firing sequence from the start to the end marking (with silent steps)? None: undecided."""
    moves = [(t.label, [(a.source, a.weight) for a in t.in_arcs], [(a.target, a.weight) for a in t.out_arcs]) for t in net.transitions]
    key = lambda m: frozenset((p, n) for p, n in m.items() if n)
    todo, seen, goal = [(0, dict(start))], set(), key(dict(end))
    while todo:
        i, m = todo.pop()
        k = (i, key(m))
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > limit:
            return None
        if i == len(trace) and k[1] == goal:
            return True
        for label, before, after in moves:
            if label is not None and (i >= len(trace) or label != trace[i]):
                continue
            if all(m.get(p, 0) >= w for p, w in before):
                n = dict(m)
                for p, w in before:
                    n[p] -= w
                for p, w in after:
                    n[p] = n.get(p, 0) + w
                todo.append((i + (label is not None), n))
    return False


def run(case):
    names, algorithm = case['log'], case['algorithm']
    if not names and algorithm == 'alpha+':
        raise Inapplicable  # pm4py's algorithm is not defined on an empty log
    a, b, c = case['thresholds']
    defaults = case['defaults']
    form = successors if algorithm == 'heuristic' else canonical
    if algorithm in ('inductive', 'noise'):
        noise = 0.0 if algorithm == 'inductive' else case['noise']
        part = DiscoverPetriNetInductive() if noise == 0.0 and defaults else DiscoverPetriNetInductive(noise)
        direct = lambda: pm4py.discover_petri_net_inductive(plain(names), noise_threshold=noise)
    elif algorithm == 'alpha':
        part, direct = DiscoverPetriNetAlpha(), lambda: pm4py.discover_petri_net_alpha(plain(names))
    elif algorithm == 'alpha+':
        part, direct = DiscoverPetriNetAlphaPlus(), lambda: pm4py.discover_petri_net_alpha_plus(plain(names))
    else:
        if defaults:
            a = b = c = 0.5
        part = DiscoverPetriNetHeuristic() if defaults else DiscoverPetriNetHeuristic(a, b, c)
        direct = lambda: pm4py.discover_petri_net_heuristics(plain(names), dependency_threshold=a, and_threshold=b, loop_two_threshold=c)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            expected = form(*direct())
        except Exception:
            raise Inapplicable  # the algorithm itself has no answer
        log = share(make_log(names), case['share'])
        before = snapshot(log)
        context = PipelinePartResult().with_log(log).with_custom_data('other', 5)
        result = warmed(part).execute(context)
        if form(*direct()) != expected:
            raise Inapplicable
    found = accessors.petri_net(result)
    net, start, end = found.petri_net, found.start_marking, found.end_marking
    check_eq(form(net, start, end), expected, f'net of {algorithm}')
    if algorithm == 'heuristic' and sum(map(len, names)) < 200:
        again = lambda: accessors.petri_net(warmed(part).execute(PipelinePartResult().with_log(make_log(names))))
        check(grouped((net, start, end), direct, again), 'choices and parallel parts of the net', canonical(net, start, end), canonical(*direct()))
    check(accessors.log(result) is log and result.get_value_or_throw('other') == 5, 'the context is kept')
    check_eq(snapshot(log), before, 'the log is not changed')
    if algorithm == 'inductive':
        for t in map(list, {tuple(t) for t in names}):
            check(replays(net, start, end, t) is not False, 'the net replays every trace', t)
    if case['draw']:
        draw(result, found)
    return {'nontrivial': len({tuple(t) for t in names if len(t) > 1}) > 1, algorithm: True, 'drawn': case['draw']}


def draw(result, found):
    """Saved and shown pictures are those pm4py makes of the net with its markings."""
    net, start, end = found.petri_net, found.start_marking, found.end_marking
    scratch = tempfile.mkdtemp(prefix='c29')
    old, view = tempfile.tempdir, graphviz.Digraph.view
    shown = []
    try:
        tempfile.tempdir = scratch
        path, direct = os.path.join(scratch, 'net.svg'), os.path.join(scratch, 'direct.svg')
        check(DrawPetriNet(path).execute(result) is not None, 'the context is handed on')
        pm4py.save_vis_petri_net(net, start, end, direct)
        with open(path, encoding='utf-8') as f, open(direct, encoding='utf-8') as g:
            text, wanted = f.read(), g.read()
        check_eq(text, wanted, 'the saved picture')
        simple = {t.label for t in net.transitions if t.label is not None and re.fullmatch(r'[A-Za-z_]+', t.label)}
        check(all(f'>{x}<' in text for x in simple), 'the picture shows the transitions', simple)
        graphviz.Digraph.view = lambda self, *args, **kwargs: shown.append(self.source)
        check(DrawPetriNet().execute(result) is not None, 'the context is handed on')
        pm4py.view_petri_net(net, start, end)
        check_eq(len(shown), 2, 'the net is shown')
        check_eq(*[parts(x) for x in shown], 'the shown picture')
    finally:
        tempfile.tempdir, graphviz.Digraph.view = old, view
        shutil.rmtree(scratch, ignore_errors=True)


def parts(source):
    g = read_graphs([source])[0]
    return (sorted((n['name'], n['label'], n.get('shape'), n.get('fillcolor')) for n in g['nodes']),
            sorted((e['tail']['name'], e['head']['name'], e.get('label')) for e in g['edges']))
