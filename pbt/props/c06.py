"""The compact text form of logs: parsing and printing are inverse to each other."""
from .. import gen
from ..core import check, check_eq
from ..fx import CN, make_log, names_of, share
from python.ficus.legacy.log.functions import (parse_log_from_string, parse_log_from_strings, parse_trace_from_string,
                                               serialize_log, serialize_logs)

CASES = {'quick': 45000, 'thorough': 1125000}
RULE = ('lists of logs of names (including empty names) and separators; non-trivial: some trace has at least two events')
ASSUMPTIONS = ['names do not contain the separators; a trace of the text form that is parsed has at least one event']

SEPS = [',', ';', '|', '||', ', ', '->', '\t', ' ', '\n', '::', 'X', '\u2192', '.', '*']


def generate(d):
    seps = d.shuffle(SEPS)[:3]
    default = d.below(3) == 0
    if default:
        seps = [',', '\n', '\n\n']

    def clean(d):
        n = gen.name_e(d)
        for s in seps:
            for ch in s:
                n = n.replace(ch, '')
        return n

    count = gen.size(d, 0, 3, 6)
    return {'logs': [gen.enlarge(d, gen.named_log(d, max_traces=5, max_len=8, names=clean, max_events=120), 3000) for _ in range(count)],
            'event_sep': seps[0], 'trace_sep': seps[1], 'log_sep': seps[2], 'default': default, 'share': d.choice([0, 0, 0, 1, 2])}


def run(case):
    es, ts, ls = case['event_sep'], case['trace_sep'], case['log_sep']
    texts = []
    for log in case['logs']:
        real = share(make_log(log), case['share'])
        strings = [es.join(t) for t in log]
        expected = ts.join(strings)
        args = {} if case['default'] else {'traces_separator': ts, 'events_separator': es}
        texts.append(expected)
        check_eq(serialize_log(real, **args), expected, 'text of a log')
        check_eq(names_of(real), log, 'printing does not change the log')
        # a trace without events has a text, but a text always holds at least one event
        log = [t for t in log if t]
        strings = [es.join(t) for t in log]
        sep = {} if case['default'] else {'separator': es}
        parsed = parse_log_from_strings(strings, **sep)
        check_eq(names_of(parsed), log, 'log parsed from its text')
        check(all(set(e.payload) == {CN} for t in parsed for e in t), 'parsed events hold their name only')
        check_eq(serialize_log(parsed, **args), ts.join(strings), 'printing what was parsed')
        for t, s in zip(log, strings):
            check_eq([e[CN] for e in parse_trace_from_string(s, **sep)], t, 'parsed trace')
            check_eq(names_of(parse_log_from_string(s, **sep)), [t], 'log of one parsed trace')
    args = {} if case['default'] else {'logs_separator': ls, 'traces_separator': ts, 'events_separator': es}
    check_eq(serialize_logs([share(make_log(x), case['share']) for x in case['logs']], **args), ls.join(texts), 'text of several logs')
    return {'nontrivial': any(len(t) > 1 for x in case['logs'] for t in x), 'default': case['default'],
            'several_logs': len(case['logs']) > 1, 'empty_trace': any(not t for x in case['logs'] for t in x)}
