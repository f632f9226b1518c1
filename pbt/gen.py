"""Generators shared by the properties. Every case is a plain JSON-able value; logs are lists of traces of names.

Each generator takes a Draw as its first argument.
"""
from datetime import datetime, timedelta, timezone

from .literals import mined

_M = mined()

SIMPLE = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'x', 'y', 'z']
TRICKY = ['A', 'B', 'aA', 'BB', 'Aa', 'ab', 'ba', 'abc', 'a b', 'a  b', ' a', 'a ', 'a.b', 'a.b.c', 'a:b', 'a::b', 'b::a',
          'a_b', 'a-b', 'a/b', '1', '2', '10', '01', '-1', '0', '1.0', 'None', 'null', 'True', 'start', 'end', 'START',
          'END', 'complete', 'undefined', 'é', 'É', 'ß', 'ж', 'Ж', '事件', '😀', 'İ', 'a"b', "a'b", 'a&b', 'a<b', 'a>b',
          'a;b', 'a|b', 'a\\b', '{a}', '[a]', '(a)', '$a', '%s', '#1', 'a*', '.*', 'a+', '^a', 'a$', 'a?',
          'O_SELECTED', 'W_Completeren aanvraag', 'A_SUBMITTED', 'Procedure.MethodBegin', 'Procedure.MethodEnd',
          'FAKE_START', 'FAKE_END', 'ARTIFICIAL_START', 'ARTIFICIAL_END', 'UndefinedActivity', 'concept:name',
          'lifecycle:transition', 'UnderlyingEvents', 'Trace', 'Tree', 'x' * 40, 'ab' * 20]
CHARS = 'abcxyzABZ019 _-.:/()éßжΩ事😀"\'&<>'


def _printable(s):
    return s != '' and '\n' not in s and '\r' not in s and '\t' not in s and s.isprintable()


MINED = [s for s in _M['strings'] if _printable(s)]
NEW = [s for s in _M['new_strings'] if _printable(s)]
NEW_INTS = sorted({j for i in _M['new_ints'] for j in (i - 1, i, i + 1, 2 * i)})
NEW_FLOATS = list(_M['new_floats'])


def text(d, low=0, high=6):
    return ''.join(d.choice(CHARS) for _ in range(d.int(low, high)))


def long_text(d):
    """Long texts that differ in one place only."""
    n = d.choice([70, 130, 257, 300, 1030, 2100])
    at = d.choice([0, n // 2, n - 1])
    return 'x' * at + d.choice('abc') + 'x' * (n - 1 - at)


def name(d, allow_empty=False):
    w = d.below(14 if NEW else 12)
    if w < 6:
        return d.choice(SIMPLE)
    if w < 9:
        return d.choice(TRICKY)
    if w == 9:
        return d.choice(MINED)
    if w == 10:
        if d.below(12) == 11:
            return long_text(d)
        return text(d, 0 if allow_empty else 1, 6)
    if w == 11:
        return '' if allow_empty else d.choice(TRICKY)
    if w == 12:
        return d.choice(NEW)
    return d.choice(['', 'a', 'x_']) + d.choice(NEW) + d.choice(['', 'b', ' 1'])


def name_e(d):
    return name(d, True)


def size(d, low, high, hard=None):
    """Sizes in [low, high]: mostly small. Literals that are new in the source (and their neighbours) are preferred,
    up to the limit `hard`; rarely a size between high and hard."""
    special = [i for i in NEW_INTS if low <= i <= (hard or high)] if NEW_INTS else None
    w = d.below(61)
    if w < 34:
        return d.int(low, min(high, low + 5))
    if special and w < 50:
        return d.choice(special)
    if hard and hard > high and w == 60:
        return d.int(high, hard)
    return d.int(low, high)


def integer(d, low, high):
    special = [i for i in NEW_INTS if low <= i <= high] if NEW_INTS else None
    w = d.below(12)
    if w < 5 and low <= 10:
        return d.int(low, min(high, max(low, 10)))
    if w < 7 and special:
        return d.choice(special)
    if w == 7:
        old = [i for i in _M['ints'] if low <= i <= high]
        if old:
            return d.choice(old)
    return d.int(low, high)


def alphabet(d, low=1, high=6, names=None, hard=30):
    n = size(d, low, high, hard)
    if names is None:
        if n > 10:
            return [f'n{i}' for i in range(n)]
        if d.below(3) < 2 and not (NEW and d.bool()):
            return SIMPLE[:n]
    result, tries = [], 0
    while len(result) < n and tries < 6 * n + 10:
        tries += 1
        x = (names or name)(d)
        if x not in result:
            result.append(x)
    if not result:
        result = ['a']
    return result


HARD_LEN = 110
HARD_TRACES = 40


def trace_indices(d, k, max_len, hard=HARD_LEN):
    """A trace over an alphabet of k classes, as a list of indices."""
    kind = d.below(9)
    if kind <= 2:
        return [d.below(k) for _ in range(size(d, 0, max_len, hard))]
    if kind <= 5:
        # blocks: repeated sub-sequences (tandem arrays, repeats) with separators
        result = []
        blocks = [[d.below(k) for _ in range(d.int(1, 4))] for _ in range(d.int(1, 3))]
        for _ in range(d.int(0, 5)):
            result.extend(d.choice(blocks) * size(d, 1, 4, 12))
            if d.below(3) == 1:
                result.append(d.below(k))
        return result[:hard]
    if kind == 6:
        return [d.below(k)] * size(d, 0, max_len, hard)
    if kind == 7:
        start = d.below(k)
        return [(start + i) % k for i in range(size(d, 0, max_len, hard))]
    return d.shuffle(range(k))


def index_log(d, k, max_traces, max_len, min_traces=0, max_events=400):
    n = size(d, min_traces, max_traces, HARD_TRACES)
    log = []
    events = 0
    for _ in range(n):
        reuse = d.below(6) if log else 0
        if reuse < 4:
            t = trace_indices(d, k, max_len)
        elif reuse == 4:
            t = list(d.choice(log))
        else:
            # near copy: one insertion, deletion, substitution or swap
            t = list(d.choice(log))
            op = d.below(4)
            if op == 0 or not t:
                t.insert(d.below(len(t) + 1), d.below(k))
            elif op == 1:
                del t[d.below(len(t))]
            elif op == 2:
                t[d.below(len(t))] = d.below(k)
            else:
                i, j = d.below(len(t)), d.below(len(t))
                t[i], t[j] = t[j], t[i]
        events += len(t)
        if events > max_events and len(log) >= min_traces:
            break
        log.append(t)
    return log


def named_log(d, max_traces=6, max_len=14, min_traces=0, max_classes=6, min_classes=1, names=None, max_events=400):
    """[[name, ...], ...]"""
    abc = alphabet(d, min_classes, max_classes, names)
    log = index_log(d, len(abc), max_traces, max_len, min_traces, max_events)
    return [[abc[i] for i in t] for t in log]


def enlarge(d, log, rarely, traces=(130, 257, 300, 520), length=(130, 257, 520, 1100), classes=(130, 257)):
    """Once in `rarely` cases a log far beyond the usual sizes, made of a few choices: many traces, a very long trace or
    very many classes."""
    if d.below(rarely) != rarely - 1:
        return log
    base = [t for t in log if t][:d.int(1, 4)] or [['a', 'b']]
    kind = d.below(5)
    if kind == 0 and traces:
        n = d.choice(traces) + d.below(3)
        if d.bool():  # all of them different
            x, y = base[0][0], next((e for t in base for e in t if e != base[0][0]), 'other')
            result = [list(base[i % len(base)][:6]) + [x if c == '0' else y for c in f'{i:b}'] for i in range(n)]
        else:
            result = [list(base[i % len(base)][:12]) for i in range(n)]
        if d.bool():  # the last one brings something new
            result[-1] = list(base[-1][:4]) + ['new'] + list(base[0][:4])
        return result
    if kind == 1 and classes:
        n = d.choice(classes) + d.below(3)
        t = [f'n{i}' for i in range(n)]
        if d.below(3) == 2:  # everything comes before and after the same one
            return [[x for i in t[:n // 2] for x in (base[0][0], i)], list(base[0][:12])]
        return [t, t[d.below(n):] + t[:d.below(n)], list(base[0][:12])]
    if kind == 2 and classes and length:
        # everything of interest lies far from the start
        n = d.choice(classes) + d.below(3)
        return [[f'n{i}' for i in range(n)] + t[:20] for t in base[:2]] + [list(t[:12]) for t in base[2:]]
    if kind == 3 and length:
        # a long part with an end of its own, met several times
        n = d.choice([66, 70, 130])
        block = (base[0][:6] * n)[:n] + ['tail'] * d.int(0, 2) + base[-1][:2]
        parted = [block + ['part', 'other'][:d.int(0, 2)] for _ in range(d.int(1, 3))]
        return [[x for p in parted for x in p][:max(length)], block[d.below(3):][:max(length)]] + [list(t[:12]) for t in base[1:]]
    n, body = d.choice(length) + d.below(3), base[0][:d.int(1, 12)]
    return [(body * (n // len(body) + 1))[:n]] + [list(t[:12]) for t in base[1:3]]


def several(d, n, f):
    """n values, equal ones among them."""
    result = []
    for _ in range(n):
        result.append(d.choice(result) if result and d.below(4) == 3 else f(d))
    return result


_BASE = datetime(1971, 1, 1)


def date(d):
    tz = d.choice([0, None, 0, 60, -300, 330, 180])
    return (_BASE + timedelta(seconds=d.choice([0, 1, 60, 3600, 86400]) * d.below(40000),
                              microseconds=d.choice([0, 0, 1, 1000, 123000, 123456, 999999, 500000]))).replace(
        tzinfo=None if tz is None else timezone(timedelta(minutes=tz)))


def big_int(d):
    k = d.below(4)
    if k < 2:
        return d.int(0, 100)
    if k == 2:
        return integer(d, 0, 10000) * d.choice([1, -1])
    return d.choice([2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 + 3, -10 ** 25]) + d.below(3)


def real(d):
    k = d.below(3)
    if k == 0:
        return d.int(0, 400) / 8
    if k == 1:
        return d.choice([0.0, 0.1, -0.0, 1.5, 1e-7, 1e22, -2.5, 3.0, 1e300, 5e-324, 0.30000000000000004,
                         float('inf'), float('-inf')] + NEW_FLOATS)
    return (d.below(2 ** 30) - 2 ** 29) / (1 + d.below(1000))


def boolean(d):
    return d.bool()


def scalar(d):
    """Values XES can carry."""
    return d.weighted((4, name_e), (2, big_int), (2, real), (2, boolean), (2, date))


KEYS = ['key', 'org:resource', 'time:timestamp', 'lifecycle:transition', 'cost', 'Activity', 'k1', 'k2', 'k 3', 'value',
        'id', 'default', 'é', 'concept:instance', 'amount']


def key(d):
    w = d.below(8 if NEW else 7)
    if w < 6:
        return d.choice(KEYS)
    return name(d) if w == 6 else d.choice(NEW)


def payload(d, max_extra=3, values=scalar):
    return {key(d): values(d) for _ in range(d.int(0, max_extra))}


def choice_key(d):
    """A key usable in a classifier (classifier keys are separated by blanks)."""
    k = key(d)
    return k.replace(' ', '_').strip() or 'k'
