"""Reference formulations of the pattern definitions, over plain sequences of event classes."""
from .fx import CN

EXTRACTORS = {
    'default': None,
    'name': lambda e: e[CN],
    'first': lambda e: e[CN][:1],
    'last': lambda e: e[CN][-1:],
    'length': lambda e: f'len{len(e[CN])}',
    'lower': lambda e: e[CN].lower(),
    'const': lambda e: 'same',
    'blank': lambda e: '' if e[CN] < 'b' else e[CN],
}
KINDS = list(EXTRACTORS)


def extractor_kind(d):
    return KINDS[0] if d.below(3) == 0 else (KINDS[1] if d.below(3) else d.choice(KINDS))


def classes_of(names, kind):
    f = EXTRACTORS[kind]
    return [[n if f is None else f({CN: n}) for n in t] for t in names]


def tandem_arrays(trace, limit):
    """{(first position, block length, repeat count)}: every distinct block of 2..limit-1 events that is immediately
    repeated, at the first place where it is, with all its repetitions."""
    n, result, seen = len(trace), [], set()
    for length in range(2, min(limit - 1, n // 2) + 1):
        for i in range(0, n - 2 * length + 1):
            block = tuple(trace[i:i + length])
            if block in seen or tuple(trace[i + length:i + 2 * length]) != block:
                continue
            seen.add(block)
            count = 1
            while tuple(trace[i + count * length:i + (count + 1) * length]) == block:
                count += 1
            result.append((i, length, count))
    return result


def is_primitive(trace, first, length):
    for shorter in range(2, (length + 1) // 2 + 1):
        if first + 2 * shorter <= len(trace) and trace[first:first + shorter] == trace[first + shorter:first + 2 * shorter]:
            return False
    return True


def occurrences(trace):
    """{content: [positions]} of all sub-sequences."""
    result = {}
    n = len(trace)
    for length in range(1, n):
        any_repeated = False
        for i in range(n - length + 1):
            positions = result.setdefault(tuple(trace[i:i + length]), [])
            positions.append(i)
            any_repeated = any_repeated or len(positions) > 1
        if not any_repeated:
            break
    return result


def maximal_repeats(trace):
    """{content: positions} of the sub-sequences that occur at least twice and cannot be extended to the left or to the
    right without losing an occurrence (the borders of the trace differ from every class)."""
    n, result = len(trace), {}
    for content, positions in occurrences(trace).items():
        if len(positions) < 2:
            continue
        left = {trace[p - 1] if p > 0 else ('border', p) for p in positions}
        right = {trace[p + len(content)] if p + len(content) < n else ('border', p) for p in positions}
        if len(left) > 1 and len(right) > 1:
            result[content] = positions
    return result


def super_maximal(repeats):
    letters = {}
    text = {r: ''.join(letters.setdefault(c, chr(0x10000 + len(letters))) for c in r) for r in repeats}
    return {r for r in repeats if not any(len(o) > len(r) and text[r] in text[o] for o in repeats)}


def near_super_maximal(repeats):
    """Maximal repeats with an occurrence that no occurrence of a longer maximal repeat covers."""
    ends = {}
    for c, ps in repeats.items():
        for p in ps:
            ends[p] = max(ends.get(p, 0), p + len(c))
    reach, before = [], 0
    for p in range(max(ends, default=-1) + 1):
        reach.append(before)
        before = max(before, ends.get(p, 0))
    # an occurrence [p, e) is covered when a longer one starts before and ends at e or later, or starts at p and ends later
    return {c for c, ps in repeats.items() if any(reach[p] < p + len(c) and ends[p] <= p + len(c) for p in ps)}


def extract_instances(trace, roots):
    """roots: [(set of classes, name, key)]. [(key, start, length)]: an instance starts at the first event whose class
    belongs to an activity, goes on while one activity holds all its classes; the smallest activity (then by name) wins."""
    order = sorted(roots, key=lambda r: (len(r[0]), r[1]))
    result, i, n = [], 0, len(trace)
    while i < n:
        current = next((r for r in order if trace[i] in r[0]), None)
        if current is None:
            i += 1
            continue
        met, j = {trace[i]}, i + 1
        while j < n:
            if trace[j] not in current[0]:
                wider = next((r for r in order if met | {trace[j]} <= r[0]), None)
                if wider is None:
                    break
                current = wider
            met.add(trace[j])
            j += 1
        result.append((current[2], i, j - i, frozenset(met)))
        i = j
    return result


def all_nodes(roots):
    result, queue = [], list(roots)
    while queue:
        node = queue.pop(0)
        result.append(node)
        queue.extend(node.child_nodes)
        if len(result) > 100000:
            raise AssertionError('cycle')
    return result
