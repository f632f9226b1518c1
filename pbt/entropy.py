"""Reference definitions of the entropies, straight from the formulas (names only)."""
import math
from collections import Counter

START, END = object(), object()


def h(vector):
    return math.fsum(-x * math.log2(x) for x in vector if x != 0)


def dfg_entropies(log, laplace):
    pairs, counts = Counter(), Counter()
    for t in log:
        counts.update(t)
        if t:
            e = [START] + list(t) + [END]
            pairs.update(zip(e, e[1:]))
    names = list(counts)
    result = {}
    for n in names:
        def ratio(p):
            if not laplace:
                return p / counts[n]
            alpha = 1 / counts[n]
            return (alpha + p) / (alpha * (len(names) + 1) + counts[n])
        result[n] = h([ratio(pairs[(n, x)]) for x in names + [END]]) + h([ratio(pairs[(x, n)]) for x in names + [START]])
    return result


def pos_entropies(log):
    log = [t for t in log if t]
    total = len(log)
    result = {}
    for n in dict.fromkeys(x for t in log for x in t):
        at = Counter(i for t in log for i, x in enumerate(t) if x == n)
        if total == 1:
            result[n] = 0.0
        else:
            result[n] = math.fsum(-math.log(c / total) / math.log(total) for c in at.values()) / len(at)
    return result


def without(log, names):
    return [[x for x in t if x not in names] for t in log]
