"""A small property-based testing engine with internal (choice-sequence) shrinking.

A generator is a function of a `Draw`: every random choice it makes is an integer below a bound, recorded in order. A
case is therefore determined by its choice sequence; a failing case is minimised by deleting and lowering choices and
generating again (the approach of Hypothesis/minithesis), so every shrunk case is one the generator could have made.
Hypothesis itself is not installed in the interpreter the code under test needs, and this is several times faster
per case. Each run is a function of the seed and the code alone.
"""
import random
import time


class Draw:
    __slots__ = ('_rng', '_prefix', 'choices')

    def __init__(self, rng=None, prefix=()):
        self._rng = rng
        self._prefix = prefix
        self.choices = []

    def below(self, n):
        """An integer in [0, n); 0 is the simplest."""
        i = len(self.choices)
        if i < len(self._prefix):
            v = self._prefix[i]
            if v >= n:
                v = n - 1
        elif self._rng is not None:
            v = int(self._rng.random() * n) if n < 2 ** 40 else self._rng.randrange(n)
        else:
            v = 0
        self.choices.append(v)
        return v

    def int(self, low, high):
        return low + self.below(high - low + 1)

    def bool(self, num=1, den=2):
        """True with probability num/den; False is the simplest."""
        return self.below(den) >= den - num

    def choice(self, options):
        return options[self.below(len(options))]

    def weighted(self, *pairs):
        """pairs (weight, value); callables are called with self. The first one is the simplest."""
        total = sum(w for w, _ in pairs)
        x = self.below(total)
        for w, v in pairs:
            if x < w:
                return v(self) if callable(v) else v
            x -= w
        raise AssertionError

    def list(self, element, low, high):
        return [element(self) for _ in range(self.int(low, high))]

    def subset(self, options, num=1, den=2):
        return [o for o in options if self.bool(num, den)]

    def shuffle(self, items):
        items = list(items)
        for i in range(len(items) - 1, 0, -1):
            j = i - self.below(i + 1)
            items[i], items[j] = items[j], items[i]
        return items


def rng_for(seed, shard, index):
    return random.Random(f'{seed}/{shard}/{index}')


def shrink(generate, choices, fails, max_runs=4000, max_seconds=40.0):
    """The smallest choice sequence found (shortlex) for which fails(case) is true."""
    deadline = time.monotonic() + max_seconds
    state = {'best': list(choices), 'runs': 0}
    seen = set()

    def key(c):
        return len(c), c

    def attempt(candidate):
        if state['runs'] >= max_runs or time.monotonic() > deadline:
            return False
        d = Draw(prefix=candidate)
        try:
            case = generate(d)
        except (AssertionError, IndexError, ValueError, ZeroDivisionError):
            return False
        actual = d.choices
        if key(actual) >= key(state['best']):
            return False
        t = tuple(actual)
        if t in seen:
            return False
        seen.add(t)
        state['runs'] += 1
        if fails(case):
            state['best'] = actual
            return True
        return False

    improved = True
    while improved and state['runs'] < max_runs and time.monotonic() < deadline:
        before = key(state['best'])
        # delete chunks
        for k in (64, 32, 16, 8, 7, 6, 5, 4, 3, 2, 1):
            i = len(state['best']) - k
            while i >= 0:
                if i + k > len(state['best']):
                    i -= 1
                    continue
                b = state['best']
                if not attempt(b[:i] + b[i + k:]):
                    # a length in front of the chunk
                    j = i - 1
                    if j >= 0 and b[j] > 0:
                        attempt(b[:j] + [b[j] - 1] + b[i + k:])
                i -= 1
        # lengths further away: lower one choice and delete a chunk anywhere after it
        for i in range(min(len(state['best']), 60)):
            for k in (1, 2, 3, 4, 5, 6, 8, 10):
                b = state['best']
                if i >= len(b) or b[i] == 0:
                    break
                for j in range(i + 1, min(len(b) - k + 1, i + 80)):
                    b = state['best']
                    if i >= len(b) or b[i] == 0:
                        break
                    attempt(b[:i] + [b[i] - 1] + b[i + 1:j] + b[j + k:])
        # zero chunks
        for k in (8, 4, 2, 1):
            i = len(state['best']) - k
            while i >= 0:
                b = state['best']
                if any(b[i:i + k]):
                    attempt(b[:i] + [0] * len(b[i:i + k]) + b[i + k:])
                i -= 1
        # lower single choices (binary search)
        i = len(state['best']) - 1
        while i >= 0:
            b = state['best']
            if i < len(b) and b[i] > 0:
                low, high = -1, b[i]
                while low + 1 < high:
                    mid = (low + high) // 2
                    b = state['best']
                    if i < len(b) and attempt(b[:i] + [mid] + b[i + 1:]):
                        high = mid
                    else:
                        low = mid
                b = state['best']
                if i < len(b) and b[i] > 0:
                    attempt(b[:i] + [b[i] - 1] + b[i + 1:])
            i -= 1
        improved = key(state['best']) < before
    return state['best'], state['runs']
