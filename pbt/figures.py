"""What a diagram shows: the figures that the code under test shows or saves, and the rectangles, legends and ticks on them."""
import contextlib
import os
import random
import warnings

import matplotlib
from matplotlib import pyplot as plt
from matplotlib.colors import to_hex
from matplotlib.figure import Figure

from .core import check, check_eq

PALETTE = [36, 68, 100, 132, 164, 196, 228, 244]


@contextlib.contextmanager
def captured(scratch_save=False, palette_seed=None, shades=8):
    """Yields the list of (figure, path it is saved to or None for shown). Saving writes a token file unless scratch_save asks for the real thing.
    With a palette seed, random colors come from 512 ones (shades to the third) only, so that lacking care for uniqueness shows."""
    got = []
    real = (Figure.show, Figure.savefig, plt.show, random.randint, random.randrange)

    def savefig(self, fname, *args, **kwargs):
        got.append((self, fname))
        if scratch_save:
            return real[1](self, fname, *args, **{**kwargs, 'dpi': 10})
        with open(fname, 'w') as f:
            f.write('figure')

    def show_all(*_args, **_kwargs):
        got.append((plt.gcf(), None))

    Figure.show = lambda self, *a, **k: got.append((self, None))
    Figure.savefig, plt.show = savefig, show_all
    if palette_seed is not None:
        rng, palette = random.Random(palette_seed), PALETTE[:shades]
        random.randint = lambda a, b: rng.choice(palette) if (a, b) == (0, 255) else real[3](a, b)
        random.randrange = lambda *a: rng.choice(palette) if a in ((256,), (0, 256)) else real[4](*a)
    plt.close('all')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield got
    finally:
        Figure.show, Figure.savefig, plt.show, random.randint, random.randrange = real
        plt.close('all')


def rectangles(ax):
    """[(x, y, width, height, color), ...] of all filled shapes on the axes (all of them must be rectangles)"""
    result = []
    for c in ax.collections:
        colors = c.get_facecolors()
        for i, path in enumerate(c.get_paths()):
            result.append(_rectangle(path, colors[i % len(colors)]))
    for p in ax.patches:
        result.append(_rectangle(p.get_path().transformed(p.get_patch_transform()), p.get_facecolor()))
    return result


def _rectangle(path, color):
    xs, ys = path.vertices[:, 0], path.vertices[:, 1]
    corners = {(x, y) for x, y in zip(xs, ys)}
    check(corners == {(x, y) for x in (xs.min(), xs.max()) for y in (ys.min(), ys.max())}, 'a rectangle is drawn', corners)
    return (float(xs.min()), float(ys.min()), float(xs.max() - xs.min()), float(ys.max() - ys.min()), to_hex(color).upper())


def rows(ax, height):
    """Row number -> [(x, width, color)] from left to right; rectangles without extent are left out."""
    result = {}
    for x, y, w, h, color in rectangles(ax):
        if w == 0 or h == 0:
            continue
        check_eq(h, height, 'height of a rectangle')
        check_eq(y % height, 0, 'vertical position of a rectangle')
        result.setdefault(int(y // height), []).append((x, w, color))
    return {k: sorted(v) for k, v in result.items()}


def legend(ax):
    """[(text, color), ...] or None"""
    box = ax.get_legend()
    if box is None:
        return None
    handles = getattr(box, 'legend_handles', None) or getattr(box, 'legendHandles', [])
    texts = [t.get_text() for t in box.get_texts()]
    check_eq(len(handles), len(texts), 'a color for every text of the legend')
    return [(t, to_hex(h.get_facecolor()).upper()) for t, h in zip(texts, handles)]


def ticks(ax, index=-1):
    """((position, text) of the last (or another) tick, for x and y)"""
    return tuple((float(axis.get_ticklocs()[index]), [t.get_text() for t in axis.get_ticklabels()][index]) for axis in (ax.xaxis, ax.yaxis))


def everything_visible(ax):
    (x1, x2), (y1, y2) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    for x, y, w, h, _ in rectangles(ax):
        if w and h:
            check(x1 <= x + 1e-9 and x + w <= x2 + 1e-9 and y1 <= y + 1e-9 and y + h <= y2 + 1e-9, 'all rectangles are inside of the view',
                  (x, y, w, h), (x1, x2, y1, y2))


def heights(ax, centers):
    """The heights of the filled shapes at the given x positions"""
    result = []
    for x in centers:
        top = 0.0
        for p in ax.patches:
            v = p.get_path().transformed(p.get_patch_transform()).vertices
            for (x1, y1), (x2, y2) in zip(v, v[1:]):
                if min(x1, x2) <= x <= max(x1, x2) and x1 != x2:
                    top = max(top, float(y1), float(y2))
        result.append(top)
    return result


assert matplotlib.get_backend().lower() == 'agg' or os.environ.get('MPLBACKEND') == 'Agg'
