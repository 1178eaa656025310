"""What a program draws: every figure shown while capture() is active, as plain numbers.

The real matplotlib (Agg) draws; only "show" is replaced, by a reader of the finished figure.  The checks judge what
stands in the figure, not which calls put it there.
"""
import contextlib
import re
import warnings

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402
from matplotlib.patches import Rectangle  # noqa: E402


def read(fig):
    out = []
    for ax in fig.axes:
        bars = []
        for p in ax.patches:
            if isinstance(p, Rectangle):
                lo, h = p.get_y(), p.get_height()
                bars.append((p.get_x() + p.get_width() / 2.0, lo if h >= 0 else lo + h, abs(h), tuple(round(c, 6) for c in p.get_facecolor())))
        lines = [(l.get_label(), [float(v) for v in l.get_xdata()], [float(v) for v in l.get_ydata()]) for l in ax.get_lines()]
        out.append(dict(title=ax.get_title(), bars=bars, lines=lines, xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel()))
    return out


def last_number(text):
    m = re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", text)
    return float(m[-1]) if m else None


@contextlib.contextmanager
def capture():
    shown = []
    plt.close("all")

    def take(fig):
        for ax in read(fig):
            shown.append(ax)

    def show(*a, **k):      # blocks until the user closes the windows: nothing is left to show again
        for n in plt.get_fignums():
            take(plt.figure(n))
        plt.close("all")

    def show_one(self, *a, **k):
        take(self)
    keep = plt.show, Figure.show
    plt.show, Figure.show = show, show_one
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield shown
    finally:
        plt.show, Figure.show = keep
        plt.close("all")
