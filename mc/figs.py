"""Seams of the plotting library: what a figure shows, without drawing it."""
import contextlib
import json

import numpy as np
import matplotlib.figure
import matplotlib.backend_bases


def lines(figure):
    """[[axes index, gid, label, [x], [y]]] of every line of a figure"""
    out = []
    for i, ax in enumerate(figure.axes):
        for ln in ax.get_lines():
            if not visible(ln):
                continue
            x, y = ln.get_data(orig=True)
            out.append([i, ln.get_gid(), str(ln.get_label()), arr(x),
                        arr(y)])
    return out


def visible(ln):
    """neither hidden nor without line and marker"""
    stroke = str(ln.get_linestyle()).strip() not in ('', 'None') and \
        ln.get_linewidth() > 0
    dot = str(ln.get_marker()).strip() not in ('', 'None') and \
        ln.get_markersize() > 0
    return ln.get_visible() and ln.get_alpha() != 0 and (stroke or dot)


def arr(v):
    a = np.ma.asanyarray(v)
    if isinstance(a, np.ma.MaskedArray):
        a = a.astype(float).filled(np.nan)
    return [float(x) for x in np.ravel(a)]


@contextlib.contextmanager
def stub():
    """saved figures become JSON files that list their lines; nothing is
    rendered or laid out"""
    f, c = matplotlib.figure.Figure, matplotlib.backend_bases.FigureCanvasBase
    keep = f.tight_layout, c.print_figure

    def print_figure(self, filename, *a, **k):
        with open(filename, 'w') as o:
            json.dump(lines(self.figure), o)
    f.tight_layout = lambda self, *a, **k: None
    c.print_figure = print_figure
    try:
        yield
    finally:
        f.tight_layout, c.print_figure = keep
