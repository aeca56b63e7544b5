"""What a matplotlib figure shows, read from its artists (the rasteriser itself is stubbed)."""
import json

from matplotlib.collections import PatchCollection, PathCollection
from matplotlib.colors import to_hex


def _rects(ax):
    """(x, y, w, h, colour) of every rectangle, in drawing order."""
    out = []
    for art in ax.get_children():
        if isinstance(art, PatchCollection):
            fcs = art.get_facecolors()
            for i, p in enumerate(art.get_paths()):
                e = p.get_extents()
                fc = fcs[i % len(fcs)]
                out.append([round(float(e.x0), 6), round(float(e.y0), 6), round(float(e.width), 6),
                            round(float(e.height), 6), to_hex(fc).upper()])
    for p in ax.patches:
        if not hasattr(p, 'get_x'):          # the outline of a filled histogram
            continue
        out.append([round(float(p.get_x()), 6), round(float(p.get_y()), 6), round(float(p.get_width()), 6),
                    round(float(p.get_height()), 6), to_hex(p.get_facecolor()).upper()])
    out.sort(key=lambda r: (r[1], r[0], r[4]))
    return out


def shown(t):
    """what a reader of the picture sees of a text: matplotlib takes text between dollars for a formula"""
    if t is None:
        return ''
    text, math = t._preprocess_math(t.get_text())
    return f'FORMULA {text}' if math else text


def _legend(ax):
    leg = ax.get_legend()
    if leg is None:
        return None
    out = []
    for h, t in zip(leg.legend_handles, leg.get_texts()):
        try:
            c = to_hex(h.get_facecolor() if not hasattr(h, 'get_offsets') else h.get_facecolors()[0]).upper()
        except Exception:
            c = None
        out.append([shown(t), c])
    return out


def _points(ax):
    out = []
    for art in ax.collections:
        if isinstance(art, PathCollection):
            off = getattr(art, '_offsets3d', None)
            if off is not None:
                pts = list(zip(*[list(map(float, o)) for o in off]))
            else:
                pts = [tuple(map(float, o)) for o in art.get_offsets()]
            fc = art.get_facecolors()
            out.append([art.get_label(), to_hex(fc[0]).upper() if len(fc) else None, pts])
    return out


def _steps(ax):
    """outlines of filled histograms"""
    return [[[round(float(v), 6) for v in xy] for xy in p.get_xy()] for p in ax.patches if not hasattr(p, 'get_x') and hasattr(p, 'get_xy')]


def _lines(ax):
    return [[[round(float(x), 6), round(float(y), 6)] for x, y in l.get_xydata()] for l in ax.lines]


def describe(fig):
    axes = []
    for ax in fig.axes:
        axes.append({'suptitle': shown(getattr(fig, '_suptitle', None)), 'steps': _steps(ax), 'lines': _lines(ax), 'title': shown(ax.title), 'rects': _rects(ax), 'legend': _legend(ax), 'xlabel': shown(ax.xaxis.label), 'ylabel': shown(ax.yaxis.label),
                     'zlabel': ax.get_zlabel() if hasattr(ax, 'get_zlabel') else '', 'view': [float(ax.elev), float(ax.azim)] if hasattr(ax, 'elev') else None,
                      'points': _points(ax)})
    return axes


def encode(desc):
    return b'PICTURE ' + json.dumps(desc, sort_keys=True).encode() + b' END'
