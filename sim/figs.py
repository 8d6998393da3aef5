"""What a figure shows, as plain data (used instead of pixels)."""
import numpy as np


def arr(a):
    a = np.ma.filled(np.ma.asarray(a).astype(float), np.nan).ravel()
    return [float("%.12g" % x) for x in a]


def fixed(axis):
    """[(position, label)] if both were set explicitly (without laying out the figure)"""
    f, l = axis.get_major_formatter(), axis.get_major_locator()
    pos = getattr(l, "locs", None)
    if pos is None:
        return None
    return [[float(x), str(f(x, i))] for i, x in enumerate(pos)]


def capture(fig):
    """axes -> lines, scatters (3-D), titles, labels, ticks, legends, texts"""
    out = []
    for ax in fig.axes:
        d = dict(
            title=ax.get_title(),
            xlabel=ax.get_xlabel(),
            ylabel=ax.get_ylabel(),
            yscale=ax.get_yscale(),
            xlim=[float(x) for x in ax.get_xlim()],
            ylim=[float(x) for x in ax.get_ylim()],
            lines=[dict(x=arr(l.get_xdata()), y=arr(l.get_ydata()), ls=l.get_linestyle()) for l in ax.lines],
            texts=[t.get_text() for t in ax.texts],
            legend=[t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else None,
            scatters=[],
        )
        for c in ax.collections:
            if hasattr(c, "_offsets3d"):
                xs, ys, zs = c._offsets3d
                v = c.get_array()
                d["scatters"].append(
                    dict(
                        xyz=[arr(xs), arr(ys), arr(zs)],
                        v=arr(v) if v is not None else None,
                        clim=[float(x) for x in c.get_clim()],
                    )
                )
        if hasattr(ax, "zaxis"):
            d["zticks"] = fixed(ax.zaxis)
        elif ax.get_label() == "<colorbar>":
            d["colorbar_ticks"] = fixed(ax.yaxis)
        out.append(d)
    return out
