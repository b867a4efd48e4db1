"""Plot savers: pixels drawn and matplotlib's global state."""
import os
import pathlib

import numpy as np
import scipy.ndimage as ndi
from PIL import Image

from .. import gen

ID = "C22"
RULE = ("histories of 2-6 plots by the three savers with user figures open "
        "and user settings changed (20 settings), succeeding or failing "
        "(unknown extension, folder in the way, name too long, missing "
        "parent is a file, colour, marker or data that cannot be drawn); "
        "pictures of 1-900 points or 1-60 lines in frames "
        "of 60-900 px at 40-300 dpi, decoded and compared point by point; "
        "non-trivial: user state present or more than one point")
ASSUMPTIONS = ["pictures are judged under settings that do not crop or "
               "resize saved figures"]
MUST_SEE = {"settings as before": 120, "figures as before": 120,
            "picture size": 80, "point is drawn": 300,
            "nothing else drawn": 80, "point colour": 30,
            "residual positions": 20, "fault/raised": 30,
            "user figures": 40, "drawing failed": 10,
            "many points": 3, "many lines": 4, "mark in place": 200}


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    yield from gen.stream(seed, "state", 56 * k)
    yield from gen.stream(seed, "points", 60 * k)
    yield from gen.stream(seed, "lines", 50 * k)
    yield from gen.stream(seed, "residual", 32 * k)


SETTINGS = [("font.size", 17.0), ("font.weight", "bold"),
            ("font.family", ["monospace"]), ("lines.linewidth", 4.5),
            ("lines.markersize", 11.0), ("figure.dpi", 144.0),
            ("savefig.dpi", 77.0), ("axes.facecolor", "yellow"),
            ("figure.figsize", [3.0, 2.0]), ("axes.grid", True),
            ("image.cmap", "gray"), ("xtick.labelsize", 5.0),
            ("savefig.bbox", "tight"), ("figure.facecolor", "0.3"),
            ("axes.labelweight", "bold"), ("lines.marker", "x"),
            ("savefig.transparent", True), ("axes.linewidth", 3.0),
            ("legend.fontsize", 4.0), ("path.simplify", False)]


def settings(plt):
    return {k: repr(plt.rcParams[k]) for k in plt.rcParams
            if not k.startswith("backend")}


def figures(plt):
    from matplotlib._pylab_helpers import Gcf
    out = []
    for n in plt.get_fignums():
        # (looking a manager up makes it current: read it without that)
        fig = Gcf.figs[n].canvas.figure
        out.append((n, tuple(fig.get_size_inches()), [
            (len(a.lines), a.get_xlabel(), a.get_title())
            for a in fig.axes]))
    return out


def current(plt):
    from matplotlib._pylab_helpers import Gcf
    a = Gcf.get_active()
    return None if a is None else a.num


def data(rng, which):
    if which == "plot":
        return [rng.uniform(5, 70, (4, 2)) for _ in range(3)]
    if which == "points":
        return rng.uniform(5, 70, (6, 2))
    return rng.random((20, 2)) * [300, 2]


FN = {"plot": "losa.save_plot_image", "points": "losa.save_plot_points",
      "residual": "losa.save_residual_plot"}


def unplottable(rng, which, args, kw):
    """Arguments that fail while the plot is being drawn."""
    path, pts, h, w = args
    if which == "points":
        j = int(rng.integers(3))
        if j == 0:
            kw["color"] = "no such colour"
        elif j == 1:
            kw["marker"] = "no such marker"
        else:
            pts = list(pts) + [[1.0]]
    elif which == "plot":
        pts = list(pts) + [np.arange(3.0)]
    else:
        pts = np.asarray(pts)[:, 0]
    return (path, pts, h, w), kw


def do_state(ctx, p):
    import matplotlib
    import matplotlib.pyplot as plt
    rng = ctx.rng
    root = ctx.workdir()
    pathlib.Path(root, "file").write_text("x")
    os.makedirs(os.path.join(root, "box.png"))
    plt.close("all")
    matplotlib.rcdefaults()
    saved = dict(plt.rcParams)
    try:
        nuser = int(gen.cyc(p, [0, 1, 2, 3]))
        keep = []
        nums = sorted(int(v) for v in 1 + rng.permutation(12)[:nuser])
        if nums and p["i"] % 8 < 4:
            nums[0] = 1
        if len(nums) > 1 and p["i"] % 3 == 1:
            nums = nums[::-1]
        for i in range(nuser):
            f = plt.figure(num=nums[i])
            plt.plot(rng.random(5))
            plt.xlabel("mine %d" % i)
            keep.append(f)
        if nuser > 1 and p["i"] % 3 == 0:
            plt.figure(nums[0])
        for j in rng.permutation(len(SETTINGS))[:int(rng.integers(0, 8))]:
            plt.rcParams[SETTINGS[j][0]] = SETTINGS[j][1]
        if nuser:
            ctx.seen("user figures")
        hist = []
        for step in range(int(rng.integers(2, 6))):
            which = gen.pick(rng, sorted(FN)) if step else \
                gen.cyc(p, sorted(FN))
            fault = gen.pick(rng, ["none", "none", "ext", "folder", "long",
                                   "parent", "draw"])
            path = {"none": "ok%d.png" % step, "ext": "a.qqq",
                    "folder": "box.png", "long": "x" * 300 + ".png",
                    "parent": "file/a.png",
                    "draw": "bad%d.png" % step}[fault]
            args = (os.path.join(root, path), data(rng, which), 80, 90)
            kw = {"dpi": 50}
            if fault == "draw":
                args, kw = unplottable(rng, which, args, kw)
            if which == "residual" and rng.random() < 0.5:
                kw["font_family"] = gen.pick(
                    rng, ["DejaVu Sans", "No Such Font", "monospace"])
            s0, f0, c0 = settings(plt), figures(plt), current(plt)
            hist.append((which, fault))
            if fault == "none":
                ctx.call(FN[which], *args, **kw)
            else:
                ctx.raises(Exception, FN[which], *args, **kw)
                ctx.seen("fault", "raised")
                if fault == "draw":
                    ctx.seen("drawing failed")
            s1, f1, c1 = settings(plt), figures(plt), current(plt)
            diff = [k for k in s0 if s0[k] != s1.get(k)]
            ctx.check(not diff, "settings as before", which=which,
                      fault=fault, changed=diff[:5], history=hist)
            ctx.check(f0 == f1 and c0 == c1, "figures as before",
                      which=which, fault=fault, before=str(f0),
                      after=str(f1), current=[c0, c1], history=hist)
        ctx.nontrivial = True
        ctx.note(hist, p["i"])
        ctx.sample = {"history": hist, "user_figures": nuser}
    finally:
        plt.close("all")
        plt.rcParams.update(saved)


def read(path):
    """foreground mask (what differs from the corner-most background)."""
    a = np.array(Image.open(path).convert("RGBA")).astype(int)
    flat = a.reshape(-1, 4)
    vals, counts = np.unique(flat, axis=0, return_counts=True)
    bg = vals[np.argmax(counts)]
    return a, np.abs(a - bg).max(-1) > 100


def frame(rng, p):
    dpi = int(gen.cyc(p, [100, 72, 50, 150, 96, 300, 40, 100]))
    h = int(rng.integers(60, 700))
    w = int(rng.integers(60, 900))
    if p["i"] % 4 == 3:
        h, w = 10 * (h // 10 + 1), 10 * (w // 10 + 1)
    if p["i"] % 16 == 11:
        w = int(rng.integers(2600, 3400))     # more than 25 inches
        h, dpi = max(h, 300), 100
        if p["i"] % 32 == 11:
            h, w = w, h
    return h, w, dpi


def marks(ctx, path, pts, h, w, dpi, allow):
    a, fg = read(path)
    ctx.need(abs(a.shape[0] - h) <= SIZE_TOL and abs(a.shape[1] - w)
             <= SIZE_TOL, "picture size", got=a.shape[:2], want=[h, w],
             dpi=dpi)
    ctx.seen("size off by", max(abs(a.shape[0] - h), abs(a.shape[1] - w)))
    near = ndi.distance_transform_edt(~fg) if fg.any() else \
        np.full(fg.shape, 1e9)
    for y, x in pts:
        r, c = int(np.clip(np.floor(y), 0, a.shape[0] - 1)), \
            int(np.clip(np.floor(x), 0, a.shape[1] - 1))
        ctx.at_most(near[r, c], 1.6, "point is drawn", y=y, x=x, h=h, w=w,
                    dpi=dpi)
    rr, cc = np.nonzero(fg)
    if len(rr):
        d = allow(rr + 0.5, cc + 0.5)
        # half the marker plus its edge, on the diagonal of a square
        rad = 1.5 * (0.25 * min(h, w) / 72 + dpi / 72) + 3.0
        ctx.at_most(d.max(), rad, "nothing else drawn", h=h, w=w, dpi=dpi)
    return a, fg


SIZE_TOL = 0


def in_place(ctx, a, pts, h, w, dpi):
    """Round marks that stand alone are centred on their points, to the
    pixel (matplotlib draws a mark on whole pixels)."""
    v, c = np.unique(a.reshape(-1, 4), axis=0, return_counts=True)
    d = np.abs(a - v[np.argmax(c)]).max(-1).astype(float)
    rad = int(np.ceil(0.25 * min(h, w) / 72 + 0.5 * dpi / 72 + 2))
    pts = np.asarray(pts, float)
    for y, x in pts:
        r, c = int(y), int(x)
        gap = np.abs(pts - [y, x]).max(1)
        if np.sum(gap < 2 * rad + 2) > 1 or min(r, c) < rad or \
                r + rad >= h or c + rad >= w:
            continue
        win = d[r - rad:r + rad + 1, c - rad:c + rad + 1]
        if not win.sum():
            continue        # (reported as not drawn)
        k = np.arange(-rad, rad + 1)
        got = [r + (win.sum(1) @ k) / win.sum(),
               c + (win.sum(0) @ k) / win.sum()]
        ctx.at_most(max(abs(got[0] - y), abs(got[1] - x)), 0.8,
                    "mark in place", point=[y, x], got=got, h=h, w=w,
                    dpi=dpi)


def do_points(ctx, p):
    rng = ctx.rng
    h, w, dpi = frame(rng, p)
    n = int(gen.cyc(p, [1, 2, 5, 20, 60]))
    if p["i"] % 10 == 4:
        n = int(rng.integers(500, 900))
        h, w = max(h, 500), max(w, 500)   # (keeps the background in view)
        ctx.seen("many points")
    pts = np.stack([rng.uniform(2, h - 2, n), rng.uniform(2, w - 2, n)], 1)
    how = gen.cyc(p, ["array", "list", "tuples", "f32", "int"])
    if how == "int":
        pts = np.round(pts).clip(2, None)
    arg = {"array": pts, "list": [q for q in pts], "tuples":
           [tuple(map(float, q)) for q in pts], "f32": pts.astype("f4"),
           "int": pts.astype(int)}[how]
    col, rgb = gen.cyc(p, [("blue", (0, 0, 255)), ("red", (255, 0, 0)),
                           ("black", (0, 0, 0))], 2)
    kw = {} if col == "blue" and p["i"] % 4 == 0 else {"color": col}
    if p["i"] % 5 == 3:
        kw["marker"] = gen.pick(rng, ["s", "D", "^"])
    if dpi != 100 or p["i"] % 2:
        kw["dpi"] = dpi
    path = ctx.call("losa.save_plot_points", os.path.join(
        ctx.workdir(), "a.png"), arg, h, w, **kw)

    def allow(y, x):
        return np.min(np.hypot(y[:, None] - pts[None, :, 0],
                               x[:, None] - pts[None, :, 1]), axis=1)
    a, fg = marks(ctx, path, pts, h, w, dpi, allow)
    if fg.any():
        solid = a[fg]
        solid = solid[solid[:, 3] > 230]
        if len(solid):
            ctx.check(np.abs(solid[:, :3] - rgb).max() <= 130,
                      "point colour", colour=col)
            ctx.check(np.median(np.abs(solid[:, :3] - rgb)) <= 40
                      if n > 1 else True, "point colour", colour=col)
    if "marker" not in kw:
        in_place(ctx, a, pts, h, w, dpi)
    if n == 1 and fg.sum() >= 4 and "marker" not in kw:
        rr, cc = np.nonzero(fg)
        ctx.close([rr.mean() + 0.5, cc.mean() + 0.5], pts[0], 1.3,
                  "point is drawn", centroid=True, h=h, w=w)
    ctx.nontrivial = n > 1
    ctx.note(pts, h, w, dpi)
    ctx.sample = {"points": n, "frame": [h, w], "dpi": dpi}


def do_lines(ctx, p):
    rng = ctx.rng
    h, w, dpi = frame(rng, p)
    n = int(rng.integers(1, 9))
    if p["i"] % 8 >= 6:
        n = int(rng.integers(31, 60))
        h, w = max(h, 500), max(w, 500)
        ctx.seen("many lines")
    lines = []
    alone = p["i"] % 5 == 2      # one point per line
    for i in range(n):
        m = 1 if alone else int(rng.integers(1, 12))
        if p["i"] % 2:
            y = (i + 0.5) * h / n + rng.uniform(-.3, .3, m) * min(8, h / n)
            x = np.sort(rng.uniform(2, w - 2, m))
        else:
            x = (i + 0.5) * w / n + rng.uniform(-.3, .3, m) * min(8, w / n)
            y = np.sort(rng.uniform(2, h - 2, m))
        lines.append(np.stack([np.clip(y, 2, h - 2),
                               np.clip(x, 2, w - 2)], 1))
    kw = {} if dpi == 100 and p["i"] % 2 else {"dpi": dpi}
    path = ctx.call("losa.save_plot_image", os.path.join(
        ctx.workdir(), "a.png"), lines, h, w, **kw)

    def allow(y, x):
        best = np.full(len(y), np.inf)
        for ln in lines:
            for j in range(max(1, len(ln) - 1)):
                a, b = ln[j], ln[min(j + 1, len(ln) - 1)]
                v = b - a
                t = ((y - a[0]) * v[0] + (x - a[1]) * v[1]) / max(
                    v @ v, 1e-12)
                t = np.clip(t, 0, 1)
                best = np.minimum(best, np.hypot(
                    y - a[0] - t * v[0], x - a[1] - t * v[1]))
        return np.maximum(best - 1.5 * dpi / 72, 0)   # half line width
    a = marks(ctx, path, np.vstack(lines), h, w, dpi, allow)[0]
    if alone:
        in_place(ctx, a, np.vstack(lines), h, w, dpi)
    ctx.nontrivial = True
    ctx.note(lines, h, w, dpi)
    ctx.sample = {"lines": n, "frame": [h, w], "dpi": dpi}


def do_residual(ctx, p):
    """Blobs of the marker colour are an affine picture of the table."""
    rng = ctx.rng
    h, w, dpi = int(rng.integers(500, 700)), int(rng.integers(600, 900)), 100
    n = int(rng.integers(3, 8))
    x = (rng.permutation(n) + rng.uniform(-.2, .2, n) + 1) * 60.0
    y = (rng.permutation(n) + rng.uniform(-.2, .2, n)) * \
        10.0 ** rng.uniform(-2, 1)
    tab = np.stack([x, y], 1)
    if p["i"] % 4 == 3:
        # thousands of rows, one spot after the other
        tab = tab[np.sort(
            np.concatenate([np.arange(n), rng.integers(0, n, 6000)]))]
        ctx.seen("many rows")
    path = ctx.call("losa.save_residual_plot", os.path.join(
        ctx.workdir(), "r.png"), tab, h, w, dpi=dpi)
    a = np.array(Image.open(path).convert("RGBA")).astype(int)
    blue = (a[..., 3] > 60) & (a[..., 2] - a[..., 0] > 60)
    lab, k = ndi.label(blue, np.ones((3, 3)))
    if not ctx.check(k == n, "residual positions", blobs=k, points=n):
        return
    cen = np.array(ndi.center_of_mass(blue, lab, range(1, k + 1)))
    cols = np.sort(cen[:, 1])
    order = np.argsort(x)
    cen = cen[np.argsort(cen[:, 1])]
    fx = np.polyfit(x[order], cols, 1)
    fy = np.polyfit(y[order], cen[:, 0], 1)
    ctx.check(fx[0] > 0 and fy[0] < 0, "residual positions",
              reason="axes turned")
    ctx.at_most(np.abs(np.polyval(fx, x[order]) - cols).max(), 2.0,
                "residual positions")
    ctx.at_most(np.abs(np.polyval(fy, y[order]) - cen[:, 0]).max(), 2.0,
                "residual positions")
    ctx.nontrivial = True
    ctx.note(x, y)
    ctx.sample = {"points": n}


def run(ctx, p):
    globals()["do_" + p["kind"]](ctx, p)
