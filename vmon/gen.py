"""Generators of realistic, hostile and corner-case inputs.  Everything is a
deterministic function of the case's numpy Generator."""
import zlib

import numpy as np

DTYPES = ["float32", "float64", "uint8", "uint16", "int16", "int32"]
LAYOUTS = ["C", "F", "strided", "neg", "readonly", "T"]
MODES = ["reflect", "grid-mirror", "constant", "grid-constant", "nearest",
         "mirror", "grid-wrap", "wrap"]


def stream(seed, tag, count, **extra):
    """count parameter dicts of the kind `tag`, with independent rng seeds."""
    t = sum((i + 1) * ord(c) for i, c in enumerate(tag)) % 1000003
    for i in range(count):
        d = {"kind": tag, "i": i, "rng": [int(seed), t, i]}
        d.update(extra)
        yield d


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def cyc(params, seq, stride=1, shift=0):
    """Systematic choice: any len(seq) successive cases (successive groups of
    `stride` cases) cover every element, in an order that differs per list and
    round, so that no two choices of a case go in step."""
    k = params["i"] // stride + shift
    n = len(seq)
    tag = [v if isinstance(v, (str, int, bool, type(None))) else 0
           for v in seq]
    key = zlib.crc32(("%r %d %d" % (tag, stride, k // n)).encode())
    return seq[int(np.random.default_rng(key).permutation(n)[k % n])]


def layout(rng, arr, how):
    """The same values in another memory layout."""
    if how == "F":
        return np.asfortranarray(arr)
    if how == "T":
        return np.ascontiguousarray(arr.T).T
    if how == "strided":
        big = np.zeros(tuple(2 * s + 1 for s in arr.shape), dtype=arr.dtype)
        sl = tuple(slice(1, 2 * s + 1, 2) for s in arr.shape)
        big[sl] = arr
        return big[sl]
    if how == "neg":
        sl = tuple(slice(None, None, -1) for _ in arr.shape)
        return np.ascontiguousarray(arr[sl])[sl]
    if how == "readonly":
        a = np.array(arr)
        a.setflags(write=False)
        return a
    return np.ascontiguousarray(arr)


def image(rng, h, w, dtype="float32", style=None):
    """An image with content everywhere (so any misplaced sample shows)."""
    styles = ["noise", "smooth", "blocks", "ramp", "impulse"]
    style = style or pick(rng, styles)
    y, x = np.mgrid[:h, :w].astype(np.float64)
    if style == "noise":
        a = rng.random((h, w))
    elif style == "smooth":
        a = np.zeros((h, w))
        for _ in range(4):
            fx, fy = rng.uniform(-0.15, 0.15, 2)
            a += np.sin(fx * x + fy * y + rng.uniform(0, 6.3))
    elif style == "blocks":
        s = int(rng.integers(3, 9))
        a = ((x // s + y // s) % 2) + 0.3 * rng.random((h, w))
    elif style == "ramp":
        a = rng.uniform(0.2, 1) * x + rng.uniform(-1, -0.2) * y
    else:
        a = 0.05 * rng.random((h, w))
        k = max(1, h * w // 40)
        a[rng.integers(0, h, k), rng.integers(0, w, k)] = 1.0
    lo, hi = a.min(), a.max()
    a = (a - lo) / (hi - lo) if hi > lo else np.full_like(a, 0.5)
    dt = np.dtype(dtype)
    if dt.kind == "u":
        top = np.iinfo(dt).max
        return np.round(a * top).astype(dt)
    if dt.kind == "i":
        top = min(30000, np.iinfo(dt).max)
        return np.round((a - 0.4) * top).astype(dt)
    scale = 10.0 ** rng.integers(-2, 4)
    return ((a - rng.choice([0.0, 0.5])) * scale).astype(dt)


def rmax_of(h, w, xc, yc):
    return float(np.hypot(max(abs(xc), abs(w - 1 - xc)),
                          max(abs(yc), abs(h - 1 - yc))))


def monotone(fact, rmax, n=400):
    r = np.linspace(0, rmax, n)
    f = np.polynomial.polynomial.polyval(r, fact)
    return bool(np.all(np.diff(r * f) > 0) and np.all(f > 0.2)
                and np.all(f < 5))


def many(p):
    """Now and then a model with very many coefficients."""
    return 8 + p["i"] % 6 if p["i"] % 17 == 11 else None


def radial_model(rng, rmax, nf=None, strength=None, even=False, a0=None):
    """Coefficients of a sane radial model: |relative displacement| at rmax is
    about `strength`, the mapping is monotone."""
    for _ in range(200):
        n = int(nf or rng.integers(2, 7))
        s = strength if strength is not None else \
            rng.choice([-1, 1]) * 10 ** (
                rng.uniform(-2.5, -0.7) if rng.random() < 0.88
                else rng.uniform(-4.0, -2.7))
        wts = rng.normal(size=n)
        wts[0] = 0
        if even:
            wts[1::2] = 0
        elif n >= 3 and rng.random() < 0.25:
            # exact zeros between and behind used coefficients
            wts[int(rng.integers(1, n - 1)) if rng.random() < 0.75
                else n - 1] = 0
        if np.abs(wts).sum() == 0:
            wts[-1] = 1.0
        tot = wts.sum()
        if abs(tot) < 0.3 * np.abs(wts).sum():
            continue
        wts = wts / tot * s
        fact = wts / rmax ** np.arange(n)
        fact[0] = 1.0 if a0 is None else a0
        if monotone(fact, 1.05 * rmax):
            return fact
    fact = np.zeros(int(nf or 3))
    fact[0] = 1.0
    if len(fact) > 2:
        fact[2] = 0.03 / rmax ** 2
    return fact


def invertible(fact, rmax):
    """r -> r*F(r) rises from 0 past 1.02*rmax before it ever turns."""
    r = np.linspace(0, 3 * rmax, 6001)
    f = r * np.polynomial.polynomial.polyval(r, np.asarray(fact, float))
    turn = np.flatnonzero(np.diff(f) <= 0.15 * r[1])
    top = f[turn[0]] if len(turn) else f[-1]
    return bool(top > 1.02 * rmax)


def center(rng, h, w, how=None):
    how = how or pick(rng, ["mid", "off", "int", "edge", "corner", "out",
                            "far"])
    if how == "mid":
        c = (w - 1) / 2.0, (h - 1) / 2.0
    elif how == "off":
        c = rng.uniform(0.2, 0.8) * w, rng.uniform(0.2, 0.8) * h
    elif how == "int":
        c = float(rng.integers(0, w)), float(rng.integers(0, h))
    elif how == "edge":
        c = 0.0, rng.uniform(0, h)
    elif how == "corner":
        c = float(w - 1), float(h - 1)
    elif how == "out":
        c = -rng.uniform(0.1, 0.5) * w, rng.uniform(1.1, 1.4) * h
    else:
        c = 30.0 * w + 0.37, -20.0 * h - 0.21
    return float(c[0]), float(c[1]), how


def fact_container(rng, fact, how=None):
    how = how or pick(rng, ["list", "array", "tuple"])
    if how == "list":
        return [float(f) for f in fact]
    if how == "tuple":
        return tuple(float(f) for f in fact)
    return np.asarray(fact, dtype=np.float64)


# --------------------------------------------------------------------------
# Grids of calibration points
# --------------------------------------------------------------------------
def grid(h, w, pitch, rot_deg=0.0, xo=0.0, yo=0.0, margin=None, xc=None,
         yc=None, skew=0.0):
    """Ideal lattice (rows x cols) of (y, x) points around (xc, yc), as a dict
    {(row, col): (y, x)} of the nodes inside the frame."""
    xc = (w - 1) / 2.0 if xc is None else xc
    yc = (h - 1) / 2.0 if yc is None else yc
    margin = 0.4 * pitch if margin is None else margin
    t = np.deg2rad(rot_deg)
    n = int(np.hypot(h, w) / pitch) + 4
    out = {}
    for i in range(-n, n + 1):
        for j in range(-n, n + 1):
            gx, gy = j * pitch + xo, i * pitch + yo
            x = xc + gx * np.cos(t) - gy * np.sin(t)
            y = yc + gx * np.sin(t) + gy * np.cos(t)
            if margin <= x <= w - 1 - margin and \
                    margin <= y <= h - 1 - margin:
                out[(i, j)] = (y, x)
    return out


def full_block(nodes):
    """Largest centred full rectangle of lattice indices."""
    if not nodes:
        return [], []
    i0, i1, j0, j1 = 0, 0, 0, 0
    grow = True
    while grow:
        grow = False
        for di0, di1, dj0, dj1 in ((1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0),
                                   (0, 0, 0, 1)):
            a, b, c, d = i0 - di0, i1 + di1, j0 - dj0, j1 + dj1
            if all((i, j) in nodes for i in range(a, b + 1)
                   for j in range(c, d + 1)):
                i0, i1, j0, j1 = a, b, c, d
                grow = True
    return list(range(i0, i1 + 1)), list(range(j0, j1 + 1))


def lines_of(nodes, min_len=3):
    """(hor_lines, ver_lines) of the nodes: lists of (n,2) yx arrays sorted
    along the line, ordered top-to-bottom / left-to-right."""
    rows, cols = {}, {}
    for (i, j), (y, x) in nodes.items():
        rows.setdefault(i, []).append((j, y, x))
        cols.setdefault(j, []).append((i, y, x))
    hor = [np.array([(y, x) for _, y, x in sorted(rows[i])])
           for i in sorted(rows) if len(rows[i]) >= min_len]
    ver = [np.array([(y, x) for _, y, x in sorted(cols[j])])
           for j in sorted(cols) if len(cols[j]) >= min_len]
    return hor, ver


def apply_radial(pts, xc, yc, fact):
    """(y,x) points -> c + (p-c) * F(|p-c|)."""
    pts = np.asarray(pts, dtype=np.float64)
    d = pts - np.array([yc, xc])
    r = np.hypot(d[:, 0], d[:, 1])
    f = np.polynomial.polynomial.polyval(r, np.asarray(fact, float))
    return np.array([yc, xc]) + d * f[:, None]


def map_nodes(nodes, fn):
    keys = list(nodes)
    out = fn(np.array([nodes[k] for k in keys], dtype=np.float64))
    return {k: tuple(map(float, v)) for k, v in zip(keys, out)}


def homography(rng, h, w, tilt=0.15):
    """Random sane 8-coef projective map in (x, y), close to identity."""
    s = max(h, w)
    return np.array([1 + rng.uniform(-tilt, tilt),
                     rng.uniform(-tilt, tilt),
                     rng.uniform(-tilt, tilt) * w,
                     rng.uniform(-tilt, tilt),
                     1 + rng.uniform(-tilt, tilt),
                     rng.uniform(-tilt, tilt) * h,
                     rng.uniform(-tilt, tilt) / s,
                     rng.uniform(-tilt, tilt) / s])


# --------------------------------------------------------------------------
# Rendering of calibration targets
# --------------------------------------------------------------------------
def render_dots(h, w, centers, radius, soft=0.7):
    """Anti-aliased bright discs (1 on 0) at (y, x) centers."""
    img = np.zeros((h, w))
    radii = np.broadcast_to(np.asarray(radius, float), (len(centers),))
    for (y, x), rad in zip(centers, radii):
        k = int(np.ceil(rad + 3))
        y0, y1 = max(0, int(y) - k), min(h, int(y) + k + 2)
        x0, x1 = max(0, int(x) - k), min(w, int(x) + k + 2)
        if y0 >= y1 or x0 >= x1:
            continue
        yy, xx = np.mgrid[y0:y1, x0:x1]
        d = np.hypot(yy - y, xx - x)
        img[y0:y1, x0:x1] = np.maximum(
            img[y0:y1, x0:x1], 1 / (1 + np.exp((d - rad) / (soft / 2))))
    return img
