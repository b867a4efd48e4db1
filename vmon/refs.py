"""Independent reference models (float64, straightforward)."""
import numpy as np
from scipy import ndimage as ndi
from scipy import optimize


def horner(r, fact):
    out = np.zeros_like(np.asarray(r, dtype=np.float64))
    for c in list(fact)[::-1]:
        out = out * r + float(c)
    return out


def model_coords(rows, cols, xc, yc, fact):
    """Where the backward model sends output pixels (rows x cols)."""
    y = np.asarray(rows, float)[:, None]
    x = np.asarray(cols, float)[None, :]
    r = np.sqrt((x - xc) ** 2 + (y - yc) ** 2)
    f = horner(r, fact)
    return yc + f * (y - yc), xc + f * (x - xc)


def coord_eps(size, xd):
    """Bound of the rounding a float32 sampling coordinate may carry."""
    return 1.3e-7 * max(float(size), 1.0) + 1e-9


def bilinear(img, yd, xd):
    """Plain bilinear sampling at in-range coordinates, plus the local
    Lipschitz bound (range over the surrounding 4x4 neighbourhood)."""
    a = np.asarray(img, dtype=np.float64)
    h, w = a.shape
    y0 = np.clip(np.floor(yd).astype(int), 0, h - 1)
    x0 = np.clip(np.floor(xd).astype(int), 0, w - 1)
    y1, x1 = np.minimum(y0 + 1, h - 1), np.minimum(x0 + 1, w - 1)
    fy, fx = yd - y0, xd - x0
    out = (a[y0, x0] * (1 - fy) * (1 - fx) + a[y0, x1] * (1 - fy) * fx
           + a[y1, x0] * fy * (1 - fx) + a[y1, x1] * fy * fx)
    hi = ndi.maximum_filter(a, 5, mode="nearest")
    lo = ndi.minimum_filter(a, 5, mode="nearest")
    lip = (hi - lo)[y0, x0]
    return out, lip


def nearest_candidates(img, yd, xd, eps=None):
    """Set of values nearest-neighbour sampling may return (ties and float32
    rounding of the coordinate accepted): list of arrays."""
    a = np.asarray(img, dtype=np.float64)
    h, w = a.shape
    if eps is None:
        eps = 2e-3 + 3 * coord_eps(max(h, w), xd)
    outs = []
    for dy in (-eps, eps):
        for dx in (-eps, eps):
            yy = np.clip(np.floor(yd + 0.5 + dy).astype(int), 0, h - 1)
            xx = np.clip(np.floor(xd + 0.5 + dx).astype(int), 0, w - 1)
            outs.append(a[yy, xx])
    return outs


def sample(img, yd, xd, order, mode):
    """(value, tolerance) of sampling img at clipped float64 coordinates."""
    a = np.asarray(img)
    eps = coord_eps(max(a.shape), xd)
    rng_ = float(a.max()) - float(a.min()) if a.size else 0.0
    mag = float(np.max(np.abs(a.astype(np.float64)))) if a.size else 0.0
    if order == 1:
        val, lip = bilinear(a, yd, xd)
        tol = 3 * eps * lip + 1e-6 * mag + 1e-12
    else:
        val = ndi.map_coordinates(a.astype(np.float64),
                                  [yd.ravel(), xd.ravel()], order=order,
                                  mode=mode).reshape(yd.shape)
        tol = np.full(yd.shape, 40 * eps * rng_ + 3e-5 * mag + 1e-12)
    if a.dtype.kind in "ui":
        tol = tol + 1.0001
    return val, tol


def solve_radius(rd, fact, rhi):
    """Inverse of the monotone map ru -> ru*F(ru)."""
    rd = float(rd)
    if rd == 0:
        return 0.0
    return optimize.brentq(lambda r: r * float(horner(r, fact)) - rd,
                           0.0, rhi, xtol=1e-10, rtol=1e-13)


def apply_homography(coef, pts):
    """(y,x) points through the 8-coef map."""
    c = [float(v) for v in coef]
    pts = np.asarray(pts, dtype=np.float64)
    y, x = pts[:, 0], pts[:, 1]
    d = c[6] * x + c[7] * y + 1.0
    return np.stack([(c[3] * x + c[4] * y + c[5]) / d,
                     (c[0] * x + c[1] * y + c[2]) / d], axis=1)


def homography_matrix(coef):
    c = [float(v) for v in coef]
    return np.array([[c[0], c[1], c[2]], [c[3], c[4], c[5]],
                     [c[6], c[7], 1.0]])


def line_residual(pts):
    """RMS and max distance of points to their total-least-squares line."""
    p = np.asarray(pts, float)
    q = p - p.mean(axis=0)
    _, _, vt = np.linalg.svd(q, full_matrices=False)
    d = np.abs(q @ vt[1])
    return float(np.sqrt(np.mean(d ** 2))), float(d.max())


def judge_sampling(ctx, out, img, yd, xd, order, mode, name, extra=0.0):
    """Monitor assertion: out[y,x] = img interpolated at (yd, xd)."""
    h, w = img.shape
    yd, xd = np.clip(yd, 0, h - 1), np.clip(xd, 0, w - 1)
    out = np.asarray(out)
    if out.shape != yd.shape:
        return ctx.check(False, name, reason="shape", got=list(out.shape),
                         want=list(yd.shape))
    if order == 0:
        got = out.astype(np.float64)
        ok = np.zeros(yd.shape, bool)
        tol = 1e-6 * np.abs(img.astype(float)).max() + 1e-12
        for c in nearest_candidates(img, yd, xd):
            ok |= np.abs(got - c) <= tol
        return ctx.check(ok.all(), name, bad=int((~ok).sum()), order=0)
    val, tol = sample(img, yd, xd, order, mode)
    tol = tol + extra
    if img.dtype.kind in "ui" and order > 1:
        ii = np.iinfo(img.dtype)
        sel = (val > ii.min + 1) & (val < ii.max - 1)
        return ctx.close(out[sel], val[sel], tol[sel], name, order=order,
                         mode=mode)
    return ctx.close(out, val, tol, name, order=order, mode=mode)


def lost_samples(bad, yd, xd):
    """bad: mask of non-finite pixels; coordinates inside the frame.
    (must, free): output pixels that linear interpolation must make
    non-finite, and those that no bad pixel can reach."""
    h, w = bad.shape
    y0 = np.clip(np.floor(yd).astype(int), 0, max(h - 2, 0))
    x0 = np.clip(np.floor(xd).astype(int), 0, max(w - 2, 0))
    fy, fx = yd - y0, xd - x0
    must = np.zeros(yd.shape, bool)
    for a in (0, 1):
        for b in (0, 1):
            wt = (fy if a else 1 - fy) * (fx if b else 1 - fx)
            must |= (wt > 0.02) & bad[np.minimum(y0 + a, h - 1),
                                      np.minimum(x0 + b, w - 1)]
    near = bad.copy()
    for dy in range(-2, 3):
        for dx in range(-2, 3):
            s = np.zeros_like(bad)
            s[max(dy, 0):h + min(dy, 0), max(dx, 0):w + min(dx, 0)] = \
                bad[max(-dy, 0):h - max(dy, 0), max(-dx, 0):w - max(dx, 0)]
            near |= s
    free = ~near[np.clip(np.round(yd).astype(int), 0, h - 1),
                 np.clip(np.round(xd).astype(int), 0, w - 1)]
    return must, free


def spoil_image(rng, img):
    """A copy with some missing (NaN, inf) pixels: (image, mask, clean)."""
    h, w = img.shape
    n = int(rng.integers(1, 2 + h * w // 60))
    bad = np.zeros(img.shape, bool)
    bad[rng.integers(0, h, n), rng.integers(0, w, n)] = True
    clean = np.where(bad, img.dtype.type(0), img)
    img = img.copy()
    img[bad] = rng.choice([np.nan, np.nan, np.inf, -np.inf], bad.sum())
    return img, bad, clean


def judge_missing(ctx, out, bad, clean, yd, xd, name):
    """Linear interpolation of an image with missing pixels: they stay
    visible, and the rest is not affected."""
    h, w = clean.shape
    yd, xd = np.clip(yd, 0, h - 1), np.clip(xd, 0, w - 1)
    out = np.asarray(out)
    ctx.need(out.shape == yd.shape, name, got=list(out.shape))
    must, free = lost_samples(bad, yd, xd)
    ctx.check(not np.isfinite(out[must]).any(), "missing pixels",
              bad=int(np.isfinite(out[must]).sum()))
    val, tol = sample(clean, yd, xd, 1, "reflect")
    ctx.close(out[free], val[free], tol[free], name)
    ctx.nontrivial = bool(must.any())
