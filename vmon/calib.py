"""Independent float64 reference of the published calibration method (Vo, Atwood
& Drakopoulos 2015): used to know how accurate the method *can* be on a given
grid, so that a monitor can ask for that accuracy and no more."""
import numpy as np
from scipy import optimize


def para_hor(lines, xc, yc):
    return np.array([np.polyfit(l[:, 1] - xc, l[:, 0] - yc, 2)
                     for l in (np.asarray(l, float) for l in lines)])


def para_ver(lines, xc, yc):
    return np.array([np.polyfit(l[:, 0] - yc, l[:, 1] - xc, 2)
                     for l in (np.asarray(l, float) for l in lines)])


def coarse(hor, ver):
    ch, cv = para_hor(hor, 0, 0), para_ver(ver, 0, 0)

    def mid(c):
        s = np.sign(c[:, 0])
        k = int(np.argmax(np.abs(np.diff(s)))) + 1
        return 0.5 * (c[k - 1, 2] + c[k, 2]), 0.5 * (c[k - 1, 1] + c[k, 1])
    y0, bh = mid(ch)
    x0, bv = mid(cv)
    # intersection of y = bh x + y0 and x = bv y + x0
    a = np.array([[-bh, 1.0], [1.0, -bv]])
    x, y = np.linalg.solve(a, [y0, x0])
    return float(x), float(y)


def bailey(hor, ver, iteration=2):
    x, y = coarse(hor, ver)
    for _ in range(iteration + 1):
        ch, cv = para_hor(hor, x, y), para_ver(ver, x, y)
        a1, b1 = np.polyfit(ch[:, 2], ch[:, 0], 1)
        a2, b2 = np.polyfit(cv[:, 2], cv[:, 0], 1)
        x, y = x - b2 / a2, y - b1 / a1
    return float(x), float(y)


def spacing(c, num_use, optimizing):
    """(middle index, line distance, ideal intercepts) of one direction."""
    inter = c[:, 2]
    k = int(np.argmin(np.abs(inter)))
    lo, hi = max(0, k - num_use), min(len(inter), k + num_use + 1)
    d = float(np.mean(np.abs(np.diff(inter[lo:hi]))))
    idx = np.abs(np.arange(len(inter)) - k)
    sgn = np.sign(inter)
    if optimizing:
        # least squares of sgn*idx*d + c0 = inter has a closed form
        d = float(np.sum(sgn * idx * (inter - inter[k])) / np.sum(idx ** 2))
    return k, d, sgn * idx * d + inter[k]


def misfit(c, d):
    inter = c[:, 2]
    k = int(np.argmin(np.abs(inter)))
    idx = np.abs(np.arange(len(inter)) - k)
    return float(np.sum((np.sign(inter) * idx * d + inter[k] - inter) ** 2))


def samples(hor, ver, xc, yc, optimizing=False):
    """(rd, Fb) of every usable point: distorted radius and rd/ru."""
    ch, cv = para_hor(hor, xc, yc), para_ver(ver, xc, yc)
    nu = min(3, len(hor) // 2 - 1, len(ver) // 2 - 1)
    _, dh, uh = spacing(ch, nu, optimizing)
    _, dv, uv = spacing(cv, nu, optimizing)
    rds, fbs = [], []
    for lines, coefs, ucs, ax in ((hor, ch, uh, 1), (ver, cv, uv, 0)):
        for l, c, u in zip(lines, coefs, ucs):
            if abs(u) < 1.0:
                continue
            p = np.asarray(l, float) - np.array([yc, xc])
            rds.append(np.hypot(p[:, 0], p[:, 1]))
            fbs.append((c[0] * p[:, ax] ** 2 + c[2]) / u)
    return np.concatenate(rds), np.concatenate(fbs), dh, dv


def coef_backward(hor, ver, xc, yc, n, optimizing=False):
    rd, fb, _, _ = samples(hor, ver, xc, yc, optimizing)
    return fit(rd / fb, fb, n)


def coef_forward(hor, ver, xc, yc, n, optimizing=False):
    rd, fb, _, _ = samples(hor, ver, xc, yc, optimizing)
    return fit(rd, 1 / fb, n)


def fit(r, v, n):
    """Least-squares polynomial, scaled for conditioning."""
    s = float(np.max(r))
    a = np.vander(r / s, n, increasing=True)
    return np.linalg.lstsq(a, v, rcond=None)[0] / s ** np.arange(n)


def best_scale(model, want_r):
    """k minimising |model(k * r) - want| is found by the caller's residual:
    returns the radial errors after the best global scale.
    model: r -> mapped radius (monotone); want_r: (r, mapped) samples."""
    r, m = want_r

    def err(k):
        return float(np.sum((model(k * r) - m) ** 2))
    best = optimize.minimize_scalar(err, bounds=(0.7, 1.4), method="bounded",
                                    options={"xatol": 1e-9})
    k = float(best.x)
    return k, model(k * r) - m


def parabola_crossings(p, q):
    """Real parameters where two parabolas of the same orientation meet."""
    a, b, c = np.asarray(p, float) - np.asarray(q, float)
    disc = b * b - 4 * a * c
    if disc < 0 or a == 0:
        return None
    s = np.sqrt(disc)
    return (-b - s) / (2 * a), (-b + s) / (2 * a)


def axis_through(coefs, pairs):
    """(slope, offset, count) of the line fitted to the meeting points of the
    given pairs of parabolas."""
    pts = []
    for i, j in pairs:
        t = parabola_crossings(coefs[i], coefs[j])
        if t is not None:
            for v in t:
                pts.append((v, np.polyval(coefs[i], v)))
    if len(pts) <= 2:
        return None
    pts = np.array(pts)
    return np.polyfit(pts[:, 0], pts[:, 1], 1)


def cross(ah, av):
    """y = a1 x + b1 meets x = a2 y + b2 at (x, y)."""
    x, y = np.linalg.solve([[-ah[0], 1.0], [1.0, -av[0]]], [ah[1], av[1]])
    return float(x), float(y)


def opposite_pairs(c):
    up = sorted(np.where(c[:, 0] > 0)[0], key=lambda i: abs(c[i, 0]))
    dn = sorted(np.where(c[:, 0] < 0)[0], key=lambda i: abs(c[i, 0]))
    return list(zip(up, dn))


def flattest_pairs(c):
    k = int(np.argmin(np.abs(c[:, 0])))
    return [(i, k) for i in range(len(c)) if i != k]


def vanishing(hor, ver, pairs=opposite_pairs):
    ch, cv = para_hor(hor, 0, 0), para_ver(ver, 0, 0)
    ah, av = axis_through(ch, pairs(ch)), axis_through(cv, pairs(cv))
    if ah is None or av is None:
        return None
    return cross(ah, av)


def _nearest(a, b, c):
    """Point of v = a u^2 + b u + c nearest to the origin."""
    # d/du (u^2 + v^2) / 2 = u + v v'
    poly = np.array([2 * a * a, 3 * a * b, b * b + 2 * a * c + 1, b * c])
    r = np.roots(poly)
    r = np.real(r[np.abs(np.imag(r)) < 1e-6 * (1 + np.abs(r))])
    v = np.polyval([a, b, c], r)
    k = int(np.argmin(r * r + v * v))
    return float(r[k]), float(v[k])


def fine_metric(ch, cv, sx, sy):
    """How far from the origin (shifted by sx, sy) the loci of nearest points
    of the two families of lines pass."""
    out = 0.0
    for co, su, sv in ((ch, sx, sy), (cv, sy, sx)):
        pts = []
        for a, b, c in co:
            pts.append(_nearest(a, 2 * a * su + b,
                                a * su * su + b * su + c - sv))
        pts = np.array(pts)
        out += abs(np.polyfit(pts[:, 1], pts[:, 0], 1)[1])
    return out


def fine(hor, ver, x, y, reach):
    for shifts in (np.arange(-reach, reach + 2.0, 2.0),
                   np.arange(-2.0, 2.5, 0.5)):
        ch, cv = para_hor(hor, x, y), para_ver(ver, x, y)
        n = min(5, len(hor) // 2 - 1, len(ver) // 2 - 1)
        kh = int(np.argmin(np.abs(ch[:, 2])))
        kv = int(np.argmin(np.abs(cv[:, 2])))
        ch = ch[max(0, kh - n):kh + n + 1]
        cv = cv[max(0, kv - n):kv + n + 1]
        m = np.array([[fine_metric(ch, cv, sx, sy) for sx in shifts]
                      for sy in shifts])
        i, j = np.unravel_index(int(np.argmin(m)), m.shape)
        x, y = x + shifts[j], y + shifts[i]
    return float(x), float(y)
