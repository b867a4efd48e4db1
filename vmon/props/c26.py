"""Complete pipelines: picture of a target in, straight picture out."""
import os

import numpy as np
import scipy.ndimage as ndi

from .. import calib, gen, refs
from ..target import Target, shade

ID = "C26"
RULE = ("pictures (440-700 px, 17-26 lines a side, turned up to 4 deg, "
        "centre up to 4 % off, 0.8-5 % barrel or pincushion, uneven light, "
        "noise, 4 dtypes) of dot, line and chessboard targets rendered "
        "through a known distortion, run through the documented call "
        "sequences (classic, Fourier-normalised, polyfit grouping, parabola "
        "mask, perspective, forward model, metadata saved and re-loaded); "
        "non-trivial: distortion of 2 px or more at the border")
ASSUMPTIONS = [
    "accuracy asked for: 1.25 x the error of an independent float64 "
    "implementation of the published method given the exact node positions, "
    "plus 2.2 px for locating the features",
    "coefficients are judged inside the area covered by the detected lines"]
MUST_SEE = {"lines found": 40, "distortion seen": 20, "lines straight": 40,
            "nodes on the lattice": 40, "verdict clean": 40,
            "unwarped picture": 40, "pipe/dots": 5, "pipe/lines": 5,
            "pipe/chess": 5, "pipe/persp": 5, "pipe/points": 5,
            "pipe/forward": 4}

PIPES = ["dots", "lines", "chess", "fft", "points", "forward", "persp",
         "mask"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    for n in PIPES:
        yield from gen.stream(seed, n, 8 * k)


class View:
    """A target, a tilt and a radial distortion with everything known."""

    def __init__(self, rng, pipe):
        while True:
            self.pitch = float(rng.uniform(22, 28))
            if pipe in ("lines", "chess", "mask"):
                self.pitch = float(rng.uniform(24, 32))
            n = rng.uniform(18, 23)
            self.h = int(self.pitch * n)
            self.w = int(self.pitch * n * rng.uniform(0.9, 1.15))
            h, w = self.h, self.w
            self.xc = (w - 1) / 2 + rng.uniform(-.04, .04) * w
            self.yc = (h - 1) / 2 + rng.uniform(-.04, .04) * h
            self.rmax = gen.rmax_of(h, w, self.xc, self.yc)
            self.s = float(rng.choice([-1, 1]) * rng.uniform(0.008, 0.05))
            self.tilt = rng.uniform(-1, 1, 2) * 0.03 / max(h, w) \
                if pipe == "persp" else np.zeros(2)
            mix = rng.uniform(-.15, .15)
            # forward model: undistorted radius = rd * G(rd)
            self.g = np.array([1, 0, self.s * (1 - mix) / self.rmax ** 2, 0,
                               self.s * mix / self.rmax ** 4])
            if not gen.monotone(self.g, 1.1 * self.rmax):
                continue
            xo, yo = rng.uniform(-.45, .45, 2) * self.pitch
            rot = float(rng.uniform(-4, 4)) if rng.random() < 0.8 else 0.0
            self.t = Target(h, w, self.pitch, self.pitch, rot, xo, yo,
                            warp=self.flat)
            break

    def flat(self, y, x):
        """distorted pixel -> coordinates in the target's own plane"""
        dy, dx = np.asarray(y, float) - self.yc, np.asarray(x, float) \
            - self.xc
        s = np.polynomial.polynomial.polyval(np.hypot(dx, dy), self.g)
        dx, dy = dx * s, dy * s
        d = 1 + self.tilt[0] * dx + self.tilt[1] * dy
        return dy / d + self.yc, dx / d + self.xc

    def nodes(self, margin):
        """{(i, j): (ideal y, x), (seen y, x)} of nodes inside the frame"""
        y, x = np.mgrid[:self.h:4, :self.w:4]
        u, v = self.t.uv(y, x)
        out = {}
        p = self.pitch
        for i in range(int(v.min() // p) - 1, int(v.max() // p) + 2):
            for j in range(int(u.min() // p) - 1, int(u.max() // p) + 2):
                q = self.seen(i, j)
                if q is not None and margin <= q[0] <= self.h - 1 - margin \
                        and margin <= q[1] <= self.w - 1 - margin:
                    out[(i, j)] = q
        return out

    def seen(self, i, j):
        """Where node (i, j) lies in the picture (fixed-point inversion)."""
        t = self.t
        u, v = j * self.pitch + t.xo, i * self.pitch + t.yo
        c, s = np.cos(t.t), np.sin(t.t)
        x, y = t.xc + u * c - v * s, t.yc + u * s + v * c
        q = np.array([y, x])
        for _ in range(200):
            g = np.array(self.flat(q[0], q[1]))
            step = np.array([y, x]) - g
            q = q + step * 0.9
            if not np.all(np.abs(q) < 1e5):
                return None
            if np.abs(step).max() < 1e-9:
                break
        return q


def grid_of(view, nodes):
    ri = sorted({i for i, _ in nodes})
    ci = sorted({j for _, j in nodes})
    hor = [np.array([nodes[(i, j)] for j in ci if (i, j) in nodes])
           for i in ri]
    ver = [np.array([nodes[(i, j)] for i in ri if (i, j) in nodes])
           for j in ci]
    # only lines with three quarters of the longest (as the pipelines do)
    mh, mv = max(map(len, hor)), max(map(len, ver))
    return [a for a in hor if len(a) >= .75 * mh], \
        [a for a in ver if len(a) >= .75 * mv]


def picture(rng, view, kind, p, bright=False):
    t = view.t
    if kind == "dots":
        a = t.dots(view.pitch * rng.uniform(0.17, 0.24))
    elif kind == "lines":
        a = 1 - t.lines(rng.uniform(3.0, 4.0))
    else:
        a = t.chess()
    if kind == "dots" and not bright:
        a = 1 - a
    dt = gen.cyc(p, ["float64", "float32", "uint8", "uint16"])
    uneven = 0.0 if kind == "chess" else float(gen.cyc(p, [0.1, 0.0], 2))
    return shade(rng, a, dt, noise=float(gen.cyc(p, [0.0, 0.01], 3)),
                 uneven=uneven)


def straighten(coef, xc, yc, pts, rmax):
    """Undistorted positions of seen points under a backward model."""
    d = pts - [yc, xc]
    rd = np.hypot(d[:, 0], d[:, 1])
    coef = np.asarray(coef, float)
    ru = rd.copy()                      # Newton on ru * F(ru) = rd
    k = np.arange(1, len(coef) + 1)
    for _ in range(60):
        f = ru * refs.horner(ru, coef) - rd
        g = refs.horner(ru, coef * k)
        ru = ru - f / np.where(np.abs(g) < 0.05, 0.05, g)
    return d * (ru / np.where(rd == 0, 1, rd))[:, None] + [yc, xc]


def lattice_error(ij, pts, affine=False):
    """Largest distance of pts from the best square lattice with indices ij
    (scale, rotation, shift fitted; or any affine / projective lattice)."""
    i, j = ij[:, 0].astype(float), ij[:, 1].astype(float)
    n = len(i)
    # y = a*i + b*j + c ; x = a*j - b*i + d
    m = np.zeros((2 * n, 4))
    m[:n, 0], m[:n, 1], m[:n, 2] = i, j, 1
    m[n:, 0], m[n:, 1], m[n:, 3] = j, -i, 1
    v = np.concatenate([pts[:, 0], pts[:, 1]])
    q = np.linalg.lstsq(m, v, rcond=None)[0]
    r = v - m @ q
    return float(np.hypot(r[:n], r[n:]).max()), q


def covered(lines, nodes, pitch):
    """nodes within half a pitch of a detected point"""
    pts = np.vstack([np.asarray(a, float) for a in lines])
    keep = {}
    for k, q in nodes.items():
        if np.min(np.hypot(pts[:, 0] - q[0], pts[:, 1] - q[1])) < pitch / 2:
            keep[k] = q
    return keep


def detect(ctx, p, view, img, kind):
    """Image -> lists of points on lines, by the documented calls."""
    rng = ctx.rng
    c = ctx.call
    pipe = p["kind"]
    mat = img
    if pipe == "fft" or (pipe == "mask" and kind == "lines"):
        mat = c("prep.normalization_fft", mat, sigma=10, pad=40)
    if kind == "dots":
        if pipe == "points" and p["i"] % 2:
            pts = c("prep.get_points_dot_pattern", mat, binarize=True,
                    ratio=0.5)
        else:
            mat = c("prep.binarization", mat, ratio=0.5)
        b = mat if mat.dtype != img.dtype or pipe != "points" else \
            c("prep.binarization", mat, ratio=0.5)
        ctx.check(not c("prep.check_num_dots", b), "lines found",
                  step="check_num_dots")
        size, dist = c("prep.calc_size_distance", b, ratio=0.5)
        b = c("prep.select_dots_based_size", b, size, ratio=0.5)
        b = c("prep.select_dots_based_ratio", b, ratio=0.6)
        sh = c("prep.calc_hor_slope", b, ratio=0.5)
        sv = c("prep.calc_ver_slope", b, ratio=0.5)
        if pipe == "points":
            if p["i"] % 2 == 0:
                pts = c("prep.get_points_dot_pattern", b, binarize=False)
            hor = c("prep.group_dots_hor_lines_based_polyfit", pts, sh, dist,
                    ratio=0.25, num_dot_miss=3, accepted_ratio=0.7)
            ver = c("prep.group_dots_ver_lines_based_polyfit", pts, sv, dist,
                    ratio=0.25, num_dot_miss=3, accepted_ratio=0.7)
        else:
            hor = c("prep.group_dots_hor_lines", b, sh, dist, ratio=0.3,
                    num_dot_miss=6, accepted_ratio=0.7)
            ver = c("prep.group_dots_ver_lines", b, sv, dist, ratio=0.3,
                    num_dot_miss=6, accepted_ratio=0.7)
    else:
        ch = kind == "chess"
        kw = dict(chessboard=ch, radius=9)
        sh, dh = c("linep.calc_slope_distance_hor_lines", mat, ratio=0.5,
                   search_range=10.0, **kw)
        sv, dv = c("linep.calc_slope_distance_ver_lines", mat, ratio=0.5,
                   search_range=10.0, **kw)
        ph = c("linep.get_cross_points_hor_lines", mat, sv, dv, offset=4,
               **kw)
        pv = c("linep.get_cross_points_ver_lines", mat, sh, dh, offset=4,
               **kw)
        if pipe == "mask":
            m = dict(hor_curviness=0.05, ver_curviness=0.05, hor_margin=12,
                     ver_margin=12)
            ph = c("prep.remove_points_using_parabola_mask", ph, view.h,
                   view.w, **m)
            pv = c("prep.remove_points_using_parabola_mask", pv, view.h,
                   view.w, **m)
        hor = c("prep.group_dots_hor_lines", ph, sh, dh, ratio=0.3,
                num_dot_miss=2, accepted_ratio=0.7)
        ver = c("prep.group_dots_ver_lines", pv, sv, dv, ratio=0.3,
                num_dot_miss=2, accepted_ratio=0.7)
    hor = c("prep.remove_residual_dots_hor", hor, sh, residual=2.5)
    ver = c("prep.remove_residual_dots_ver", ver, sv, residual=2.5)
    return hor, ver


def run(ctx, p):
    rng = ctx.rng
    pipe = p["kind"]
    kind = {"lines": "lines", "chess": "chess",
            "mask": gen.cyc(p, ["lines", "chess"])}.get(pipe, "dots")
    view = View(rng, pipe)
    img = picture(rng, view, kind, p, bright=p["i"] % 3 == 2)
    det = dict(pipe=pipe, kind=kind, strength=view.s, pitch=view.pitch,
               rot=view.t.rot, shape=img.shape, dtype=str(img.dtype))
    hor, ver = detect(ctx, p, view, img, kind)
    nodes = view.nodes(0.3 * view.pitch)
    thor, tver = grid_of(view, view.nodes(0.8 * view.pitch))
    ctx.need(len(hor) >= len(thor) - 3 and len(ver) >= len(tver) - 3
             and len(hor) <= len(thor) + 3 and len(ver) <= len(tver) + 3,
             "lines found", got=[len(hor), len(ver)],
             want=[len(thor), len(tver)], **det)
    # the points are on the target's lines
    off = []
    for ls, fn in ((hor, view.t.dist_hor), (ver, view.t.dist_ver)):
        for a in ls:
            a = np.asarray(a, float)
            off.append(np.abs(fn(a[:, 0], a[:, 1])))
    off = np.concatenate(off)
    ctx.at_most(off.max(), {"dots": 1.8, "lines": 1.0, "chess": 5.0}[kind],
                "points on the lines", **det)
    ctx.at_most(np.percentile(off, 95), 1.2, "points on the lines", **det)
    sag = abs(view.s) * view.rmax
    before = (ctx.call("post.calc_residual_hor", hor, 0.0, 0.0),
              ctx.call("post.calc_residual_ver", ver, 0.0, 0.0))
    seen = [bool(ctx.call("post.check_distortion", b)) for b in before]
    true_rows = [np.concatenate([refs.line_residual(a) for a in ls])
                 for ls in (thor, tver)]
    for s, r in zip(seen, true_rows):
        if pipe == "mask":
            ctx.seen("masked verdict")      # border points taken away
        elif (r > 1.35).mean() > 0.2:
            ctx.check(s, "distortion seen", fraction=(r > 1).mean(), **det)
        elif (r > 0.65).mean() < 0.1:
            ctx.check(not s, "distortion seen", fraction=(r > 1).mean(),
                      **det)
        else:
            ctx.seen("borderline verdict")
    rhor, rver = thor, tver
    chor, cver = hor, ver
    if pipe == "persp":
        chor, cver = ctx.call("proc.regenerate_grid_points_parabola", hor,
                              ver, perspective=True)
    xc, yc = ctx.call("proc.find_cod_coarse", chor, cver)
    if pipe == "persp":
        rxc, ryc = None, None
    else:
        rxc, ryc = calib.coarse(rhor, rver)
    nf = int(gen.cyc(p, [5, 5, 4, 5], 2))
    if pipe == "forward":
        ff = ctx.call("proc.calc_coef_forward", chor, cver, xc, yc, nf)
        fact = ctx.call("proc.calc_coef_backward_from_forward", chor, cver,
                        xc, yc, nf)
        fact = fact[1] if isinstance(fact, tuple) else fact
    else:
        fact = ctx.call("proc.calc_coef_backward", chor, cver, xc, yc, nf)
    if p["i"] % 2:
        path = os.path.join(ctx.workdir(), "coef.txt")
        path = ctx.call("losa.save_metadata_txt", path, xc, yc, fact)
        xc, yc, fact = ctx.call("losa.load_metadata_txt", path)
    # --- where do the nodes go? --------------------------------------------
    area = covered(hor + ver, nodes, view.pitch)
    ij = np.array(sorted(area))
    pts = np.array([area[tuple(k)] for k in ij])
    got = straighten(fact, xc, yc, pts, view.rmax)
    if pipe != "persp":
        rf = calib.coef_backward(rhor, rver, rxc, ryc, nf)
        ref = straighten(rf, rxc, ryc, pts, view.rmax)
        e_ref, _ = lattice_error(ij, ref)
        e_got, q = lattice_error(ij, got)
        ctx.at_most(e_got, 1.25 * e_ref + 2.2,
                    "nodes on the lattice", reference=e_ref, centre=[xc, yc],
                    truth=[view.xc, view.yc], **det)
    ul = ctx.call("post.unwarp_line_backward", hor, xc, yc, fact)
    uv = ctx.call("post.unwarp_line_backward", ver, xc, yc, fact)
    after = [np.asarray(ctx.call("post.calc_residual_hor", ul, xc, yc)),
             np.asarray(ctx.call("post.calc_residual_ver", uv, xc, yc))]
    for r in after:
        ctx.check(not ctx.call("post.check_distortion", r), "verdict clean",
                  fraction=float((r[:, 1] > 1).mean()), **det)
        ctx.at_most(np.percentile(r[:, 1], 98),
                    2.0 if pipe == "persp" else 0.8, "lines straight", **det)
    if pipe == "forward":
        fl = ctx.call("post.unwarp_line_forward", hor, xc, yc, ff)
        r = np.asarray(ctx.call("post.calc_residual_hor", fl, xc, yc))
        ctx.at_most(np.percentile(r[:, 1], 98), 1.0, "lines straight",
                    forward=True, **det)
    if pipe == "persp":
        src, dst = ctx.call("proc.generate_source_target_perspective_points",
                            ul, uv, equal_dist=True)
        pc = ctx.call("proc.calc_perspective_coefficients", src, dst,
                      mapping="forward")
        flat = refs.apply_homography(np.asarray(pc, float), got)
        e_got, q = lattice_error(ij, flat)
        ctx.at_most(e_got, 6.0, "nodes on the lattice", **det)
        pb = ctx.call("proc.calc_perspective_coefficients", src, dst,
                      mapping="backward")
    # --- the picture --------------------------------------------------------
    # (grey values in a common scale, padded unwarping not needed)
    fimg = img.astype(np.float64)
    out = np.asarray(ctx.call("post.unwarp_image_backward", fimg, xc, yc,
                              fact), float)
    if pipe == "persp":
        out = np.asarray(ctx.call("post.correct_perspective_image", out, pb),
                         float)
    judge_picture(ctx, out, view, kind, ij, q, det)
    ctx.seen("pipe", pipe)
    ctx.nontrivial = sag >= 2
    ctx.note(img, pipe)
    ctx.sample = dict(det, lattice_error=e_got, centre=[xc, yc],
                      true_centre=[view.xc, view.yc])


def judge_picture(ctx, out, view, kind, ij, q, det):
    """In the unwarped picture the target is where a square lattice says."""
    a, b, c, d = q
    m = 3.0
    def at(i, j):
        y, x = a * i + b * j + c, a * j - b * i + d
        ok = (y > m) & (y < out.shape[0] - 1 - m) & (x > m) & (
            x < out.shape[1] - 1 - m)
        return y[ok], x[ok]
    i, j = ij[:, 0].astype(float), ij[:, 1].astype(float)
    if kind == "chess":
        p1, p2 = at(i + .5, j + .5), None
        par = ((ij[:, 0] + ij[:, 1]) % 2).astype(bool)
        on = at((i + .5)[par], (j + .5)[par])
        off = at((i + .5)[~par], (j + .5)[~par])
    else:
        on = at(i, j)
        off = at(i + .5, j + .5)
    von = ndi.map_coordinates(out, on, order=1)
    vof = ndi.map_coordinates(out, off, order=1)
    mid = 0.5 * (np.median(von) + np.median(vof))
    sign = 1 if np.median(von) > np.median(vof) else -1
    good = np.concatenate([(von - mid) * sign > 0, (vof - mid) * sign < 0])
    ctx.at_most(1 - good.mean(), 0.01, "unwarped picture", **det)
    if kind != "dots":
        return
    # centres of the dots in the picture
    persp = det["pipe"] == "persp"
    bad = []
    step = max(1, len(on[0]) // 60)
    for y, x in list(zip(*on))[::step]:
        r = int(view.pitch * 0.4)
        yi, xi = int(round(y)), int(round(x))
        if yi - r < 0 or xi - r < 0 or yi + r >= out.shape[0] \
                or xi + r >= out.shape[1]:
            continue
        win = (out[yi - r:yi + r + 1, xi - r:xi + r + 1] - mid) * sign
        wgt = np.clip(win, 0, None)
        if wgt.sum() <= 0:
            bad.append(r)
            continue
        gy, gx = np.mgrid[-r:r + 1, -r:r + 1]
        bad.append(np.hypot(yi + (wgt * gy).sum() / wgt.sum() - y,
                            xi + (wgt * gx).sum() / wgt.sum() - x))
    if bad:
        ctx.at_most(np.max(bad), 8.0 if persp else 3.6, "unwarped picture (dots)", **det)
        ctx.at_most(np.median(bad), 4.0 if persp else 1.6, "unwarped picture (dots)", **det)
