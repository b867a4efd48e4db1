"""Point mapping: forward/backward unwarping of lines, find_point_to_point."""
import numpy as np
from .. import gen, refs

ID = "C03"
RULE = ("random point lines (list/array, float64/float32/int64, points at and"
        " far from the centre, ragged and single-point lines) x radial models"
        " x centres; forward and backward unwarping, single points in both "
        "output orders, and round trips; non-trivial: some point moves "
        "> 0.5 px")
ASSUMPTIONS = ["radial map monotone over the points (invertible model)"]
MUST_SEE = {"forward = model": 60, "backward inverts model": 60,
            "point = model": 60, "round trip": 20, "agrees with image": 10}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "forward", 150 * k)
    yield from gen.stream(seed, "backward", 200 * k)
    yield from gen.stream(seed, "point", 120 * k)
    yield from gen.stream(seed, "trip", 60 * k)
    yield from gen.stream(seed, "image", 24 * k)


def make_lines(rng, h, w, xc, yc, dtype, long=False):
    n = 1 if long else int(rng.integers(1, 5))
    lines = []
    for _ in range(n):
        m = int(rng.integers(120, 320) if long else rng.integers(1, 14))
        pts = np.stack([rng.uniform(0, h - 1, m), rng.uniform(0, w - 1, m)],
                       axis=1)
        if rng.random() < 0.4:
            pts[int(rng.integers(m))] = (yc, xc)
        if rng.random() < 0.4:
            pts[int(rng.integers(m))] = (yc, rng.uniform(0, w))
        if rng.random() < 0.3:
            pts[int(rng.integers(m))] = (yc + 1e-3, xc - 2e-3)
        lines.append(pts.astype(dtype))
    return lines


def run(ctx, p):
    rng = ctx.rng
    kind = p["kind"]
    h, w = [int(v) for v in rng.integers(60, 3200, 2)]
    xc, yc, chow = gen.center(rng, h, w, gen.pick(
        rng, ["mid", "off", "int", "edge", "corner", "out"]))
    rmax = gen.rmax_of(h, w, xc, yc)
    fact = gen.radial_model(rng, rmax, nf=gen.many(p))
    if rng.random() < 0.3:
        fact = fact * rng.uniform(0.85, 1.2)
    if kind == "backward":
        # every point of the frame has a preimage on the monotone branch
        while not gen.invertible(fact, rmax):
            fact = gen.radial_model(rng, rmax) * (
                rng.uniform(0.85, 1.2) if rng.random() < 0.3 else 1.0)
    if kind == "forward" and rng.random() < 0.15:
        # the formula holds whatever the model, folding or mirroring ones too
        fact = fact * -1 if rng.random() < 0.5 else \
            gen.radial_model(rng, 0.4 * rmax)
        ctx.seen("wild model")
    fc = gen.fact_container(rng, fact)
    dtype = gen.pick(rng, ["float64", "float64", "float32", "int64"])
    lines = make_lines(rng, h, w, xc, yc, dtype, p["i"] % 30 == 29)
    ctx.seen("dtype", dtype)
    ctx.seen("center", chow)
    ctx.note(lines, xc, yc, fact)
    ctx.sample = {"center": [xc, yc], "fact": list(map(float, fact)),
                  "dtype": dtype, "points": [len(ln) for ln in lines],
                  "first": lines[0][0].tolist()}
    if kind in ("forward", "backward") and rng.random() < 0.12:
        # a line without points keeps its place
        lines.insert(int(rng.integers(0, len(lines) + 1)),
                     np.zeros((0, 2), lines[0].dtype))
        ctx.seen("empty line")
    size = max(h, w, abs(xc), abs(yc))
    # float32 inputs may be processed in single precision: 1e-6 * size
    prec = 4e-7 * size * (3.0 if dtype == "float32" else 0.03) + 1e-7
    arg = lines
    if rng.random() < 0.2 and len({len(ln) for ln in lines}) == 1:
        arg = np.asarray(lines)
    if kind == "forward":
        out = ctx.call("post.unwarp_line_forward", arg, xc, yc, fc)
        ctx.need(len(out) == len(lines), "line count", got=len(out))
        for ln, o in zip(lines, out):
            want = gen.apply_radial(ln, xc, yc, fact)
            ctx.need(len(o) == len(ln), "shape")
            if len(ln) == 0:
                continue
            ctx.nontrivial |= bool(np.max(np.abs(want - ln)) > 0.5)
            ctx.close(o, want, prec, "forward = model")
    elif kind == "backward":
        out = ctx.call("post.unwarp_line_backward", arg, xc, yc, fc)
        ctx.need(len(out) == len(lines), "line count", got=len(out))
        tol = 0.005 + (1e-6 * size if dtype == "float32" else 0)
        for ln, o in zip(lines, out):
            o = np.asarray(o, dtype=np.float64)
            ctx.need(len(o) == len(ln), "shape")
            if len(ln) == 0:
                continue
            ctx.need(o.shape == ln.shape, "shape")
            back = gen.apply_radial(o, xc, yc, fact)
            ctx.nontrivial |= bool(np.max(np.abs(o - ln)) > 0.5)
            ctx.close(back, ln, tol, "backward inverts model")
            # the branch through the centre, on the same ray
            d0 = np.asarray(ln, float) - [yc, xc]
            d1 = o - [yc, xc]
            for a, b in zip(d0, d1):
                ra, rb = np.hypot(*a), np.hypot(*b)
                if ra > 0.5:
                    ctx.check(rb < 6 * ra and a @ b > 0, "same ray",
                              point=a.tolist(), unwarped=b.tolist())
                    ctx.at_most(abs(a[0] * b[1] - a[1] * b[0]) / ra,
                                tol + 1e-6 * size, "collinear")
                elif ra == 0:
                    ctx.at_most(rb, tol, "centre is fixed")
    elif kind == "point":
        for _ in range(4):
            pt = (rng.uniform(0, h - 1), rng.uniform(0, w - 1))
            r = rng.random()
            if r < 0.2:
                pt = (int(pt[0]), int(pt[1]))
            elif r < 0.3:
                pt = (yc, xc)
            elif r < 0.5:
                pt = np.array(pt)
            elif r < 0.6:
                pt = [0, w - 1]
            want = gen.apply_radial(np.array([pt], float), xc, yc, fact)[0]
            o = ctx.call("util.find_point_to_point", pt, xc, yc, fc)
            ctx.close(np.array(o, float), want[::-1], prec, "point = model",
                      order="xy (default)")
            o = ctx.call("util.find_point_to_point", pt, xc, yc, fc,
                         output_order="xy")
            ctx.close(np.array(o, float), want[::-1], prec, "point = model",
                      order="xy")
            o = ctx.call("util.find_point_to_point", pt, xc, yc, fc,
                         output_order="yx")
            ctx.close(np.array(o, float), want, prec, "point = model",
                      order="yx")
            ctx.nontrivial |= bool(np.max(np.abs(want - np.array(pt))) > 0.5)
    elif kind == "trip":
        # distorted = backward model applied to ideal points; unwarping with
        # the backward model has to give the ideal points back
        ideal = [np.asarray(ln, float) for ln in lines]
        dist = [gen.apply_radial(ln, xc, yc, fact) for ln in ideal]
        if dtype == "float32":
            dist = [d.astype(np.float32) for d in dist]
        out = ctx.call("post.unwarp_line_backward", dist, xc, yc, fc)
        slope = 5.0
        for ln, o in zip(ideal, out):
            ctx.close(o, ln, slope * (0.01 + 1e-6 * size), "round trip")
            ctx.nontrivial = True
        # and the per-point API applied to the result leads back
        for d, o in zip(dist, out):
            for a, b in list(zip(d, o))[:3]:
                q = ctx.call("util.find_point_to_point", tuple(
                    np.asarray(b, float)), xc, yc, fc, output_order="yx")
                ctx.close(np.array(q, float), np.asarray(a, float),
                          0.01 + 2e-6 * size, "point maps back")
    else:
        # a bright spot at the distorted position of a point appears in the
        # unwarped image at the point itself
        h, w = int(rng.integers(80, 200)), int(rng.integers(80, 200))
        xc, yc, _ = gen.center(rng, h, w, gen.pick(rng, ["mid", "off"]))
        fact = gen.radial_model(rng, gen.rmax_of(h, w, xc, yc),
                                strength=rng.choice([-1, 1]) * 0.08)
        u = (rng.uniform(0.25, 0.75) * h, rng.uniform(0.25, 0.75) * w)
        x, y = ctx.call("util.find_point_to_point", u, xc, yc, fact)
        yy, xx = np.mgrid[:h, :w]
        img = np.exp(-((yy - y) ** 2 + (xx - x) ** 2) / (2 * 3.0 ** 2))
        out = np.asarray(ctx.call("post.unwarp_image_backward", img, xc, yc,
                                  fact, order=3))
        out = np.where(out > 0.02, out, 0)
        cy, cx = (out * yy).sum() / out.sum(), (out * xx).sum() / out.sum()
        ctx.note(u, fact)
        ctx.close(np.array([cy, cx]), np.array(u), 0.35, "agrees with image")
        o = ctx.call("post.unwarp_line_backward", [np.array([[y, x]])], xc,
                     yc, fact)[0][0]
        ctx.close(o, np.array(u), 0.02, "line agrees with image model")
        ctx.nontrivial = True
