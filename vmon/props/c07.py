"""Calibration recovers the radial distortion of a grid."""
import warnings
import numpy as np
from .. import gen, refs, calib

ID = "C07"
RULE = ("lattices (frame 500-2200 px, 9 to 28 lines a side, even/odd, "
        "rotated up to 3 deg, centre up to 6 % off the middle, lines through "
        "the centre) pushed through known even or mixed radial models, barrel "
        "and pincushion, 0.8-6 %; three estimators x optimisation on/off x "
        "point containers; non-trivial: distortion above 2 px at the border")
ASSUMPTIONS = [
    "accuracy asked for is that of an independent float64 implementation of "
    "the published method on the same grid, plus a quarter and 0.1 px"]
MUST_SEE = {"backward accuracy": 60, "forward accuracy": 60,
            "back-from-forward accuracy": 60, "straightness": 60,
            "optimised fit": 30, "missing line warned": 20,
            "no false warning": 60, "case/centreline": 10}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "grid", 90 * k)
    yield from gen.stream(seed, "centreline", 24 * k)
    yield from gen.stream(seed, "few", 30 * k)
    yield from gen.stream(seed, "optim", 40 * k)
    yield from gen.stream(seed, "missing", 30 * k)
    yield from gen.stream(seed, "mirror", 20 * k)
    yield from gen.stream(seed, "strong", 24 * k)


def make(rng, kind):
    """(hor, ver, xc, yc, fact, ideal nodes, distorted nodes, pitch)."""
    while True:
        h = int(rng.integers(500, 2200))
        w = int(h * rng.uniform(0.75, 1.35))
        m = min(h, w)
        nl = rng.uniform(9, 14) if kind == "few" else rng.uniform(14, 28)
        pitch = m / nl
        rot = float(rng.choice([0.0, 0.0, 1.0, 1.0, 1.0])) * \
            rng.uniform(-3, 3)
        xc = (w - 1) / 2 + rng.uniform(-0.06, 0.06) * w
        yc = (h - 1) / 2 + rng.uniform(-0.06, 0.06) * h
        xo, yo = rng.uniform(-0.5, 0.5, 2) * pitch
        if kind == "centreline":
            which = int(rng.integers(3))
            if which in (0, 2):
                xo = float(rng.choice([0.0, 1e-4, 0.3, -0.02]))
            if which in (1, 2):
                yo = float(rng.choice([0.0, 1e-4, -0.3, 0.02]))
            if rng.random() < 0.5:
                rot = 0.0
        else:
            # away from the tie between two middle lines
            if abs(abs(xo) - 0.5 * pitch) < 0.04 * pitch or \
                    abs(abs(yo) - 0.5 * pitch) < 0.04 * pitch:
                continue
        s = float(rng.choice([-1, 1]) * rng.uniform(0.008, 0.06))
        if kind == "strong":
            s = float(rng.uniform(0.12, 0.35)) if rng.random() < 0.5 else \
                -float(rng.uniform(0.1, 0.24))
        rmax = gen.rmax_of(h, w, xc, yc)
        fact = np.zeros(5)
        fact[0] = 1
        mix = rng.uniform(-0.25, 0.25)
        fact[2] = s * (1 - mix) / rmax ** 2
        fact[4] = s * mix / rmax ** 4
        if rng.random() < 0.25:
            fact[1] = 0.1 * s / rmax
        if not gen.monotone(fact, 1.05 * rmax):
            continue
        nodes = gen.grid(h, w, pitch, rot, xo, yo, 0.2 * pitch, xc, yc)
        ri, ci = gen.full_block(nodes)
        if len(ri) < 7 or len(ci) < 7:
            continue
        nodes = {(i, j): nodes[(i, j)] for i in ri for j in ci}
        dist = gen.map_nodes(
            nodes, lambda q: gen.apply_radial(q, xc, yc, fact))
        hor, ver = gen.lines_of(dist)
        return hor, ver, xc, yc, fact, nodes, dist, pitch, s, rmax


def radial_errors(kind, coef, ru, rd):
    """Errors (px, in distorted radius for backward, undistorted for forward)
    after the best global scale."""
    if kind == "b":
        k, e = calib.best_scale(lambda r: r * refs.horner(r, coef), (ru, rd))
        return k, float(np.max(np.abs(e)))
    got = rd * refs.horner(rd, coef)
    k = float(np.sum(got * ru) / np.sum(ru * ru))
    return k, float(np.max(np.abs(got / k - ru)))


def bound(ref):
    return 1.25 * ref + 0.1


def observe(fn, *a, **kw):
    """(result, UserWarnings)."""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        out = fn(*a, **kw)
    return out, [r for r in rec if issubclass(r.category, UserWarning)
                 and not issubclass(r.category, DeprecationWarning)]


def est(ctx, name, *a, **kw):
    """Call an estimator, watching the warnings as well."""
    ctx.calls[name] += 1
    fn = getattr(ctx.lib.proc, name)
    with np.errstate(all="ignore"):
        return observe(fn, *a, **kw)


def run(ctx, p):
    rng, kind = ctx.rng, p["kind"]
    hor, ver, xc, yc, fact, nodes, dist, pitch, s, rmax = make(rng, kind)
    ctx.seen("case", kind)
    ctx.seen("parity", len(hor) % 2, len(ver) % 2)
    if kind == "missing":
        return missing(ctx, p, hor, ver, xc, yc)
    if kind == "mirror":
        return mirror(ctx, p, hor, ver, xc, yc, rmax)
    keys = list(nodes)
    ru = np.array([np.hypot(nodes[k][0] - yc, nodes[k][1] - xc)
                   for k in keys])
    rd = np.array([np.hypot(dist[k][0] - yc, dist[k][1] - xc) for k in keys])
    n = 5 if kind != "few" else int(rng.choice([3, 4, 5]))
    opt = kind == "optim" or bool(p["i"] % 5 == 3)
    how = p["i"] % 4
    if how == 3:  # single-precision points, as the library itself returns
        hor = [l.astype(np.float32) for l in hor]
        ver = [l.astype(np.float32) for l in ver]
    a_h = [l.tolist() for l in hor] if how == 1 else \
        tuple(hor) if how == 2 else hor
    a_v = [l.tolist() for l in ver] if how == 1 else \
        tuple(ver) if how == 2 else ver
    kw = {} if not opt and how != 1 else {"optimizing": opt}
    if rng.random() < 0.3:
        kw["threshold"] = 0.4
    a = (a_h, a_v, xc, yc, n)
    fb, w1 = est(ctx, "calc_coef_backward", *a, **kw)
    ff, w2 = est(ctx, "calc_coef_forward", *a, **kw)
    (f2, b2), w3 = est(ctx, "calc_coef_backward_from_forward", *a, **kw)
    fb, ff, f2, b2 = [np.asarray(v, float) for v in (fb, ff, f2, b2)]
    for v in (fb, ff, f2, b2):
        ctx.need(v.shape == (n,) and np.isfinite(v).all(),
                 "coefficients finite", got=v, n=n)
    ctx.check(not (w1 or w2 or w3), "no false warning", n=len(w1 + w2 + w3))
    rb = calib.coef_backward(hor, ver, xc, yc, n, opt)
    rf = calib.coef_forward(hor, ver, xc, yc, n, opt)
    rb2 = inverse_fit(rf, rd, n)
    kb, eb = radial_errors("b", fb, ru, rd)
    kf, ef = radial_errors("f", ff, ru, rd)
    k2, e2 = radial_errors("b", b2, ru, rd)
    krb, erb = radial_errors("b", rb, ru, rd)
    krf, erf = radial_errors("f", rf, ru, rd)
    kr2, er2 = radial_errors("b", rb2, ru, rd)
    ctx.at_most(eb, bound(erb), "backward accuracy", ref=erb)
    ctx.at_most(ef, bound(erf), "forward accuracy", ref=erf)
    ctx.at_most(e2, bound(er2), "back-from-forward accuracy", ref=er2)
    ctx.at_most(float(np.max(np.abs(rd * (refs.horner(rd, ff)
                                          - refs.horner(rd, f2))))),
                1e-3, "same forward model")
    # the scale left free above is the one of the grid near the centre
    ctx.at_most(abs(kb / krb - 1), 1.5e-3, "scale", k=kb, ref=krb)
    ctx.at_most(abs(kf / krf - 1), 1.5e-3, "scale", k=kf, ref=krf)
    ctx.at_most(abs(k2 / kr2 - 1), 1.5e-3, "scale", k=k2, ref=kr2)
    if not opt:
        ctx.at_most(abs(kf - 1), 0.03, "scale near one", k=kf)
    # straightness of the corrected grid with our own arithmetic
    fwd = {k: tuple(np.array([yc, xc]) + refs.horner(
        np.hypot(v[0] - yc, v[1] - xc), ff) * np.array([v[0] - yc,
                                                        v[1] - xc]))
        for k, v in dist.items()}
    uh, uv = gen.lines_of(fwd)
    after = max(refs.line_residual(l)[1] for l in uh + uv)
    rfw = {k: tuple(np.array([yc, xc]) + refs.horner(
        np.hypot(v[0] - yc, v[1] - xc), rf) * np.array([v[0] - yc,
                                                        v[1] - xc]))
        for k, v in dist.items()}
    rh, rv = gen.lines_of(rfw)
    aref = max(refs.line_residual(l)[1] for l in rh + rv)
    ctx.at_most(after, bound(aref), "straightness", ref=aref)
    if opt:
        # fit of the line distances with the scale that the result implies
        _, _, dh0, dv0 = calib.samples(hor, ver, xc, yc, False)
        _, _, dh1, dv1 = calib.samples(hor, ver, xc, yc, True)
        ch, cv = calib.para_hor(hor, xc, yc), calib.para_ver(ver, xc, yc)
        k0 = radial_errors("f", calib.coef_forward(hor, ver, xc, yc, n),
                           ru, rd)[0]
        best = calib.misfit(ch, dh1) + calib.misfit(cv, dv1)
        base = calib.misfit(ch, dh0) + calib.misfit(cv, dv0)
        d = kf / k0
        got = calib.misfit(ch, dh0 * d) + calib.misfit(cv, dv0 * d)
        ctx.at_most(got, base + 1.0 + 0.1 * (base - best),
                    "optimised fit", best=best)
        if base > 1.5 * best + 4:
            ctx.seen("optimisation had something to gain")
    if how == 0:
        # any other number of coefficients: as many as asked for
        m = int(gen.pick(rng, [1, 2, 6, 7, 8]))
        for name in ("calc_coef_backward", "calc_coef_forward",
                     "calc_coef_backward_from_forward"):
            out = est(ctx, name, hor, ver, xc, yc, m)[0]
            out = out if name.endswith("from_forward") else [out]
            for v in out:
                v = np.asarray(v, float)
                ctx.check(v.shape == (m,) and np.isfinite(v).all(),
                          "as many coefficients as asked for",
                          got=list(v.shape), want=m)
    ctx.nontrivial = abs(s) * rmax > 2
    ctx.note(hor, ver, n, opt)
    ctx.sample = {"lines": [len(hor), len(ver)], "s": s, "err_b": eb,
                  "err_f": ef, "ref_b": erb, "straight_after": after}


def inverse_fit(rf, rd, n):
    f = refs.horner(rd, rf)
    return calib.fit(f * rd, 1 / f, n)


def missing(ctx, p, hor, ver, xc, yc):
    """A dropped interior line must be announced by every estimator."""
    hh, vv = list(hor), list(ver)
    if p["i"] % 2:
        del hh[int(ctx.rng.integers(2, len(hh) - 2))]
    else:
        del vv[int(ctx.rng.integers(2, len(vv) - 2))]
    name = ["calc_coef_backward", "calc_coef_forward",
            "calc_coef_backward_from_forward"][p["i"] % 3]
    kw = {"optimizing": True} if (p["i"] // 6) % 2 else {}
    _, w = est(ctx, name, hh, vv, xc, yc, 5, **kw)
    ctx.check(len(w) >= 1, "missing line warned", fn=name)
    _, w = est(ctx, name, hh, vv, xc, yc, 5, threshold=10.0)
    ctx.check(len(w) == 0, "threshold silences", fn=name)
    ctx.nontrivial = True
    ctx.note(hh, vv)
    ctx.sample = {"dropped": "hor" if p["i"] % 2 else "ver", "warned": True}


def mirror(ctx, p, hor, ver, xc, yc, rmax):
    """The model does not depend on where the origin is or which way axes
    run: translation, transposition and mirror images give the same model."""
    n, opt = 4, bool(p["i"] % 2)
    name = ["calc_coef_backward", "calc_coef_forward"][(p["i"] // 2) % 2]
    base, _ = est(ctx, name, hor, ver, xc, yc, n, optimizing=opt)
    base = np.asarray(base, float)
    r = np.linspace(0, rmax, 50)
    tx, ty = ctx.rng.uniform(-700, 700, 2)
    t = np.array([ty, tx])
    variants = {
        "translated": ([l + t for l in hor], [l + t for l in ver],
                       xc + tx, yc + ty),
        "transposed": ([l[:, ::-1] for l in ver], [l[:, ::-1] for l in hor],
                       yc, xc),
        "flipped": ([l * [-1, 1] for l in hor[::-1]],
                    [l[::-1] * [-1, 1] for l in ver], xc, -yc),
        "points reversed": ([l[::-1] for l in hor], [l[::-1] for l in ver],
                            xc, yc)}
    for what, (a, b, c, d) in variants.items():
        got, _ = est(ctx, name, a, b, c, d, n, optimizing=opt)
        diff = r * (refs.horner(r, got) - refs.horner(r, base))
        ctx.at_most(float(np.max(np.abs(diff))), 0.02, "same model", v=what)
        ctx.seen("variant", what)
    ctx.nontrivial = True
    ctx.note(hor, ver, n, opt)
