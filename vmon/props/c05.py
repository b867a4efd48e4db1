"""Forward unwarping = scatter of every input pixel."""
import numpy as np
from .. import gen, refs

ID = "C05"
RULE = ("coded images (every pixel its own value, so each output pixel names "
        "its source) and random images in 6 dtypes/layouts x centres x "
        "forward models, mild to wild; non-trivial: some pixel moves by more "
        "than half a pixel")
ASSUMPTIONS = ["ties of rounding within 1e-6 of a half may go either way"]
MUST_SEE = {"source maps here": 60, "no target left empty": 60,
            "vacant = 0": 60, "value of a colliding source": 60}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "coded", 160 * k)
    yield from gen.stream(seed, "values", 120 * k)
    yield from gen.stream(seed, "identity", 16 * k)
    yield from gen.stream(seed, "big", 5 * min(k, 4))


def targets(c, n, d):
    v = np.clip(c + d, 0, n - 1)
    lo = np.floor(v + 0.5 - 1e-6).astype(int)
    hi = np.floor(v + 0.5 + 1e-6).astype(int)
    return np.clip(lo, 0, n - 1), np.clip(hi, 0, n - 1)


def name(v):
    return "nan" if v != v else v


def run(ctx, p):
    rng = ctx.rng
    kind = p["kind"]
    h, w = [int(v) for v in rng.integers(3, 80, 2)]
    if kind == "big":
        h, w = [(900, 1300), (40, 33500), (33100, 33),
                (3, 66500), (66300, 4)][p["i"] % 5]
    xc, yc, _ = gen.center(rng, h, w)
    rmax = max(gen.rmax_of(h, w, xc, yc), 2.0)
    fact = gen.radial_model(rng, rmax, nf=gen.many(p))
    if rng.random() < 0.3:
        fact = fact * rng.uniform(0.4, 1.6)
    if rng.random() < 0.1:
        n = int(rng.integers(1, 6))
        fact = rng.normal(size=n) / rmax ** np.arange(n)
    if kind == "identity":
        fact = np.array([1.0, 0.0, 0.0])
    y, x = np.mgrid[:h, :w].astype(float)
    r = np.sqrt((x - xc) ** 2 + (y - yc) ** 2)
    f = refs.horner(r, fact)
    ylo, yhi = targets(yc, h, f * (y - yc))
    xlo, xhi = targets(xc, w, f * (x - xc))
    sure = (ylo == yhi) & (xlo == xhi)
    dtype = gen.cyc(p, gen.DTYPES)
    if kind in ("coded", "big"):
        img = np.arange(1, h * w + 1).reshape(h, w)
        img = img.astype(gen.pick(rng, ["float64", "int32", "int64"]))
    else:
        img = gen.image(rng, h, w, dtype)
        if kind == "values" and img.dtype.kind == "f" and rng.random() < 0.4:
            # marked pixels
            img = np.array(img)
            for v in (np.nan, np.inf, -np.inf):
                img.ravel()[rng.integers(0, img.size, 3)] = v
            ctx.seen("not finite")
    ctx.note(img, xc, yc, fact)
    ctx.nontrivial = bool(np.max(np.abs(f - 1) * r) > 0.5)
    ctx.sample = {"shape": [h, w], "dtype": str(img.dtype),
                  "center": [xc, yc], "fact": list(map(float, fact))}
    src = gen.layout(rng, img, gen.pick(rng, gen.LAYOUTS))
    out = np.asarray(ctx.call("post.unwarp_image_forward", src, xc, yc,
                              gen.fact_container(rng, fact)))
    ctx.need(out.shape == (h, w), "shape", got=list(out.shape))
    ctx.check(out.dtype == img.dtype, "dtype", got=str(out.dtype),
              want=str(img.dtype))
    hit_sure = np.zeros((h, w), bool)
    hit_sure[ylo[sure], xlo[sure]] = True
    hit_any = np.zeros((h, w), bool)
    for yy in (ylo, yhi):
        for xx in (xlo, xhi):
            hit_any[yy, xx] = True
    ctx.check(np.all(out[~hit_any] == 0), "vacant = 0")
    if kind in ("coded", "big"):
        ctx.check(np.all(out[hit_sure] != 0), "no target left empty",
                  empty=int((out[hit_sure] == 0).sum()))
        oy, ox = np.nonzero(out)
        idx = out[oy, ox].astype(np.int64) - 1
        good = (idx >= 0) & (idx < h * w)
        ctx.check(good.all(), "source maps here", reason="value unknown")
        oy, ox, idx = oy[good], ox[good], idx[good]
        sy, sx = idx // w, idx % w
        ok = ((oy >= ylo[sy, sx]) & (oy <= yhi[sy, sx])
              & (ox >= xlo[sy, sx]) & (ox <= xhi[sy, sx]))
        ctx.check(ok.all(), "source maps here", bad=int((~ok).sum()))
        return
    cand = {}
    for yy in (ylo, yhi):
        for xx in (xlo, xhi):
            for k, v in zip((yy * w + xx).ravel().tolist(),
                            map(name, img.ravel().tolist())):
                cand.setdefault(k, set()).add(v)
    flat = [name(v) for v in out.ravel().tolist()]
    bad = 0
    hs = hit_sure.ravel()
    for k, vals in cand.items():
        if flat[k] not in vals and (hs[k] or flat[k] != 0):
            bad += 1
    ctx.check(bad == 0, "value of a colliding source", bad=bad)
    if kind == "identity":
        ctx.check(np.array_equal(out, img), "identity")
