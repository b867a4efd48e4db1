"""Unwarped slices / chunks of a 3D dataset = rows of unwarped projections."""
import os
import h5py
import numpy as np
from .. import gen, refs

ID = "C02"
RULE = ("random stacks (ndarray in 6 layouts, h5py dataset, memmap; 6 dtypes;"
        " up to 40000 rows) x radial models x centres x every kind of index "
        "(first, last, centre row, random, start==stop, whole range, -1); "
        "non-trivial: the requested rows are sampled off-grid")
ASSUMPTIONS = ["radial map monotone over the frame (a physical lens model)"]
MUST_SEE = {"slice = model rows": 60, "chunk = model rows": 60,
            "chunk(-1)": 4, "missing samples": 20, "container/h5py": 5,
            "raises:unwarp_chunk_slices_backward": 10}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "slice", 160 * k)
    yield from gen.stream(seed, "chunk", 200 * k)
    yield from gen.stream(seed, "last", 16 * k)
    yield from gen.stream(seed, "bad", 30 * k)
    yield from gen.stream(seed, "tall", 6 * min(k, 4))
    yield from gen.stream(seed, "wide", 4 * min(k, 4))
    yield from gen.stream(seed, "rows", 12 * k)
    yield from gen.stream(seed, "deep", 4 * min(k, 4))
    yield from gen.stream(seed, "long", 4 * min(k, 4))
    yield from gen.stream(seed, "big", 4 * min(k, 4))
    yield from gen.stream(seed, "nan", 24 * k)
    yield from gen.stream(seed, "bow", 16 * k)


def container(ctx, rng, vol, how):
    if how == "h5py":
        path = os.path.join(ctx.workdir(), "v.h5")
        f = h5py.File(path, "w")
        f["d"] = vol
        f.flush()
        ctx._keep = f
        return f["d"]
    if how == "memmap":
        path = os.path.join(ctx.workdir(), "v.npy")
        np.save(path, vol)
        return np.load(path, mmap_mode="r")
    return gen.layout(rng, vol, how)


def expect(vol, rows, xc, yc, fact):
    d, h, w = vol.shape
    yd, xd = refs.model_coords(rows, np.arange(w), xc, yc, fact)
    yd, xd = np.clip(yd, 0, h - 1), np.clip(xd, 0, w - 1)
    y0, y1 = int(yd.min()), min(h, int(yd.max()) + 2)
    vals, tols = [], []
    for i in range(d):
        sub = vol[i, max(0, y0 - 3):y1 + 3]
        v, t = refs.sample(sub, yd - max(0, y0 - 3), xd, 1, "reflect")
        # the coordinate error scales with the frame, not with the crop
        lipadd = refs.coord_eps(max(h, w), xd) * 3 * (
            float(sub.max()) - float(sub.min()))
        vals.append(v)
        tols.append(t + lipadd)
    off = np.abs(yd - np.round(yd)) + np.abs(xd - np.round(xd))
    return np.stack(vals), np.stack(tols), float(off.max())


def missing(ctx, p, vol, how, xc, yc, fact, fc):
    """Volumes with missing samples (NaN, inf): they stay visible in the
    result, and do not spread."""
    rng = ctx.rng
    d, h, w = vol.shape
    n = int(rng.integers(1, 1 + h * w // 60))
    bad = np.zeros(vol.shape, bool)
    bad[rng.integers(0, d, n), rng.integers(0, h, n),
        rng.integers(0, w, n)] = True
    clean = np.where(bad, vol.dtype.type(0), vol)
    vol = vol.copy()
    vol[bad] = rng.choice([np.nan, np.nan, np.inf, -np.inf], bad.sum())
    src = container(ctx, rng, vol, how)
    a, b = sorted(int(v) for v in rng.integers(0, h, 2))
    if p["i"] % 2:
        b = a
        out = np.asarray(ctx.call("post.unwarp_slice_backward", src, xc, yc,
                                  fc, a))[:, None]
    else:
        out = np.asarray(ctx.call("post.unwarp_chunk_slices_backward", src,
                                  xc, yc, fc, a, b))
    val, tol, off = expect(clean, np.arange(a, b + 1), xc, yc, fact)
    ctx.need(out.shape == val.shape, "chunk = model rows",
             got=list(out.shape), want=list(val.shape))
    yd, xd = refs.model_coords(np.arange(a, b + 1), np.arange(w), xc, yc,
                               fact)
    yd, xd = np.clip(yd, 0, h - 1), np.clip(xd, 0, w - 1)
    for i in range(d):
        must, free = refs.lost_samples(bad[i], yd, xd)
        ctx.check(not np.isfinite(out[i][must]).any(), "missing samples",
                  bad=int(np.isfinite(out[i][must]).sum()), start=a, stop=b)
        ctx.close(out[i][free], val[i][free], tol[i][free],
                  "chunk = model rows", start=a, stop=b)
        ctx.nontrivial |= bool(must.any())
    ctx.note(vol, xc, yc, fact, a, b)


def run(ctx, p):
    rng = ctx.rng
    kind = p["kind"]
    d = int(rng.integers(1, 5))
    h, w = [int(v) for v in rng.integers(12, 110, 2)]
    if kind == "tall":
        d, h, w = 1, [33500, 40000, 36001, 66000, 34567, 33001][p["i"] % 6], 6
    if kind == "deep":
        d, (h, w) = [600, 300, 70, 1100][p["i"] % 4], rng.integers(5, 12, 2)
        h, w = int(h), int(w)
    if kind == "long":
        d, h, w = 1, [2100, 5000, 9000, 4200][p["i"] % 4], 5
    if kind == "wide":
        d, h, w = 1, 7, [33500, 40000, 70000, 2600][p["i"] % 4]
    if kind == "big":
        d, h, w = 1, 2500 + int(rng.integers(40)), 2700 + int(rng.integers(40))
    if kind == "bow":
        d, (h, w) = 1, [int(v) for v in rng.integers(120, 300, 2)]
    dtype = gen.cyc(p, gen.DTYPES)
    if kind == "nan":
        dtype = gen.cyc(p, ["float32", "float64"])
        h, w = max(h, 20), max(w, 20)
    vol = np.stack([gen.image(rng, h, w, dtype) for _ in range(d)])
    how = gen.pick(rng, gen.LAYOUTS + ["h5py", "memmap"])
    ctx.seen("container", how)
    ctx.seen("dtype", dtype)
    xc, yc, chow = gen.center(rng, h, w)
    fact = gen.radial_model(rng, max(gen.rmax_of(h, w, xc, yc), 2.0),
                            nf=gen.many(p))
    if kind == "big":
        # centre by a corner, rows at the far side: rows of the result gather
        # hundreds of rows of the input
        xc, yc = [float(v * rng.uniform(0.01, 0.05)) for v in (w, h)]
        xc, yc = gen.cyc(p, [(xc, yc), (w - xc, yc), (xc, h - yc),
                             (w - xc, h - yc)])
        r = gen.rmax_of(h, w, xc, yc)
        fact = np.array([1.0, 0.0, rng.choice([-0.22, 0.22]) / r ** 2])
    if kind == "bow":
        # rows bend most at the centre's column, far from the middle one
        xc = float(w * rng.choice([rng.uniform(0.12, 0.35),
                                   rng.uniform(0.65, 0.88)]))
        yc = float(h * rng.choice([-0.3, 0.02, 0.5, 0.98, 1.3]))
        r = gen.rmax_of(h, w, xc, yc)
        fact = np.array([1.0, 0.0, rng.choice([-0.2, 0.2]) / r ** 2])
    fc = gen.fact_container(rng, fact)
    if kind == "nan":
        return missing(ctx, p, vol, how, xc, yc, fact, fc)
    src = container(ctx, rng, vol, how)
    ctx.note(vol, xc, yc, fact, kind)
    ctx.sample = {"shape": [d, h, w], "dtype": dtype, "container": how,
                  "center": [xc, yc], "fact": list(map(float, fact))}
    if kind == "bad":
        ctx.nontrivial = True
        j = p["i"] % 8
        ok = int(rng.integers(0, h))
        sl = "post.unwarp_slice_backward"
        ch = "post.unwarp_chunk_slices_backward"
        if j == 0:
            ctx.raises(ValueError, sl, vol[0], xc, yc, fc, 0)
        elif j == 1:
            ctx.raises(ValueError, ch, vol[0], xc, yc, fc, 0, 1)
        elif j == 2:
            ctx.raises(ValueError, ch, src, xc, yc, fc, ok, h)
        elif j == 3:
            ctx.raises(ValueError, ch, src, xc, yc, fc, h, h + 3)
        elif j == 6:
            ctx.raises(ValueError, ch, src, xc, yc, fc, ok,
                       -int(rng.integers(2, 9)))
        elif j == 7:
            ctx.raises(ValueError, ch, src, xc, yc, fc, 0, -h)
        elif j == 4:
            ctx.raises(ValueError, ch, src, xc, yc, fc,
                       -int(rng.integers(2, 9)), ok)
        else:
            ctx.raises(ValueError, ch, src, xc, yc, fc, 0,
                       h + int(rng.integers(0, 50)))
        return
    special = [0, h - 1, int(np.clip(round(yc), 0, h - 1)),
               min(h - 1, 1), max(0, h - 2)]
    if kind in ("slice", "rows") or (kind in ("tall", "wide", "deep",
                                              "bow") and p["i"] % 2 == 0) or (
            kind == "big" and p["i"] < 2):
        if kind == "rows":
            idxs = list(range(0, h, max(1, h // 25)))
        else:
            idxs = [special[p["i"] % 5] if p["i"] % 2 else
                    int(rng.integers(0, h))]
        if kind == "tall":
            idxs = [h - 1 - int(rng.integers(0, 60)), 32767, 32768,
                    int(rng.integers(0, h))]
        if kind == "big":
            n = int(rng.integers(0, 9))
            idxs = [h - 1 - n if yc < h / 2 else n]
        for idx in idxs:
            arg = np.int64(idx) if rng.random() < 0.3 else int(idx)
            out = np.asarray(ctx.call("post.unwarp_slice_backward", src, xc,
                                      yc, fc, arg))
            val, tol, off = expect(vol, [idx], xc, yc, fact)
            ctx.nontrivial |= off > 0.01
            ctx.close(out, val[:, 0], tol[:, 0], "slice = model rows",
                      index=idx)
            if kind == "rows":
                full = [np.asarray(ctx.call(
                    "post.unwarp_image_backward", vol[i], xc, yc, fc))[idx]
                    for i in range(d)]
                ctx.close(out, np.stack(full).astype(float), 2 * tol[:, 0],
                          "slice = row of the unwarped image", index=idx)
        return
    # chunks
    if kind == "long":
        a, b = int(rng.integers(0, 9)), h - 1 - int(rng.integers(0, 9))
    elif kind == "big":
        a = h - 20 if yc < h / 2 else 0
        b = a + int(rng.integers(0, 12))
    elif kind == "bow":
        a = int(rng.integers(0, h))
        b = min(h - 1, a + int(rng.integers(0, 12)))
    elif kind == "tall":
        a = [h - 40, 32760, 33000, 32768][p["i"] % 4]
        b = min(h - 1, a + int(rng.integers(0, 30)))
    else:
        pat = p["i"] % 5
        a, b = sorted(int(v) for v in rng.integers(0, h, 2))
        if pat == 0:
            b = a
        elif pat == 1:
            a, b = 0, h - 1
        elif pat == 2:
            a = 0
        elif pat == 3:
            b = h - 1
    stop = b
    if kind == "last":
        b, stop = h - 1, -1
    if rng.random() < 0.3:
        a = np.int64(a)
    out = np.asarray(ctx.call("post.unwarp_chunk_slices_backward", src, xc,
                              yc, fc, a, stop))
    val, tol, off = expect(vol, np.arange(a, b + 1), xc, yc, fact)
    ctx.nontrivial |= off > 0.01
    ctx.close(out, val, tol, "chunk = model rows", start=int(a), stop=stop)
    if kind == "last":
        ctx.asserts["chunk(-1)"] += 1
    if kind == "chunk" and p["i"] % 3 == 0:
        m = (int(a) + b) // 2
        one = np.asarray(ctx.call("post.unwarp_slice_backward", src, xc, yc,
                                  fc, m))
        ctx.close(one, out[:, m - int(a)].astype(float),
                  2 * tol[:, m - int(a)],
                  "slice = same row of the chunk", index=m)
