"""Colour / padded / OpenCV unwarping against the plain reference model."""
import numpy as np
from .. import gen, refs

ID = "C04"
RULE = ("random 2D/3D images (1-5 channels, 6 dtypes, 6 layouts) x pads (int, "
        "tuple, list, False, 0, True) x pad modes x orders x centres x "
        "models; OpenCV versions and video with a scripted camera and a "
        "recording display; non-trivial: the model moves a pixel by >0.5 px "
        "or the pad is not zero")
ASSUMPTIONS = ["numpy.pad defines what a pad mode means",
               "OpenCV bilinear sampling may be quantised to 1/32 pixel"]
MUST_SEE = {"channel = padded reference": 150, "auto pad keeps the view": 20,
            "cv2 = reference": 40, "cv2 map = reference": 40, "video frame = reference": 10,
            "raises:unwarp_color_image_backward": 10, "pad/auto": 20}
PADM = ["constant", "edge", "reflect", "symmetric", "linear_ramp", "mean",
        "wrap"]
F = "util.unwarp_color_image_backward"


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "color", 220 * k)
    yield from gen.stream(seed, "auto", 70 * k)
    yield from gen.stream(seed, "cv2", 90 * k)
    yield from gen.stream(seed, "cv2auto", 30 * k)
    yield from gen.stream(seed, "map", 40 * k)
    yield from gen.stream(seed, "video", 24 * k)
    yield from gen.stream(seed, "bad", 24 * k)
    yield from gen.stream(seed, "same", 30 * k)


def stack(rng, h, w, ch, dtype):
    if ch == 0:
        return gen.image(rng, h, w, dtype)
    return np.stack([gen.image(rng, h, w, dtype) for _ in range(ch)], axis=2)


def model(rng, h, w):
    xc, yc, chow = gen.center(rng, h, w, gen.pick(
        rng, ["mid", "off", "off", "int", "edge", "corner", "out"]))
    fact = gen.radial_model(rng, max(gen.rmax_of(h, w, xc, yc), 4.0))
    return xc, yc, fact, chow


def any_pad(rng, h, w):
    how = gen.pick(rng, ["int", "tuple", "list", "false", "zero", "onesided"])
    if how == "int":
        return int(rng.integers(1, 30)), how
    if how == "tuple":
        return tuple(int(v) for v in rng.integers(0, 25, 4)), how
    if how == "list":
        return [int(v) for v in rng.integers(0, 25, 4)], how
    if how == "onesided":
        t = [0, 0, 0, 0]
        t[int(rng.integers(4))] = int(rng.integers(1, 30))
        return tuple(t), how
    return (False if how == "false" else 0), how


def widths(pad):
    if isinstance(pad, bool):
        return 0, 0, 0, 0
    if isinstance(pad, int):
        return pad, pad, pad, pad
    return tuple(pad)


def padded(img, tblr, pm):
    t, b, le, r = tblr
    pw = [(t, b), (le, r)] + ([(0, 0)] if img.ndim == 3 else [])
    return np.pad(img, pw, mode=pm)


def judge(ctx, out, big, xc, yc, fact, t, le, order, mode, name, extra=0.0):
    hh, ww = big.shape[:2]
    yd, xd = refs.model_coords(np.arange(hh), np.arange(ww), xc + le, yc + t,
                               fact)
    out = np.asarray(out)
    if not ctx.check(out.shape == big.shape, "shape", got=list(out.shape),
                     want=list(big.shape)):
        return False
    ok = True
    if big.ndim == 2:
        ok &= refs.judge_sampling(ctx, out, big, yd, xd, order, mode, name,
                                  extra)
    else:
        for c in range(big.shape[2]):
            ok &= refs.judge_sampling(ctx, out[:, :, c], big[:, :, c], yd, xd,
                                      order, mode, name, extra)
    return ok


def true_pads(h, w, xc, yc, fact):
    """Undistorted positions of the four corners of the frame."""
    pts = []
    for y in (0, h - 1):
        for x in (0, w - 1):
            rd = np.hypot(y - yc, x - xc)
            hi = rd * 1.4 / fact[0] + 1
            ru = refs.solve_radius(rd, fact, hi)
            f = ru / rd if rd else 1.0
            pts.append((yc + (y - yc) * f, xc + (x - xc) * f))
    pts = np.array(pts)
    return (-pts[:, 0].min(), pts[:, 0].max() - (h - 1),
            -pts[:, 1].min(), pts[:, 1].max() - (w - 1))


def mild_model(rng, h, w):
    """Centre in the frame, distortion the polynomial inverse can follow."""
    xc = (w - 1) / 2 + rng.uniform(-0.2, 0.2) * w
    yc = (h - 1) / 2 + rng.uniform(-0.2, 0.2) * h
    rmax = gen.rmax_of(h, w, xc, yc)
    n = int(rng.integers(3, 6))
    s = rng.choice([-1, -1, 1]) * rng.uniform(0.02, 0.05)
    fact = np.zeros(n)
    fact[0] = 1.0
    mix = rng.dirichlet(np.ones(n - 1))
    fact[1:] = s * mix / rmax ** np.arange(1, n)
    return xc, yc, fact


def auto(ctx, rng, func, h, w, ch, dtype, extra_cv=False):
    xc, yc, fact = mild_model(rng, h, w)
    if rng.random() < 0.15:
        # a plain reduction: pads as wide as the image
        fact = np.zeros(int(rng.integers(1, 4)))
        fact[0] = rng.uniform(0.45, 0.9)
        ctx.seen("pad", "auto, wide")
    img = stack(rng, h, w, ch, dtype)
    pm = gen.pick(rng, ["constant", "edge", "mean"])
    need = true_pads(h, w, xc, yc, fact)
    fc = gen.fact_container(rng, fact)
    ctx.note(img, xc, yc, fact, pm)
    ctx.nontrivial = True
    ctx.seen("pad", "auto")
    ctx.sample = {"shape": list(img.shape), "center": [xc, yc],
                  "fact": list(map(float, fact)), "needed_pads": list(need)}
    out = np.asarray(ctx.call(func, img, xc, yc, fc, pad=True, pad_mode=pm))
    hh, ww = out.shape[:2]
    slackpx = 2.4 + 0.07 * max(0, max(need))

    def options(n):
        lo = max(0, int(np.ceil(n - slackpx)))
        hi = max(0, int(np.floor(n + 0.6)))
        return range(lo, hi + 1)
    best = None
    for t in options(need[0]):
        b = hh - h - t
        if b not in options(need[1]):
            continue
        for le in options(need[2]):
            r = ww - w - le
            if r not in options(need[3]):
                continue
            big = padded(img, (t, b, le, r), pm)
            yd, xd = refs.model_coords(np.arange(hh), np.arange(ww), xc + le,
                                       yc + t, fact)
            yd, xd = np.clip(yd, 0, hh - 1), np.clip(xd, 0, ww - 1)
            o = out if out.ndim == 2 else out[:, :, 0]
            g = big if big.ndim == 2 else big[:, :, 0]
            val, _ = refs.sample(g, yd, xd, 1, "reflect")
            e = float(np.mean(np.abs(o - val)))
            if best is None or e < best[0]:
                best = (e, (t, b, le, r), big)
    if not ctx.check(best is not None, "auto pad keeps the view",
                     out=list(out.shape), frame=[h, w], need=list(need)):
        return
    t, b, le, r = best[1]
    extra = cvtol(best[2]) if extra_cv else 0.0
    judge(ctx, out, best[2], xc, yc, fact, t, le, 1, "reflect",
          "auto pad = reference", extra)


def cvtol(img):
    a = img.astype(np.float64)
    return (a.max() - a.min()) * 0.07 + (1.0 if img.dtype.kind in "ui"
                                         else 0.0)


def run(ctx, p):
    rng = ctx.rng
    kind = p["kind"]
    h, w = [int(v) for v in rng.integers(16, 90, 2)]
    dtype = gen.cyc(p, gen.DTYPES)
    ch = gen.pick(rng, [0, 1, 2, 3, 3, 4, 5])
    if kind == "bad":
        img = stack(rng, h, w, ch, dtype)
        xc, yc, fact, _ = model(rng, h, w)
        bad = [(1, 2, 3), [5], (1, 2, 3, 4, 5), 1.5, "4", None, (), [1, 2],
               {"t": 1}][p["i"] % 9]
        ctx.nontrivial = True
        ctx.note(img, str(bad))
        func = F if p["i"] % 3 else "util.unwarp_image_backward_cv2"
        ctx.raises(ValueError, F, img, xc, yc, fact, pad=bad)
        ctx.raises(ValueError, "util.unwarp_image_backward_cv2",
                   img.astype(np.float32), xc, yc, fact, pad=bad)
        return
    if kind == "auto":
        h, w = [int(v) for v in rng.integers(40, 420, 2)]
        if p["i"] % 12 == 11:
            h, w = int(rng.integers(1050, 1700)), int(rng.integers(80, 200))
            if p["i"] % 24 == 11:
                h, w = w, h
            ctx.seen("long image")
        return auto(ctx, rng, F, h, w, ch, dtype)
    if kind == "cv2auto":
        h, w = [int(v) for v in rng.integers(40, 420, 2)]
        return auto(ctx, rng, "util.unwarp_image_backward_cv2", h, w,
                    gen.pick(rng, [0, 3]),
                    gen.pick(rng, ["uint8", "float32"]), True)
    xc, yc, fact, chow = model(rng, h, w)
    fc = gen.fact_container(rng, fact)
    pad, how = any_pad(rng, h, w)
    if kind == "color" and p["i"] % 60 == 17:
        pad, how, ch = int(rng.integers(1000, 1100)), "int", 0
        ctx.seen("pad", "very wide")
    elif kind == "color" and p["i"] % 60 == 37:
        pad, how = [0, 0, 0, 0], "list"
        pad[p["i"] // 60 % 4] = int(rng.integers(2000, 5000))
        ctx.seen("pad", "very wide")
    tblr = widths(pad)
    pm = gen.pick(rng, PADM)
    if kind == "same":
        # the three implementations agree on an unpadded grey image
        img = gen.image(rng, h, w, gen.pick(rng, ["float32", "float64"]),
                        "smooth")
        ctx.note(img, xc, yc, fact)
        ctx.nontrivial = True
        a = np.asarray(ctx.call("post.unwarp_image_backward", img, xc, yc,
                                fc))
        b = np.asarray(ctx.call(F, img, xc, yc, fc))
        c = np.asarray(ctx.call("util.unwarp_image_backward_cv2", img, xc, yc,
                                fc))
        s = float(img.max()) - float(img.min())
        ctx.close(b, a, 1e-4 * s + 1e-9, "colour = plain")
        ctx.close(c, a, 0.05 * s + 1e-9, "cv2 = plain")
        return
    if kind == "color":
        img = stack(rng, h, w, ch, dtype)
        order = gen.pick(rng, [1, 1, 1, 0, 3, 2, None])
        mode = gen.pick(rng, gen.MODES + [None, None])
        kw = {"pad": pad, "pad_mode": pm}
        if order is not None:
            kw["order"] = order
        if mode is not None:
            kw["mode"] = mode
        if how == "false" and rng.random() < 0.5:
            kw.pop("pad")
        if pm == "constant" and rng.random() < 0.5:
            kw.pop("pad_mode")
        ctx.note(img, xc, yc, fact, str(kw))
        ctx.nontrivial = True
        ctx.seen("pad", how)
        ctx.seen("padmode", pm)
        ctx.seen("channels", ch)
        ctx.sample = {"shape": list(img.shape), "pad": str(pad),
                      "pad_mode": pm, "order": order, "center": [xc, yc]}
        src = gen.layout(rng, img, gen.pick(rng, gen.LAYOUTS))
        out = ctx.call(F, src, xc, yc, fc, **kw)
        ctx.check(np.asarray(out).dtype == img.dtype, "dtype",
                  got=str(np.asarray(out).dtype), want=str(img.dtype))
        big = padded(img, tblr, pm)
        judge(ctx, out, big, xc, yc, fact, tblr[0], tblr[2],
              1 if order is None else order, mode or "reflect",
              "channel = padded reference")
        return
    import cv2
    if kind == "map":
        return mapped(ctx, p, rng, h, w, cv2)
    if kind == "cv2":
        dt = gen.pick(rng, ["uint8", "uint16", "float32", "int16"])
        ch = gen.pick(rng, [0, 1, 3, 3, 4])
        img = stack(rng, h, w, ch, dt)
        near = rng.random() < 0.25
        kw = {"pad": pad, "pad_mode": pm}
        if near:
            kw["method"] = cv2.INTER_NEAREST
        if rng.random() < 0.3:
            kw["border"] = cv2.BORDER_REPLICATE
        ctx.note(img, xc, yc, fact, str(kw))
        ctx.nontrivial = True
        ctx.seen("cv2pad", how)
        out = np.asarray(ctx.call("util.unwarp_image_backward_cv2", img, xc,
                                  yc, fc, **kw))
        big = padded(img, tblr, pm)
        if ch == 1 and out.ndim == 2:
            out = out[:, :, None]
        if not ctx.check(out.shape == big.shape, "shape",
                         got=list(out.shape), want=list(big.shape)):
            return
        hh, ww = big.shape[:2]
        yd, xd = refs.model_coords(np.arange(hh), np.arange(ww),
                                   xc + tblr[2], yc + tblr[0], fact)
        yd, xd = np.clip(yd, 0, hh - 1), np.clip(xd, 0, ww - 1)
        o3 = out if out.ndim == 3 else out[:, :, None]
        b3 = big if big.ndim == 3 else big[:, :, None]
        for c in range(b3.shape[2]):
            if near:
                ok = np.zeros((hh, ww), bool)
                for cand in refs.nearest_candidates(b3[:, :, c], yd, xd,
                                                    0.04):
                    ok |= np.abs(o3[:, :, c] - cand) < 1e-3
                ctx.check(ok.all(), "cv2 = reference", near=True,
                          bad=int((~ok).sum()))
            else:
                val, lip = refs.bilinear(b3[:, :, c], yd, xd)
                tol = 0.07 * lip + 1e-5 * np.abs(val).max() + 1e-9
                if big.dtype.kind in "ui":
                    tol = tol + 1.0
                ctx.close(o3[:, :, c], val, tol, "cv2 = reference")
        return
    # video
    dt = gen.pick(rng, ["uint8", "float32"])
    ch = gen.pick(rng, [0, 3])
    n = int(rng.integers(2, 6))
    frames = [stack(rng, h, w, ch, dt) for _ in range(n)]
    drops = set(int(v) for v in rng.integers(1, n, 1)) if n > 3 and \
        rng.random() < 0.4 else set()
    if p["i"] % 4 == 0:
        pad, tblr = None, None
        xc, yc, fact = mild_model(rng, h, w)
        fc = gen.fact_container(rng, fact)
        pm = "constant"

    class Cam:
        pos = -1
        released = 0
        reads = 0

        def get(self, prop):
            return {cv2.CAP_PROP_FRAME_WIDTH: float(w),
                    cv2.CAP_PROP_FRAME_HEIGHT: float(h)}.get(prop, 0.0)

        def read(self):
            Cam.pos += 1
            Cam.reads += 1
            if Cam.pos in drops:
                return False, None
            return True, frames[Cam.pos % n].copy()

        def isOpened(self):
            return True

        def release(self):
            Cam.released += 1
    shown = []

    def imshow(title, frame):
        shown.append((Cam.pos, np.array(frame)))

    def wait(ms=0):
        return 27 if Cam.pos >= n - 1 or len(shown) > 40 else 255
    saved = {k: getattr(cv2, k, None)
             for k in ("imshow", "waitKey", "destroyAllWindows")}
    try:
        cv2.imshow, cv2.waitKey = imshow, wait
        cv2.destroyAllWindows = lambda: None
        kw = {} if pad is None else {"pad": pad, "pad_mode": pm}
        ctx.note(frames[0], xc, yc, fact, str(kw))
        ctx.nontrivial = True
        ctx.call("util.unwarp_video_cv2", Cam(), xc, yc, fc, **kw)
    finally:
        for k, v in saved.items():
            setattr(cv2, k, v)
    ctx.check(Cam.released >= 1, "camera released")
    ctx.check(len(shown) >= 1, "frames shown", n=len(shown))
    for pos, fr in shown:
        src = frames[pos % n]
        if pad is None:
            want = np.asarray(ctx.call("util.unwarp_image_backward_cv2", src,
                                       xc, yc, fc, pad=True))
            ctx.close(fr, want.astype(float), cvtol(src) + 1e-9,
                      "video frame = reference")
            continue
        big = padded(src, tblr, pm)
        judge(ctx, fr, big, xc, yc, fact, tblr[0], tblr[2], 1, "reflect",
              "video frame = reference", cvtol(big))


def mapped(ctx, p, rng, h, w, cv2):
    """mapping_cv2 samples at the given float positions with the chosen
    method; a position off the image follows the chosen border rule."""
    h, w = max(h, 6), max(w, 6)
    dt = gen.pick(rng, ["uint8", "uint16", "float32", "int16"])
    ch = gen.pick(rng, [0, 3])
    img = stack(rng, h, w, ch, dt)
    ho, wo = [int(v) for v in rng.integers(4, 60, 2)]
    ymat = rng.uniform(-6, h + 5, (ho, wo)).astype(np.float32)
    xmat = rng.uniform(-6, w + 5, (ho, wo)).astype(np.float32)
    kw, how = {}, p["i"] % 4
    if how == 1:
        kw["border"] = cv2.BORDER_CONSTANT
    elif how == 2:
        kw["border"] = cv2.BORDER_REPLICATE
    elif how == 3:
        kw["border"] = cv2.BORDER_REFLECT_101
    near = p["i"] % 3 == 2
    if near:
        kw["method"] = cv2.INTER_NEAREST
    elif p["i"] % 3 == 1:
        kw["method"] = cv2.INTER_LINEAR
    ctx.note(img, ymat, xmat, str(kw))
    ctx.nontrivial = True
    ctx.seen("border", how)
    out = np.asarray(ctx.call("util.mapping_cv2", img, xmat, ymat, **kw))
    if not ctx.check(out.shape == (ho, wo) + img.shape[2:], "map shape",
                     got=list(out.shape)):
        return
    yd, xd = ymat.astype(float), xmat.astype(float)
    pad = 12
    pm = ["constant", "constant", "edge", "reflect"][how]
    if pm == "reflect":
        pad = min(h, w) - 1
        yd = np.clip(yd, -pad + 1, h + pad - 2)
        xd = np.clip(xd, -pad + 1, w + pad - 2)
        use = (yd == ymat) & (xd == xmat)
    else:
        use = np.ones((ho, wo), bool)
    big = padded(img, (pad, pad, pad, pad), pm)
    o3 = out if out.ndim == 3 else out[:, :, None]
    b3 = big if big.ndim == 3 else big[:, :, None]
    for c in range(b3.shape[2]):
        if near:
            ok = ~use
            for cand in refs.nearest_candidates(b3[:, :, c], yd + pad,
                                                xd + pad, 0.04):
                ok = ok | (np.abs(o3[:, :, c] - cand) < 1e-3)
            ctx.check(ok.all(), "cv2 map = reference", near=True, how=how,
                      bad=int((~ok).sum()))
        else:
            val, lip = refs.bilinear(b3[:, :, c], yd + pad, xd + pad)
            tol = 0.07 * lip + 1e-5 * np.abs(val).max() + 1e-9
            if big.dtype.kind in "ui":
                tol = tol + 1.0
            ctx.close(np.where(use, o3[:, :, c], val), val, tol,
                      "cv2 map = reference")
