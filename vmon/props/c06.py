"""Conversion of radial models between backward and forward mapping."""
import numpy as np
from .. import gen, refs

ID = "C06"
RULE = ("radial models of 1-6 coefficients (relative distortion 0.001-0.2 at "
        "the rim of the reference region, barrel/pincushion, any scale a0) x "
        "both directions x default, gridded, random and minimal reference "
        "points; non-trivial: the model moves the rim by >0.5 px")
ASSUMPTIONS = ["monotone models, positive over the reference region"]
MUST_SEE = {"composition ~ identity": 100, "round trip": 30,
            "raises:transform_coef_backward_and_forward": 8,
            "as good as an independent fit": 100,
            "surplus points/0": 10, "refs/dense": 4}
F = "proc.transform_coef_backward_and_forward"


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "default", 70 * k)
    yield from gen.stream(seed, "refs", 140 * k)
    yield from gen.stream(seed, "round", 50 * k)
    yield from gen.stream(seed, "bad", 16 * k)
    yield from gen.stream(seed, "minimal", 32 * k)
    yield from gen.stream(seed, "exact", 30 * k)


def best_fit_error(fact, pts, n):
    r = np.hypot(pts[:, 0], pts[:, 1])
    f = refs.horner(r, fact)
    ru = r * f
    s = max(ru.max(), 1e-9)
    a = (ru[:, None] / s) ** np.arange(n)
    c = np.linalg.lstsq(a, 1 / f, rcond=None)[0]
    return c / s ** np.arange(n), float(np.sqrt(np.mean(
        (a @ c - 1 / f) ** 2)))


def run(ctx, p):
    rng = ctx.rng
    kind = p["kind"]
    mapping = gen.pick(rng, ["backward", "forward", None])
    kw = {} if mapping is None else {"mapping": mapping}
    ctx.seen("mapping", mapping)
    if kind == "default":
        rmax = 1000 * np.sqrt(2)
        pts = np.array([[i, j] for i in np.arange(-1000, 1000, 50)
                        for j in np.arange(-1000, 1000, 50)], float)
        refp = None
    else:
        half = 10 ** rng.uniform(1.3, 3.4)
        how = gen.pick(rng, ["grid", "random", "few", "off"])
        if kind == "refs" and p["i"] % 20 == 7:
            how = "dense"
        if how == "grid":
            g = np.linspace(-half, half, 25)
            pts = np.array([[i, j] for i in g for j in g])
        elif how == "random":
            pts = rng.uniform(-half, half, (400, 2))
        elif how == "dense":
            pts = rng.uniform(-half, half, (int(rng.integers(10001, 20000)), 2))
        elif how == "off":
            pts = rng.uniform(0, 1, (400, 2)) * half + \
                rng.uniform(-0.4, 0, 2) * half
        else:
            pts = rng.uniform(-half, half, (12, 2))
        ctx.seen("refs", how)
        rmax = float(np.hypot(pts[:, 0], pts[:, 1]).max())
        refp = gen.pick(rng, ["list", "array"])
        refp = pts.tolist() if refp == "list" else pts
        kw["ref_points"] = refp
    n = int(rng.integers(2, 6))
    if kind == "minimal":
        # exactly as many points as coefficients (the documented minimum),
        # or one or two more, at clearly different radii
        m = n + gen.cyc(p, [0, 0, 1, 2])
        rr = half * (np.arange(m) + rng.uniform(0.5, 0.9, m)) / m
        tt = rng.uniform(0, 2 * np.pi, m)
        pts = np.stack([rr * np.sin(tt), rr * np.cos(tt)], axis=1)
        pts = pts[rng.permutation(m)]
        rmax = float(rr.max())
        refp = pts if isinstance(refp, np.ndarray) else pts.tolist()
        kw["ref_points"] = refp
        ctx.seen("surplus points", m - n)
    s = rng.choice([-1, 1]) * 10 ** rng.uniform(-3, -0.8)
    fact = gen.radial_model(rng, rmax, nf=n, strength=s)
    if rng.random() < 0.4:
        fact = fact * rng.uniform(0.7, 1.4)
    if kind == "exact":
        # a constant scale inverts exactly
        fact = np.zeros(n)
        fact[0] = rng.uniform(0.5, 2.0)
    ctx.note(fact, pts, str(mapping))
    ctx.sample = {"fact": list(map(float, fact)), "mapping": mapping,
                  "points": len(pts), "rmax": rmax}
    if kind == "bad":
        ctx.nontrivial = True
        few = pts[:int(rng.integers(1, n))] if n > 1 else pts[:0]
        ctx.raises(ValueError, F, list(fact), ref_points=few.tolist())
        ctx.raises(ValueError, F, fact, mapping="forward", ref_points=few)
        return
    ctx.nontrivial = abs(s) * rmax > 0.5
    fc = gen.fact_container(rng, fact, gen.pick(rng, ["array", "list"]))
    got = np.asarray(ctx.call(F, fc, **kw), dtype=float)
    ctx.need(got.shape == (n,), "one coefficient per coefficient",
             got=list(got.shape), want=n)
    ctx.need(np.all(np.isfinite(got)), "finite", got=got)
    r = np.hypot(pts[:, 0], pts[:, 1])
    f = refs.horner(r, fact)
    ru = r * f
    comp = refs.horner(ru, got) * f          # should be 1
    own, ref_err = best_fit_error(fact, pts, n)
    rms = float(np.sqrt(np.mean((refs.horner(ru, got) - 1 / f) ** 2)))
    ctx.at_most(rms, 1.05 * ref_err + 2e-6, "as good as an independent fit",
                ref=ref_err)
    # absolute quality, at the points and between them
    sa = float(np.max(np.abs(f / fact[0] - 1)))
    ctx.at_most(float(np.max(np.abs(comp - 1))), 4 * sa ** 2 + 1e-5,
                "composition ~ identity", strength=sa, n=n)
    if kind == "round":
        pts2 = pts * f[:, None]
        kw2 = {"ref_points": pts2,
               "mapping": "forward" if mapping != "forward" else "backward"}
        back = np.asarray(ctx.call(F, got, **kw2), dtype=float)
        q = np.linspace(0.1, 1, 40) * rmax
        err = np.abs(refs.horner(q, back) / refs.horner(q, fact) - 1)
        if r.min() < 0.3 * rmax:
            ctx.at_most(float(err.max()), 8 * sa ** 2 + 1e-5, "round trip")
    if kind == "exact":
        ctx.close(comp, np.ones_like(comp), 1e-6, "scale inverts exactly")
