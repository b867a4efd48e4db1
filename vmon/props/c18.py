"""Save / load round trips of every persistence format."""
import json
import os
import pathlib

import h5py
import numpy as np
from PIL import Image

from .. import gen

ID = "C18"
RULE = ("values of every magnitude (subnormal to 1e300, signed zero, inf), "
        "Python and numpy numbers, 0-14 coefficients as list/tuple/array; "
        "nested Python lists; HDF arrays of 0-5 dimensions and 10 dtypes, "
        "streams filled slice by slice; TIFF/PNG/BMP/JPG images of every "
        "supported dtype, memory layout and channel count; file names with "
        "and without extension, upper case, spaces, unicode, relative, in "
        "missing folders, over an older longer file; non-trivial: data not "
        "constant")
ASSUMPTIONS = ["TIFF dtypes are those PIL can write (8/16/32-bit integers, "
               "32/64-bit floats; 64-bit floats are stored as 32-bit)",
               "a name without extension has no dot in it (pathlib would "
               "take the part after the dot for the extension)"]
MUST_SEE = {"metadata round trip": 150, "list round trip": 60,
            "hdf round trip": 60, "stream round trip": 40,
            "tiff round trip": 80, "8-bit round trip": 80, "float range/tiny": 2,
            "saver's path": 300, "saved last": 60, "missing file": 10, "name/missing folder":
            20, "name/no extension": 20,
            "name/other extension": 15, "hdf/large": 5, "tiff/large": 5, "name/relative": 20,
            "over/longer": 30, "numbers/numpy integers": 20}

L = "losa."


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    for kind, n in [("meta", 190), ("list", 80), ("hdf", 90), ("stream", 60),
                    ("tiff", 110), ("eight", 180), ("jpg", 20),
                    ("foreign", 30), ("missing", 24), ("again", 24)]:
        yield from gen.stream(seed, kind, n * k)


def do_again(ctx, p):
    """Save, load, change what was loaded, save something else of the same
    kind under the same name, load: always what was saved last."""
    rng = ctx.rng
    root = ctx.workdir()
    fmt = gen.cyc(p, ["txt", "json", "pkl", "hdf", "tif", "png"])
    path = os.path.join(root, "a." + fmt)
    for step in range(3):
        if fmt in ("txt", "json"):
            v = (float(rng.normal()), float(rng.normal()),
                 [float(t) for t in rng.normal(size=4)])
            ctx.call(L + "save_metadata_" + fmt, path, *v)
            got = ctx.call(L + "load_metadata_" + fmt, path)
            ok = (got[0], got[1], list(got[2])) == v
            got[2].append(0.0)
            got = ctx.call(L + "load_metadata_" + fmt, path)
            ok = ok and (got[0], got[1], list(got[2])) == v
        elif fmt == "pkl":
            v = [float(t) for t in rng.normal(size=4)]
            ctx.call(L + "save_python_list", path, v)
            got = ctx.call(L + "load_python_list", path)
            ok = got == v
            got.append(1)
            ok = ok and ctx.call(L + "load_python_list", path) == v
        elif fmt == "hdf":
            v = rng.random((4, 5)).astype("f4")
            ctx.call(L + "save_hdf_file", path, v)
            got = ctx.call(L + "load_hdf_file", path)
            ok = np.array_equal(got, v)
            got[...] = 7
            ok = ok and np.array_equal(ctx.call(L + "load_hdf_file", path),
                                       v)
        else:
            v = rng.integers(0, 255, (6, 7)).astype("u1")
            ctx.call(L + "save_image", path, v)
            got = np.asarray(ctx.call(L + "load_image", path))
            ok = np.array_equal(got, v)
            if got.flags.writeable:
                got[...] = 7
            ok = ok and np.array_equal(ctx.call(L + "load_image", path), v)
        ctx.check(ok, "saved last", format=fmt, step=step)
    ctx.nontrivial = True
    ctx.note(fmt, v)


NAMES = ["plain", "no extension", "missing folder", "upper", "space",
         "unicode", "relative", "pathlib", "dotted folder",
         "other extension"]


def place(ctx, p, ext, may_omit=True):
    """(argument to give the saver, path that has to exist afterwards)"""
    how = gen.cyc(p, NAMES)
    if how in ("no extension", "other extension") and not may_omit:
        how = "plain"
    ctx.seen("name", how)
    root = pathlib.Path(ctx.workdir())
    stem = "file_%d" % int(ctx.rng.integers(100))
    if how == "plain":
        want = root / (stem + ext)
        arg = str(want)
    elif how == "no extension":
        arg = str(root / stem)
        want = root / (stem + (ext if ext != ".dat" else ".txt"))
        if ext in (".h5", ".nxs", ".hdf5"):
            want = root / (stem + ".hdf")
    elif how == "other extension":
        arg = str(root / (stem + gen.pick(ctx.rng, [".xyz", ".tmp", ".csv"])))
        want = root / (stem + (ext if ext != ".dat" else ".txt"))
        if ext in (".h5", ".nxs", ".hdf5"):
            want = root / (stem + ".hdf")
    elif how == "missing folder":
        want = root / "a" / "b c" / "d" / (stem + ext)
        arg = str(want)
    elif how == "upper":
        want = root / (stem.upper() + ext.upper())
        arg = str(want)
    elif how == "space":
        want = root / ("my " + stem + " v2" + ext)
        arg = str(want)
    elif how == "unicode":
        want = root / (u"m\u00e9ta_\u03b1" + stem + ext)
        arg = str(want)
    elif how == "relative":
        want = root / "sub" / (stem + ext)
        arg = os.path.join("sub", stem + ext)
    elif how == "pathlib":
        want = root / (stem + ext)
        arg = want
    else:
        want = root / "run.01" / "x.y" / (stem + ext)
        arg = str(want)
    return arg, want


def save(ctx, name, arg, want, *args, **kw):
    cwd = os.getcwd()
    os.chdir(ctx.workdir())
    try:
        out = ctx.call(L + name, arg, *args, **kw)
    finally:
        os.chdir(cwd)
    if name == "open_hdf_stream":
        return out
    got = pathlib.Path(ctx.workdir(), str(out))
    files = [q for q in pathlib.Path(ctx.workdir()).rglob("*")
             if q.is_file()]
    ctx.need(os.path.realpath(got) == os.path.realpath(want)
             and want.is_file(), "saver's path", returned=str(out),
             want=str(want), files=[str(f) for f in files][:6])
    return str(got)


def number(rng, kinds=None):
    how = gen.pick(rng, kinds or ["unit", "big", "tiny", "int", "zero",
                                  "coef", "repr", "inf", "subnormal"])
    v = {"unit": rng.normal(), "big": rng.normal() * 10.0 ** rng.integers(
        3, 300), "tiny": rng.normal() * 10.0 ** -rng.integers(3, 300),
        "int": int(rng.integers(-10 ** 6, 10 ** 6)), "zero": -0.0,
        "coef": rng.normal() * 1e-7, "repr": 0.1 + 0.2,
        "inf": np.inf, "subnormal": 5e-324 * int(rng.integers(1, 99))}[how]
    form = gen.pick(rng, ["py", "f64", "f32", "i64", "u16", "big int"])
    if form == "big int" and how == "int":
        return big_int(rng)
    if form == "f64":
        return np.float64(v)
    if form == "f32" and how in ("unit", "int", "zero", "coef", "repr"):
        return np.float32(v)
    if form == "i64" and how == "int":
        return np.int64(v)
    if form == "u16" and how == "int":
        return np.uint16(abs(v) % 65536)
    return int(v) if how == "int" else float(v)


def big_int(rng):
    """Any numpy integer type, up to its limits (within 2**53, so that the
    value is the same as a float)."""
    t = np.dtype(gen.pick(rng, ["i8", "u4", "u8", "i4", "i2", "u2", "i1",
                                "u1"]))
    ii = np.iinfo(t)
    v = gen.pick(rng, [ii.min, ii.max, ii.max // 2 + 1, ii.min // 2])
    return t.type(int(np.clip(float(v), -2 ** 53, 2 ** 53)))


def same(ctx, got, v):
    """got is the Python number read back for the saved v"""
    if isinstance(v, np.float32):
        # the shortest decimal of a single is written; it identifies it
        return np.float32(got) == v
    return float(got) == float(v) and np.signbit(float(got)) == np.signbit(
        float(v))


def do_meta(ctx, p):
    rng = ctx.rng
    fmt = gen.cyc(p, ["txt", "json"])
    ext = {"txt": gen.cyc(p, [".txt", ".txt", ".dat"], 2),
           "json": ".json"}[fmt]
    arg, want = place(ctx, dict(p, i=p["i"] // 2), ext)
    xc, yc = number(rng), number(rng)
    n = int(gen.cyc(p, [5, 0, 1, 2, 3, 4, 10, 11, 14], 3))
    fact = [number(rng) for _ in range(n)]
    if p["i"] % 12 in (5, 10):
        xc, fact = big_int(rng), [big_int(rng) for _ in range(n)]
        ctx.seen("numbers", "numpy integers")
    form = gen.cyc(p, ["list", "array", "tuple", "f32"], 5)
    if form == "array":
        fact = np.array([float(v) for v in fact])
    elif form == "f32":
        fact = rng.normal(size=n).astype(np.float32)
    elif form == "tuple":
        fact = tuple(fact)
    sv, ld = "save_metadata_" + fmt, "load_metadata_" + fmt
    if p["i"] % 4 == 0:
        # an older, longer file is replaced as a whole
        save(ctx, sv, arg, want, 1.0, 2.0, list(rng.random(20)))
        ctx.seen("over", "longer")
    path = save(ctx, sv, arg, want, xc, yc, fact)
    gx, gy, gf = ctx.call(L + ld, path if p["i"] % 2 else
                          pathlib.Path(path))
    gf = list(gf)
    ctx.check(same(ctx, gx, xc) and same(ctx, gy, yc)
              and len(gf) == len(fact)
              and all(same(ctx, a, b) for a, b in zip(gf, fact)),
              "metadata round trip", format=fmt, form=form,
              saved=[str(xc), str(yc)] + [str(v) for v in fact],
              loaded=[str(gx), str(gy)] + [str(v) for v in gf])
    # second generation: saving what was loaded changes nothing
    again = ctx.call(L + sv, str(want.parent / ("again" + ext)), gx, gy, gf)
    ctx.check(repr(ctx.call(L + ld, again)) == repr((gx, gy, gf)),
              "metadata round trip", generation=2)
    ctx.seen("format", fmt)
    ctx.nontrivial = n > 0
    ctx.note(str(xc), str(yc), [str(v) for v in fact], fmt)
    ctx.sample = {"format": fmt, "coefficients": n, "file": want.name}


def tree(rng, depth=0):
    how = gen.pick(rng, ["num", "arr", "str", "list", "tuple", "dict",
                         "none", "bool", "obj"])
    if depth > 2 and how in ("list", "tuple", "dict"):
        how = "num"
    if how == "num":
        return number(rng)
    if how == "arr":
        return rng.normal(size=tuple(rng.integers(0, 4, 2)))
    if how == "str":
        return u"\u03b1 line\n%d" % rng.integers(99)
    if how in ("list", "tuple"):
        v = [tree(rng, depth + 1) for _ in range(int(rng.integers(0, 4)))]
        return v if how == "list" else tuple(v)
    if how == "dict":
        return {"k%d" % i: tree(rng, depth + 1) for i in range(2)}
    if how == "bool":
        return bool(rng.integers(2))
    if how == "obj":
        return complex(rng.normal(), 1)
    return None


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    return repr(a) == repr(b)


def do_list(ctx, p):
    rng = ctx.rng
    if p["i"] % 2:
        v = [tree(rng) for _ in range(int(rng.integers(0, 6)))]
    else:       # list of lines, as in the calibration workflows
        v = [rng.normal(size=(int(rng.integers(2, 9)), 2)).astype(
            gen.pick(rng, ["f4", "f8", "i4"])) for _ in range(
            int(rng.integers(0, 12)))]
    arg, want = place(ctx, p, ".pkl")
    if p["i"] % 4 == 0:
        save(ctx, "save_python_list", arg, want, list(range(5000)))
        ctx.seen("over", "longer")
    path = save(ctx, "save_python_list", arg, want, v)
    got = ctx.call(L + "load_python_list", path)
    ctx.check(equal(v, got), "list round trip", saved=str(v)[:300],
              loaded=str(got)[:300])
    ctx.nontrivial = len(v) > 0
    ctx.note(str(v))


HT = ["float32", "float64", "uint8", "uint16", "int16", "int32", "int64",
      "float16", "bool", "complex64"]


def array(rng, dt, ndim, large=False):
    shape = tuple(int(s) for s in rng.integers(1, 9, ndim))
    if large:
        m = int(round(70000 ** (1 / ndim)))
        shape = tuple(int(s) for s in rng.integers(m, m + m // 3 + 2, ndim))
    a = rng.normal(size=shape) * 90
    if dt == "bool":
        return np.asarray(a > 0)
    if dt.startswith("u"):
        a = np.abs(a)
    if dt == "complex64":
        a = a + 1j * rng.normal(size=shape)
    return np.asarray(a).astype(dt)


def do_hdf(ctx, p):
    rng = ctx.rng
    ndim = int(gen.cyc(p, [2, 3, 1, 0, 4, 3, 2]))
    dt = gen.cyc(p, HT)
    large = ndim > 0 and p["i"] % 8 == 5
    a = array(rng, dt, ndim, large)
    if large:
        ctx.seen("hdf", "large")
    give = gen.layout(rng, a, gen.cyc(p, gen.LAYOUTS, 2)) if ndim else a
    if p["i"] % 9 == 8:
        give = a.tolist()
    arg, want = place(ctx, p, gen.cyc(p, [".hdf", ".h5", ".nxs", ".hdf5"]))
    kw, key = {}, "entry/data"
    if p["i"] % 3:
        kw = {"key_path": gen.pick(rng, ["a", "entry/deep/er", "/abs"])}
        key = kw["key_path"] + "/data"
    if p["i"] % 4 == 0:
        save(ctx, "save_hdf_file", arg, want, rng.random((40, 40)),
             key_path="old/one")
        ctx.seen("over", "longer")
    path = save(ctx, "save_hdf_file", arg, want, give, **kw)
    obj = ctx.call(L + "load_hdf_object", path, key)
    got, typ = obj[()], obj.dtype
    obj.file.close()
    ctx.check(np.shape(got) == a.shape and np.array_equal(got, a)
              and (p["i"] % 9 == 8 or typ == a.dtype), "hdf round trip",
              dtype=dt, ndim=ndim, got=str(typ))
    with h5py.File(path, "r") as f:
        names = []
        f.visititems(lambda n, o: names.append(n)
                     if isinstance(o, h5py.Dataset) else None)
    ctx.check(names == [key.strip("/")], "hdf round trip", datasets=names)
    if ndim in (2, 3) and dt != "complex64":
        got = ctx.call(L + "load_hdf_file", path, *([key] if p["i"] % 2
                                                    else []))
        ctx.check(np.array_equal(got, a if ndim == 2 else np.float32(a)),
                  "hdf round trip", loader="load_hdf_file", dtype=dt)
    ctx.nontrivial = a.size > 1
    ctx.note(a)


def do_stream(ctx, p):
    rng = ctx.rng
    ndim = int(gen.cyc(p, [3, 2, 3, 4]))
    dt = gen.cyc(p, [None, "float64", "uint16", "uint8", "int32"])
    a = array(rng, dt or "float32", ndim)
    arg, want = place(ctx, p, gen.cyc(p, [".hdf", ".h5", ".nxs", ".hdf5"]))
    kw, key = {}, "entry/data"
    if dt:
        kw["data_type"] = dt
    if p["i"] % 2:
        key = kw["key_path"] = gen.pick(rng, ["x/y/img", "frames", "data"])
    meta = {}
    if p["i"] % 3 == 1:
        meta = {"info/angles": rng.random(5), "energy": 53,
                "info/name": "scan"}
        kw["options"] = meta
    if p["i"] % 4 == 0:
        want.parent.mkdir(parents=True, exist_ok=True)
        with h5py.File(want, "w") as f:
            f["zz/data"] = rng.random((50, 50))
        ctx.seen("over", "longer")
    if p["i"] % 13 == 12:
        # metadata below the dataset itself is refused
        kw["options"] = {key + "/angles": rng.random(5)}
        cwd = os.getcwd()
        os.chdir(ctx.workdir())
        try:
            ctx.raises(ValueError, L + "open_hdf_stream", arg, a.shape, **kw)
        finally:
            os.chdir(cwd)
        ctx.nontrivial = True
        return
    out = save(ctx, "open_hdf_stream", arg, want, a.shape, **kw)
    ctx.check(out.shape == a.shape and out.dtype == a.dtype
              and os.path.realpath(out.file.filename)
              == os.path.realpath(want), "stream round trip",
              shape=out.shape, dtype=str(out.dtype), file=out.file.filename)
    for i in range(len(a)):
        out[i] = a[i]
    out.file.close()
    with h5py.File(want, "r") as f:
        ctx.check(np.array_equal(f[key][()], a), "stream round trip")
        names = []
        f.visititems(lambda n, o: names.append(n)
                     if isinstance(o, h5py.Dataset) else None)
        ctx.check(sorted(names) == sorted([key] + list(meta)),
                  "stream round trip", datasets=names)
        for k, v in meta.items():
            g = f[k][()]
            g = g.decode() if isinstance(g, bytes) else g
            ctx.check(np.array_equal(g, v), "stream round trip", metadata=k)
    ctx.nontrivial = True
    ctx.note(a, key, sorted(meta))


TT = ["float32", "uint16", "uint8", "int32", "float64", "int16"]


def do_tiff(ctx, p):
    rng = ctx.rng
    dt = gen.cyc(p, TT)
    h, w = int(rng.integers(1, 50)), int(rng.integers(1, 50))
    if p["i"] % 8 == 5:
        h, w = int(rng.integers(200, 700)), int(rng.integers(200, 700))
        ctx.seen("tiff", "large")
    a = gen.image(rng, h, w, dt)
    if dt == "int32" and p["i"] % 4 == 3:
        a = a * 60000
    if dt.startswith("float") and p["i"] % 3 == 0:
        a = a * a.dtype.type(10.0 ** rng.integers(-20, 20))
    chan = p["i"] % 7 == 6
    if chan:
        a = np.stack([gen.image(rng, h + 4, w + 4, dt) for _ in range(3)], -1)
    if a.dtype == np.float64:
        fix = a.astype(np.float32)
    else:
        fix = a
    give = gen.layout(rng, a, gen.cyc(p, gen.LAYOUTS, 2))
    arg, want = place(ctx, p, gen.cyc(p, [".tif", ".tiff"], 2), False)
    path = save(ctx, "save_image", arg, want, give)
    got = ctx.call(L + "load_image", path if p["i"] % 2 else
                   pathlib.Path(path), *([False] if p["i"] % 3 == 0 else []))
    got = np.asarray(got)
    if chan:
        ref = a.astype(float).mean(-1)
        ctx.close(got, ref, 1e-6 * (1e-30 + np.abs(a.astype(
            float)).max()), "tiff round trip", dtype=dt, channels=3)
    else:
        ctx.check(got.shape == a.shape and np.array_equal(
            got.astype(np.float32), fix.astype(np.float32)),
            "tiff round trip", dtype=dt, shape=a.shape, got=got.shape)
    ctx.seen("tiff", dt)
    ctx.nontrivial = np.ptp(a.astype(float)) > 0
    ctx.note(a)
    ctx.sample = {"dtype": dt, "shape": list(a.shape), "file": want.name}


def do_eight(ctx, p):
    rng = ctx.rng
    dt = gen.cyc(p, ["uint8", "uint16", "float32", "int16", "int32",
                     "float64", "int8", "bool", "uint32", "int64"])
    h, w = int(rng.integers(5, 40)), int(rng.integers(5, 40))
    chan = int(gen.cyc(p, [1, 1, 3, 4], 3))
    shape = (h, w) if chan == 1 else (h, w, chan)
    a = rng.random(shape)
    how = gen.cyc(p, ["full", "narrow", "signed", "constant"], 2)
    if dt.startswith("float"):
        how = gen.pick(rng, ["full", "narrow", "signed", "constant", "tiny",
                             "huge"])
        a = {"full": a, "narrow": 1e4 + a, "signed": a - 0.5,
             "tiny": a * 10.0 ** rng.integers(-14, -6),
             "huge": a * 10.0 ** rng.integers(4, 15),
             "constant": np.full(shape, 7.0)}[how]
        ctx.seen("float range", how)
        a = a.astype(dt)
    elif dt == "bool":
        a = a > 0.5
    else:
        inf = np.iinfo(dt)
        lo, hi = {"full": (inf.min, inf.max), "narrow": (100, 120),
                  "signed": (max(inf.min, -300), min(inf.max, 20000)),
                  "constant": (7, 7)}[how]
        a = np.round(lo + a * (float(hi) - lo)).clip(
            float(lo), float(hi) * (1 - 1e-15) if dt == "int64" else hi)
        a = a.astype(dt)
    give = gen.layout(rng, a, gen.cyc(p, gen.LAYOUTS, 3))
    keep = a.copy()
    arg, want = place(ctx, p, gen.cyc(p, [".png", ".bmp", ".png"]), False)
    if chan == 4 and want.suffix.lower() == ".bmp":
        a = a[..., :3]
        give = np.ascontiguousarray(a)
    path = save(ctx, "save_image", arg, want, give)
    got = np.asarray(ctx.call(L + "load_image", path, average=False))
    f = a.astype(np.float64)
    if dt == "uint8":
        ctx.check(np.array_equal(got, f), "8-bit round trip", dtype=dt,
                  shape=a.shape, got=got.shape)
    elif np.ptp(f) > 0:
        ref = 255.0 * (f - f.min()) / (f.max() - f.min())
        ctx.close(got, ref, 1.0 + 1e-6, "8-bit round trip", dtype=dt,
                  how=how)
        ctx.check(got.min() == 0 and got.max() >= 254, "8-bit round trip",
                  range=[got.min(), got.max()])
    else:
        ctx.check(got.shape == f.shape and np.ptp(got) == 0,
                  "8-bit round trip", how="constant")
    avg = np.asarray(ctx.call(L + "load_image", path))
    ref = got if got.ndim == 2 else got.mean(-1)
    if chan == 1 or min(h, w) > chan:
        ctx.close(avg, ref, 1e-4, "8-bit round trip", average=True)
    if chan == 1 or give is not a:
        ctx.check(np.array_equal(keep if a.shape == keep.shape else
                                 keep[..., :3], a), "8-bit round trip",
                  argument="changed")
    ctx.seen("8-bit", dt)
    ctx.nontrivial = np.ptp(f) > 0
    ctx.note(a)


def do_jpg(ctx, p):
    """Lossy: a smooth picture stays within a few grey levels."""
    rng = ctx.rng
    h, w = int(rng.integers(24, 70)), int(rng.integers(24, 70))
    y, x = np.mgrid[:h, :w]
    f = np.sin(x * 0.05 + rng.uniform(0, 6)) + np.cos(y * 0.04)
    f = (f - f.min()) / np.ptp(f)
    dt = gen.cyc(p, ["float32", "uint16", "uint8"])
    a = (f * {"float32": 0.7, "uint16": 60000, "uint8": 255}[dt]).astype(dt)
    arg, want = place(ctx, p, gen.cyc(p, [".jpg", ".jpeg"]), False)
    path = save(ctx, "save_image", arg, want, a)
    got = np.asarray(ctx.call(L + "load_image", path))
    ctx.close(got, 255 * f, 14.0, "8-bit round trip (jpg)", dtype=dt)
    ctx.nontrivial = True
    ctx.note(a)


def do_foreign(ctx, p):
    """Files in the documented layout, not written by this library."""
    rng = ctx.rng
    root = pathlib.Path(ctx.workdir())
    v = [float(number(rng, ["unit", "coef", "int"])) for _ in range(
        int(rng.integers(2, 14)))]
    if p["i"] % 2:
        q = root / "m.txt"
        names = ["xcenter", "ycenter"] + ["factor%d" % i for i in
                                          range(len(v) - 2)]
        q.write_text("".join("%s = %r\n" % (n, x) for n, x in
                             zip(names, v)))
        got = ctx.call(L + "load_metadata_txt", str(q))
    else:
        q = root / "m.json"
        q.write_text(json.dumps({"list_fact": v[2:], "ycenter": v[1],
                                 "xcenter": v[0]}))
        got = ctx.call(L + "load_metadata_json", str(q))
    ctx.check(len(got) == 3 and [got[0], got[1]] + list(got[2]) == v,
              "metadata round trip", saved=v, loaded=str(got))
    img = rng.integers(0, 256, (9, 11, 3)).astype(np.uint8)
    Image.fromarray(img).save(root / "i.png")
    got = ctx.call(L + "load_image", str(root / "i.png"))
    ctx.close(got, img.mean(-1), 1e-4, "8-bit round trip", foreign=True)
    ctx.nontrivial = True
    ctx.note(v)


def do_missing(ctx, p):
    root = pathlib.Path(ctx.workdir())
    name, ext = gen.cyc(p, [("load_metadata_txt", "txt"), ("load_image",
                            "tif"), ("load_metadata_json", "json"),
                            ("load_python_list", "pkl")])
    q = root / ("nothing." + ext)
    ctx.raises(ValueError, L + name, str(q) if p["i"] % 2 else q)
    ctx.seen("missing file")
    if name == "load_image":
        q.write_bytes(b"this is not an image")
        ctx.raises(ValueError, L + name, str(q))
    ctx.check(not (root / "nothing").exists(), "missing file")
    ctx.nontrivial = True
    ctx.note(name)


def run(ctx, p):
    globals()["do_" + p["kind"]](ctx, p)
