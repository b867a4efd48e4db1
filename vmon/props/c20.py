"""HDF selection, listing, searching and file finding."""
import contextlib
import io
import os
import pathlib

import h5py
import numpy as np

from .. import gen

ID = "C20"
RULE = ("HDF files with random trees (0-4 levels, empty groups, scalars, "
        "strings, 1-4D datasets, chunked/compressed, soft and dangling "
        "links); 3D datasets of 9 dtypes with dimensions 1-12 x axes -1..4 x "
        "selections (int, numpy int, negative, pair, triple, list, tuple, "
        "single element, whole, empty, out of range); glob patterns over "
        "random file sets; non-trivial: the selection is a proper part")
ASSUMPTIONS = ["index lists are increasing (h5py refuses others)",
               "with no key given, the dataset called 'data' lies inside a "
               "group"]
MUST_SEE = {"selection": 250, "listing complete": 60, "listing true": 60,
            "search complete": 60, "search sound": 60, "find_file": 40,
            "load_hdf_object": 40, "refused": 80, "axis/1": 20, "axis/2": 20,
            "select/single list": 10, "select/empty range": 6, "file of now": 200}

L = "losa."


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    for kind, n in [("select", 330), ("whole", 60), ("tree", 90),
                    ("refuse", 110), ("find", 60), ("auto", 40), ("again", 16)]:
        yield from gen.stream(seed, kind, n * k)


DT = ["float32", "uint8", "uint16", "int16", "int32", "float64", "int64",
      "bool", ">f4"]
SEL = ["int", "npint", "negative", "pair", "triple", "list", "tuple",
       "single list", "single pair", "single triple", "all", "neg pair",
       "np pair", "first", "last", "empty range", "empty list",
       "list pair"]


def cube(rng, dt, ndim=3, hi=13):
    shape = tuple(int(s) for s in rng.integers(1, hi, ndim))
    if dt == "bool":
        return rng.random(shape) > 0.5
    a = rng.integers(0, 200, shape) if np.dtype(dt).kind in "iu" else \
        rng.normal(size=shape)
    return a.astype(dt)


def make(ctx, rng, p, a, key):
    path = os.path.join(ctx.workdir(), gen.pick(
        rng, ["d.hdf", "d.nxs", "d.h5", "odd name.hdf5"]))
    with h5py.File(path, "w") as f:
        if p["i"] % 5 == 4 and a.ndim and a.size > 1:
            f.create_dataset(key, data=a, compression="gzip",
                             chunks=tuple(max(1, s // 2) for s in a.shape))
        else:
            f[key] = a
        f["zz/other"] = rng.random((4, 4))
    return path


def selection(rng, how, n):
    """(index argument, indices expected or None if refused)"""
    i = int(rng.integers(n))
    lo = int(rng.integers(0, n))
    hi = int(rng.integers(lo + 1, n + 1))
    if how == "int":
        return i, i
    if how == "first":
        return 0, 0
    if how == "last":
        return n - 1, n - 1
    if how == "npint":
        return gen.pick(rng, [np.int64, np.int32, np.uint8])(i), i
    if how == "negative":
        return -1 - i, n - 1 - i
    if how in ("pair", "list pair"):
        return ((lo, hi) if how == "pair" else [lo, hi]), list(range(lo, hi))
    if how == "np pair":
        return (np.int64(lo), np.int64(hi)), list(range(lo, hi))
    if how == "neg pair":
        if n < 3:
            return (0, n), list(range(n))
        lo = -int(rng.integers(2, n + 1))
        hi = int(rng.integers(lo + 1, 0))
        return (lo, hi), [n + v for v in range(lo, hi)]
    if how == "triple":
        st = int(rng.integers(1, 5))
        return (lo, hi, st), list(range(lo, hi, st))
    if how == "single pair":
        return (i, i + 1), [i]
    if how == "single triple":
        return [i, i + 1, 3], [i]
    if how == "single list":
        return gen.pick(rng, [[i], (i,)]), [i]
    if how == "all":
        return (0, n), list(range(n))
    if how == "empty range":
        return gen.pick(rng, [(hi, lo), (i, i), (hi, lo, 2)]), None
    if how == "empty list":
        return gen.pick(rng, [[], ()]), None
    # four or more explicit positions
    if n < 4:
        return [i], [i]
    k = int(rng.integers(4, n + 1))
    idx = sorted(int(v) for v in rng.choice(n, k, replace=False))
    return (idx if how == "list" else tuple(idx)), idx


def expect(a, idx, axis):
    if isinstance(idx, list) and len(idx) == 1:
        idx = idx[0]
    return np.float32(np.take(a, idx, axis=axis))


def do_select(ctx, p):
    rng = ctx.rng
    dt = gen.cyc(p, DT)
    a = cube(rng, dt)
    key = gen.pick(rng, ["entry/data", "frames", "a/b/c/d"])
    path = make(ctx, rng, p, a, key)
    axis = gen.cyc(p, [0, 1, 2, 1, 2, 0, 2, 0, 1, -1, 4], 2)
    how = gen.cyc(p, SEL)
    ax = min(max(axis, 0), 2)
    arg, idx = selection(rng, how, a.shape[ax])
    q = pathlib.Path(path) if p["i"] % 3 == 0 else path
    if idx is None:
        ctx.raises(ValueError, L + "load_hdf_file", q, key, arg, axis)
        ctx.seen("refused")
    else:
        kw = {} if axis == 0 and p["i"] % 2 else {"axis": axis}
        got = ctx.call(L + "load_hdf_file", q, key_path=key, index=arg, **kw)
        ref = expect(a, idx, ax)
        got = np.asarray(got)
        ctx.check(got.shape == ref.shape and np.array_equal(got, ref),
                  "selection", shape=a.shape, axis=axis, index=str(arg),
                  got=got.shape, want=ref.shape)
        ctx.nontrivial = got.size < a.size
    ctx.seen("axis", ax)
    ctx.seen("select", how)
    ctx.note(a, str(arg), axis)
    ctx.sample = {"shape": list(a.shape), "axis": axis, "index": str(arg)}


def do_whole(ctx, p):
    rng = ctx.rng
    nd = gen.cyc(p, [3, 2, 2, 3])
    a = cube(rng, gen.cyc(p, DT), nd)
    key = gen.pick(rng, ["entry/data", "data", "a/b/c/d"])
    path = make(ctx, rng, p, a, key)
    got = np.asarray(ctx.call(L + "load_hdf_file", path, key))
    ctx.check(np.array_equal(got, a if nd == 2 else np.float32(a)),
              "selection", whole=True, ndim=nd)
    obj = ctx.call(L + "load_hdf_object", path if p["i"] % 2 else
                   pathlib.Path(path), key)
    ctx.check(isinstance(obj, h5py.Dataset) and obj.shape == a.shape
              and obj.dtype == a.dtype and np.array_equal(obj[()], a),
              "load_hdf_object", key=key)
    obj.file.close()
    ctx.nontrivial = a.size > 1
    ctx.note(a)


def norm(key):
    return key.strip("/")


def grow(rng, grp, depth, sets, groups, prefix=""):
    for _ in range(int(rng.integers(0, 4))):
        name = gen.pick(rng, ["data", "entry", "tomo", "x1", "angles",
                              "Data", "meta data", "raw", "a.b", "n+1", "(c)",
                              "d[0]", "q?", "_raw", " x", "y ", "\u00e9t\u00e9",
                              ".hid", "-1"]) + \
            gen.pick(rng, ["", "", "_2", "0"])
        if name in grp:
            continue
        full = prefix + name
        if depth < 3 and rng.random() < 0.5:
            g = grp.create_group(name)
            groups.append(full)
            grow(rng, g, depth + 1, sets, groups, full + "/")
            continue
        how = int(rng.integers(6))
        if how == 0:
            v = np.float64(rng.random())
        elif how == 1:
            v = np.bytes_(b"text")
        elif how == 2:
            v = rng.random(int(rng.integers(0, 5)))
        else:
            v = cube(rng, gen.pick(rng, DT), int(rng.integers(1, 5)), 4)
        grp[name] = v
        sets[full] = (grp[name].shape, grp[name].dtype)


def do_tree(ctx, p):
    rng = ctx.rng
    path = os.path.join(ctx.workdir(), "t.nxs")
    sets, groups, links = {}, [], {}
    with h5py.File(path, "w") as f:
        for _ in range(int(gen.cyc(p, [2, 0, 3, 1]))):
            grow(rng, f, 0, sets, groups)
        if groups and p["i"] % 3 == 0:
            g = gen.pick(rng, groups)
            f[g + "/dead"] = h5py.SoftLink("/no/where")
            links[g + "/dead"] = (None, None)
            if sets:
                t = gen.pick(rng, sorted(sets))
                f[g + "/alive"] = h5py.SoftLink("/" + t)
                links[g + "/alive"] = sets[t]
    def quiet(name, *args):
        with contextlib.redirect_stdout(io.StringIO()) as out:
            res = ctx.call(L + name, *args, p["i"] % 2 == 1)
        if p["i"] % 2:
            ctx.check(len(out.getvalue()) > 0, "listing true", display=True)
        return res
    keys, shapes, types = quiet("get_hdf_information", path)
    ctx.need(len(keys) == len(shapes) == len(types), "listing true",
             lengths=[len(keys), len(shapes), len(types)])

    def table(keys, shapes, types, what):
        tab = {}
        for k, s, t in zip(keys, shapes, types):
            k = norm(k)
            known = k in sets or k in groups or k in links
            want = sets.get(k) or links.get(k) or (None, None)
            ctx.check(known and s == want[0] and t == want[1], what, key=k,
                      got=[str(s), str(t)], want=str(want))
            tab[k] = (s, t)
        return tab
    tab = table(keys, shapes, types, "listing true")
    ctx.check(not [k for k in sets if k not in tab], "listing complete",
              missing=[k for k in sets if k not in tab][:4])
    empty = [g for g in groups if not any(
        o.startswith(g + "/") for o in list(sets) + groups + list(links))]
    ctx.check(not [g for g in empty if g not in tab], "listing complete",
              missing=[g for g in empty if g not in tab][:4])
    for pat in [gen.pick(rng, ["data", "a", "entry", "_2", "Data", "zzz",
                               "tomo/", "", ".", "+", "*", "[0]", "(", "t.",
                               "?", "^d"])] + \
            ([gen.pick(rng, sorted(sets))] if sets else []):
        keys, shapes, types = quiet("find_hdf_key", path, pat)
        ctx.need(len(keys) == len(shapes) == len(types), "search sound")
        tab = table(keys, shapes, types, "search sound")
        ctx.check(all(pat in k for k in keys), "search sound", pattern=pat,
                  keys=list(keys)[:5])
        miss = [k for k in sets if pat in k and k not in tab]
        ctx.check(not miss, "search complete", pattern=pat, missing=miss[:4])
    ctx.seen("datasets", min(len(sets), 5))
    ctx.nontrivial = len(sets) > 0
    ctx.note(sorted(sets), sorted(groups))
    ctx.sample = {"datasets": sorted(sets)[:6]}


def do_refuse(ctx, p):
    rng = ctx.rng
    how = gen.cyc(p, ["file", "key", "object file", "object key", "1D", "4D",
                      "not hdf", "object not hdf", "no data", "0D",
                      "out of range", "key below"])
    a = cube(rng, "float32")
    path = make(ctx, rng, p, a, "entry/data")
    H, O = L + "load_hdf_file", L + "load_hdf_object"
    if how == "file":
        ctx.raises(ValueError, H, path + ".none", "entry/data")
    elif how == "key":
        ctx.raises(ValueError, H, path, "entry/dat")
    elif how == "key below":
        ctx.raises(ValueError, H, path, "other/entry/data")
    elif how == "object file":
        ctx.raises(ValueError, O, path + ".none", "entry/data")
    elif how == "object key":
        ctx.raises(ValueError, O, path, "entry/dat")
    elif how in ("1D", "4D", "0D"):
        b = cube(rng, "float32", int(how[0]), 5)
        with h5py.File(path, "w") as f:
            f["entry/data"] = b
        ctx.raises(ValueError, H, path, "entry/data")
        ctx.raises(ValueError, H, path, "entry/data", 0)
    elif how in ("not hdf", "object not hdf"):
        pathlib.Path(path).write_bytes(b"hello")
        ctx.raises(ValueError, H if how == "not hdf" else O, path,
                   "entry/data")
    elif how == "no data":
        with h5py.File(path, "w") as f:
            f["entry/frames"] = a
            f.create_group("data")
        ctx.raises(ValueError, H, path)
    else:
        axis = int(rng.integers(3))
        n = a.shape[axis]
        idx = gen.pick(rng, [n, n + 3, -n - 1, (0, n + 1), [n + 1],
                             (n - 1, n + 2), (0, n + 2, 1), (n - 1, n + 7, 3),
                             [0, n + 2, n + 4, n + 5]])
        ctx.raises(Exception, H, path, "entry/data", idx, axis)
    ctx.seen("refused")
    ctx.seen("refuse", how)
    ctx.nontrivial = True
    ctx.note(a, how)


def do_find(ctx, p):
    rng = ctx.rng
    root = pathlib.Path(ctx.workdir()) / gen.pick(rng, ["x", "x y", "x.d"])
    root.mkdir()
    names = set()
    for _ in range(int(rng.integers(0, 30))):
        names.add("%s%0*d%s" % (gen.pick(rng, ["img_", "dark", "IMG"]),
                                int(rng.integers(1, 4)), int(
                                    rng.integers(0, 200)),
                                gen.pick(rng, [".tif", ".tiff", ".png",
                                               ""])))
    for n in names:
        (root / n).write_text("x")
    (root / "deep").mkdir()
    (root / "deep" / "img_1.tif").write_text("x")
    pat, fits = gen.pick(rng, [
        ("*.tif", lambda n: n.endswith(".tif")),
        ("img_*", lambda n: n.startswith("img_")),
        ("img_??.png", lambda n: n.startswith("img_")
         and n.endswith(".png") and len(n) == 10),
        ("*.ti*", lambda n: ".ti" in n),
        ("[id]*.png", lambda n: n[0] in "id" and n.endswith(".png")),
        ("dark7.tif", lambda n: n == "dark7.tif"),
        ("*1*", lambda n: "1" in n)])
    want = sorted(str((root / n).as_posix()) for n in names if fits(n))
    arg = os.path.join(str(root), pat)
    if p["i"] % 3 == 0:
        arg = pathlib.Path(arg)
    if p["i"] % 7 == 6:
        ctx.raises(FileNotFoundError, L + "find_file",
                   str(root / "absent" / pat))
    if want:
        got = ctx.call(L + "find_file", arg)
        got = [got] if isinstance(got, str) else list(got)
        ctx.check(got == want, "find_file", pattern=pat, got=got[:6],
                  want=want[:6])
    else:
        ctx.raises(FileNotFoundError, L + "find_file", arg)
        ctx.seen("refused")
    ctx.nontrivial = 0 < len(want) < len(names)
    ctx.note(sorted(names), pat)


def do_again(ctx, p):
    """A file is read, replaced by another one of the same name, and read
    again: every reader reports the file of the moment."""
    rng = ctx.rng
    path = os.path.join(ctx.workdir(), "t.nxs")
    arg = pathlib.Path(path) if p["i"] % 3 == 0 else path
    dt = gen.cyc(p, DT)
    shape = tuple(int(v) for v in rng.integers(2, 7, 3))
    hist = []
    for step in range(3):
        if step == 2 and p["i"] % 2:
            shape = tuple(int(v) for v in rng.integers(2, 7, 3))
        a = (rng.random(shape) * 200).astype(dt)
        key = "entry/data" if step < 2 else "e%d/data" % step
        with h5py.File(path + ".new", "w") as f:
            f[key] = a
            f["extra_%d/x" % step] = np.arange(step + 2)
        os.replace(path + ".new", path)
        i = int(rng.integers(shape[1]))
        got = np.asarray(ctx.call(L + "load_hdf_file", arg, key, index=i,
                                  axis=1))
        ctx.check(np.array_equal(got, np.float32(a[:, i])), "file of now",
                  step=step, reader="load_hdf_file")
        got = np.asarray(ctx.call(L + "load_hdf_file", arg))
        ctx.check(np.array_equal(got, np.float32(a)), "file of now",
                  step=step, reader="load_hdf_file, no key")
        got[...] = 0
        obj = ctx.call(L + "load_hdf_object", arg, key)
        ctx.check(np.array_equal(obj[()], a), "file of now", step=step,
                  reader="load_hdf_object")
        obj.file.close()
        want = sorted([key, "extra_%d/x" % step])
        for name, args in (("get_hdf_information", ()),
                           ("find_hdf_key", ("a",))):
            keys, shapes, types = ctx.call(L + name, arg, *args)
            got = sorted(set(norm(k) for k, s in zip(keys, shapes)
                             if s is not None))
            ctx.check(got == want, "file of now", step=step, reader=name,
                      got=got, want=want)
            tab = {norm(k): s for k, s in zip(keys, shapes)}
            ctx.check(tuple(tab.get(key) or ()) == shape, "file of now",
                      step=step, reader=name)
            keys.append("spoiled")
        # files come and go
        for n in list(hist)[:1]:
            os.remove(n)
            hist.remove(n)
        for _ in range(int(rng.integers(1, 4))):
            n = os.path.join(ctx.workdir(), "img_%03d.tif"
                             % int(rng.integers(1000)))
            pathlib.Path(n).write_text("x")
            hist = sorted(set(hist + [n]))
        got = ctx.call(L + "find_file", os.path.join(ctx.workdir(),
                                                     "img_*.tif"))
        ctx.check([os.path.realpath(g) for g in got]
                  == [os.path.realpath(n) for n in hist], "file of now",
                  step=step, reader="find_file", got=got, want=hist)
        got.append("spoiled")
    ctx.nontrivial = True
    ctx.note(a, shape)


def do_auto(ctx, p):
    """No key given: the dataset called 'data' is found at any depth."""
    rng = ctx.rng
    a = cube(rng, gen.cyc(p, DT), int(gen.cyc(p, [2, 3])))
    key = gen.cyc(p, ["entry/data", "a/b/c/data", "zzz/data", "x/y/data"])
    path = os.path.join(ctx.workdir(), "d.hdf")
    with h5py.File(path, "w") as f:
        f["entry/angles"] = rng.random(4)
        f["b/database"] = rng.random((3, 3))
        f["b/mydata"] = rng.random((3, 3))
        f.create_group("c/data/inner")
        f["m/Data"] = rng.random((3, 3))
        f[key] = a
    got = np.asarray(ctx.call(L + "load_hdf_file", path))
    ctx.check(np.array_equal(got, a if a.ndim == 2 else np.float32(a)),
              "selection", auto=key)
    if a.ndim == 3:
        i = int(rng.integers(a.shape[1]))
        got = np.asarray(ctx.call(L + "load_hdf_file", path, index=i,
                                  axis=1))
        ctx.check(np.array_equal(got, np.float32(a[:, i])), "selection",
                  auto=key)
    ctx.nontrivial = True
    ctx.note(a, key)


def run(ctx, p):
    globals()["do_" + p["kind"]](ctx, p)
