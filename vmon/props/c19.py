"""Histories of saves: no existing file is ever lost with overwrite=False."""
import hashlib
import os
import pathlib
import resource
import signal

import h5py
import numpy as np
from PIL import Image

from .. import gen

ID = "C19"
RULE = ("random histories of 6-40 saves of all 9 kinds (images, plots, HDF, "
        "streams, metadata, lists) over a small pool of names (with/without "
        "extension, dotted, sharing a stem, numbered names and gaps already "
        "there, directories and links in the way, streams still open), both "
        "overwrite settings, str and Path, relative and absolute; faults: "
        "parent is a file, target is a folder, name too long, unknown "
        "extension, unserialisable data, disk quota hit while writing; "
        "directory snapshots around every operation; non-trivial: at least "
        "one collision in the history")
ASSUMPTIONS = ["savers run one after the other (the choice of a free name "
               "and its creation are not atomic against other writers)",
               "a failing save with overwrite=True may leave its own target "
               "damaged"]
MUST_SEE = {"no existing file changed": 300, "exactly the requested path": 300,
            "new file next to it": 200, "content is what was saved": 500,
            "fault raises": 60, "fault leaves the rest": 60,
            "collision": 150, "many": 10, "link/kept": 8, "stream/kept open": 8}

KINDS = ["tif", "png", "plot", "points", "residual", "hdf", "stream", "txt",
         "json", "pkl"]
EXT = {"tif": ".tif", "png": ".png", "plot": ".png", "points": ".png",
       "residual": ".png", "hdf": ".hdf", "stream": ".hdf", "txt": ".txt",
       "json": ".json", "pkl": ".pkl"}
FAULTS = ["parent is a file", "target is a folder", "name too long",
          "unknown extension", "unserialisable", "quota"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "single", 60 * k)
    yield from gen.stream(seed, "mixed", 40 * k)
    yield from gen.stream(seed, "fault", 72 * k)
    yield from gen.stream(seed, "link", 20 * k)
    yield from gen.stream(seed, "open", 20 * k)
    yield from gen.stream(seed, "many", 20 * k)


def snapshot(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs:
            out[os.path.join(d, n) + "/"] = "dir"
        for n in files:
            q = os.path.join(d, n)
            if os.path.islink(q):
                out[q + "@"] = os.readlink(q)
                if not os.path.exists(q):
                    continue
            with open(q, "rb") as f:
                out[q] = hashlib.sha1(f.read()).hexdigest()
    return out


def payload(rng, kind):
    if kind in ("tif", "png"):
        return rng.integers(0, 255, (6, 7)).astype(np.uint8)
    if kind == "plot":
        return [rng.uniform(0, 40, (4, 2)) for _ in range(2)]
    if kind == "points":
        return rng.uniform(0, 40, (5, 2))
    if kind == "residual":
        return rng.random((9, 2))
    if kind in ("hdf", "stream"):
        return rng.random((3, 4)).astype(np.float32)
    if kind == "pkl":
        return [float(v) for v in rng.random(4)]
    return [float(v) for v in rng.normal(size=6)]


def fire(ctx, kind, arg, data, overwrite, how, keep=None):
    """Perform one save through `how` (ctx.call or a raising caller)."""
    kw = {} if overwrite is None else {"overwrite": overwrite}
    if kind in ("tif", "png"):
        return how("losa.save_image", arg, data, **kw)
    if kind == "plot":
        return how("losa.save_plot_image", arg, data, 48, 56, dpi=50, **kw)
    if kind == "points":
        return how("losa.save_plot_points", arg, data, 48, 56, dpi=50, **kw)
    if kind == "residual":
        return how("losa.save_residual_plot", arg, data, 120, 160, dpi=40,
                   **kw)
    if kind == "hdf":
        return how("losa.save_hdf_file", arg, data, **kw)
    if kind == "stream":
        out = how("losa.open_hdf_stream", arg, np.shape(data), **kw)
        if not isinstance(out, h5py.Dataset):
            return out
        out[:] = data
        path = out.file.filename
        if keep is not None:
            keep.append((out, data, path))
        else:
            out.file.close()
        return path
    if kind == "pkl":
        return how("losa.save_python_list", arg, data, **kw)
    return how("losa.save_metadata_" + kind, arg, data[0], data[1],
               data[2:], **kw)


def content(ctx, kind, path, data):
    """Is the file at `path` what was saved?"""
    if kind in ("tif", "png"):
        return np.array_equal(np.array(Image.open(path)), data)
    if kind in ("plot", "points", "residual"):
        im = np.array(Image.open(path).convert("RGB"))
        ok = np.ptp(im.astype(int)) > 0
        return ok and (kind == "residual" or im.shape[:2] == (48, 56))
    if kind in ("hdf", "stream"):
        with h5py.File(path, "r") as f:
            return np.array_equal(f["entry/data"][()], data)
    if kind == "pkl":
        return ctx.call("losa.load_python_list", path) == data
    got = ctx.call("losa.load_metadata_" + kind, path)
    return [got[0], got[1]] + list(got[2]) == data


def pool(rng, kind):
    ext = EXT[kind]
    names = ["a" + ext, "a", "a_0000" + ext, "b.c" + ext, "sub/a" + ext,
             "new/deep/a" + ext]
    if kind in ("tif", "png"):
        names = [n for n in names if pathlib.Path(n).suffix]
    if kind in ("hdf", "stream"):
        names += ["a.h5", "a.nxs"]
    if kind in ("plot", "points", "residual"):
        names += ["a.jpg", "a.pdf"]
    return names


def target_of(kind, root, name):
    q = pathlib.Path(root, name)
    if not q.suffix:
        q = q.with_suffix(EXT[kind])
    return q


def step(ctx, root, kind, name, overwrite, keep=None, hist=None):
    rng = ctx.rng
    data = payload(rng, kind)
    want = target_of(kind, root, name)
    form = int(rng.integers(3))
    before = snapshot(root)
    there = want.exists()
    cwd = os.getcwd()
    if form == 2:
        os.chdir(root)
        arg = name
    else:
        arg = os.path.join(root, name)
        if form == 1:
            arg = pathlib.Path(arg)
    try:
        out = fire(ctx, kind, arg, data, overwrite, ctx.call, keep)
    finally:
        os.chdir(cwd)
    after = snapshot(root)
    got = os.path.join(root, str(out))
    det = dict(kind=kind, file=name, overwrite=overwrite, returned=str(out),
               history=(hist or [])[-8:])
    busy = {q for _, _, q in keep} if keep else set()
    changed = [q for q, v in before.items() if after.get(q) != v
               and os.path.realpath(q) not in {os.path.realpath(b)
                                               for b in busy}]
    made = [q for q in after if q not in before and not q.endswith("/")]
    if overwrite is False:
        ctx.check(not changed, "no existing file changed",
                  changed=changed[:4], **det)
        ctx.need([os.path.realpath(q) for q in made]
                 == [os.path.realpath(got)], "new file next to it",
                 created=made[:4], **det)
        g = pathlib.Path(got)
        ok = os.path.realpath(g.parent) == os.path.realpath(want.parent) \
            and g.suffix == want.suffix and g.name.startswith(want.stem)
        if not there:
            ok = ok and g.name == want.name
        ctx.check(ok, "new file next to it", **det)
        if there:
            ctx.seen("collision")
    else:
        ctx.check(os.path.realpath(got) == os.path.realpath(want)
                  and [os.path.realpath(q) for q in changed + made]
                  in ([os.path.realpath(want)], []),
                  "exactly the requested path", changed=changed[:4],
                  created=made[:4], **det)
        if there:
            ctx.seen("replaced")
    if os.path.exists(got) and os.path.realpath(got) not in {
            os.path.realpath(b) for b in busy}:
        if g_ext(got) in (".jpg", ".pdf"):
            fit = os.path.getsize(got) > 0
        else:
            fit = content(ctx, kind, got, data)
        if overwrite is not False and there:
            fit = fit and str(want) in changed
        ctx.check(fit, "content is what was saved", **det)
    else:
        ctx.check(os.path.exists(got), "content is what was saved", **det)
    if hist is not None:
        hist.append("%s %s overwrite=%s -> %s" % (
            kind, name, overwrite, os.path.basename(str(out))))
    ctx.seen("kind", kind)
    return there, got


def g_ext(q):
    return pathlib.Path(q).suffix


def seedfiles(rng, root, kind):
    """Things that are already there."""
    ext = EXT[kind]
    os.makedirs(os.path.join(root, "sub"), exist_ok=True)
    for n in ("notes.txt", "sub/keep.dat"):
        pathlib.Path(root, n).write_text("precious %d" % rng.integers(99))
    how = int(rng.integers(6))
    if how == 5:
        # empty files count as files (placeholders, locks)
        for n in ("a", "a_0000", "a_0001"):
            pathlib.Path(root, n + ext).write_text("")
        pathlib.Path(root, "a_0002" + ext).write_bytes(b"\n")
    elif how == 1:
        for i in (0, 1, 3):
            pathlib.Path(root, "a_%04d%s" % (i, ext)).write_text("n%d" % i)
    elif how == 2:
        pathlib.Path(root, "a" + ext).write_text("orig")
        for i in range(int(rng.integers(8, 14))):
            pathlib.Path(root, "a_%04d%s" % (i, ext)).write_text("n%d" % i)
    elif how == 3:
        os.makedirs(os.path.join(root, "a_0000" + ext), exist_ok=True)
        pathlib.Path(root, "a" + ext).write_text("orig")
    elif how == 4:
        pathlib.Path(root, "a_0001" + ext).write_text("n1")
        pathlib.Path(root, "a").write_text("no extension")


def do_single(ctx, p):
    rng = ctx.rng
    kind = gen.cyc(p, KINDS)
    root = os.path.join(ctx.workdir(), "h")
    os.makedirs(root)
    seedfiles(rng, root, kind)
    hist, hits = [], 0
    slow = kind in ("plot", "points", "residual")
    for _ in range(int(rng.integers(5, 8) if slow else
                       rng.integers(8, 26))):
        name = gen.pick(rng, pool(rng, kind)[:2] * 3 + pool(rng, kind))
        over = gen.pick(rng, [False, False, True, None])
        if os.path.isdir(target_of(kind, root, name)) and over is not False:
            over = False
        hits += step(ctx, root, kind, name, over, hist=hist)[0]
    ctx.nontrivial = hits > 0
    ctx.note(hist)
    ctx.sample = {"history": hist[:10]}


def do_mixed(ctx, p):
    rng = ctx.rng
    root = os.path.join(ctx.workdir(), "h")
    os.makedirs(root)
    seedfiles(rng, root, gen.pick(rng, KINDS))
    hist, hits = [], 0
    for _ in range(int(rng.integers(10, 40))):
        kind = gen.pick(rng, KINDS if rng.random() < 0.4 else
                        ["tif", "png", "hdf", "stream", "txt", "json",
                         "pkl"])
        name = gen.pick(rng, pool(rng, kind))
        over = gen.pick(rng, [False, False, True, None])
        if os.path.isdir(target_of(kind, root, name)) and over is not False:
            over = False
        hits += step(ctx, root, kind, name, over, hist=hist)[0]
    ctx.nontrivial = hits > 0
    ctx.note(hist)


def do_link(ctx, p):
    """A link at the requested place: what it points to is not lost."""
    rng = ctx.rng
    kind = gen.cyc(p, KINDS)
    root = os.path.join(ctx.workdir(), "h")
    os.makedirs(os.path.join(root, "far"))
    ext = EXT[kind]
    orig = os.path.join(root, "far", "orig" + ext)
    pathlib.Path(orig).write_text("original")
    os.symlink(orig, os.path.join(root, "a" + ext))
    before = snapshot(root)
    for _ in range(2):
        data = payload(rng, kind)
        out = fire(ctx, kind, os.path.join(root, "a" + ext), data, False,
                   ctx.call)
        after = snapshot(root)
        ctx.check(all(after.get(q) == v for q, v in before.items()),
                  "no existing file changed", kind=kind, link=True)
        ctx.check(content(ctx, kind, str(out), data),
                  "content is what was saved", kind=kind, link=True)
        before = after
    ctx.seen("link", "kept")
    ctx.nontrivial = True
    ctx.note(kind, "link", p["i"])


def do_many(ctx, p):
    """The name and its first 9 ... 10000 numbered successors are taken."""
    rng = ctx.rng
    kind = gen.cyc(p, KINDS)
    root = os.path.join(ctx.workdir(), "h")
    os.makedirs(root)
    n = int(gen.cyc(p, [9, 10, 99, 100, 255, 256, 999, 1000, 101, 10],
                    stride=2))
    if p["i"] == 7:
        n = 10000
    pathlib.Path(root, "a" + EXT[kind]).write_text("mine")
    for i in range(n):
        with open(os.path.join(root, "a_%04d%s" % (i, EXT[kind])), "w") as f:
            f.write("mine %d" % i)
    hist = []
    for _ in range(2):
        step(ctx, root, kind, "a" + EXT[kind], False, hist=hist)
    ctx.seen("many")
    ctx.seen("taken", n)
    ctx.nontrivial = True
    ctx.note(kind, n, hist)


def do_open(ctx, p):
    """Saves while streams on the same name are still open."""
    rng = ctx.rng
    root = os.path.join(ctx.workdir(), "h")
    os.makedirs(root)
    keep, hist = [], []
    n = int(rng.integers(2, 6))
    for i in range(n):
        kind = "stream" if i % 2 == 0 else gen.pick(rng, ["hdf", "stream"])
        step(ctx, root, kind, gen.pick(rng, ["a.hdf", "a.h5", "a"]), False,
             keep, hist)
    for out, data, path in keep:
        out.file.close()
    for out, data, path in keep:
        ctx.check(content(ctx, "stream", path, data),
                  "content is what was saved", kept_open=True, history=hist)
    ctx.check(len({q for _, _, q in keep}) == len(keep),
              "no existing file changed", kept_open=True, history=hist)
    ctx.seen("stream", "kept open")
    ctx.nontrivial = len(keep) > 1
    ctx.note(hist, p["i"])


def do_fault(ctx, p):
    rng = ctx.rng
    fault = gen.cyc(p, FAULTS)
    kind = gen.cyc(p, KINDS, stride=len(FAULTS))
    if fault == "unknown extension" and kind not in (
            "tif", "png", "plot", "points", "residual"):
        kind = gen.pick(rng, ["tif", "plot", "points", "residual"])
    if fault == "unserialisable" and kind not in ("pkl", "json", "tif"):
        kind = gen.pick(rng, ["pkl", "json", "tif"])
    if fault == "quota" and kind in ("hdf", "stream", "tif"):
        # (PIL's TIFF writer does not report a short write, HDF5 keeps a
        # failed file open)
        kind = gen.pick(rng, ["png", "txt", "json", "pkl"])
    over = gen.cyc(p, [False, True], stride=7)
    root = os.path.join(ctx.workdir(), "h")
    os.makedirs(root)
    seedfiles(rng, root, kind)
    data, ext = payload(rng, kind), EXT[kind]
    name = "a" + ext
    if fault == "parent is a file":
        name = "notes.txt/a" + ext
    elif fault == "target is a folder":
        over = True
        name = "box" + ext
        os.makedirs(os.path.join(root, name))
        pathlib.Path(root, name, "inside.txt").write_text("in")
    elif fault == "name too long":
        name = "x" * 300 + ext
    elif fault == "unknown extension":
        name = "a.qqq"
    elif fault == "unserialisable":
        data = {"pkl": [lambda: 0], "json": [1.0, 2.0, object()],
                "tif": np.zeros((4, 4), dtype="complex128")}[kind]
    else:
        data = {"txt": [0.5] * 9000, "json": [0.5] * 9000,
                "pkl": [float(v) for v in rng.random(9000)]}.get(kind, data)
        if kind in ("tif", "png"):
            data = rng.integers(0, 255, (200, 200)).astype(np.uint8)
    before = snapshot(root)
    target = os.path.realpath(os.path.join(root, name))

    def how(name, *args, **kw):
        return ctx.raises(Exception, name, *args, **kw)
    if fault == "quota":
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (200, old[1]))
    try:
        exc = fire(ctx, kind, os.path.join(root, name), data, over, how)
    finally:
        if fault == "quota":
            resource.setrlimit(resource.RLIMIT_FSIZE, old)
            signal.signal(signal.SIGXFSZ, sig)
    after = snapshot(root)
    changed = [q for q, v in before.items() if after.get(q) != v]
    if over:
        changed = [q for q in changed if os.path.realpath(q) != target]
    ctx.check(exc is not None, "fault raises", fault=fault, kind=kind)
    ctx.check(not changed, "fault leaves the rest", changed=changed[:4],
              fault=fault, kind=kind, overwrite=over)
    ctx.seen("fault", fault)
    ctx.seen("fault kind", kind)
    # the next save works again
    step(ctx, root, kind, "after" + ext, False)
    ctx.nontrivial = True
    ctx.note(fault, kind, over, p["i"])
    ctx.sample = {"fault": fault, "kind": kind, "raised": repr(exc)[:150]}


def run(ctx, p):
    globals()["do_" + p["kind"]](ctx, p)
