"""Purity: arguments, histories, threads."""
import collections
import copy
import importlib
import sys
import threading
import time
import warnings

import numpy as np

from .. import catalog, core, gen

ID = "C21"
RULE = ("%d public functions with realistic arguments; each call's result is "
        "compared with the same call made alone in freshly loaded modules: "
        "repeated, after the caller changed the returned arrays, in random "
        "histories (same function with other values/shapes in between), "
        "after calls that differ in one argument, with the same containers "
        "refilled, under other error, print and warning settings (which must "
        "be left as they were), "
        "and from 6 threads (same or shared arguments) with forced switches "
        "between source lines; arguments digested before/after; non-trivial: "
        "every call that returned" % len(catalog.ENTRIES))
ASSUMPTIONS = ["arguments are not modified by the caller while a call runs",
               "results are compared to 1e-9 of their largest value"]
MUST_SEE = {"arguments untouched": 300, "repeatable": 200,
            "global random numbers untouched": 200,
            "independent of history": 300, "earlier result unchanged": 300,
            "one argument changed": 200, "containers reused": 200,
            "error settings untouched": 200,
            "independent of threads": 150, "overlapping calls": 200}


SLOW = {"find_cod_fine"}


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    names = sorted(catalog.ENTRIES)
    for n in names:
        yield from gen.stream(seed, "pure " + n, 4 * k, fn=n)
    for n in names:
        yield from gen.stream(seed, "same " + n, 1 * k, fn=n)
    for n in names:
        yield from gen.stream(seed, "twin " + n,
                              (1 if n in SLOW else 3) * k, fn=n)
    for n in names:
        yield from gen.stream(seed, "threads " + n, 1 * k, fn=n)
    yield from gen.stream(seed, "history", 40 * k)
    yield from gen.stream(seed, "mixthreads", 16 * k)


class Fresh:
    """A private, newly executed copy of all discorpy modules: no history."""

    def __init__(self):
        old = {k: sys.modules.pop(k) for k in list(sys.modules)
               if k == "discorpy" or k.startswith("discorpy.")}
        try:
            for short, name in core.MODULES.items():
                if short != "losa":
                    setattr(self, short, importlib.import_module(name))
            self.mine = {k: m for k, m in sys.modules.items()
                         if k == "discorpy" or k.startswith("discorpy.")}
        finally:
            for k in list(sys.modules):
                if k == "discorpy" or k.startswith("discorpy."):
                    del sys.modules[k]
            sys.modules.update(old)

    def codes(self):
        out, todo = set(), []
        for m in self.mine.values():
            for o in list(vars(m).values()):
                c = getattr(getattr(o, "__wrapped__", o), "__code__", None)
                if c is not None:
                    todo.append(c)
        root = core.REPO
        while todo:
            c = todo.pop()
            if c in out or not c.co_filename.startswith(root):
                continue
            out.add(c)
            todo += [k for k in c.co_consts if hasattr(k, "co_code")]
        return out


def perform(lib, mod, name, args, kw):
    """Outcome of one call: ('ok', value) or ('exc', type name)."""
    fn = getattr(getattr(lib, mod), name)
    try:
        return "ok", fn(*args, **kw)
    except Exception as e:
        return "exc", type(e).__name__


def quiet(fn, *a):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return fn(*a)


def watched(*a):
    """The outcome, and the error and warning settings before and after."""
    with np.errstate(all="warn"):
        told = (np.geterr(), np.get_printoptions(), list(warnings.filters))
        out = perform(*a)
        left = (np.geterr(), np.get_printoptions(), list(warnings.filters))
    return out, (told, left)


def agree(a, b):
    """Same structure and values (1e-9 of the largest magnitude)."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(agree(a[k], b[k]) for k in a)
    if a is None or isinstance(a, str):
        return type(a) is type(b) and a == b
    try:
        x, y = np.asarray(a), np.asarray(b)
    except Exception:
        return repr(a) == repr(b)
    if x.shape != y.shape or x.dtype != y.dtype:
        return False
    if x.dtype.kind in "biuSU":
        return bool(np.array_equal(x, y))
    if x.dtype == object:
        return all(agree(p, q) for p, q in zip(x.ravel(), y.ravel()))
    with np.errstate(all="ignore"):
        big = np.nanmax(np.abs(x)) if x.size else 0.0
        if not np.isfinite(big):
            return bool(np.array_equal(x, y, equal_nan=True))
        d = np.abs(x.astype(complex) - y.astype(complex))
        return bool(np.all((d <= 1e-9 * big) | (np.isnan(x) & np.isnan(y))))


def same(a, b):
    return a[0] == b[0] and agree(a[1], b[1])


def alone(call):
    """The call in modules that have never done anything else."""
    mod, name, args, kw = call
    return quiet(perform, Fresh(), mod, name, copy.deepcopy(args),
                 copy.deepcopy(kw))


def draw(rng, name=None, size=None):
    if name is None:
        names = sorted(catalog.ENTRIES)
        wts = np.array([catalog.ENTRIES[n][2] for n in names], float)
        name = names[int(rng.choice(len(names), p=wts / wts.sum()))]
    size = int(rng.integers(0, 6)) if size is None else size
    mod, args, kw = catalog.build(name, rng, size)
    return mod, name, args, kw


def spoil(v):
    """What a careless caller does to a result."""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            for x in v.ravel():
                spoil(x)
        elif v.flags.writeable:
            v[...] = 1 if v.dtype.kind == "b" else 77
    elif isinstance(v, (list, tuple)):
        for x in v:
            spoil(x)
        if isinstance(v, list):
            v.append("spoiled")


def record(ctx, call, out):
    ctx.calls[call[1]] += 1
    ctx.seen("outcome", out[0])


def do_pure(ctx, p):
    rng = ctx.rng
    call = draw(rng, p["fn"], p["i"] % 3)
    mod, name, args, kw = call
    np.random.seed(1)
    base = alone(call)
    np.random.seed(int(rng.integers(1 << 30)))
    before = core.digest(args, kw)
    dice = np.random.get_state()
    one, (told, left) = quiet(watched, ctx.lib, mod, name, args, kw)
    record(ctx, call, one)
    now = np.random.get_state()
    ctx.check(all(np.array_equal(a, b) for a, b in zip(dice, now)),
              "global random numbers untouched", function=name)
    ctx.check(told == left, "error settings untouched", function=name,
              before=str(told)[:300], after=str(left)[:300])
    ctx.check(core.digest(args, kw) == before, "arguments untouched",
              function=name, kw=kw)
    ctx.check(same(one, base), "repeatable", function=name, kw=kw,
              what="first call vs fresh modules", got=str(one)[:200],
              want=str(base)[:200])
    keep = copy.deepcopy(one[1])
    two = quiet(perform, ctx.lib, mod, name, copy.deepcopy(args),
                copy.deepcopy(kw))
    ctx.check(same(two, base), "repeatable", function=name, kw=kw,
              what="second call")
    ctx.check(agree(one[1], keep), "earlier result unchanged", function=name)
    spoil(two[1])
    three = quiet(perform, ctx.lib, mod, name, copy.deepcopy(args),
                  copy.deepcopy(kw))
    ctx.check(same(three, base), "repeatable", function=name, kw=kw,
              what="after the caller changed a returned array")
    ctx.nontrivial = one[0] == "ok"
    ctx.note(name, before)
    ctx.sample = {"function": name, "outcome": one[0]}


def sequence(ctx, calls):
    """Run the calls one after the other in one set of modules."""
    base = [alone(c) for c in calls]
    lib = Fresh()
    outs, keeps = [], []
    for c, b in zip(calls, base):
        mod, name, args, kw = c
        before = core.digest(args, kw)
        o = quiet(perform, lib, mod, name, args, kw)
        record(ctx, c, o)
        ctx.check(core.digest(args, kw) == before, "arguments untouched",
                  function=name)
        ctx.check(same(o, b), "independent of history", function=name,
                  kw=kw, position=len(outs),
                  history=[x[1] for x in calls[:len(outs) + 1]][-6:])
        outs.append(o)
        keeps.append(copy.deepcopy(o[1]))
    for c, o, k in zip(calls, outs, keeps):
        ctx.check(agree(o[1], k), "earlier result unchanged", function=c[1])
    ctx.nontrivial = True


def do_same(ctx, p):
    """One function, other values and other shapes, then the first again."""
    rng = ctx.rng
    n = p["fn"]
    a = draw(rng, n, 1)
    b = draw(rng, n, 1)
    c = draw(rng, n, 4)
    again = (a[0], n, copy.deepcopy(a[2]), copy.deepcopy(a[3]))
    # same array object, new content: a cache keyed by identity shows
    sequence(ctx, [a, b, c, again, copy.deepcopy(b)])
    # only some arguments of the first call replaced by the second's
    if len(a[2]) > 1 and len(a[2]) == len(b[2]):
        k = int(rng.integers(len(a[2])))
        mix = [copy.deepcopy(y if i == k else x)
               for i, (x, y) in enumerate(zip(a[2], b[2]))]
        m = (a[0], n, mix, copy.deepcopy(a[3]))
        sequence(ctx, [copy.deepcopy(a), m, copy.deepcopy(a)])
    # the caller refills its own array between two calls
    tgt = [i for i, v in enumerate(a[2]) if isinstance(v, np.ndarray)
           and v.flags.writeable and isinstance(b[2][i], np.ndarray)
           and b[2][i].shape == v.shape and b[2][i].dtype == v.dtype]
    if tgt:
        lib = Fresh()
        args, kw = copy.deepcopy(a[2]), copy.deepcopy(a[3])
        quiet(perform, lib, a[0], n, args, kw)
        for i in tgt:
            args[i][...] = b[2][i]
        want = alone((a[0], n, args, kw))
        got = quiet(perform, lib, a[0], n, args, kw)
        ctx.check(same(got, want), "independent of history", function=n,
                  what="array refilled by the caller")
    ctx.note(n, p["i"])


def nudge(v, rng, how):
    """A copy of an argument that differs a little: in its last number, in one
    number, or in all of them.  None if there is nothing to change."""
    v = copy.deepcopy(v)
    if isinstance(v, (bool, np.bool_, str)) or v is None or callable(v):
        return None
    if isinstance(v, (float, np.floating)):
        return v * 1.004 + 1e-6
    if isinstance(v, (int, np.integer)):
        return v + 1
    if isinstance(v, np.ndarray):
        if not v.size or v.dtype.kind not in "iuf":
            return None
        d = v.dtype.type(1) if v.dtype.kind in "iu" else v.dtype.type(
            0.004 * (np.abs(v).max() + 1e-9))
        v = np.array(v)
        flat = v.reshape(-1)
        if how == "all":
            if v.dtype.kind == "f":
                flat *= v.dtype.type(1.004)
            else:
                flat[flat < np.iinfo(v.dtype).max] += d
        else:
            i = -1 if how == "last" else int(rng.integers(v.size))
            if v.ndim == 1 and v.size < 12 and v.dtype.kind == "f":
                flat[i] *= v.dtype.type(1.01)   # coefficients
            elif v.dtype.kind in "iu" and flat[i] == np.iinfo(v.dtype).max:
                flat[i] -= d
            else:
                flat[i] += d
        return v
    if isinstance(v, (list, tuple)) and len(v):
        out = list(v)
        ids = range(len(out)) if how == "all" else [
            len(out) - 1 if how == "last" else int(rng.integers(len(out)))]
        for i in ids:
            q = nudge(out[i], rng, how)
            if q is None:
                return None
            out[i] = q
        return type(v)(out)
    return None


def refill(mine, new):
    """The containers of `mine` with the contents of `new`, as far as their
    shapes and types allow."""
    if isinstance(mine, np.ndarray) and isinstance(new, np.ndarray) \
            and mine.shape == new.shape and mine.dtype == new.dtype \
            and mine.flags.writeable and mine.dtype != object:
        mine[...] = new
        return mine
    if isinstance(mine, list) and isinstance(new, list):
        old = list(mine)
        mine[:] = [refill(old[i], v) if i < len(old) else copy.deepcopy(v)
                   for i, v in enumerate(new)]
        return mine
    if isinstance(mine, dict) and isinstance(new, dict):
        vals = {k: refill(mine[k], v) if k in mine else copy.deepcopy(v)
                for k, v in new.items()}
        mine.clear()
        mine.update(vals)
        return mine
    return copy.deepcopy(new)


def do_twin(ctx, p):
    """The same call with one argument changed a little, or replaced by that
    of another call, right after the original."""
    rng = ctx.rng
    n = p["fn"]
    a, b = draw(rng, n, 1), draw(rng, n, 1)
    if n in ("unwarp_color_image_backward", "unwarp_image_backward_cv2") \
            and rng.random() < 0.6:
        a[3]["pad"] = True
    variants = []

    def put(where, key, v):
        args, kw = copy.deepcopy(a[2]), copy.deepcopy(a[3])
        (args if where == "arg" else kw)[key] = v
        variants.append((a[0], n, args, kw))
    for where, mine, other in (("arg", dict(enumerate(a[2])),
                                dict(enumerate(b[2]))),
                               ("kw", a[3], b[3])):
        for key in mine:
            if key in other:
                put(where, key, copy.deepcopy(other[key]))
            hows = ["last", "one", "all"]
            if n in SLOW or isinstance(mine[key], (int, float)):
                hows = [gen.pick(rng, hows)]
            for how in hows:
                v = nudge(mine[key], rng, how)
                if v is not None:
                    put(where, key, v)
    most = 4 if n in SLOW else 14
    if len(variants) > most:
        variants = [variants[i] for i in rng.permutation(
            len(variants))[:most]]
    lib = Fresh()
    first = quiet(perform, lib, a[0], n, copy.deepcopy(a[2]),
                  copy.deepcopy(a[3]))
    wants = []
    variants = [copy.deepcopy(v) for v in variants]
    for v in variants:
        want = alone(copy.deepcopy(v))
        wants.append(want)
        got = quiet(perform, lib, a[0], n, copy.deepcopy(v[2]),
                    copy.deepcopy(v[3]))
        record(ctx, v, got)
        ctx.check(same(got, want), "independent of history", function=n,
                  what="one argument changed", kw=v[3])
    again = quiet(perform, lib, a[0], n, copy.deepcopy(a[2]),
                  copy.deepcopy(a[3]))
    ctx.check(same(first, again), "repeatable", function=n,
              what="after calls with one argument changed")
    # the caller reuses its own arrays and lists with other contents
    mine = list(copy.deepcopy(a[2]))
    mykw = copy.deepcopy(a[3])
    quiet(perform, lib, a[0], n, mine, mykw)
    for v, want in list(zip(variants, wants))[:2 if n in SLOW else 5]:
        mine = refill(mine, list(v[2]))
        mykw = refill(mykw, v[3])
        got = quiet(perform, lib, a[0], n, mine, mykw)
        record(ctx, v, got)
        ctx.check(same(got, want), "independent of history", function=n,
                  what="same containers, other contents", kw=v[3])
        ctx.cover["containers reused"] += 1
    ctx.cover["one argument changed"] += len(variants)
    ctx.nontrivial = first[0] == "ok"
    ctx.note(n, p["i"], "twin")


def do_history(ctx, p):
    rng = ctx.rng
    pool = [draw(rng) for _ in range(4)]
    calls = []
    for _ in range(int(rng.integers(6, 13))):
        c = gen.pick(rng, pool)
        calls.append(copy.deepcopy(c))
    sequence(ctx, calls)
    ctx.note([c[1] for c in calls], p["i"])
    ctx.sample = {"history": [c[1] for c in calls]}


def threaded(ctx, plans, shared, seed):
    """plans: per thread a list of calls.  Returns per thread outcomes."""
    lib = Fresh()
    mon = sys.monitoring
    tool = 5
    rnd = np.random.default_rng(seed).random(4096) < 0.12
    tick = [0]

    def on_line(code, line):
        tick[0] += 1
        if rnd[tick[0] & 4095]:
            time.sleep(0.00003)
    events, lock = [], threading.Lock()
    results = [[None] * len(pl) for pl in plans]
    errors = []
    gate = threading.Barrier(len(plans))

    def work(t):
        try:
            gate.wait(60)
            for k, (mod, name, args, kw) in enumerate(plans[t]):
                with lock:
                    events.append((t, name, "in"))
                results[t][k] = perform(lib, mod, name, args, kw)
                with lock:
                    events.append((t, name, "out"))
        except BaseException as e:
            errors.append(repr(e))
    codes = lib.codes()
    old = sys.getswitchinterval()
    mon.use_tool_id(tool, "vmon-threads")
    try:
        mon.register_callback(tool, mon.events.LINE, on_line)
        for c in codes:
            mon.set_local_events(tool, c, mon.events.LINE)
        sys.setswitchinterval(1e-6)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ths = [threading.Thread(target=work, args=(t,))
                   for t in range(len(plans))]
            for th in ths:
                th.start()
            for th in ths:
                th.join()
    finally:
        sys.setswitchinterval(old)
        for c in codes:
            mon.set_local_events(tool, c, 0)
        mon.register_callback(tool, mon.events.LINE, None)
        mon.free_tool_id(tool)
    live, pairs = {}, collections.Counter()
    for t, name, what in events:
        if what == "out":
            live.pop(t)
            continue
        for o in live.values():
            pairs[tuple(sorted((o, name)))] += 1
        live[t] = name
    for (a, b), n in pairs.items():
        ctx.cover["overlapping calls"] += n
    ctx.cover["distinct overlapping pairs"] += len(pairs)
    ctx.cover["line switch points"] += tick[0]
    if errors:
        raise core.Inconclusive("thread died: %s" % errors[:2])
    return results


def judge_threads(ctx, plans, res, base, shared):
    for t, pl in enumerate(plans):
        for k, c in enumerate(pl):
            record(ctx, c, res[t][k])
            ctx.check(same(res[t][k], base[t][k]), "independent of threads",
                      function=c[1], kw=c[3], thread=t, shared=shared,
                      got=str(res[t][k])[:200], want=str(base[t][k])[:200])


def do_threads(ctx, p):
    """One function from six threads: own arguments of one shape, or one
    shared set of arguments."""
    rng = ctx.rng
    n = p["fn"]
    shared = p["i"] % 3 == 2 or (p["i"] == 0 and rng.integers(4) == 0)
    nt, reps = (3, 1) if n in SLOW else (6, 2)
    if shared:
        c = draw(rng, n, 2)
        before = core.digest(c[2], c[3])
        plans = [[c] * reps for _ in range(nt)]
        b = alone(c)
        base = [[b] * reps for _ in range(nt)]
    else:
        cs = [draw(rng, n, 2) for _ in range(nt)]
        bs = [alone(c) for c in cs]
        # neighbours take each other's call next, so a mixed-up result shows
        plans = [[copy.deepcopy(cs[(t + k) % nt]) for k in range(reps)]
                 for t in range(nt)]
        base = [[bs[(t + k) % nt] for k in range(reps)] for t in range(nt)]
    res = quiet(threaded, ctx, plans, shared, p["rng"])
    judge_threads(ctx, plans, res, base, shared)
    if shared:
        ctx.check(core.digest(c[2], c[3]) == before, "arguments untouched",
                  function=n, threads=True)
    ctx.nontrivial = True
    ctx.seen("shared" if shared else "own arguments")
    ctx.note(n, p["rng"])


def do_mixthreads(ctx, p):
    rng = ctx.rng
    pool = [draw(rng) for _ in range(6)]
    bs = [alone(c) for c in pool]
    plans, base = [], []
    for t in range(6):
        ids = [int(rng.integers(6)) for _ in range(3)]
        plans.append([copy.deepcopy(pool[i]) for i in ids])
        base.append([bs[i] for i in ids])
    res = quiet(threaded, ctx, plans, False, p["rng"])
    judge_threads(ctx, plans, res, base, False)
    ctx.nontrivial = True
    ctx.note([c[1] for c in pool], p["rng"])
    ctx.sample = {"functions": [c[1] for c in pool]}


def run(ctx, p):
    globals()["do_" + p["kind"].split()[0]](ctx, p)
