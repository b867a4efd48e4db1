"""Runtime-monitoring core: loading the code under observation, recording what
it was asked and what it answered, and turning observations into a verdict.

Nothing here looks at the *text* of discorpy: every monitor sits at the public
API boundary (arguments in, results / exceptions / files / global state out).
"""
import collections
import errno
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

REPO = os.environ.get("VMON_REPO", "/repo")
SCRATCH = os.environ.get("VMON_SCRATCH", "/tmp")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MODULES = {
    "post": "discorpy.post.postprocessing",
    "proc": "discorpy.proc.processing",
    "prep": "discorpy.prep.preprocessing",
    "linep": "discorpy.prep.linepattern",
    "util": "discorpy.util.utility",
    "losa": "discorpy.losa.loadersaver",
}

# Backward jumps executed by discorpy's own loops in one case.  The largest
# case on the unchanged tree stays far below (see evidence: max_loop_steps).
STEP_BUDGET = int(os.environ.get("VMON_STEP_BUDGET", "30000000"))
CASE_ALARM = int(os.environ.get("VMON_CASE_ALARM", "400"))


class Abort(Exception):
    """Ends a case after a violation that leaves nothing more to look at."""


class Inconclusive(Exception):
    """The case could not be decided (resources, time): never a verdict."""


class StepBudgetExceeded(BaseException):
    """discorpy looped past the logical step budget."""


class _Lib:
    """Namespace of the loaded modules: lib.post, lib.proc, ..."""


LIB = _Lib()
_TOOL = 4


class Steps:
    """Counts backward jumps inside discorpy's code objects (logical time)."""
    count = 0
    budget = STEP_BUDGET
    total = 0
    on = False

    @classmethod
    def install(cls, modules):
        mon = sys.monitoring
        mon.use_tool_id(_TOOL, "vmon")
        ev = mon.events

        def on_jump(code, src, dst):
            if dst <= src:
                cls.count += 1
                if cls.count > cls.budget:
                    raise StepBudgetExceeded(code.co_qualname)

        mon.register_callback(_TOOL, ev.JUMP, on_jump)
        seen = set()

        def walk(code):
            if code in seen:
                return
            seen.add(code)
            mon.set_local_events(_TOOL, code, ev.JUMP)
            for const in code.co_consts:
                if hasattr(const, "co_code"):
                    walk(const)

        for mod in modules:
            for obj in list(vars(mod).values()):
                code = getattr(obj, "__code__", None)
                if code is not None and getattr(obj, "__module__", "") \
                        == mod.__name__:
                    walk(code)
        cls.on = True

    @classmethod
    def reset(cls):
        cls.total = max(cls.total, cls.count)
        cls.count = 0


def load_target():
    """Import the six modules of discorpy from REPO's working tree."""
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    for short, name in MODULES.items():
        mod = importlib.import_module(name)
        path = os.path.realpath(mod.__file__)
        if not path.startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError("loaded %s from %s, not from %s"
                               % (name, path, REPO))
        setattr(LIB, short, mod)
    try:
        Steps.install([getattr(LIB, s) for s in MODULES])
    except Exception:  # no sys.monitoring: only the watchdog is left
        pass
    return LIB


def digest(*objs):
    h = hashlib.sha1()

    def feed(o):
        if isinstance(o, np.ndarray):
            h.update(str(o.dtype).encode() + str(o.shape).encode())
            if o.dtype == object:
                for x in o.ravel():
                    feed(x)
            else:
                h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, (list, tuple)):
            h.update(b"[%d" % len(o))
            for x in o:
                feed(x)
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode())
                feed(o[k])
        elif isinstance(o, np.generic):
            feed(np.asarray(o))
        else:
            h.update(repr(o).encode())
    for o in objs:
        feed(o)
    return h.hexdigest()


def brief(obj, limit=400):
    """Short JSON-able picture of a value for replays and samples."""
    if isinstance(obj, np.ndarray):
        if obj.size <= 12:
            return {"array": str(obj.dtype), "shape": list(obj.shape),
                    "values": np.asarray(obj).tolist()}
        d = {"array": str(obj.dtype), "shape": list(obj.shape)}
        try:
            with np.errstate(all="ignore"):
                d.update(min=float(np.min(obj)), max=float(np.max(obj)))
        except Exception:
            pass
        return d
    if isinstance(obj, (np.generic,)):
        return obj.item()
    if isinstance(obj, (int, float, bool)) or obj is None:
        return obj
    if isinstance(obj, (list, tuple)):
        if len(obj) > 12:
            return {"len": len(obj), "first": [brief(o) for o in obj[:3]]}
        return [brief(o) for o in obj]
    if isinstance(obj, dict):
        return {str(k): brief(v) for k, v in list(obj.items())[:20]}
    s = str(obj)
    return s if len(s) <= limit else s[:limit] + "..."


def from_target(exc):
    """True if the exception went through a frame of the code under test."""
    tb = exc.__traceback__
    root = os.path.realpath(REPO) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


class Ctx:
    """Monitor of one case: observations in, assertion outcomes out."""

    def __init__(self, params):
        self.params = params
        self.lib = LIB
        self.failures = []
        self.asserts = collections.Counter()
        self.calls = collections.Counter()
        self.cover = collections.Counter()
        self.slack = {}
        self.dig = hashlib.sha1()
        self.nontrivial = False
        self.sample = None
        self.known = []
        self.rng = np.random.default_rng(
            [int(x) for x in params.get("rng", [0])])
        self._dir = None

    # -- generation helpers -------------------------------------------------
    def workdir(self):
        if self._dir is None:
            import tempfile
            self._dir = tempfile.mkdtemp(dir=os.path.join(SCRATCH, "work"))
        return self._dir

    def cleanup(self):
        if self._dir is not None:
            import shutil
            shutil.rmtree(self._dir, ignore_errors=True)

    # -- observation --------------------------------------------------------
    def seen(self, *bucket):
        self.cover["/".join(str(b) for b in bucket)] += 1

    def note(self, *objs):
        self.dig.update(digest(*objs).encode())

    def call(self, name, *args, **kwargs):
        """Call lib.<module>.<function>; any exception is a violation."""
        mod, func = name.split(".")
        fn = getattr(getattr(self.lib, mod), func)
        self.calls[func] += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    out = fn(*args, **kwargs)
        except StepBudgetExceeded as e:
            self.fail("terminates:" + func, loop_steps=Steps.budget,
                      where=str(e), args=brief(args), kwargs=brief(kwargs))
            raise Abort()
        except MemoryError:
            raise Inconclusive("MemoryError in " + func)
        except OSError as e:
            if e.errno == errno.ENOSPC:
                raise Inconclusive("no space left")
            self._exc(func, e, args, kwargs)
        except Exception as e:
            if "No space left" in str(e):
                raise Inconclusive("no space left")
            self._exc(func, e, args, kwargs)
        return out

    def _exc(self, func, e, args, kwargs):
        self.fail("returns:" + func, exception="%s: %s"
                  % (type(e).__name__, e), args=brief(args),
                  kwargs=brief(kwargs),
                  tb=traceback.format_exc()[-1500:])
        raise Abort()

    def raises(self, exc_types, name, *args, **kwargs):
        """The call must raise one of exc_types; returns the exception."""
        mod, func = name.split(".")
        fn = getattr(getattr(self.lib, mod), func)
        self.calls[func] += 1
        self.asserts["raises:" + func] += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    out = fn(*args, **kwargs)
        except exc_types as e:
            return e
        except StepBudgetExceeded:
            self.fail("terminates:" + func, args=brief(args))
            return None
        except Exception as e:
            if "No space left" in str(e):
                raise Inconclusive("no space left")
            self.fail("raises:" + func, exception="%s: %s"
                      % (type(e).__name__, e), args=brief(args),
                      kwargs=brief(kwargs))
            return None
        self.fail("raises:" + func, returned=brief(out), args=brief(args),
                  kwargs=brief(kwargs))
        return None

    # -- oracles ------------------------------------------------------------
    def fail(self, name, **detail):
        self.asserts[name] += 0
        if len(self.failures) < 6:
            self.failures.append({"assert": name, "detail": brief(detail)})
        else:
            self.failures.append({"assert": name})

    def check(self, ok, name, **detail):
        self.asserts[name] += 1
        ok = bool(ok)
        if not ok:
            self.fail(name, **detail)
        return ok

    def need(self, ok, name, **detail):
        if not self.check(ok, name, **detail):
            raise Abort()

    def close(self, got, want, tol, name, **detail):
        """|got - want| <= tol everywhere (tol scalar or array); NaN/Inf and
        shape mismatches fail."""
        self.asserts[name] += 1
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.fail(name, reason="shape", got=list(got.shape),
                      want=list(want.shape), **detail)
            return False
        if got.size == 0:
            return True
        g = got.astype(np.float64)
        w = want.astype(np.float64)
        with np.errstate(all="ignore"):
            err = np.abs(g - w)
            rel = err / tol
        bad = ~(rel <= 1.0)
        if bad.any():
            i = np.unravel_index(int(np.argmax(np.where(
                np.isnan(rel), np.inf, rel))), g.shape)
            self.fail(name, at=[int(x) for x in i], got=float(g[i]),
                      want=float(w[i]), err=float(err[i]),
                      tol=float(np.broadcast_to(tol, g.shape)[i]),
                      bad=int(bad.sum()), of=int(g.size), **detail)
            return False
        self.slack[name] = max(self.slack.get(name, 0.0), float(rel.max()))
        return True

    def at_most(self, value, bound, name, **detail):
        """value <= bound, recording how much of the bound was used."""
        self.asserts[name] += 1
        v, b = float(value), float(bound)
        if not v <= b:
            self.fail(name, value=v, bound=b, **detail)
            return False
        if b > 0:
            self.slack[name] = max(self.slack.get(name, 0.0), v / b)
        return True

    def result(self):
        return {
            "params": self.params, "failures": self.failures,
            "asserts": dict(self.asserts), "calls": dict(self.calls),
            "cover": dict(self.cover), "slack": self.slack,
            "digest": self.dig.hexdigest(), "nontrivial": self.nontrivial,
            "sample": self.sample, "known": self.known,
            "steps": Steps.count,
        }


def _alarm(signum, frame):
    raise Inconclusive("per-case watchdog fired")


_RUN = None


def run_case(params):
    """Run one case in this process; returns a result dict."""
    Steps.reset()
    ctx = Ctx(params)
    res = None
    t0 = time.time()
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(CASE_ALARM)
    except ValueError:
        pass
    try:
        _RUN(ctx, params)
    except Abort:
        pass
    except Inconclusive as e:
        res = ctx.result()
        res["inconclusive"] = str(e)
    except StepBudgetExceeded as e:
        ctx.fail("terminates", loop_steps=Steps.budget, where=str(e))
    except MemoryError:
        res = ctx.result()
        res["inconclusive"] = "MemoryError"
    except OSError as e:
        if e.errno == errno.ENOSPC:
            res = ctx.result()
            res["inconclusive"] = "ENOSPC"
        else:
            ctx.fail("interpretable", exception=repr(e),
                     tb=traceback.format_exc()[-2500:])
    except Exception as e:
        # The oracle could not even interpret what came back.
        if sum(ctx.calls.values()) == 0:
            res = ctx.result()
            res["inconclusive"] = "harness: " + traceback.format_exc()[-1500:]
        else:
            ctx.fail("interpretable", exception=repr(e),
                     tb=traceback.format_exc()[-2500:])
    finally:
        try:
            signal.alarm(0)
        except ValueError:
            pass
        ctx.cleanup()
    if res is None:
        res = ctx.result()
    res["wall"] = time.time() - t0
    return res


def set_runner(fn):
    global _RUN
    _RUN = fn


def run_all(cases, jobs):
    if jobs <= 1 or len(cases) <= 1:
        for c in cases:
            yield run_case(c)
        return
    mp = multiprocessing.get_context("fork")
    # Long cases first would change nothing in the verdict; order is fixed.
    with mp.Pool(jobs, maxtasksperchild=None) as pool:
        for res in pool.imap_unordered(run_case, cases, chunksize=1):
            yield res
