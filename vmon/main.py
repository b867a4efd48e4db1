"""Entry point of every check: runs one property's workload under its
monitors, prints the verdict and rewrites evidence/<id>.json."""
import argparse
import collections
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

from . import core


def jsonable(o):
    return json.loads(json.dumps(o, default=lambda x: core.brief(x)))


def known_findings():
    """mechanism keys of findings recorded (not repaired)."""
    path = os.path.join(core.HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("status") == "known":
                        out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only cases whose kind contains this")
    ap.add_argument("--jobs", type=int,
                    default=int(os.environ.get("VMON_JOBS", "0")))
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--first", action="store_true",
                    help="stop at the first violating case")
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args()
    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        prop = importlib.import_module("vmon.props." + args.prop.lower())
    except ImportError:
        traceback.print_exc()
        return 2
    pid = prop.ID
    try:
        core.load_target()
    except Exception:
        # the tree does not import at all: nothing was observed
        traceback.print_exc()
        print("INCONCLUSIVE property=%s discorpy cannot be loaded" % pid)
        return 2
    core.set_runner(prop.run)
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        cases = [rep["case"]]
    else:
        cases = list(prop.cases(tier, seed))
        if args.only:
            cases = [c for c in cases if args.only in c.get("kind", "")]
        if args.limit:
            cases = cases[:args.limit]
    jobs = args.jobs or min(8, os.cpu_count() or 1)
    if getattr(prop, "SERIAL", False):
        jobs = 1
    known = {k["key"]: k for k in known_findings() if k["property"] == pid}
    asserts, calls, cover = (collections.Counter() for _ in range(3))
    slack, digests = {}, set()
    bad, inconc, samples, hit_known = [], [], [], collections.Counter()
    n, steps, walls = 0, 0, []
    sample_kinds = set()
    for res in core.run_all(cases, jobs):
        n += 1
        asserts.update(res["asserts"])
        calls.update(res["calls"])
        cover.update(res["cover"])
        steps = max(steps, res["steps"])
        walls.append((res["wall"], res["params"].get("kind"),
                      res["params"].get("rng")))
        for k, v in res["slack"].items():
            slack[k] = max(slack.get(k, 0.0), v)
        if res["nontrivial"]:
            digests.add(res["digest"])
        for key in res["known"]:
            hit_known[key] += 1
        if res.get("inconclusive"):
            inconc.append((res["params"], res["inconclusive"]))
        if res["failures"]:
            bad.append(res)
            if args.first:
                break
        if bad and time.time() - t0 > 300:
            break           # the verdict is settled; do not run for ever
        kind = res["params"].get("kind")
        if res["sample"] is not None and kind not in sample_kinds \
                and len(samples) < 8:
            sample_kinds.add(kind)
            samples.append({"case": res["params"], "observed": res["sample"]})
    # A mechanism listed as a known finding is reported, never as a violation;
    # one that is not listed is a violation.
    unlisted = [k for k in hit_known if k not in known]
    bad.sort(key=lambda r: json.dumps(r["params"], sort_keys=True,
                                      default=str))
    need_cover = getattr(prop, "MUST_SEE", {})
    missing = []
    if not args.replay and not args.only and not args.limit and not (
            args.first and bad):
        for key, minimum in need_cover.items():
            got = asserts.get(key, 0) + calls.get(key, 0) + cover.get(key, 0)
            if got < minimum:
                missing.append("%s: %d < %d" % (key, got, minimum))
    wall = time.time() - t0
    replays = []
    if bad:
        rdir = os.path.join(core.HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        for res in bad[:5]:
            rec = {"property": pid, "tier": tier, "seed": seed,
                   "case": res["params"], "failures": res["failures"][:10]}
            txt = json.dumps(jsonable(rec), indent=1)
            h = hashlib.sha1(json.dumps(
                jsonable(res["params"]), sort_keys=True).encode())
            path = os.path.join(rdir, "%s-%s.json" % (pid, h.hexdigest()[:10]))
            with open(path, "w") as f:
                f.write(txt + "\n")
            replays.append(path)
    ev = {
        "property": pid, "tier": tier, "seed": seed,
        "level": getattr(prop, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(digests),
            "rule": prop.RULE,
            "samples": jsonable(samples) or [{"none": True}],
            "api_calls": dict(sorted(calls.items())),
            "oracle_evaluations": dict(sorted(asserts.items())),
            "situations_seen": dict(sorted(cover.items())),
            "largest_fraction_of_tolerance_used": {
                k: round(v, 4) for k, v in sorted(slack.items())},
            "max_loop_steps": steps,
            "inconclusive_cases": len(inconc),
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    if not args.replay and not args.only and not args.limit:
        edir = os.path.join(core.HERE, "evidence")
        os.makedirs(edir, exist_ok=True)
        tmp = os.path.join(edir, ".%s.%d.tmp" % (pid, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        os.replace(tmp, os.path.join(edir, pid + ".json"))
    for key, cnt in sorted(hit_known.items()):
        if key in known:
            print("KNOWN-FINDING: property=%s %s (%d cases)"
                  % (pid, known[key]["what"], cnt))
    if args.verbose:
        walls.sort(reverse=True, key=lambda w: w[0])
        print("slowest:", [(round(w, 2), k, r) for w, k, r in walls[:6]])
        print("cpu: %.1f" % sum(w for w, _, _ in walls))
        print(json.dumps({k: v for k, v in ev["coverage"].items()
                          if k != "samples"}, indent=1))
    for res, path in zip(bad[:5], replays):
        for fl in res["failures"][:3]:
            print("  %s %s: %s" % (res["params"].get("kind"), fl["assert"],
                                   json.dumps(jsonable(
                                       fl.get("detail", {})))[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for key in unlisted:
        print("  mechanism %s is not a listed finding" % key)
        print("VIOLATION property=%s replay=%s" % (pid, key))
    for p, why in inconc[:3]:
        print("inconclusive case %s: %s" % (json.dumps(
            jsonable(p))[:200], why))
    kinds = collections.Counter(r["params"].get("kind") for r in bad)
    if bad:
        print("failing kinds:", dict(kinds))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d oracle "
          "evaluations, %d API calls, %d violating, %d inconclusive, %.1f s"
          % (pid, tier, seed, n, len(digests), sum(asserts.values()),
             sum(calls.values()), len(bad), len(inconc), wall))
    if bad or unlisted:
        return 1
    if missing:
        print("INCONCLUSIVE property=%s monitor not reached: %s"
              % (pid, "; ".join(missing)))
        return 2
    if inconc or n == 0 or sum(asserts.values()) == 0:
        print("INCONCLUSIVE property=%s" % pid)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
