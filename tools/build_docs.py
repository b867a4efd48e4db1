"""Regenerates properties.jsonl and MANIFEST.json from props_table.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props_table import P  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p["observe"], "hook_needed": None}}) + "\n")
have = [p for p in P if os.path.exists(os.path.join(
    ROOT, "vmon", "props", p["id"].lower() + ".py"))]
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check %s --tier quick" % p["id"],
        "thorough_cmd": "./check %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["tech"],
        "level": "exploration",
        "level_note": "Holds on every execution observed: " + p["note"]
        + ". Trusts numpy/scipy/skimage/h5py/PIL/OpenCV primitives used by "
          "the oracle; says nothing about inputs outside the generated "
          "domain.",
    } for p in have],
    "not_applicable": [{"property": p["id"],
                        "reason": "no monitor built for it yet"}
                       for p in P if p not in have],
    "notes": "No hooks in /repo: every monitor sits at the public API, the "
             "file system and matplotlib's global state. discorpy is pure "
             "Python, so compiler sanitizers have nothing to instrument; see "
             "DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(have), "claimed of", len(P))
