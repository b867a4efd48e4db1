"""Rewrite section 5 of DESIGN.md (planted bugs) from seeded/*/meta.json."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for name in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    path = os.path.join(ROOT, "seeded", name, "meta.json")
    if not os.path.exists(path):
        continue
    m = json.load(open(path))
    what = " ".join(m["what_it_breaks"].split())
    if len(what) > 150:
        what = what[:147].rsplit(" ", 1)[0] + " ..."
    rows.append("| %s | %s | %s |" % (name, m["property"], what))
text = open(os.path.join(ROOT, "DESIGN.md")).read()
head = "<!-- seeds -->"
tail = "<!-- /seeds -->"
block = (head + "\n%d planted bugs, each caught by the quick check of its "
         "property:\n\n| bug | caught by | what it breaks |\n|---|---|---|\n"
         % len(rows)) + "\n".join(rows) + "\n" + tail
if head in text:
    text = re.sub(re.escape(head) + ".*?" + re.escape(tail),
                  lambda _: block, text, flags=re.S)
else:
    text = text.replace("@@SEEDS@@", block)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(text)
print(len(rows), "planted bugs")
