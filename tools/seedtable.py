"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "optional-param-not-checked": "missed; C21 now also writes objects whose *optional* and nested members hold other parameters",
    "param-array-indexed-offsets-read": "missed; C15 got indexed offsets over parameterised elements of odd sizes",
    "lengthof-of-long-arrays": "missed; C16 got arrays around 2^16 elements",
    "constant-shadows-field": "missed; C16 got the `hiding` units (fields, parameters, constants of the same name)",
    "template-name-two-arguments": "missed; C20 got `tpmore` (up to four template parameters, all differing positions)",
    "arguments-after-index": "missed; C21 got `parlist*` (every list of two arguments out of six kinds, and every place of the index in three, in every form of array)",
    "align-with-offset": "missed; C15 got `offby*` (twelve alignments with and without offsets on ten kinds of field)",
}
MISSED.update(json.load(open(os.path.join(here, "tools/seeds/missed.json"))) if os.path.exists(os.path.join(here, "tools/seeds/missed.json")) else {})
rows = ["| planted bug | caught by | needs | first run |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {MISSED.get(d, 'caught')} |")
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->|SEEDTABLE", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
