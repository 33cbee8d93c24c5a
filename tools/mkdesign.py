"""DESIGN.md from its parts and the list of planted bugs."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(R, p)).read()
head, tail = rd("tools/design_head.md"), rd("tools/design_tail.md")
t = "## 6 Planted bugs\n\nEach passes the existing tests and was caught by the check of its property\nin the quick tier when it was planted.  In the last full run C18 missed\n`c18-mantissa-initial-32bit`: the few documents its quick tier compiles are drawn\nat random, and since its generator was extended those of seed 1 have no such\ninitial value.  `c05-long-pmap-tail` makes the change of\n`c12-wide-map-truncated`, and `c16-free-chunk-restarts` only adds lines; vcheck\ncounts neither.\n\n| change | property | needs |\n|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))):
    m = json.load(open(f))
    t += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].rstrip(".").replace("|", "/"))
a, b = tail.split("## 7 Limits")
open(os.path.join(R, "DESIGN.md"), "w").write(head + "\n" + a + t + "\n## 7 Limits" + b)
