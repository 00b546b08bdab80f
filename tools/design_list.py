"""Regenerates the list at the end of DESIGN.md ("Planted bugs") from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
text = open(path).read()
head = text[:text.index("## Planted bugs")]
rows = []
for f in glob.glob(os.path.join(root, "seeded", "*", "meta.json")):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["what_it_breaks"].strip().rstrip(".")))
rows.sort()
out = head + "## Planted bugs\n\nAll of them keep the stable tests passing; each is caught by the check of the property in brackets (`VIOLATION property=<id>`).\n\n"
for p, n, w in rows:
    out += "* `%s` (%s): %s\n" % (n, p, w)
open(path, "w").write(out)
