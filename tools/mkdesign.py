"""Appends the table of planted bugs to DESIGN.md (from seeded/*/meta.json)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs"
path = os.path.join(V, "DESIGN.md")
text = open(path).read()
text = text[:text.index(MARK)] if MARK in text else text
rows = [MARK, "", "Each was confirmed in a scratch copy (builds, stable tests pass, demonstration fails with it only), and",
        "each is caught by the quick check of its property unless the last column says otherwise.", "",
        "| id | property | what it breaks | caught |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"],
        m["what_it_breaks"].replace("|", "\\|").replace("\n", " "), m.get("caught", "yes")))
open(path, "w").write(text + "\n".join(rows) + "\n")
