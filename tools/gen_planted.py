"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (not used by any check)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "## 6. The planted bugs\n"


def main():
    rows = ["| bug | caught by | needs | breaks |", "|---|---|---|---|"]
    for p in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
        m = json.load(open(p))
        rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m.get("caught_by", m["property"]), m["needs"], m["what_it_breaks"]))
    path = HERE + "/DESIGN.md"
    text = open(path).read().split(HEAD)[0].rstrip() + "\n\n"
    text += HEAD + "\nEach is caught by the quick check of the property it was written for, with the default seed.\n\n" + "\n".join(rows) + "\n"
    open(path, "w").write(text)


main()
