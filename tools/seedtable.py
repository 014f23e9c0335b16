"""Print the table of planted bugs (seeded/*/meta.json) for DESIGN.md and put
it between the two marks there."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for path in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(path))
    rows.append("| {} | {} | {} | {} |".format(
        os.path.basename(os.path.dirname(path)), m["property"],
        m["what_it_breaks"], m["needs"]))
text = ("| planted bug | caught by the check of | what it breaks | what it needs |\n"
        "|---|---|---|---|\n" + "\n".join(rows))
name = os.path.join(here, "DESIGN.md")
design = open(name).read()
a, b = "<!-- planted bugs: tools/seedtable.py -->", "<!-- end of planted bugs -->"
design = re.sub(re.escape(a) + ".*?" + re.escape(b),
                lambda _: a + "\n" + text + "\n" + b, design, flags=re.S)
open(name, "w").write(design)
