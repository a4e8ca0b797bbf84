"""Fill the table of planted bugs in DESIGN.md from seeded/ and tools/caught.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json"))
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json") + glob.glob(V + "/seeds_resave/*/meta.json")):
    m, n = json.load(open(f)), f.split("/")[-2]
    rows.append("| %s | %s | %s |" % (n, m["needs"].replace("|", "/"), caught.get(n, "?")))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(?s)(?:@@SEEDS@@|\| planted bug \|.*?\n(?=\n))", lambda _: "\n".join(rows) + "\n" if "@@" in _.group(0) else "\n".join(rows) + "\n", s)
open(V + "/DESIGN.md", "w").write(s)
