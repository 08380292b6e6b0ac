# rewrites the table of planted bugs in DESIGN.md
import json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/../..")
rows = ["| id | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
s = open("DESIGN.md").read()
new = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", new)
else:
    s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: new, s, flags=re.S)
open("DESIGN.md", "w").write(s)
