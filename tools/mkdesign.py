"""Fill the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/catches.json (development aid)."""
import json, os
c = json.load(open("/verif/tools/catches.json"))
rows = ["| planted bug | property | needs | reported as |", "|---|---|---|---|"]
for b in sorted(os.listdir("/verif/seeded")):
    m = json.load(open(f"/verif/seeded/{b}/meta.json"))
    rows.append(f"| {b} | {m['property']} | {m['needs']} | {c.get(b, '?')} |")
s = open("/verif/DESIGN.md").read()
a, z = s.index("## Planted bugs"), s.index("Missed at first")
head = s[a:z].split("\n|")[0].replace("@@TABLE@@\n\n", "")
open("/verif/DESIGN.md", "w").write(s[:a] + head.rstrip() + "\n\n" + "\n".join(rows) + "\n\n" + s[z:])
