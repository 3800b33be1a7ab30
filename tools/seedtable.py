"""Developer tool: rewrite the table of planted bugs in DESIGN.md."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {os.path.basename(d)} | {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
t = "| change | what it breaks | what it needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds table.*?-->\n).*?(<!-- end -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(p, "w").write(s)
