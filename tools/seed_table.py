""" rewrite the table of planted bugs in DESIGN.md (between its markers) """
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = "<!-- seeds -->", "<!-- /seeds -->"
rows = ["| bug | caught by | file | what it breaks | needs |",
        "|---|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    f = sorted(set(re.findall(r"^\+\+\+ b/(?:.*/)?(\S+)", open(
        f"{V}/seeded/{i}/patch.diff").read(), re.M)))
    rows.append(f"| {i} | {m['property']} | {', '.join(f)} | "
                f"{m['what_it_breaks']} | {m['needs']} |")
s = open(V + "/DESIGN.md").read()
if "@SEEDS@" in s:
    s = s.replace("@SEEDS@", A + "\n" + B)
a, b = s.index(A) + len(A), s.index(B)
open(V + "/DESIGN.md", "w").write(
    s[:a] + "\n" + "\n".join(rows) + "\n" + s[b:])
