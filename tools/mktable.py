"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LATE = {"k01", "k02", "k04", "d03", "d09", "d16", "d35", "d46", "d61", "d10", "f05", "f15", "f18", "f23", "f24", "f28", "f48", "f49",
        "g65", "g70", "h05", "h06", "h58", "h60", "i42", "i77", "j26"}
rows = ["| bug | property | needs | caught by its property's check |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{here}/seeded")):
    m = f"{here}/seeded/{d}/meta.json"
    if not os.path.exists(m): continue
    m = json.load(open(m))
    how = m.get("note") or ("yes, after strengthening" if d.split("-")[0] in LATE else "yes")
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {how} |")
p = f"{here}/DESIGN.md"
t = open(p).read()
t = re.sub(r"(<!-- bugs -->\n).*?(<!-- /bugs -->)", lambda k: k[1] + "\n".join(rows) + "\n" + k[2], t, flags=re.S)
open(p, "w").write(t)
