"""Rewrites the list of planted bugs in DESIGN.md, from seeded/*/meta.json."""
import collections, json, os
d = collections.defaultdict(list)
for i in sorted(os.listdir("/verif/seeded")):
    d[json.load(open(f"/verif/seeded/{i}/meta.json"))["property"]].append(i)
t = "| check | planted bugs it catches |\n|---|---|\n" + "".join(f"| {k} | {', '.join(d[k])} |\n" for k in sorted(d))
s = open("/verif/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- end -->\n"
i, j = s.index(a) + len(a), s.index(b)
open("/verif/DESIGN.md", "w").write(s[:i] + f"{sum(map(len, d.values()))} bugs.\n\n" + t + s[j:])
