#!/usr/bin/env python3
"""Rewrites section 8 of DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    f = sorted(set(re.findall(r"^\+\+\+ b/(\S+)", open(f"{root}/seeded/{d}/patch.diff").read(), re.M)))
    rows.append(f"| {d} | {', '.join(f)} | {m['property']} | {m['needs'].strip().rstrip('.')} |")
p = root + "/DESIGN.md"
s = open(p).read()
new = "## 8. Which check reports which planted bug\nAll are reported by the quick check of the property named (neighbouring checks often report them too).\n\n| planted bug | file | reported by | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
if "## 8." in s:
    s = re.sub(r"## 8\..*?(?=\n## 9\.|\Z)", lambda _: new, s, flags=re.S)
else:
    s = s.rstrip() + "\n\n" + new
open(p, "w").write(s)
