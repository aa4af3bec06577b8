#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, the table of planted bugs (seeded/*/meta.json and tools/caught.txt), and the
bounds of every harness (the //@ headers)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(root)
out = [open("tools/design_head.md").read().rstrip(), ""]
caught = {}
for line in open("tools/caught.txt"):
    m = re.match(r"(\S+) (C\d+) (caught|missed)(.*)", line)
    if m:
        caught[(m[1], m[2])] = (m[3], m[4].strip())
out += ["## 5. Planted bugs and what catches them", "",
        "Each was written from the property's text and the code, and its demonstration confirmed with and without it. The last",
        "column is the quick check's answer (`tools/caught.txt`); a harness name is the one that reported.", "",
        "| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[1]
    c = [f"{p}: {v[1] or v[0]}" if v[0] == "caught" else f"{p}: **{v[0]}** {v[1]}" for (b, p), v in sorted(caught.items()) if b == i]
    out.append(f"| {i} | {m['property']} | {m['needs']} | {'; '.join(c) or '(not run)'} |")
if os.path.exists("tools/bugs_notes.md"):
    out += ["", open("tools/bugs_notes.md").read().rstrip()]
out += ["", "## 6. Harnesses and bounds", "",
        "`q`: quick and thorough; `t`: thorough only. The bound is the set of inputs decided; everything outside it is outside the claim.", ""]
for f in sorted(glob.glob("harness/src/c[0-9][0-9].rs")):
    src = open(f).read().splitlines()
    title = next((l[3:].strip() for l in src if l.startswith("//!")), "")
    out += [f"### {title}", ""]
    for k, l in enumerate(src):
        m = re.match(r"\s*//@ (\w)\b[^|]*\|\s*(.*)", l)
        if not m: continue
        name = None
        for n in src[k+1:k+6]:
            g = re.search(r"\b(h_\w+)", n)
            if g: name = g[1]; break
        out.append(f"* `{name}` ({m[1]}): {m[2]}")
    out.append("")
open("DESIGN.md", "w").write("\n".join(out))
