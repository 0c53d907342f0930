#!/usr/bin/env python3
"""Rewrites the generated tables of /verif/DESIGN.md (between the BEGIN and END markers) from the harness and seeded/."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {p["id"]: p for p in map(json.loads, open(os.path.join(V, "properties.jsonl")))}
out = subprocess.run([os.path.join(V, "check.sh"), "list"], capture_output=True, text=True, check=True).stdout
subs = [l.split("\t") for l in out.splitlines()]
t = []
for id in sorted(props):
    t.append(f"\n**{id}** {props[id]['title']}\n")
    for s in subs:
        if s[0] == id and not s[1].endswith("-together"):
            n = f"{s[2]} quick, {s[3]} thorough" if s[2] != "0" else "enumerated"
            both = any(x[0] == id and x[1] == s[1] + "-together" for x in subs)
            t.append(f"- `{s[1]}` ({n}{'; repeated side by side' if both else ''}): {s[4]}")
seeds = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    seeds.append(f"| {d} | {m['property']} | {m['needs']} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
def put(name, text):
    global s
    s, n = re.subn(rf"(<!-- BEGIN {name} -->\n).*?(<!-- END {name} -->)", lambda m: m[1] + text + "\n" + m[2], s, flags=re.S)
    assert n == 1, name
put("SUBCHECKS", "\n".join(t))
put("SEEDED", "| change | property | needs |\n|---|---|---|\n" + "\n".join(seeds))
open(p, "w").write(s)
