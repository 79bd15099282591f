#!/usr/bin/env python3
"""Writes SEEDS.md: the planted bugs and the check that catches each (from target/seeds.log)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
log = {}
for l in (root / "target/seeds.log").read_text().splitlines():
    m = re.match(r"(C\d\d-\S+) rc=(\d)(?: \[(C\d+)\] ([\w/-]+) \(arm (\w+), case (\d+)\))?", l)
    if m: log[m.group(1)] = m
out = ["# Planted bugs and what catches them", "", "| bug | needs | caught by |", "|---|---|---|"]
n = 0
for d in ["seeded", "extra_seeds"]:
    for p in sorted((root / d).glob("C*/meta.json")):
        j = json.loads(p.read_text()); i = p.parent.name; m = log.get(i)
        by = "not run" if not m else "missed" if m.group(2) != "1" else f"{m.group(3)}, arm {m.group(5)}, case {m.group(6)} ({m.group(4)})" if m.group(3) else "caught"
        n += by not in ("not run", "missed")
        out.append(f"| {i} | {j['needs']} | {by} |")
out += ["", f"{n} of {len(out) - 4} caught."]
(root / "SEEDS.md").write_text("\n".join(out) + "\n")
print(out[-1])
