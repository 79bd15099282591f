#!/usr/bin/env python3
"""Rewrites the 'fixed' list of known_findings.json from the fix: commits of /repo.
Findings themselves are kept by hand in the same file."""
import json, pathlib, subprocess
root = pathlib.Path(__file__).resolve().parent.parent
f = root / "known_findings.json"
d = json.loads(f.read_text()) if f.exists() else {"findings": []}
WHICH = {  # subject prefix -> property
    "align nested enum": "C01", "enum tags that fill": "C01", "proper prefix": "C11", "refuse a row": "C10",
    "control characters": "C04", "three-byte": "C04", "short writes": "C04", "non-finite": "C05",
    "Unicode escapes": "C08", "a JSON number": "C08", "only the four": "C08", "JSON decoding of structs": "C05",
    "JSON decoder refuses": "C07",
}
EXTRA = root / "tools/fixed_map.json"
if EXTRA.exists():
    WHICH.update(json.loads(EXTRA.read_text()))
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s", "--grep=^fix:"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split("\t")
    s = s[5:]
    p = [v for k, v in WHICH.items() if s.startswith(k)]
    assert len(p) == 1, s
    out.append(f"fixed: property={p[0]} {h} {s}")
d["fixed"] = out
f.write_text(json.dumps(d, indent=1) + "\n")
print(len(d["findings"]), "findings,", len(out), "fixed")
