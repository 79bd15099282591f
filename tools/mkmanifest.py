#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and the harness sources."""
import json, pathlib, re, subprocess
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
claimed = set()
for f in (root / "harness/src").glob("*.rs"):
    claimed |= set(re.findall(r'id: "(C\d+)"', f.read_text()))
TECH = {
    "C09": "stateful model-based testing of page histories", "C10": "stateful model-based testing with exact space oracle",
    "C15": "damage-injection fuzzing with differential surroundings and bounds checks",
    "C12": "stateful model-based testing against a map", "C13": "stateful round-trip testing through all layers",
    "C03": "grammar-based generation and mutation against a reference recogniser",
    "C07": "mutation fuzzing against a reference decoder", "C08": "grammar-based fuzzing against a reference lexer",
    "C21": "mutation fuzzing against a reference parser", "C20": "grammar-based generation, parse compared with the generated tree",
    "C23": "stateful model-based testing against a map",
    "C24": "type-directed generation with injected errors", "C25": "type-directed generation, columns known by construction",
    "C27": "stateful round-trip testing of catalog histories",
    "C26": "fuzzing with metamorphic relations", "C30": "model-based testing over generated task schedules",
    "C31": "model-based testing over generated task schedules with a fairness and leak oracle",
    "C34": "generated configurations against an independent image decoder",
}
NOTES = {}
na = {
    "C35": "mount, unmount, fetch and store are unimplemented!() in this tree: there is no persistence behaviour to generate inputs for",
    "C36": "coordinator, router, storage and cli only print a banner; nothing routes requests",
}
checks = []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({
            "property": i,
            "quick_cmd": f"bash run.sh {i} quick",
            "thorough_cmd": f"bash run.sh {i} thorough",
            "technique": "property-based testing: " + TECH.get(i, "random structured generation against an oracle"),
            "level": "exploration",
            "level_note": NOTES.get(i, "Generated-input search: no counterexample among the cases the evidence counts. Trusts the harness's own oracle and generators, rustc, and the preconditions listed in the evidence."),
        })
    elif i not in na:
        na[i] = "no check in this revision yet"
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "bash run.sh setup",
    "hooks": {"guard": "cfg flag cathlamet_verif (values \"sql\" and \"storage\")", "enable": "RUSTFLAGS='--cfg cathlamet_verif=\"sql\"' (or \"storage\"), set by run.sh", "source_commits": hooks},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
    "notes": "run.sh builds the harness crate (path dependency on /repo) from the current tree and runs one property; see DESIGN.md",
}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed;", sorted(na))
