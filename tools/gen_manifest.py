#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a scenario."""
import json, re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
src = open(here + "/sim/src/scen.rs").read()
have = set(re.findall(r'^\s*"(C\d\d)" => \|c\|', src, re.M))
NOTE = ("Seeded search over whole-system executions of the real code under the simulator; a quiet run is evidence from the "
        "runs reported in the evidence file, not a proof. Trusted: the simulated TCP network, clock and scheduler (sim/simcore, "
        "sim/tokio), the independent wire codec and the oracles in sim/src. Tasks of a host interleave at await points and at the library's own atomic and lock operations; one thread, sequentially consistent memory.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, network behaviour and faults, history checked against a reference model",
            "level": "exploration",
            "level_note": NOTE,
        })
    else:
        na.append({"property": i, "reason": "its scenario is not built yet"})
doc = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: the simulator replaces the tokio dependency through [patch.crates-io] in /verif/sim/Cargo.toml and builds /repo unmodified; a rustc wrapper (sim/rustcw.sh) gives that build of tchannel_rs a std whose atomics and locks are scheduling points", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check rebuilds /repo's working tree under the simulator, runs seeds in parallel processes, minimises the first violation and writes its replay file to evidence/replays. See DESIGN.md.",
}
open(here + "/MANIFEST.json", "w").write(json.dumps(doc, indent=1) + "\n")
