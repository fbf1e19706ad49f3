#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the properties the harness registers."""
import json, subprocess, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOFLAGS="-mod=readonly", GOWORK="off", GOTOOLCHAIN="local", GOPROXY="off")
out = subprocess.run(["go", "run", ".", "list"], cwd=here + "/harness", env=env, capture_output=True, text=True, check=True).stdout
have = set(out.split())
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
hist = "stateful model-based property testing (generated histories against a reference model, shrinking)"
tech = {}
for i in "C02 C04 C05 C06 C08 C09 C10 C12 C13 C14 C15 C16 C17 C18 C19 C20 C22 C23 C26 C27 C37 C39 C43".split():
    tech[i] = hist
for i in "C30 C31 C32 C33 C34 C35 C36 C01 C44 C25".split():
    tech[i] = "property-based testing: generated inputs against a specification oracle, shrinking"
tech["C03"] = "property-based testing: generated histories, structural invariant and counted comparisons"
tech["C45"] = "property-based testing: generated long histories with bounded contents, reachable memory measured against a bound"
tech["C46"] = "property-based testing: generated inputs and histories, counted comparisons, accesses, allocated bytes and processor time on small against large containers, against bounds"
tech["C47"] = "metamorphic property-based testing: generated histories, twins with and without reads compared, nested reads, concurrent readers also under the race detector"
tech["C48"] = "stateful property-based testing: generated histories and ranges of values with identities, every argument of every callback checked against the values of the call"
tech["C49"] = "metamorphic property-based testing: generated work on several containers, done alone, in parallel (also under the race detector) and nested in callbacks, answers compared"
tech["C07"] = "property-based testing: generated pairs of sets against set algebra on a model"
tech["C11"] = "property-based testing: generated build histories, counted comparisons against a bound"
tech["C21"] = "stateful property-based testing: heap invariant, multiset oracle, index bounds"
tech["C24"] = "property-based testing: generated parameters and strings, statistical oracle with a fixed error bound"
tech["C28"] = "metamorphic property-based testing: generated ring histories compared with each other"
tech["C29"] = "property-based testing: generated rings, measured shares against a statistical bound"
tech["C38"] = "stateful property-based testing with refused calls and panicking callbacks, runtime deadlock detection"
for i in "C40 C41 C42".split():
    tech[i] = "generated concurrent histories: linearizability search against a sequential model, race detector, deadlock detection"
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append({"property": i, "reason": "no check built yet"})
        continue
    note = "Searches generated cases, fixed by VERIF_SEED; a pass means no counterexample among those counted in the evidence. Trusts the harness's model and the Go toolchain."
    if i in ("C40", "C41", "C42"):
        note = "Explores generated small histories under generated schedules of a deterministic scheduler (every lock operation is a switching point; sync.RWMutex is replaced by an overlay at build time) and under the schedules the Go runtime produced, also with the race detector; a pass means no counterexample among them. Trusts the sequential models, the model of RWMutex, the race detector and the Go toolchain."
    checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
        "technique": tech[i], "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na,
     "notes": "./check replay FILE re-runs a replay file. No hooks in /repo: the checks use its exported API only."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
