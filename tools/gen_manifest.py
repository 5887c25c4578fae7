import json
claimed = json.load(open('/verif/tools/claimed.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
na = {
 "C30": "A statement about which programs the checker accepts for every program text: single-threaded, no clock, I/O, schedule or fault can change the verdict (C07 covers schedule independence of the verdict), so simulation has nothing to vary; needs a proof or program-space fuzzing.",
 "C31": "As C30: soundness of a pure, single-threaded analysis over all program texts; no nondeterminism for a simulator to control.",
 "C32": "Pure functions of their operands: no concurrency, time, I/O or multi-party behaviour to depend on.",
 "C33": "Pure sequential evaluation; no schedule or fault can influence it. (Loops over in-types, which do depend on schedules, are C06.)",
 "C34": "Pure function of the text; no nondeterminism for a simulator to control. (Reading the text from a faulty disk is C12.)",
}
checks = []
for p in props:
    i = p['id']
    if i in na: continue
    if i not in claimed:
        na[i] = "Machinery for this property is being built; not claimed yet."
        continue
    c = claimed[i]
    checks.append(dict(property=i, quick_cmd=f"bash /verif/check.sh {i} quick", thorough_cmd=f"bash /verif/check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json", technique="deterministic simulation with fault injection: " + c['technique'],
        level=c.get('level', 'exploration'), level_note=c['note'] + " Assumes sequential consistency, preemption at basic blocks of dyon and at intercepted libc calls, and a faithful model of the system calls; a seeded sample of workloads, schedules and faults is searched."))
m = dict(version=1, setup_cmd="bash /verif/build.sh",
  hooks=dict(guard="none: no hooks were added to /repo", enable="Not needed: the simulator intercepts libc below Rust's std, instruments the dyon crate through RUSTC_WRAPPER (LLVM SanitizerCoverage) and replaces crate reqwest by a path stub.", source_commits=[]),
  checks=checks, not_applicable=[dict(property=k, reason=na[k]) for k in sorted(na)],
  notes="check.sh <id> <tier> builds and runs a check; replay.sh <file> re-executes a replay file. See DESIGN.md.")
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
