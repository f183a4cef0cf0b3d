#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
TECH = {
 "C01": "property-based testing: random edit sequences against a plain-string model",
 "C02": "property-based testing: all offsets and positions of random documents against a naive converter; round trips",
 "C03": "property-based testing: write/read round trip over random messages and stream chunkings, independent frame parser",
 "C04": "property-based testing and mutation fuzzing of byte streams against a reference frame reader, with an allocation meter",
 "C05": "stateful property-based testing: random client sessions against a model of the lifecycle",
 "C06": "stateful property-based testing: random client sessions against a model of the lifecycle",
 "C07": "stateful property-based testing: random client answers and answer orders, ids and routing checked over the history",
 "C08": "stateful (model-based) property-based testing of document synchronisation",
 "C09": "stateful property-based testing with generated schedules of background loads",
 "C10": "stateful property-based testing of initialisation over random workspaces",
 "C11": "property-based testing: text built from known tokens, coverage invariant on any text",
 "C12": "property-based testing against an independent literal reader",
 "C13": "property-based testing: error runs known by construction, set comparison of diagnostics",
 "C14": "property-based testing against a reference preprocessor, all nestings generated",
 "C15": "property-based testing against an independent expression evaluator",
 "C16": "property-based testing against a reference preprocessor over random include graphs",
 "C17": "stateful metamorphic testing: any history against a fresh analyzer",
 "C18": "fuzzing with structured generators; termination, no panic, spans checked",
 "C19": "fuzzing of sessions with ill-formed messages, followed by probe requests",
 "C20": "stateful property-based testing with generated task scripts and wake-up orders",
 "C21": "property-based testing over generated thread schedules (the harness owns the scheduler)",
 "C22": "property-based testing against a naive recognizer over random grammars",
 "C23": "stateful metamorphic testing: reparse after edits against a fresh parser",
 "C24": "stateful property-based testing of trace levels and events",
 "C25": "property-based testing over random directory trees against a naive directory walk",
 "C26": "property-based testing of the TypeScript adapter over random frames and chunkings",
 "C28": "stateful property-based testing of the p4analyzer process: generated sessions, input chunkings, files and ends",
 "C29": "property-based testing of the p4analyzer process over generated command lines, log contents compared with a full log",
 "C30": "stateful property-based testing of the WebAssembly glue (built natively) against the analyzer host it wraps",
 "C31": "property-based testing of the lsif-p4 process over generated folder trees against a walk over them",
 "C27": "stateful property-based testing of the driver against a queue model",
}
NOTE = {
 "C21": "explores generated interleavings at every atomic, lock and event operation of the real source, compiled against a scheduler-owned std::sync; sequentially consistent memory only",
}
DONE = open(os.path.join(os.path.dirname(__file__), "claimed")).read().split()
checks, na = [], []
for l in open("/verif/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in DONE:
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"env VERIF_TIER=thorough ./check {i}",
            "technique": TECH[i], "level": "exploration",
            "level_note": NOTE.get(i, "every generated case of the run satisfied the oracle; says nothing about inputs outside the generator's domain (DESIGN.md, " + i + ")")})
    else:
        na.append({"property": i, "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks use public interfaces only. /repo has 'fix:' commits, listed in known-findings.json."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1); open("/verif/MANIFEST.json", "a").write("\n")
