"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "D01": "online stream monitor over uniquely tagged samples on real files",
 "D02": "online epoch monitor (due-set of files) over tagged streams",
 "D03": "fault injection on files with an online stream monitor",
 "D04": "bitwise comparison with independently written files; aliasing watch",
 "D05": "reference resampling on linear fields; range monitor",
 "E01": "online lane monitor over tagged frame trees",
 "E02": "online episode-counter monitor over random operation histories",
 "P01": "produced/consumed event log checking under injected delays and failures",
 "P02": "(episode, step) tag monitor under injected delays and skips",
 "P03": "thread and call-log monitor under injected delays, gates and failures",
 "P04": "source-call log against deliveries under stalls, rests and timeouts",
 "Q01": "file-system watch (snapshots, audit events, descriptors, mappings) around real readers",
 "Q02": "resource counters (arrays, threads, descriptors, memory, compilations) over long runs",
 "R01": "stream digests compared across processes, hash seeds and buffering",
 "R02": "statistical monitor over recorded streams (correlations, coverage)",
 "M01": "option monitors on pipelines built for random configurations",
 "S01": "motion measurement per entry against tagged flows and metadata",
 "S02": "shape/range monitors under geometry fuzzing",
 "S03": "motion measurement per entry on four virtual devices",
 "S04": "history monitor against a model of the scheduler's stream",
 "G01": "sub-pixel particle tracking in image pairs against returned flow",
 "G02": "float64 reference bounds on rendered images",
 "G03": "parameter fits on single-particle images; count and coverage statistics",
 "G04": "statistical monitor on fitted particles in both frames",
 "G05": "noise residual statistics and range monitor",
 "G06": "differential masked/unmasked runs",
 "G07": "exact rational CDF-matching oracle",
 "G08": "brightness statistics of border strips against the interior",
 "T01": "end-to-end runs in scratch directories, products read back against independent sources",
 "C01": "instrumented runs of the programs compared with the same pipeline's batches",
 "V03": "independent constraint table against accept/refuse decisions of constructors and checkers",
 "F01": "float64 reference on coordinate-encoding fields",
 "A01": "float64 reference monitor under fuzzing",
 "A02": "float64 reference and conservation monitors under fuzzing",
 "A03": "float64 reference and independence monitors under fuzzing",
 "V01": "independent constraint table against accept/reject decisions under mutation",
 "V02": "field-by-field round-trip monitors",
 "K01": "configuration diff monitor (before/after) under random documents",
 "K02": "independent extrema over random data files; interactive session driven",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i}.py"):
        checks.append(dict(property=i, quick_cmd=f"./run {i} quick", thorough_cmd=f"./run {i} thorough",
                           technique="runtime monitoring: " + TECH[i], level="exploration",
                           level_note="held on the executions recorded in the evidence file (cases, monitored events); nothing is claimed for inputs, schedules or histories not driven"))
na = [dict(property=p["id"], reason="check not built yet") for p in props if not os.path.exists(f"{V}/checks/{p['id']}.py")]
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="SYNTHPIX_VERIF", enable="not used: every monitor observes public interfaces from outside, no hook was added to the repository", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
