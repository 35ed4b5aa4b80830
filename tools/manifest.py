#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
NOTE = {
 "C01": "seeded histories of 1-5 interleaved callers on shared sets of 109 enums against mathematical sets; every operation, operator, macro and bulk form; not exhaustive",
 "C02": "seeded interleavings of live iterators with updates of their sources; every iterator method; snapshot model; not exhaustive",
 "C03": "caller iterators and operand conversions that panic, end early and lie, injected into seeded histories; interval oracle after an interruption, exact otherwise",
 "C04": "all numeric forms on a simulated disk with torn, lost, stale and flipped images; strict acceptance oracle by big-integer reading; unchecked forms only with valid bits",
 "C05": "110 serde enums, JSON and bincode through misbehaving byte streams and a faulty disk; oracle: same bytes read independently",
 "C06": "token format failing or panicking at any call, all legal behaviours varied; error identity, exact documented output, exact reading",
 "C07": "62 enum versions in nine families and 110 further enums with foreign peers; strict acceptance rule on every delivered or reloaded document",
 "C08": "clusters of 2-5 nodes with loss, duplication, reordering, partitions and crashes; exact per-merge model and bounded convergence after healing",
 "C09": "compare-and-swap loops and a seqlock on simulated shared words; every access is a scheduling point; spurious failures, stalls, deaths; history checked at linearization points",
 "C10": "histories with interrupted updates, truncating loads, serde recoveries; ==, order, hash and keyed collections across crashes against membership",
 "C11": "failing, bounded and splitting sinks and failing element formatters; all formatting options; reference text",
 "C15": "two native parties and a foreign one (C functions on integers) on shared memory with torn images and garbage; every byte of the memory compared after every step; 28 enums with declared representations",
 "C12": "allocator that refuses every request from an arbitrary point on; all operations, conversions, formatting, hashing, token (de)serialization",
}
NA = {
 "C13": "a property of compiling other programs: it has no run-time schedule, time, I/O or fault to simulate; a definition is accepted or rejected in one deterministic pass",
 "C14": "constant expressions are evaluated inside the compiler, where no simulated schedule or fault can reach; the run-time half of the comparison is covered by C01",
 "C16": "a property of compiling under feature sets and names; no execution to simulate (that nothing needs an allocator at run time is C12)",
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for i, note in NOTE.items():
    low = i.lower()
    if not os.path.exists(f"{here}/sim/src/bin/{low}.rs"):
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"sim/run.sh {low}",
        "thorough_cmd": f"sim/run.sh {low} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection (seeded schedules and faults, model oracle, minimised replay)",
        "level": "exploration",
        "level_note": note,
    })
na = [{"property": k, "reason": v} for k, v in NA.items()]
for i in NOTE:
    if not any(c["property"] == i for c in checks):
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "sim/run.sh setup", "checks": checks, "not_applicable": na},
          open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
