#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = {
 "P01": "deterministic simulation: seeded short reads and buffer boundaries on a simulated C stream, refinement against the same scan of a string",
 "P02": "deterministic simulation: adversarial forward ranges with per-character preemption, refinement against the same scan of a string",
 "P03": "deterministic simulation: seeded histories of scans and stdio/iostream reads on one stream, refinement against a cursor model",
 "P04": "deterministic simulation: seeded chains of failing scans with short reads, rollback checked against a cursor model",
 "P05": "deterministic simulation with fault injection: seeded read errors, transient EOF and failing pushback, history checked against a cursor model",
 "P06": "deterministic simulation: seeded thread schedules on one stream, linearizability check of the recorded history",
 "P07": "deterministic simulation with fault injection: seeded schedules, allocation failures and exceptions; lock-depth invariant and progress of waiters",
 "P08": "deterministic simulation: seeded basic-block schedules of independent scans, refinement against solo runs",
 "P09": "deterministic simulation with fault injection: seeded global-locale changes before and during scans, invariant on process locale, refinement against the C locale",
 "P10": "deterministic simulation with fault injection: seeded allocation, iterator and scanner failures; leak, suffix and re-run checks; sanitizer build",
 "P11": "deterministic simulation: nested scanners on segmented sources with seeded deliveries, refinement against the same scan of a string",
 "P12": "deterministic simulation: seeded record streams on all source kinds, exactly-once conservation check against the written values",
 "P13": "deterministic simulation: interactive producer that stalls at seeded points; no further read request once the result is decided",
 "P14": "deterministic simulation with fault injection: hostile input and fault sequences, bounded-steps liveness and sanitizer oracle",
}
NOTE = "Seeded search, not exhaustive: holds for all simulated runs listed in the evidence file. Real scnlib, glibc stdio and libstdc++; the device, the scheduler, lock waiting and the allocator are simulated. Trusts the reference (the same library on a contiguous string, or a small cursor model) and the simulator."
NA = "Pure function of its arguments: it has no schedule, time, I/O, fault or multi-party behaviour for a simulator to control, so seeded simulation would only be input fuzzing. The source-, delivery- and fault-dependent side of the same code is covered by P01-P14."
m = {
 "version": 1,
 "setup_cmd": "sim/build.sh build plain >/dev/null && sim/build.sh build san >/dev/null",
 "hooks": {"guard": "SCN_SIM_PORTABLE_FILE", "enable": "sim/build.sh build portable compiles with -DSCN_SIM_PORTABLE_FILE (thorough tier only; selects the stream interface scnlib uses on platforms whose FILE it does not know). All other seams need no change in /repo: link-time wraps, fopencookie streams, user iterators/scanners, operator new and compiler coverage callbacks", "source_commits": ["3fa33da"]},
 "checks": [{"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p, "technique": t, "level": "exploration", "level_note": NOTE} for p, t in T.items()],
 "not_applicable": [{"property": p, "reason": NA} for p in ["P20", "P21", "P22", "P23", "P24", "P25", "P26"]],
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
