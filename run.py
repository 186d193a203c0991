#!/usr/bin/env python3
"""Check one property by seeded simulation of /repo's current tree.

    run.py PROPERTY [quick|thorough]

Builds the simulator from /repo, searches seeded runs, gates every violation
(determinism in-process, then replay in a fresh process), writes
evidence/PROPERTY.json.  Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: no
verdict (build failed, nondeterministic simulator, ...).
"""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
OUT = os.path.join(HERE, "replays")
# quick runs, thorough runs (plain build); the sanitizer build is ~12x slower
RUNS = {"P10": (60000, 2000000), "P13": (60000, 2000000)}
DEFAULT_RUNS = (100000, 4000000)
SAN_QUICK = {"P10": 12000, "P14": 20000}
SAN_THOROUGH = 150000
# scnlib on platforms whose FILE it does not know (no locks there, hence not P06, P07)
PORTABLE_THOROUGH = {p: 400000 for p in ("P01", "P03", "P04", "P05", "P11", "P12", "P14")}
CAP = {"quick": 300, "thorough": 3000}
CAP_SAN = {"quick": 150, "thorough": 1200}

RULES = {
    "P01": "one case = one scan of generated text with one of the registered ops from a simulated C stream (random delivery of the bytes, buffer size and mode) compared with the same scan of a string; non-trivial = at least one short read was injected",
    "P02": "one case = one scan of generated text through user forward ranges (one of them preempting at every character) compared with a string; non-trivial = at least one preemption or iterator fault was injected",
    "P03": "one case = a history of scans, stdio reads, pushbacks and iostream reads on one simulated C stream, every step compared with a cursor model; non-trivial = at least one fault (short read) was injected",
    "P04": "one case = a chain of failing and succeeding scans on one simulated C stream, content available after each failure compared with a cursor model; non-trivial = at least one short read was injected",
    "P05": "one case = a history of scans on a C stream whose reads fail (EIO, EINTR, EAGAIN), report a transient end of file, or whose pushback fails; non-trivial = at least one fault fired",
    "P06": "one case = two or three threads scanning and reading one C stream under a seeded scheduler; the recorded history is checked for linearizability against a cursor model; non-trivial = at least one preemption or short read",
    "P07": "one case = a scan on a C stream ending in success, error, end of input, bad_alloc or a user exception while other threads wait for the stream; lock depth is compared before and after and at every yield; non-trivial = at least one fault or preemption",
    "P08": "one case = two or three threads scanning separate sources under a seeded scheduler preempting between basic blocks; outcomes compared with solo runs; non-trivial = at least one preemption",
    "P09": "one case = a scan with the global locale changed before it or by another thread in the middle of it; outcome compared with the C locale, process locale compared before, during and after; non-trivial = at least one locale change or preemption",
    "P10": "one case = a scan with one allocation, iterator step or user scanner call made to fail at a chosen point, then leak check, stream suffix check and a re-run without the fault; non-trivial = the fault fired",
    "P11": "one case = a scan with user scanners that scan from their context (once, repeatedly, retrying, recursively, through an istream) on segmented sources compared with a string; non-trivial = at least one short read or preemption",
    "P12": "one case = a record stream of generated values read back by consecutive scans from every source kind and compared with the values written; non-trivial = at least one short read",
    "P13": "one case = scans and prompts on an interactive stream whose producer stalls after the line that decides the result; a further read request is a violation; non-trivial = at least one stall or short read",
    "P14": "one case = one scan of arbitrary (also malformed) text with injected read faults; bounded number of executed basic blocks, no crash, assertion or sanitizer report; non-trivial = at least one fault",
}
REAL = ["scnlib headers and sources from /repo (instrumented with -fsanitize-coverage=trace-pc only)", "glibc stdio (FILE, fopencookie streams, pushback, locking data)", "libstdc++ (locale, iostream, regex, containers)"]
STUB = ["device behind the FILE: scripted read results", "thread scheduler: one runnable thread at a time, chosen by seed", "flockfile/funlockfile/mutex/static-init blocking: simulated waiting", "operator new: counting and failing on plan", "standard input/output for prompts: simulated streams"]


def known_findings():
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line.strip())
        if m:
            out.append(m.groups())
    return out


def build(mode):
    r = subprocess.run([os.path.join(HERE, "sim/build.sh"), BUILD, mode], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    b = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
    if r.returncode or not os.path.exists(b):
        sys.stderr.write(r.stderr[-3000:])
        return None
    return b


def search(binary, prop, seed, runs, cap, maxv):
    jobs = os.cpu_count() or 4
    cmd = [binary, "search", "--prop", prop, "--seed", str(seed), "--runs", str(runs), "--jobs", str(jobs), "--cap", str(cap), "--out", OUT, "--max", str(maxv)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    found, stats = [], None
    for line in r.stdout.splitlines():
        m = re.match(r"FOUND property=(\S+) replay=(\S+) class=(\S+) sig=(\S+) detail=(.*)", line)
        if m:
            found.append(m.groups())
        elif line.startswith("STATS "):
            stats = json.loads(line[6:])
    return r.returncode, found, stats, r.stderr


def add(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            a.setdefault(k, {})
            add(a[k], v)
        elif isinstance(v, bool):
            a[k] = a.get(k, False) or v
        elif k == "blocks":
            a[k] = max(a.get(k, 0), v)
        else:
            a[k] = a.get(k, 0) + v


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    t0 = time.time()
    ti = 0 if tier == "quick" else 1
    plan = [("plain", RUNS.get(prop, DEFAULT_RUNS)[ti], CAP[tier])]
    if tier == "thorough":
        plan.append(("san", SAN_THOROUGH, CAP_SAN[tier]))
        if prop in PORTABLE_THOROUGH:
            plan.append(("portable", PORTABLE_THOROUGH[prop], CAP_SAN[tier]))
    elif prop in SAN_QUICK:
        plan.append(("san", SAN_QUICK[prop], CAP_SAN[tier]))
    known = [k for k in known_findings() if k[0] == prop]
    total, per_build, violations, listed, errors = {}, {}, [], [], []
    step = 0
    first_bin = None
    while step < len(plan):
        mode, runs, cap = plan[step]
        step += 1
        b = build(mode)
        if not b:
            errors.append("build (%s) failed" % mode)
            break
        first_bin = first_bin or b
        # the builds explore different seeds
        rc, found, stats, err = search(b, prop, seed + {"plain": 0, "san": 1000003, "portable": 2000003}[mode], runs, cap, 1 + 4 * len(known))
        if stats:
            add(total, stats)
            per_build[mode] = {"runs": stats["runs"], "cases": stats["cases"], "wall_s": round(stats["wall"], 2), "runs_per_hour": int(stats["runs"] / max(stats["wall"], 1e-6) * 3600), "stopped_by_time_cap": stats["capped"]}
        for p, replay, cls, sig, detail in found:
            rr = subprocess.run([b, "replay", replay], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            if rr.returncode != 1:
                errors.append("replay of %s in a fresh process did not reproduce it (exit %d)" % (replay, rr.returncode))
                continue
            k = [x for x in known if x[1] == sig]
            if k:
                listed.append(k[0])
                continue
            violations.append((replay, mode, cls, detail))
        if violations:
            break
        if rc not in (0, 1) or not stats:
            nd = [l for l in err.splitlines() if "NONDET" in l][:5]
            errors.append("simulator (%s) gave no verdict: exit %d %s" % (mode, rc, " | ".join(nd)))
            if mode == "plain" and not any(m == "san" for m, _, _ in plan[step:]):
                # code that reads memory it does not own has no repeatable outcome; the sanitizer build has
                plan.append(("san", 20000, 200))
    samples = []
    if first_bin:
        for i in (0, 1, 2):
            s = subprocess.run([first_bin, "show", prop, str(seed), str(i)], stdout=subprocess.PIPE, text=True, errors="replace").stdout
            samples.append(s[:1500])
    wall = time.time() - t0
    cov = {
        "evaluations": total.get("cases", 0),
        "distinct_nontrivial": total.get("distinct_cases", 0),
        "rule": RULES[prop] + "; distinct = distinct event-log hash (every read, schedule decision and result)",
        "samples": samples,
        "simulated_runs": total.get("runs", 0),
        "builds": per_build,
        "nontrivial_cases": total.get("nontrivial_cases", 0),
        "simulated_time_steps": total.get("steps", 0),
        "simulated_time_unit": "executed basic blocks of scnlib code (the simulator's only clock)",
        "device_reads": total.get("reads", 0),
        "scans": total.get("scans", 0),
        "thread_switches": total.get("switches", 0),
        "lock_waits": total.get("lock_waits", 0),
        "distinct_interleavings": total.get("distinct_interleavings", 0),
        "interleaving_measure": "distinct (preemption points, forced choices, event log) triples",
        "distinct_code_blocks_reached": total.get("blocks", 0),
        "faults_injected": total.get("faults", {}),
        "situations_reached": total.get("probes", {}),
        "determinism_rechecks": total.get("determinism_checks", 0),
        "determinism_failures": total.get("determinism_failures", 0),
        "real_components": REAL,
        "stubbed_components": STUB,
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["glibc stdio and libstdc++ behave as installed here", "data races are only observed as reorderings at basic-block granularity (sequential consistency)"],
          "wall_s": round(wall, 2), "violations": len(violations)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in sorted(set(listed)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    if violations:
        replay, mode, cls, detail = violations[0]
        print("%s (%s build): %s" % (cls, mode, detail[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e)
        return 2
    print("held: property=%s %d cases in %d runs, %d distinct non-trivial, %.0f s" % (prop, cov["evaluations"], cov["simulated_runs"], cov["distinct_nontrivial"], wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
