#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded schedule/network/fault search over the real code"
NOTE = {
 "C01": "Outputs of all parties against an evaluation with independent field arithmetic; generated and library-made circuits, 4..13 parties (sometimes up to ~30), TCP and in-memory, all phases concurrent.",
 "C02": "As C01 for the baseline; any n > 2t, also n > 2t+1.",
 "C03": "Both protocols with one fault per run at a random point (kill, reset, failing call, failing allocation); the result must be right or an error, and everybody must end.",
 "C04": "Both TCP networks and the in-memory one, 2..8 parties (sometimes more), start delays up to minutes, refused connects; every link is checked with labelled messages.",
 "C05": "Byte streams against what was written, both directions at once; short reads and writes, closes, resets and failing calls.",
 "C06": "As C05 plus time of sends (must not wait for the peer), deadlock of parties that all send first, delivery of what is queued at close, sender threads ended.",
 "C07": "Several threads per link under a random scheduler; bounded-progress check on blocked receivers; flush both quiet and racing.",
 "C08": "Values of all kinds against what was sent; hostile headers and cuts at a random byte, with guarded allocations.",
 "C09": "Honest runs against the expected table; hostile announcements must fail. One known finding (table by connection order).",
 "C10": "Algebra over all parties' shares after preprocessing, computed with independent field arithmetic.",
 "C11": "Masked value of the first party plus jointly held mask against the clear value, wire by wire.",
 "C12": "Comparison of masks and zero sharings with each other; generator outputs made independent by a link-time seam in part of the runs.",
 "C13": "Byte counts per ordered pair, sent against received, nothing left, equal in two runs under other schedules and inputs.",
 "C14": "Bytes per ordered pair and layer against the formula of the protocol.",
 "C15": "Capacities down to a few bytes, stalls and healing partitions; deadlock and step-bound detection by the simulator.",
 "C16": "main() of experiments/ours.cc and experiments/dn07.cc as simulated processes with their real arguments.",
 "C18": "Several networks and executions in one process, one after another and at once; values must be those of each execution alone.",
 "C19": "Real shares sent over channels, at most t of them changed or their senders killed; the result must be right or an error.",
 "C20": "Generated and damaged files under an I/O fault model; table against the generator's.",
 "C21": "Digests against a reference implementation for pieces cut by the simulated network.",
 "C22": "Vector-clock race detector over every memory access of instrumented library, protocol and program code under simulated schedules.",
 "C23": "Interleaved generators against single-threaded twins, failing allocations.",
 "C24": "Linear algebra over the recorded views of t parties in repeated executions that differ only in the other parties' randomness and inputs; necessary condition of privacy (degree at most 2).",
 "C25": "Descriptor table and threads of each simulated party after teardown; any operation on a closed descriptor is recorded.",
 "C26": "Outputs after constant, zero and per-wire masks and constant material, against the independent evaluation; TCP and in-memory.",
 "C27": "All messages take the same simulated time and computation none, so the time of a phase counts its rounds; compared with the protocol's number.",
 "C28": "Recorded histories of several threads on one queue, preempted at every memory access, searched for a linearization; waiting threads and left-over elements at the end.",
 "C29": "Every heap block the parties allocate is counted by the simulator; bounded level over hundreds of rounds, no growth over repeated set-up, use and teardown.",
 "C33": "Calls that must be refused are made at random points of simulated executions; each must raise an error, and outputs and message counts must be as without them.",
 "C34": "The unmodified main() functions run as simulated processes whose wall clock jumps; every reported duration is compared with the simulated times of the phase's messages.",
}
CLAIMED = os.environ.get("CLAIMED", "").split() or open(os.path.join(V, "tools/claimed")).read().split()
NA = {
 "C30": "pure sequential functions of their operands: no schedule, clock, I/O, peer or fault for the property to depend on, so simulation with fault injection decides nothing that one direct call would not",
 "C31": "a statement about whole probability distributions of joint views, which no number of simulated executions determines; the part that repeated executions do decide (no linear or quadratic relation) is claimed as C24",
 "C32": "pure sequential construction and evaluation of one data structure in one thread without I/O; nothing for a schedule or a fault to influence (C01 and C02 run circuits made by the library and compare its clear evaluation in passing)",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "exploration",
                       "level_note": NOTE[i] + " Evidence is what the seeds of the run explored, not a proof; assumes the TCP, thread, clock and file models of sim/sim.cc."})
    else:
        na.append({"property": i, "reason": NA[i]})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none (no hooks were needed: all seams are link-time replacements of libc, pthread and one library symbol)", "enable": "checks compile /repo's sources unchanged and link them with sim/sim.cc", "source_commits": []},
     "notes": "bin/replay FILE re-executes a replay file; bin/check ID thorough explores for 10 minutes per property (SIM_SECONDS, SIM_RUNS, VERIF_SEED override)."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
