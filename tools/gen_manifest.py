#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks the harness has (run from anywhere)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("runtime monitoring: element-wise reference model over guarded, canaried buffers", "Every output element of the real conversions (assembly included) is compared with an independent definition at all lengths and alignments of the sweep; narrow formats exhaustively. Held on the executions explored; unexecuted length/alignment/value combinations are extrapolated."),
 "C02": ("runtime monitoring: PROT_NONE guard pages, canaries, two-prefill write coverage, checkptr", "A stray access faults or changes a canary and is caught when the driven (length, alignment, capacity) combination reaches it. Reads that stay inside the mapped page of the arena are seen only where the slice is flush with a guard page."),
 "C03": ("runtime monitoring: scalar reference model, extreme-at-every-position reductions", "Elements compared with the single-precision scalar formula (exact, or a few ulp where the formula allows reassociation). NaN inputs of reductions are out of scope."),
 "C04": ("runtime monitoring: differential oracle across capability settings and builds", "Same case list under every capability setting this CPU can run (flags flipped in process memory) and in the 386 build; 32-bit ARM modes and the arm64 build are compared on emulators."),
 "C05": ("runtime monitoring: round-trip oracle, exhaustive over narrow formats", "All 8- and 16-bit values in every lane; 32-bit floats sampled over all classes."),
 "C06": ("runtime monitoring: math.Atan2 oracle with the documented error bound", "Dense angle x magnitude grid, octant edges, neighbours of the axes; not exhaustive over float pairs."),
 "C07": ("runtime monitoring: phase-step oracle over recorded demodulator streams", "Random, synthetic FM and hostile streams in random splits; double-precision phase is the oracle."),
 "C08": ("runtime monitoring: split-vs-whole and interleaved-instance trace comparison (bitwise)", "Random partitions, all two-way splits of short streams, interleaved instances."),
 "C09": ("runtime monitoring: conservation ledger over whole decimation histories", "Output count and each group sum checked against the whole input history for many factors and rate pairs."),
 "C10": ("runtime monitoring: difference-equation oracle, coefficient snapshot monitor", "Double-precision reference recursion with a growth-aware tolerance."),
 "C11": ("runtime monitoring: measured frequency response vs. analogue prototype", "Impulse/step responses of the real filters transformed and compared with the bilinear prototype; random design parameters."),
 "C12": ("runtime monitoring: recursion oracle and invariants (decay, gain, boundedness)", "Random and adversarial streams, all processing styles mixed."),
 "C13": ("runtime monitoring: DFT oracle, state-reset and read-purity monitors", "Random block sizes, targets, splits."),
 "C14": ("runtime monitoring: windowed-DFT oracle over the recorded history", "Every sample of the stream compared with a direct DFT; long histories for drift."),
 "C15": ("runtime monitoring: closed-form oracle at every length", "All lengths of a range plus sampled long ones."),
 "C16": ("runtime monitoring: exact-rational/float64 polynomial oracle, hostile positions", "Dense positions around each sample boundary, special floats, empty and short slices."),
 "C17": ("runtime monitoring: independent DFT and key table over synthesised tones", "All keys x phases x twist x levels x noise x rates x windows."),
 "C18": ("runtime monitoring: independent AX.25 transmitter, frame-by-frame comparison", "Generated frames of every type, exact fields compared at the closing flag."),
 "C19": ("runtime monitoring: independent reference receiver on hostile bit streams", "Mutated, truncated, random bit streams; every returned frame must be justified by the bits fed, every justified frame must be returned."),
 "C20": ("runtime monitoring: retained-frame snapshot monitor", "Deep snapshots of delivered frames re-checked after every later frame and at the end."),
 "C21": ("runtime monitoring: wire-log trace checker on a scripted server", "All calls, random sequences, all reply shapes over loopback TCP."),
 "C22": ("runtime monitoring with fault injection: hostile scripted server", "Reply mutation and connection break at every byte; panics, false successes and leaked connections are violations."),
 "C23": ("runtime monitoring: payload conservation ledger over a scripted packet source", "Random packet and read sizes, runts, errors."),
 "C24": ("race detector (-race) plus result-equality monitor", "Data races among the executed interleavings; results compared with the sequential run."),
 "C26": ("runtime monitoring and race detector (-race) on the real server with scripted receivers: protocol model", "Random and scripted command histories, hostile lines, receiver faults, concurrent clients; every reply, every receiver call and every held device is compared with a model. The receiver library is a stub (stubs/go-rtlsdr); held on the executed schedules."),
 "C27": ("runtime monitoring and race detector (-race): payload conservation ledger over captured datagrams", "Every datagram of the real server is compared with the bytes the scripted receiver delivered; wrap, restarts, refusing destinations and stop races are driven. Loopback UDP; held on the executed schedules."),
 "C28": ("runtime monitoring with injected processors: independent CPUID and option model", "The real package runs on this processor and, with its two instructions replaced at build time, on scripted ones (amd64 and 386); every flag, the name and the warnings are compared with a model. Other families: C29."),
 "C29": ("runtime monitoring with injected machines: independent capability model", "The real detection code of 16 system/architecture pairs runs here, each compiled for this processor with its instructions and system calls answered from tables; every flag, the warnings and the instructions executed are compared with a model. The assembly that reads the registers is replaced, so not judged."),
 "C30": ("runtime monitoring with injected processor descriptions", "The real ARM start-up code runs as a program on this processor, with the place of /proc/cpuinfo replaced at build time, on real-world and hostile descriptions and all values of ARMVECTOR."),
 "C31": ("runtime monitoring: protocol tables as oracle over all codes and decoded frames", "All 256 values of each code, and frames of every control octet through the real decoder."),
 "C32": ("runtime monitoring: end-to-end transmission oracle", "An independent transmitter modulates packets and keys; the assembled receiver has to return them. Clean to mildly noisy signals only; held on the executions explored."),
 "C33": ("runtime monitoring: single-stepped execution on scripted processors, instruction classification", "The package's own start-up code runs on scripted CPUID/XCR0 contents (two instructions replaced at build time); every instruction executed in its assembly is observed through ptrace, classified by extension and compared with what the machine offers and with the code that belongs to it. 32-bit ARM: the interpreter counts NEON and short-vector instructions. Code the Go compiler writes is not judged. Held on the calls and machines explored."),
 "C34": ("runtime monitoring: resource monitor (heap after collection, allocation, goroutines, descriptors, thread processor time) over long runs", "Every streaming object and the real server (scripted receivers, race detector on) do twelve (server: eight) times the work of the first measurement; what is in use and what a step costs must be the same. Growth below about 100 KB over the run is not seen; a cost that grows less than fourfold is not judged."),
  "C35": ("runtime monitoring: processor state (FXSAVE image, flags, upper vector halves) and stack words read before and after every call; single-stepping (ptrace) for stack and frame pointer; ARM emulators as state monitors", "All functions x capability settings x lengths x alignments in process on amd64 and 386; returns on scripted processors under single-stepping; 32-bit ARM and ARM64 code in the emulators. A change is reported when it happens on five calls in a row. What happens between entry and return is not judged."),
 "C36": ("runtime monitoring: shadow copies of all memory lent to the library, twin histories with a hostile caller, process state snapshots, output capture", "Every kind of object, random configurations and histories; each runs twice, once with a caller that overwrites all its memory after each call. The vector functions' own slices are C02's. Process state as listed in the harness; held on the executions explored."),
 "C37": ("runtime monitoring and race detector (-race): model of sessions and receivers over histories of the real client on the real server, fragmenting and breaking relay, ownership intervals, sample ledger", "Random histories of one to four clients in turn and two to six at the same time, scripted receivers with faults. What happens to a running stream when its destination changes is not judged. Held on the executed schedules."),
 "C38": ("runtime monitoring and race detector (-race): process monitor (exit status, files, descriptors, processor time, log growth) and conversation oracle under crowds, descriptor exhaustion (prlimit) and interrupts", "The real server process with scripted receivers. Silence is watched for 33 s (thorough: 130 s); signals other than SIGINT are not judged. Held on the executions explored."),
 "C25": ("runtime monitoring: exact i^n oracle with canaries", "All lengths multiple of four of a range, all alignments."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
src = "".join(open(os.path.join(V, "harness", f)).read() for f in os.listdir(os.path.join(V, "harness")) if f.endswith(".go"))
checks, na = [], []
for p in props:
    i = p["id"]
    if re.search(r'checks\["%s"\]' % i, src):
        t, n = TECH[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "the technique applies; its monitor is not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the workers use the exported API only and find the capability flags by symbol name."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
