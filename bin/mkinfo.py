#!/usr/bin/env python3
"""Writes bin/info.json (the fixed texts of the evidence files) and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REALH = ["every source file of /repo/src, compiled from the current tree (reader, lexer, parser, resolver, intermediate code, register allocation, x64 code, main)"]
STUBH = ["file system, file descriptors and the transport under stdio (simulated disk; glibc's own formatting and buffering run for real on top of it)",
         "malloc family (simulated heap with red zones, quarantine, seeded placement, contents and failures)",
         "process start, exit, signals and scheduling (simulated processes switched at basic-block boundaries)", "clock, pid, random, environment"]
STUBT = STUBH + ["assembler, linker and CPU (deterministic x86-64 machine; its reading of the assembly is cross-checked against the installed as on sampled cases)",
                 "external functions, signal delivery, threads, foreign code (seeded environment within what the System V ABI allows)"]
AH = ["the simulated system calls behave as POSIX allows; kernel behaviour outside of that is not explored",
      "search samples schedules, faults and sources by seed; it does not enumerate them"]
AT = AH + ["the reference interpreter implements C for the generated subset (validated during development against gcc on the same programs)",
           "the simulated machine implements the instructions umlcc emits; programs using others are skipped and counted as machine_unsupported"]
H = dict(real=REALH, stub=STUBH, assumptions=AH, time_unit="basic blocks executed by the compiler", time_counter="host_steps",
         state_measure="distinct sets of compiler basic-block edges covered by one execution")
T = dict(real=REALH + ["the assembly the compiler emitted, executed instruction by instruction"], stub=STUBT, assumptions=AT,
         time_unit="machine instructions executed by the compiled program", time_counter="machine_steps",
         skip_rule="generated programs that turn out not to be well-defined C under the chosen environment are not judged")
GEN = "Source: seeded generated program (58%), stress program (14%), repository sample (12%), generated program with one token damaged (10%) or small hand-written one."
I = {}
I["C01"] = dict(H, level="fault_enumeration", technique="deterministic simulation: seeded file-system fault injection on the real compiler",
    rule=GEN + " 0-3 file-system faults (open, read, seek, write, short write, disk full, close, interrupted read, unseekable or read-only target) placed inside what the run does. Non-trivial: at least one fault fired; distinct by system-call trace.",
    note="Seeded search over sources x fault positions x buffering; the .s is compared byte by byte with that of an undisturbed run, and with the definitions the generated program contains. No exhaustive enumeration.")
I["C02"] = dict(H, level="fault_enumeration", technique="deterministic simulation: seeded faults, arguments and directory states on the real compiler",
    rule=GEN + " Random argument vectors, file permissions and pre-existing files, 0-2 file-system faults. Non-trivial: the compile failed; distinct by system-call trace.",
    note="Checks exit status, diagnostic, and the complete before/after state of the simulated disk.")
I["C03"] = dict(H, level="fault_enumeration", technique="deterministic simulation: seeded crash points and restart with only the disk surviving",
    rule=GEN + " 1-4 attempts killed at a chosen basic block or in the middle of a chosen system call (or failed by a disk fault), edits in between, then undisturbed compiles. Non-trivial: at least one attempt was killed; distinct by history.",
    note="Crash points are sampled over the whole run with extra weight on emission; unwritten stdio buffers are lost, written bytes survive.")
I["C04"] = dict(H, level="exploration", technique="deterministic simulation: seeded schedules, heap layouts and histories against an undisturbed reference run",
    rule=GEN + " 1-4 compiler processes interleaved at basic blocks by a seeded schedule, each with its own heap placement, heap contents, stdio chunk sizes, path and earlier compiles. Non-trivial and distinct by complete history.",
    state_measure="distinct interleavings (sequence of process switches) and distinct sets of edges")
I["C04"]["note"] = "Differential: every process must produce exit status and .s of the same bytes compiled alone under a fixed name and heap."
I["C05"] = dict(H, level="fault_enumeration", technique="deterministic simulation: seeded allocation failures on the real compiler",
    rule=GEN + " One or two single allocation failures, all allocations from a point on, or all above a size. Non-trivial: a failure fired; distinct by trace.",
    note="Dying from the failed allocation is accepted by the property; success with anything but the complete .s, hanging, or touching other files is not.")
I["C06"] = dict(H, level="fault_enumeration", technique="deterministic simulation: seeded storage corruption of the source under step and memory budgets",
    rule="Valid source (generated, stress or repository sample) with 1-4 storage faults: truncation, bit flip, byte change, lost/repeated/zeroed/garbage block, misplaced block, token lost/repeated/swapped/replaced. Distinct by damaged bytes.",
    note="Budget: 150 million basic blocks and a bounded simulated heap per compile, far above what any undamaged source of that size needs.")
I["C07"] = dict(H, level="exploration", technique="deterministic simulation: instrumented heap with seeded placement, reuse and contents, compared across two heaps",
    rule="Stress (40%), generated (30%), sample, token-damaged and hand-written sources, a third of them damaged further; each compiled twice with different heap placement, reuse order, initial contents and realloc behaviour. Distinct by source bytes.",
    note="Every access of the compiler's code and of the string functions it calls is checked against live simulated blocks, stack objects and globals; uninitialised reads show as differences between the two heaps.")
I["C08"] = dict(T, level="exploration", technique="deterministic simulation: emitted code on a simulated machine with an adversarial ABI environment",
    state_measure="distinct machine execution traces",
    rule="Generated program and histories of calls into it; entry state with garbage in every register and stack slot the convention leaves open, external functions that destroy all they may. Non-trivial: more than one visible event; distinct by machine trace.",
    note="Convention checked at every call, return and stack write; results compared between different garbage.")
I["C09"] = dict(T, level="exploration", technique="deterministic simulation: emitted code against a reference interpreter of the source under a seeded environment",
    state_measure="distinct machine execution traces",
    rule="Generated program and histories of calls into it with seeded arguments, external function results, callbacks and writes to globals by external code. Non-trivial: more than one visible event; distinct by machine trace.",
    note="Refinement against a small executable model: external calls with arguments, results and final globals must agree. Four recorded findings are avoided by the generator and pinned by fixed inputs.")
I["C10"] = dict(T, level="exploration", technique="deterministic simulation: seeded signals, re-entry and thread preemption at instruction granularity",
    state_measure="distinct instruction-level interleavings / execution traces",
    rule="Generated program; signals at chosen instructions whose handlers run compiled functions, callbacks re-entering functions, or 2-4 threads preempted at chosen instructions. Non-trivial: a disturbance fired; distinct by interleaving and program.",
    note="Every activation's visible events and result must equal those of its undisturbed run.")
I["C11"] = dict(T, level="exploration", technique="deterministic simulation: multi-unit link with seeded order, recompiles and foreign accesses",
    state_measure="distinct machine execution traces",
    rule="Generated program split into 2-4 units compiled separately in seeded order with recompiles, linked; foreign code reads and writes shared data by the platform's layout. Non-trivial: more than one visible event; distinct by machine trace.",
    note="Compared with the reference interpreter of the whole program and with the platform's layout of every shared object.")
json.dump(I, open(os.path.join(V, "bin", "info.json"), "w"), indent=1)
M = {"version": 1, "setup_cmd": "python3 bin/build.py", "checks": [], "not_applicable": [
    {"property": "C20", "reason": "A pure function of the source text: no schedule, fault, crash point, clock or I/O for it to depend on. Deciding it needs a second type checker over all inputs, which is not simulation with fault injection."},
    {"property": "C21", "reason": "A pure function of the token sequence; nothing a simulator controls can influence it. (Its consequences for compiled programs are observed by C09.)"},
    {"property": "C22", "reason": "Sequential in-memory containers without time, I/O, failure or concurrency of their own; their histories are inputs, so a model-based test rather than a simulation would decide it. (Their memory safety and the effect of failing allocations on them are covered by C05 and C07.)"}],
    "notes": "No hooks in /repo: the seams are the C library symbols the compiler calls, redirected at link time, and compiler instrumentation (-fsanitize=kernel-address, -fsanitize-coverage=trace-pc) added by the checks' own build. bin/replay.sh FILE re-executes a replay file against the current tree."}
for p in sorted(I):
    M["checks"].append({"property": p, "quick_cmd": "python3 bin/check.py %s quick" % p, "thorough_cmd": "python3 bin/check.py %s thorough" % p,
                        "technique": I[p]["technique"], "level": I[p]["level"], "level_note": I[p]["note"]})
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
