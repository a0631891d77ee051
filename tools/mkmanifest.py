#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection"
COMMON = (" Seeded search, not enumeration: what was not sampled is not covered. Trusts the simulator, the reference model "
          "(Python's cp949 table) and the Go toolchain. The library is compiled from the working tree with a yield point before every statement.")
N = {
 "C01": "Many seeded byte streams x segmentations, delays, end-of-stream styles, garbage in unused buffer space and reading styles, each compared with the model.",
 "C02": "As C01 with one source failure of eighteen kinds at every sampled position, with or without data, and later behaviour of the source; what was received and the repeated error are compared with the model.",
 "C03": "As C01 with clean ends inside a character at sampled positions.",
 "C04": "Every source read the reader makes is judged against what it holds at that moment; empty reads, empty buffers, endless emptiness and peers that wait for the text.",
 "C05": "Long streams; bytes held and read sizes asked are judged after every source read and against a bound that depends only on the caller's buffers; writers are judged after every write.",
 "C06": "Seeded texts (valid, unencodable, broken UTF-8) x cuttings into writes, caller buffers overwritten after each write, compared with the model.",
 "C07": "Sink failures (refused, partial, short without error, full) at sampled positions in sequences, with the caller's retries, compared with the model at every step.",
 "C08": "Crash at sampled steps, also inside a sink write that took part of the data; only the sink survives; a new writer resumes, several times over.",
 "C09": "Direct Transform calls with sampled windows, guard bytes around every buffer, and the standard readers, writers and helpers over segmented streams, compared with the model.",
 "C10": "As C09 for the encoder.",
 "C11": "As C09/C10 with source and sink failures and cuts inside a character.",
 "C12": "Sequences of abandoned and reset streams on one coder, interleaved with others from the same value.",
 "C13": "2-6 callers under random and priority (PCT) schedules preempting at statements, results compared with each call alone in a fresh process; a fifth of the runs under the race detector with the scheduler's hand-offs hidden from it.",
 "C14": "Histories of calls and streams, results overwritten by the caller, compared with each call alone in a fresh process.",
 "C15": "Some callers' streams block forever, panic or end their goroutine inside an operation; the others must finish with the model's results.",
 "C16": "Two endpoints over a simulated packet network with loss, duplication, reordering, delay, partitions and resets; streams and dialogues.",
 "C17": "Sources and sinks that call package functions and run whole other streams inside a Read or Write (up to twelve levels deep), and stacks of two to twelve readers or writers, with failures and truncation at the far end; results compared with the model and with each call alone in a fresh process; a violation counts only if the same run without the nested use passes.",
 "C18": "Histories of 200 to 8000 streams and calls, ended, failed, panicking or given up at sampled points; then a simulated day passes and, after garbage collection, live library goroutines (at most 64), reachable sources, sinks, caller buffers and coders (at most 100 each) and growth of the heap (at most 96 KiB, with ever different texts 4 MiB) are measured.",
 "C19": "Histories of calls and streams in which sources, sinks and callers pause for anything between a nanosecond and a year, under a wall clock that starts anywhere and is set forward and back by up to decades; results compared with the model and with each call alone in a fresh process, simulated time nobody else accounts for is counted (at most 1 ms an operation), and sinks are watched after their stream was left.",
 "C20": "Streams over sources and sinks of 28 and 20 kinds: simulated ones with the further methods of files, pipes, terminals, connections and buffers, which may fail, and real types of the standard library; the caller's own writes between operations, garbage collection and finalization at sampled points; every use outside an operation, overlapping use, closing, moving or resetting is a violation, and text and errors are compared with the model.",
 "C21": "Histories of calls and streams in processes whose environment, arguments, flags, files, host, processors, memory figures, zone, log settings and standard streams are drawn from a seed, at the start of the process and again from operation to operation, called from deep in the stack, while panicking and on locked threads; attempts to change the process are recorded instead of done; results compared with the model, with each call alone in a fresh process and with the same call in other surroundings.",
 "C22": "Streams and calls with a text of some thousand bytes and with one 20 to 200 times as long, the same again and again or going on as it starts, in seeded pieces; executed statements (copying, converting and concatenating count by length) and allocated bytes are compared: at most 1.5 times the proportion and 300000 steps, three times the proportion and 16 MiB.",
}
NA = "A pure function of its input, without schedule, time, I/O, fault, crash or history for the simulator to vary: "
checks = [{"property": k, "quick_cmd": "./check.sh " + k, "thorough_cmd": "./check.sh " + k,
           "evidence_file": "evidence/%s.json" % k, "technique": T, "level": "exploration", "level_note": v + COMMON} for k, v in N.items()]
na = [
 ("P01", NA + "feeding it inputs is ordinary testing (its 11172 syllables could simply be enumerated), not simulation. Its isolation from other callers and histories is part of C13 and C14."),
 ("P02", NA + "a table comparison over all code points, not simulation. Isolation and history are part of C13 and C14."),
 ("P03", NA + "a table computation, not simulation. Isolation and history are part of C13 and C14."),
 ("P04", NA + "deterministic string handling, not simulation. Isolation and history are part of C13 and C14."),
 ("P05", NA + "a lookup per character, not simulation. Isolation and history are part of C13 and C14."),
 ("P06", NA + "a table comparison over 65536 codes, not simulation. The same mapping as observed through every stream is decided by C01, C06, C09 and C10."),
]
m = {"version": 1, "setup_cmd": "./setup.sh",
 "hooks": {"guard": "none (no hooks in /repo)", "enable": "the checks compile an instrumented copy of the working tree through go -overlay; /repo has no hooks", "source_commits": []},
 "checks": checks,
 "not_applicable": [{"property": p, "reason": r} for p, r in na],
 "notes": "Each check builds the driver (dst/cmd/dst) and the library from /repo's working tree in a scratch directory. Replay a reported file with ./replay.sh FILE. See DESIGN.md."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
