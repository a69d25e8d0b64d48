#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the checks present."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "The real code, compiled with AddressSanitizer and UndefinedBehaviorSanitizer and libstdc++ assertions, is run on generated workloads; an independent reference model judges every observed answer. "
E2E = "The real debugger and its WebSocket server run inside a simulator stand-in (a VPI provider), under AddressSanitizer and UndefinedBehaviorSanitizer; a reference model of symbol table, design and debugger state judges the recorded message stream. "
T = {
 "C01": ("sanitizer-instrumented differential monitoring against a reference evaluator", MODEL + "Trusts the Python grammar and evaluator; texts up to a few hundred characters, every operator pair, extreme and random 64-bit values."),
 "C02": ("online trace checking of breakpoint-set histories against a reference model", E2E + "Histories of a few dozen requests over generated tables."),
 "C03": ("online trace checking of hit streams against a reference model", E2E + "The simulator stand-in, not a commercial simulator, supplies values and callbacks."),
 "C04": ("online trace checking of stepping and reverse execution against a reference model", E2E + "Rewind is the stand-in's, which restores all values of an earlier edge."),
 "C05": ("pause/resume protocol monitor over simulator progress and message events, with injected delays", E2E + "A pause that is broken only after more than the observation window would be missed."),
 "C06": ("frame monitor comparing every reported variable with the simulator stand-in's values", E2E),
 "C07": ("differential monitoring of evaluation and set-value requests against a reference evaluator and the simulator's own state", E2E),
 "C08": ("online trace checking of data breakpoint histories against a reference model", E2E),
 "C09": ("exactly-once delivery monitor over monitor messages", E2E),
 "C10": ("frame monitor over recorded value histories", E2E),
 "C11": ("protocol fuzzing under sanitizers with an exactly-one-response monitor", E2E + "Reach is that of the message generator (structured mutations and raw bytes)."),
 "C12": ("sanitizer-instrumented round-trip monitoring against a reference protocol model", MODEL),
 "C13": ("sanitizer-instrumented differential monitoring of all table queries against a reference model", MODEL + "Tables are generated; the JSON provider is judged (SQLite: C27)."),
 "C14": ("sanitizer-instrumented differential monitoring of scoping queries against a reference model", MODEL),
 "C15": ("mutation fuzzing under sanitizers with a totality monitor over all queries", MODEL + "Bounded nesting (a few hundred levels)."),
 "C16": ("sanitizer-instrumented round-trip monitoring of the writer library against a model of what was built", MODEL),
 "C17": ("sanitizer-instrumented differential monitoring of the RTL client against the simulator stand-in's state", MODEL),
 "C18": ("exactly-once / ordering checker over recorded server and client event logs", "The real DebugServer runs under AddressSanitizer and ThreadSanitizer with many concurrent clients. Reach is that of the schedules the stress produces."),
 "C19": ("race detector (ThreadSanitizer) and AddressSanitizer under concurrent stress", "Dynamic race detection: sees the interleavings the stress produces (happens-before, so not only the racy outcomes)."),
 "C20": ("sanitizer-instrumented differential monitoring of the VCD reader plus mutation fuzzing", MODEL),
 "C21": ("differential monitoring of remote against local queries with injected peer faults", MODEL),
 "C22": ("sanitizer-instrumented differential monitoring of mapped queries against a reference model", MODEL),
 "C23": ("start-up monitor over generated command lines and environments", E2E),
 "C24": ("online trace checking with several design occurrences against a reference model", E2E),
 "C25": ("metamorphic trace comparison across option settings", E2E),
 "C27": ("sanitizer-instrumented differential monitoring of all SQLite table queries against a reference model of the rows", MODEL + "sqlite_orm is not installed: src/db.cc is compiled against a stand-in for the part of it that is used (harness/shim), over the installed libsqlite3; tables with dangling or NULL references are outside."),
 "C28": ("sanitizer-instrumented differential monitoring of waveform queries and online trace checking of replay sessions", MODEL + "The engine, VPI provider and VCD database of hgdb-replay run in a host of ours over the sqlite_orm stand-in; its main() and command line (argparse is not installed) and FSDB are not built."),
 "C29": ("online trace checking of assertion calls against a reference model", E2E),
 "C31": ("trace checking of the library against a scripted debugger and in real sessions", E2E),
 "C32": ("differential monitoring of the served table against the local one", E2E),
 "C33": ("offline checking of the written tables against the declarations and differential monitoring of the loaded table", MODEL + "pybind11 and sqlite_orm are not installed: bindings/python/src/_hgdb.cc is compiled against stand-ins for the parts of them that are used (harness/shim)."),
 "C34": ("sanitizer-instrumented execution of the tool with offline checking of the written waveform against the declared one", MODEL + "argparse and sqlite_orm are not installed: the tool is compiled against stand-ins for the parts of them that are used (harness/shim)."),
 "C30": ("online checking of information responses against a model of the session", E2E),
 "C26": ("callback-registration monitor at the VPI boundary", E2E),
}
NA = {}
checks, na = [], []
props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
for p in props:
    if os.path.exists(os.path.join(VERIF, "checks", "c" + p[1:] + ".py")):
        t, note = T[p]
        checks.append({"property": p, "quick_cmd": f"python3 checks/run.py {p} quick", "thorough_cmd": f"python3 checks/run.py {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every observation point is a public API, the wire or the VPI boundary. Commits in /repo are 'fix:' repairs only (known_findings.txt)."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
