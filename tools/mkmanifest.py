#!/usr/bin/env python3
"""MANIFEST.json from the list of checks below and the files present in checks/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STEP = "the real daemon runs under ASan+UBSan on a stepped virtual clock; "
T = {
 "C03": ("reference-model monitor over recorded session streams + sanitizers", STEP + "every received byte of every session is compared after each operation; also free-running and overload flows with conservation checking"),
 "C04": ("reference-model monitor over log files + sanitizers", STEP + "each log is compared byte for byte after each operation; also free-running and overload flows"),
 "C05": ("reference-model monitor over console input + sanitizers", STEP + "what each console received is compared after each operation; tagged bytes in free-running multi-writer flows; conservation under overload"),
 "C06": ("reference-model monitor over console input and broadcast output + sanitizers", STEP + "the model predicts what each console may receive; anything from a read-only session is a violation"),
 "C07": ("reference-model monitor over connect/refuse/steal histories + sanitizers; raced concurrent connects with an exclusivity oracle", STEP + "stepped histories compared exactly; concurrent connect races judged on the outcome"),
 "C08": ("reference-model monitor over sessions fragmented at random + sanitizers", STEP + "each escape's effect compared at its position in the stream"),
 "C09": ("differential monitor against an independent glob/regex/ordering model + sanitizers", STEP + "every reply compared with the model's"),
 "C15": ("in-process trace monitor of the real timer multiplexer on a virtual clock under ASan+UBSan", "random timer programs incl. callbacks that schedule and cancel, compared with a model"),
 "C16": ("in-process trace monitor of the real descriptor multiplexer under ASan+UBSan, and cross-thread wake-up timing", "random set/clear programs on real pipes and sockets compared with a model"),
 "C17": ("ThreadSanitizer on the real daemon under multi-client stress and on in-process thread workloads with conservation oracles", "reports about the async signal flags are outside the property"),
 "C18": ("in-process differential monitor of the real list against a model under ASan+UBSan", "random operation programs with several live iterators"),
 "C19": ("differential monitor of the lexer against an independent model and of names round-tripping through daemon and real client, under ASan+UBSan", "random strings, token streams and line endings; exact comparison"),
 "C35": ("in-process differential monitor of the helpers on exact-size buffers under ASan+UBSan with injected short I/O and EINTR", "every result compared with an independent model"),
 "C25": ("reference-model monitor with suspended and stalled clients + conservation under overload + sanitizers", STEP + "who receives what, when, and how promptly access is released"),
 "C27": ("reference-model monitor over informational messages + sanitizers", STEP + "every session's messages compared exactly"),
}
try:
    exec(open(os.path.join(V, "tools", "techniques.py")).read())
except FileNotFoundError:
    pass
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)) and i in T:
        checks.append(dict(property=i, quick_cmd="python3 %s --tier quick" % f, thorough_cmd="python3 %s --tier thorough" % f,
                           technique=T[i][0], level=T[i][2] if len(T[i]) > 2 else "exploration",
                           level_note=T[i][1] + ". Evidence is about the executions produced, not a proof."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check still under construction")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    notes="Everything is instrumented from outside (compiler sanitizers, ld --wrap shim in harness/shim.c, fake consoles and clients); no hooks were added to /repo, only fix: commits. Findings: known_findings.txt."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
