#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a checks/<id>.py."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("reference-evaluator monitor over generated mail and queries", "exploration",
        "Every raw search answer on generated stores (maildir/MH/mbox, gz/bz2/xz, up to tens of thousands of words) is compared with an independent evaluator that knows what was written; assumes words are ASCII."),
"C02": ("edit-distance oracle monitor over generated terms", "exploration",
        "Sellers dynamic-programming oracle decides every approximate/substring answer over generated vocabularies, all lengths 1..32 and budgets."),
"C03": ("calendar/size/flag oracle monitor under an interposed clock", "exploration",
        "All documented date notations are evaluated by an independent calendar at many faked current dates; sizes and flags from what was written to disk."),
"C04": ("connected-components oracle over indexing histories", "exploration",
        "Union-find over generated reference graphs decides each -t answer after random histories of index/remove/purge runs."),
"C05": ("differential history monitor (incremental vs from scratch)", "exploration",
        "Random and directed histories; after each index run the incremental database is compared with a fresh one, message by message and by search."),
"C06": ("history monitor of removals and purges", "exploration",
        "Histories of removals; answers before and after purges and the decoded database are compared with the model of what is on disk."),
"C07": ("file-system snapshot and write-event monitor", "exploration",
        "Full snapshot of the source tree before/after and an interposed log of every write-side call; result folders pointed at sources by path, symlink and hard link."),
"C08": ("result-folder monitor against a reference delivery model", "exploration",
        "Every entry of each result folder is read back, resolved and compared byte for byte with the model, across formats, -a, -H, -o and sorting."),
"C09": ("stale-content monitor with mutation between index and search", "exploration",
        "Mboxes are mutated after indexing; whatever is delivered must equal the bytes originally indexed, and staleness must be reported."),
"C10": ("event-log monitor of lock ownership under schedules, signals and faults", "fault_enumeration",
        "Signals and failures are injected at every interposed system call of short runs (enumerated); concurrent processes are raced with injected delays and their merged event logs checked for mutual exclusion."),
"C11": ("AddressSanitizer/UBSan and malloc-perturbation under hostile workloads", "exploration",
        "Sanitizer builds run over generated and mutated mail, mboxes, compressed files, rc files, queries and histories; an in-process libFuzzer target covers the parsers."),
"C12": ("equivalent-encoding monitor on decoded token tables", "exploration",
        "The same logical content is written in many MIME encodings; the decoded database must hold exactly the expected words for each."),
"C13": ("extent monitor over generated mboxes", "exploration",
        "Every extent reported for generated mboxes (all separator forms, layouts and compressions) is compared with the generator's record."),
"C14": ("folder-set monitor against a reference glob/recursion model", "exploration",
        "Generated directory trees and folder settings; the set of indexed messages is compared with an independent model of the folder grammar."),
"C15": ("independent database decoder as online invariant checker", "exploration",
        "After every index run the database file is decoded by an independent parser that checks all structural invariants and compares with the mail on disk."),
"C16": ("scripted IMAP server recording and checking every command", "exploration",
        "mairix talks to a scripted server over a pipe; a shadow mailbox decides what must be indexed, delivered and never changed; protocol faults are injected."),
"C17": ("settings monitor against a reference resolver", "exploration",
        "Generated rc files, environments and options; where database and results land and what is indexed is compared with an independent resolver."),
"C18": ("fault-injection monitor (interposed open/stat/map/decompress failures)", "fault_enumeration",
        "Failures are injected at each interposed call on selected files; the surviving messages must be indexed exactly as if the bad ones were absent and recover later."),
"C19": ("fault and signal injection at each call, with database and result folder compared before and after", "fault_enumeration",
        "Signals at read calls, failing database and result-folder calls, file-size limits and (where the sandbox allows a private mount) a full disk; the database is compared byte for byte and the follow-up run with a fresh index. Writing the new database itself is not interrupted."),
"C20": ("dump read back and compared with an independent database decoder", "exploration",
        "The text of -d is parsed and compared with the decoded database file after every step of random histories (all stores, IMAP included), with a snapshot of the tree around it."),
"C21": ("product walk of generated scanners with an independent automaton of the description, sanitizers on dfasyn and its output", "exploration",
        "Random descriptions over the whole dfasyn(5) language; each generated scanner is compiled and walked through every reachable pair of its states and the description's, comparing attributes and every transition, under random options; list of wrong descriptions must be refused. At most 32767 states; ambiguous same-named instances with tags are not generated."),
}
checks = []
na = []
for p in sorted(T):
    if not os.path.exists(os.path.join(HERE, "checks", p + ".py")):
        na.append({"property": p, "reason": "check under construction"})
        continue
    tech, level, note = T[p]
    checks.append({"property": p, "quick_cmd": "python3 checks/%s.py" % p,
                   "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": "runtime monitoring: " + tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "python3 -m mx.build plain asan", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks build /repo's sources out of tree with sanitizers and observe the process from outside (event-log preload, database decoder). VERIF_SEED seeds every random choice; MX_CASE=<case> reruns one case."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
