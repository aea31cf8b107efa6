#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "runtime oracle: verdicts of real parses compared with an independent derivability table over generated grammars and inputs",
 "C02": "runtime oracle: every tree returned by real parses checked node by node against the grammar and the input",
 "C03": "runtime oracle: enumerated trees compared with an independent enumeration, as multisets; fair-enumeration check for infinite forests",
 "C04": "runtime oracle: metamorphic comparison of repeated, interleaved, rebuilt and cross-process parses",
 "C05": "runtime oracle: differential comparison of all parse entry points on the same inputs",
 "C06": "runtime cost monitors: allocation ledger, retired-instruction counts and watchdogs against an item count of the derivations explored",
 "C07": "runtime oracle: generated text with known meaning, random layout; result compared with the meaning",
 "C08": "runtime oracle: same grammar written as BNF and ABNF; results and format detection compared with an independent reader",
 "C09": "runtime oracle: generated groups and optionals; result compared up to renaming of invented names, and languages compared",
 "C10": "hostile-input stress with crash, hang and memory monitors, and an independent recogniser of the notation as oracle",
 "C11": "runtime oracle: format, re-read, compare, over generated values",
 "C12": "runtime oracle: serialise, deserialise, compare, over generated and hostile values",
 "C13": "runtime oracle: independent definedness check against validate and build_parser",
 "C14": "runtime oracle: membership of every generated sentence decided by independent derivability table",
 "C15": "runtime oracle: independent productivity analysis against generation results under stack and time monitors",
 "C16": "runtime monitors: repeated, interleaved and cross-process seeded runs compared",
 "C17": "online trace monitor over recorded strategy choices and callback offers",
 "C18": "online trace monitor over recorded choices and depths",
 "C19": "online trace monitor over recorded choices per nonterminal",
 "C20": "statistical monitor over recorded choices (7 standard deviations)",
 "C21": "runtime oracle: independent reader of the printed tree compared with the tree",
 "C22": "runtime oracle: independent reader of the flowchart compared with the tree",
 "C23": "model-based monitor: histories of edits against ordered lists",
 "C24": "generated programs compiled and run, built values compared with values built from parts",
 "C25": "Miri, AddressSanitizer and LeakSanitizer, and an allocation ledger over random API histories",
 "C26": "thread stress with interleaving log and result oracle, ThreadSanitizer, Miri data-race detector",
 "C27": "differential run of differently built workers (features, subscriber, profile) over the same plans",
 "C28": "runtime oracle: generated text in notations of the harness's own, intact and damaged, compared with its known meaning and an independent reader",
}
N = {
 "C06": "Exploration of generated workloads: held on the executions observed. Cost constants carry a wide margin (7x and more) over what is observed; one listed known finding is excluded.",
 "C18": "Exploration: held on the executions observed; one listed known finding (unbounded recursion beyond the bound for some grammars) is excluded from the workload and probed separately.",
 "C10": "Exploration: held on the texts tried; the independent recogniser is trusted for what is well-formed; one listed known finding (very deep nesting) is probed separately.",
 "C20": "Exploration with statistical tests: each comparison allows seven standard deviations, so a false alarm is practically impossible and odds off by a small fraction are not seen.",
 "C25": "Exploration: no undefined behaviour on the histories Miri interpreted, no invalid access or leak on the (many more) histories under AddressSanitizer/LeakSanitizer; trusts the tools.",
 "C26": "Exploration of schedules by stress and by Miri's randomised scheduler; no claim about schedules not observed.",
}
D = "Exploration: held on every execution observed in the run (counts in the evidence file); trusts the independent oracle in /verif/harness and claims nothing about inputs not drawn."
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through the public API. known_findings.json lists the genuine defects repaired or recorded."}
for i in ids:
    m["checks"].append({"property": i, "quick_cmd": f"bash /verif/check.sh {i} quick", "thorough_cmd": f"bash /verif/check.sh {i} thorough",
                        "technique": T[i], "level": "exploration", "level_note": N.get(i, D)})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
