"""Writes MANIFEST.json from the plans."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plans import PLANS
ASAN = "monitored execution under ASan/UBSan: "
T = {
 "C01": ASAN + "sanitizers, leak accounting and container assertions over every workload of the suite",
 "C02": ASAN + "random histories, whole-state comparison with a reference model after every operation",
 "C03": ASAN + "random sequence histories against a reference vector model",
 "C04": ASAN + "random map histories against a reference associative model",
 "C05": ASAN + "random text histories against a reference model of bounded strings",
 "C06": ASAN + "random union histories against a reference model of selection and discriminator",
 "C07": ASAN + "copy/move/assign histories over a pool of live values, all re-read after every step",
 "C08": ASAN + "pairs of data built through different histories, equality and hash against the model",
 "C09": ASAN + "generated type pairs, consistency flags against a reference comparison",
 "C10": ASAN + "generated type pairs and values, conversion result against a reference conversion",
 "C11": ASAN + "types mutated, renamed and destroyed after use; monitor re-reads the composed types and data",
 "C12": ASAN + "recorded event log of visitors and iterators against the expected traversal",
 "C13": ASAN + "injected misuse of the API; monitor requires the exception and an unchanged state",
 "C14": ASAN + "operators on boundary and random operands against the C++ operator",
 "C15": ASAN + "UTF conversions differential against an independent codec, mutated input",
 "C16": ASAN + "rendered text and casts parsed and compared with the model",
 "C17": ASAN + "random module histories against a reference name resolver",
 "C18": ASAN + "generated IDL read by an independent IDL reader and compared with the types",
 "C19": "ThreadSanitizer over concurrent workloads with per-thread result checking",
 "C20": ASAN + "allocation log of the instrumented allocator against a reference size computation",
 "C21": ASAN + "random enumeration programs and writes against a reference enumeration",
 "C22": ASAN + "introspection of random types and their copies against their declaration",
 "C23": ASAN + "generated IDL documents parsed and compared with what they describe",
 "C24": ASAN + "documents parsed, generated and parsed again, compared with what they describe",
 "C26": ASAN + "the log at every level against what happened in the parsing, and documents parsed with and without the options they need",
 "C25": ASAN + "invalid, damaged and hostile texts, in sequences of contexts that come and go",
}
NOTE = "Held on the executions observed (random, seeded workloads with a reference oracle); inputs the generators do not produce are not covered."
checks = []
for p in sorted(PLANS):
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": T[p], "level": "exploration", "level_note": PLANS[p].get("note", NOTE)})
have = set(PLANS)
na = []
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
print("claimed", len(have), "missing", [p for p in props if p not in have])
