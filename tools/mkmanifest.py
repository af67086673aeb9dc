#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in x1v/checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "P01": "reference-model monitor over random programs",
    "P02": "reference-model monitor over random programs",
    "P03": "reference-model monitor over random programs",
    "P04": "reference-model monitor over random programs",
    "P05": "reference-model monitor over random programs",
    "P06": "reference-model monitor plus shadow-memory monitor over random array histories",
    "P07": "exact integer model as runtime oracle over boundary-biased operands",
    "P08": "exact rational model as runtime oracle over operand pairs and literals",
    "P09": "high-precision reference values as runtime oracle",
    "P10": "exact decimal layout oracle over printed values",
    "P11": "input tokenizer model as oracle over random input texts",
    "P12": "metamorphic monitor: object programs of re-notated sources compared",
    "P13": "ASan/UBSan/MSan monitored fuzzing of the compiler",
    "P14": "ASan/UBSan monitored fuzzing of the simulator",
    "P15": "fault injection with exit status and output monitors",
    "P16": "trace specification checker over recorded traces",
    "P17": "round-trip and fault injection on library tapes with word-level oracle",
    "P18": "repeat-run comparison under perturbed environments",
    "P19": "storage-exhaustion monitor: repetition and recursion at the edge of the stack, results and messages observed",
    "P20": "capacity scans against computed expected output",
    "P21": "reference-model monitor for library procedures",
    "P22": "file system and output monitors over command lines",
    "P23": "differential monitor: Pascal against C compiler",
    "P25": "own reader of the compiler's list over generated programs; addresses confirmed by unique constants in the object program",
    "P24": "model of the machine as oracle over random instruction sequences, with ASan+UBSan",
}
NOTE = {
}
LEVELNOTE = "Held on the executions counted in the evidence file; inputs are sampled with a seed, not enumerated. Trusts: "
TRUST = {
    "P13": "the sanitizers' instrumentation",
    "P14": "the sanitizers' instrumentation",
    "P16": "the trace format's field meanings as documented by the code's own labels",
    "P12": "nothing but file comparison",
    "P17": "an own decoder of the tape code and the library sources in the repository",
    "P19": "a large array occupies the cells it is declared with",
    "P18": "nothing but comparison of outputs",
    "P23": "agreement of two independently transcribed compilers",
    "P24": "the model of the instructions in x1v/machtest.py",
}
checks, na = [], []
for l in open(V + "/properties.jsonl", encoding="utf-8"):
    pid = json.loads(l)["id"]
    if os.path.exists(V + "/x1v/checks/%s.py" % pid.lower()):
        checks.append({"property": pid, "quick_cmd": "python3 check.py " + pid, "thorough_cmd": "python3 check.py " + pid + " --thorough",
                       "technique": "runtime monitoring: " + T[pid], "level": "exploration",
                       "level_note": LEVELNOTE + TRUST.get(pid, "the reference model in x1v/ (lang.py, num.py) as the statement of what is right") + "."})
    else:
        na.append({"property": pid, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the programs are observed at their interfaces and by sanitizer builds of the unmodified sources", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "One driver, check.py; build products in .build/, failing cases in .replay/ (python3 check.py --replay <dir>). Findings in known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "without")
