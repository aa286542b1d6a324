"""Writes MANIFEST.json for the checks that exist (python3 tools/manifest.py)"""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "exhaustive enumeration of configurations and one-hot/unit-entry inputs on the real code",
    "C02": "explicit-state exploration of all register/evaluate histories up to a depth, and of all paths, on the real code",
    "C03": "explicit-state exploration of all operation histories up to a depth on the real code",
    "C04": "stateless model checking of the real code: all line-level interleavings up to a preemption bound",
    "C05": "explicit-state exploration of all call/update histories, conformance of every shift to a reference SVD model",
    "C06": "explicit-state exploration of all call/update histories against a shift-schedule automaton",
    "C07": "explicit-state exploration of all call/optimizer-step histories against a reference optimizer model",
    "C08": "exhaustive enumeration of index partitions, caps and cutoffs on the real code",
    "C09": "exhaustive enumeration of all input sequences of bounded models (complete sums)",
    "C10": "exhaustive enumeration of all input sequences of bounded models against a log-domain reference",
    "C11": "exhaustive enumeration of matrix-sequence shapes, batches and modes in exact arithmetic",
    "C12": "exhaustive enumeration of configurations, one-hot sequences and length tuples",
    "C13": "exhaustive enumeration of embedding tables and of update histories up to a depth",
    "C14": "exhaustive enumeration of configurations and output components, gradients against an independent model",
    "C15": "explicit-state exploration of all histories, copy/restore at every reached state",
    "C16": "exhaustive enumeration of shape tuples on the real code",
    "C17": "exhaustive enumeration of shapes and methods with a scripted random source",
    "C18": "exhaustive enumeration of small inputs on the real code",
    "C19": "exhaustive enumeration of malformed shapes and arguments on the real code",
    "C20": "exhaustive enumeration of well-formed chains and pairwise groupings in exact arithmetic",
    "C21": "exhaustive enumeration of configurations, 0/1 tensors and call/edit histories against explicit sums",
    "C22": "explicit-state exploration of all training histories up to a depth, in step with a reference trained alike",
    "C23": "explicit-state exploration of all norm/rescale/call histories up to a depth; exhaustive enumeration of shapes and scales",
}
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(ROOT, "mc", pid.lower() + ".py")
    if not os.path.exists(path):
        missing.append({"property": pid, "reason": "check under construction"})
        continue
    src = open(path).read()
    level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
    note = re.search(r"^NOTE = \((.*?)^\)", src, re.M | re.S)
    note = "".join(re.findall(r'"(.*?)"\n', note.group(1))) if note else (
        "Complete within the stated bounds (see evidence 'bounds' and 'rule'): every case is executed on the code "
        "in /repo and compared with an independent reference; assumes that behaviour outside the bounds does not "
        "differ from that inside, and trusts torch/numpy arithmetic."
    )
    checks.append({
        "property": pid,
        "quick_cmd": f"./run.sh {pid} quick",
        "thorough_cmd": f"./run.sh {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "model checking: " + TECH[pid],
        "level": level,
        "level_note": note,
    })
out = {
    "version": 1,
    "setup_cmd": "./run.sh --setup",
    "checks": checks,
    "not_applicable": missing,
    "notes": "Checks import torchmps from /repo's working tree (pure Python, nothing to build); no hooks in /repo. KNOWN_FINDINGS lists the defects repaired in /repo. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "missing")
