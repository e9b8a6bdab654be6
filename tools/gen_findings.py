#!/usr/bin/env python3
"""Writes /verif/known_findings.jsonl: what was repaired (text lines) and what is recorded (JSON lines)."""
import json, pathlib, subprocess
ROOT = pathlib.Path(__file__).resolve().parent.parent
FIXED = """97f5331 C02
b5f2e60 C01 C02
aba7360 C03
5bc3a42 C04 C05 C06
3bb93e8 C07
0f82222 C08
317b8b4 C11
143c348 C11
ccbc28f C10
9812133 C22 C10
0035cbe C11
a71d72a C23
fd7d40e C22
6a99652 C20
89afa83 C21 C22
e5c75b4 C23
69e977d C22
b193509 C30
1fad5fd C31
fa1e703 C31
152178a C31
e15dac0 C31
09ac469 C31
21bd6e0 C31
30770e4 C30 C31 C70
5de1d8e C31
2b152ff C40
e4ad2d3 C40
d4d5d21 C40
f38b816 C40 C41
0f61692 C41
cd76695 C42
b9643e9 C40
8e6d100 C50
27a0c9d C50
68c11e9 C50 C51
1eb9fd1 C51
60d3227 C51
7946adf C51
f4958c2 C61
4e1e6c4 C62
a8499cc C72
36d00b1 C71
41bfab1 C73
15f148a C73
e3092e6 C72
0948154 C70 C73
308d916 C21 C22
20729cb C23 C31
"""
KNOWN = [
 {"id": "K1", "property": "C51", "status": "known", "clause": "^C51:cross-validated-quality$", "match": {"one_class": False},
  "what": "accuracy, precision and recall of PythiaStage._run, and the CV_model_* columns of its summary, are those of the final models on the data they were trained on, not of the cross-validated predictions (Ysub); correcting it contradicts tests/test_pythia.py::test_gridsearch_opts_gaussian"},
 {"id": "K3", "property": "C61", "status": "known", "clause": "^C61:best-[a-z]+(,C61:best-[a-z]+)*$", "match": {"p_from": "prelim"},
  "what": "with true labels (use_sim off) TraceStage takes the best-algorithm indices from PrelimStage, which counts algorithms from one, while it compares them from zero: every algorithm's best footprint is built from another algorithm's evidence and the first one's is empty; both numberings are fixed by tests (tests/test_prelim.py, tests/test_trace.py)"},
 {"id": "K4", "property": "C72", "status": "known", "clause": "^C72:zip-names$", "match": {"clash": True},
  "what": "Model.save_zip stores every file as output/<file name>: files of the same name in different folders of the output directory become entries of the same name, of which an unpacked archive keeps only one; the flat layout is what the offline dashboard reads, so it is left"},
 {"id": "K2", "property": "C51", "status": "known", "clause": "^C51:refused$", "match": {"one_class": True},
  "what": "PythiaStage._run raises when an algorithm is good on all instances or on none (a support vector machine needs two classes)"},
]
def main():
    log = dict(l.split(" ", 1) for l in subprocess.run(
        ["git", "-C", "/repo", "log", "--abbrev=7", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines())
    out = []
    for line in FIXED.split("\n"):
        if not line.strip():
            continue
        h, *pids = line.split()
        for p in pids:
            out.append(f"fixed: property={p} {h} {log[h].removeprefix('fix: ')}")
    out += [json.dumps(k) for k in KNOWN]
    (ROOT / "known_findings.jsonl").write_text("\n".join(out) + "\n")
main()
