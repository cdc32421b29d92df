#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
src = open(os.path.join(root, "harness/src/checks/mod.rs")).read()
done = re.findall(r'"(C\d\d)"', re.search(r"IDS: &\[&str\] = &\[(.*?)\]", src, re.S).group(1))
T = "bounded exhaustive model checking of the real code: stateless enumeration of every choice sequence of a document/store model, "
TECH = {
 "C01": "each encoded, damaged at every position in the bound and run through the real parser (fault enumeration, invariant: it returns in time and memory)",
 "C02": "each reference graph encoded and run through the real parser under a small stack (termination and outcome against the reference interpreter)",
 "C03": "each value, width and identifier encoding placed in a file and compared with the reference interpreter",
 "C04": "each framing variant or violation encoded and run through the real parser",
 "C05": "each revision history encoded and the real result compared with the reference interpreter",
 "C06": "each permutation, hash seed and call sequence executed on the real parser and compared",
 "C09": "each entry name and directory layout created in a scratch folder, with every opened path recorded by interposed file functions",
 "C10": "each table-of-contents tree and directory layout created in a scratch folder, parsed by the real parser and compared with the reference interpreter",
 "C19": "each entry point, path form and container layout executed on the real parser and compared with each other and the reference interpreter",
 "C21": "each schedule of two (or up to 32) threads within a preemption bound, enforced on the real code by a controlled scheduler (every allocation, release, file-system call, lock wait and access to a static variable of the library is a scheduling point)",
 "C22": "each file of another kind, file name, directory, damage and file-system fault executed on the real parser and its error compared with the one the cause calls for",
 "C20": "each file-system call of a parse failed or shortened in turn by interposed file functions (fault injection at every point)",
}
DEF = "each encoded by an independent encoder and the real result compared with the reference interpreter"
NOTE = "Exhaustive within the bounds listed in the evidence file; trusts the harness's encoder and reference interpreter as a transcription of the format. Every model state is executed on the real library (model and code are bound trace by trace)."
m = dict(version=1, setup_cmd="./run.sh setup",
  checks=[dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
    evidence_file=f"evidence/{i}.json", technique=T + TECH.get(i, DEF), level="model_checking", level_note=NOTE) for i in done],
  not_applicable=[dict(property=i, reason="the check for this property is not built yet") for i in ids if i not in done],
  notes="No hooks: everything is driven and observed through the crate's public API. See DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(done), "claimed")
