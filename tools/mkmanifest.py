"""Writes /verif/MANIFEST.json from properties.jsonl and the registered sub-checks."""
import json
import os

here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
from registry import ALL

subs = {p: [n for n, _ in x] for p, x in ALL.items()}
TECH = {
    "C11": "stateful property-based testing (Hypothesis): random operation histories, aliasing invariant after every step",
    "C12": "stateful / model-based property-based testing (Hypothesis): histories against a reference model",
    "C13": "property-based round-trip testing (Hypothesis) over files in scratch directories",
    "C16": "property-based round-trip testing (Hypothesis) over files in scratch directories",
    "C20": "property-based testing (Hypothesis): simulated measurements with known ground truth, round trip through calibration and demodulation",
    "C21": "metamorphic / differential property-based testing (Hypothesis)",
    "C36": "property-based testing (Hypothesis): simulated measurements against the analytic covariance",
    "C37": "stateful property-based testing (Hypothesis): histories over files and images, whole folder tree and all loaded objects compared after every step",
    "C38": "metamorphic property-based testing (Hypothesis): one pixel is changed, only the results defined from it may differ",
    "C39": "property-based testing (Hypothesis): simulated camera with known ground truth through the whole chain of files",
    "C40": "differential property-based testing (Hypothesis): generated jobs alone against the same jobs in concurrent threads",
    "C41": "stateful / metamorphic property-based testing (Hypothesis): sequences of calls, arguments and earlier results frozen, everything repeated after overwriting all results",
    "C43": "stateful / differential property-based testing (Hypothesis): histories with refused calls against a twin without them, complete state and file tree compared",
    "C44": "fault-injection property-based testing (Hypothesis): file-size and descriptor limits, obstacles, interrupts at any line, cut files, against the undisturbed call",
    "C45": "metamorphic property-based testing (Hypothesis): the same pixels by two routes through the same chain of operations",
    "C46": "stateful differential property-based testing (Hypothesis): the same objects after changes, against new objects of the same values",
    "C26": "property-based testing (Hypothesis): reference model and metamorphic relations",
}
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(
        property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough", evidence_file=f"evidence/{i}.json",
        technique=TECH.get(i, "property-based testing (Hypothesis): generated inputs against an independent reference model"),
        level="exploration",
        level_note="Sub-checks: " + ", ".join(subs[i]) + ". Every generated case is judged against an explicit oracle written independently of the code; "
        "inputs are sampled (not exhausted) within the domain given in DESIGN.md. Trusts numpy/scipy/astropy as libraries and the oracle in vf/.",
    ))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the checks use its public functions and classes only. VERIF_SEED selects the cases; replays/ holds shrunk failing cases "
               "(./check <id> --replay <file>).")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
