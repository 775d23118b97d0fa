"""Writes MANIFEST.json (kept in step with properties.jsonl and the checks)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": "property-based testing (Hypothesis) against a reference model: explicit joint Gaussian, conditioned in extended precision",
 "C02": "property-based testing (Hypothesis) against a reference model: explicit joint Gaussian, conditioned in extended precision",
 "C03": "property-based testing (Hypothesis) against a reference model: joint log density in extended precision",
 "C04": "property-based testing (Hypothesis) against exact M-steps of the joint Gaussian, plus metamorphic relations (monotone likelihood, a+b iterations)",
 "C05": "property-based testing (Hypothesis), differential: filter_update step by step against filter on the whole sequence",
 "C06": "property-based testing (Hypothesis), metamorphic: poisoned masked values, merged transitions, prior",
 "C07": "property-based differential testing (Hypothesis) against KalmanFilter",
 "C08": "property-based testing (Hypothesis) against a reference model: joint Gaussian of the equivalent linear system",
 "C09": "property-based testing (Hypothesis) against a reference model: transcription of the unscented transform",
 "C10": "property-based differential testing (Hypothesis) of the two implementations",
 "C11": "property-based testing (Hypothesis): written-out recursion without noise, whitened-moment tests with noise, metamorphic seed relations",
 "C12": "property-based testing (Hypothesis), metamorphic: equal inputs in different representations",
 "C13": "property-based testing (Hypothesis), differential: omitted against explicit parameters, and must-raise oracle for inconsistent shapes",
 "C14": "stateful model-based testing: random histories of operations against newly built objects and snapshots of all arrays",
 "C15": "property-based testing (Hypothesis): invariants of every returned covariance and order relations between related runs",
 "C16": "property-based testing (Hypothesis), metamorphic: prefixes, restarts, changes of coordinates, independent systems",
 "C17": "property-based testing (Hypothesis) against the defining equations of each function",
}
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append(dict(
        property=p, quick_cmd=f"./run.sh check {p}",
        thorough_cmd=f"VERIF_TIER=thorough ./run.sh check {p}",
        technique=T[p], level="exploration",
        level_note="Random search over structured inputs with shrinking; no proof. Assumes the oracle described in DESIGN.md, "
        "numpy/scipy, and comparison up to rounding inside the numerical domain recorded in the evidence (cases outside are counted, not judged)."))
json.dump(dict(version=1, setup_cmd="./run.sh selftest", checks=checks, not_applicable=[],
  notes="No hooks in /repo: the checks import the working tree of /repo directly. VERIF_SEED selects all random choices; a failing case is shrunk and written to replays/, and './run.sh replay FILE' runs it again."),
  open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
