"""Writes MANIFEST.json for the properties that have a check module."""
import importlib.util, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "runtime oracle: every rule driven with all monomials of its degree vs closed-form integrals",
 "C02": "runtime oracle: returned basis vs independent Vandermonde basis at generated points",
 "C03": "runtime oracle: H, B, det vs independent chain rule; rigid and linear-field monitors",
 "C04": "negative/positive workload monitor: refusals and acceptances vs recomputed determinants",
 "C05": "runtime oracle: constitutive matrices vs independent Hooke law and rotation invariance",
 "C06": "invariant monitors on returned stiffness (spectrum, null space, covariance)",
 "C07": "reference-model monitor: stiffness vs independent weak-form integration",
 "C08": "reference-model and conservation monitors on returned mass",
 "C09": "reference-model monitor on spring/truss matrices in generated placements",
 "C10": "reference-model and equilibrium monitors on beam matrices in generated placements",
 "C11": "conservation monitor: numbering bijection and gather on generated constraint tables",
 "C12": "conservation monitor: global matrices vs own scatter-sum; recorded user-element calls",
 "C13": "conservation monitor: load vector vs own accumulation",
 "C14": "residual monitor on generated systems, dense and sparse",
 "C15": "exactly-once monitor: distinct solution values traced to their node and direction",
 "C16": "end-to-end oracle: patch tests on generated irregular meshes",
 "C17": "conservation monitors over solved models: equilibrium, reactions, superposition, reciprocity, energy",
 "C18": "metamorphic monitor: composed re-descriptions of generated models",
 "C19": "reference-model monitor: independent matrix structural analysis of generated trusses and frames",
 "C20": "reference-model monitor: nodal strain/stress recovery vs independent recovery",
 "C21": "spectral-decomposition monitor on generated tensors and fields",
 "C22": "differential monitor across workflows and options",
 "C23": "fault injection into the linear solve; printed verdict vs residual recomputed from results",
 "C24": "structural-invariant monitor on generated grids",
 "C25": "conservation monitor over import call histories on generated meshes; template run on altered meshes",
 "C26": "reference-model monitor: Bloch numbering and transformation vs definition",
 "C27": "physical-invariant monitor: spectra of reduced problems vs ring models, supercells, closed forms",
 "C28": "recorded drawing artists and triangulations vs the mesh and field",
 "C29": "argument-snapshot and history monitors: interleaved, repeated, threaded, fresh-process replays",
 "C30": "spectrum monitors vs rigid-mode count, nested refinement and closed forms",
 "C31": "energy-monotonicity and convergence monitors over nested refinement histories",
 "C32": "file round-trip monitor with directory snapshots",
 "C33": "resource monitors: traced allocations and executed lines on models of growing size",
 "C34": "fault injection: calls cut short at random lines, damaged files, full devices; state compared afterwards",
 "C35": "differential monitor: every call repeated with the same numbers held in other types and layouts"}
CUSTOM = {}
LEVEL = ("held on the executions generated for the given seed (counts, families and extremes in the evidence "
         "file); trusts numpy/scipy and the independent reference in vlib; no claim about inputs outside the "
         "generated classes")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i,
                       "thorough_cmd": "bin/check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "runtime monitoring: " + TECH[i], "level": "exploration",
                       "level_note": CUSTOM.get(i, LEVEL)})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors observe the public functions from outside. "
              "Known and fixed findings: known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
