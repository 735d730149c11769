#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "S01": "property-based testing: generated systems, exact residual oracle",
 "S02": "property-based testing: generated matrices, independent exact determinant",
 "S03": "property-based testing: differential against independent fraction-free elimination",
 "S04": "property-based testing: pivot choice re-derived from independent elimination",
 "S05": "property-based testing: differential against the ordering packages; metamorphic estimates",
 "S06": "property-based testing: differential against exact solution with own rounding",
 "S07": "stateful property-based testing: call histories, snapshots, fresh-session differential",
 "S08": "property-based testing: differential NULL/default/explicit options",
 "S09": "property-based testing: accept/reject decided by exact arithmetic",
 "M01": "property-based testing: exact value model over all kinds and types",
 "M02": "property-based testing: exact conversion model per type pair",
 "M03": "property-based testing: generated valid matrices and single corruptions",
 "M04": "stateful property-based testing: object ownership model with allocator ledger",
 "E01": "property-based testing: generated invalid calls, status and state oracle",
 "E02": "stateful property-based testing: session state machine",
 "R01": "fault injection driven by generated calls: every allocation point of each generated call failed",
 "R02": "property-based testing: allocator ledger over generated call sequences, with sanitizer",
 "R03": "stateful property-based testing: memory-helper model with injected failures",
 "R04": "property-based testing: differential against GMP/MPFR over generated operands and aliasing",
 "O01": "property-based testing: captured output and results across print levels",
 "A01": "property-based testing and fuzzing: generated valid and malformed patterns, documented-status model",
 "A02": "property-based testing: statistics re-derived; symbolic elimination oracle",
 "A03": "property-based testing: metamorphic relations between presentations",
 "C01": "property-based testing and fuzzing: generated valid and malformed patterns, documented-status model",
 "C02": "property-based testing with fault injection: symamd model, allocator ledger",
 "C03": "property-based testing: documented thresholds re-derived; metamorphic presentations",
 "T01": "stateful property-based testing: generated call sequences and concurrent calls against the first results, under a data-race detector",
 "F01": "property-based testing: generated symmetric graphs, permutation/inverse and no-fill oracles",
 "Z01": "property-based testing: allocation model, exact rational error bounds",
 "O02": "property-based testing: generated statistics, printed report parsed back",
 "A04": "property-based testing: differential of the C and Fortran versions, assembly trees compared",
 "C04": "property-based testing: model-based replay of each ordering on an independent approximate-degree model",
 "X01": "stateful property-based testing: MATLAB gateway in a model of MATLAB's array interface, exact solution oracle",
 "X02": "property-based testing: differential of the MATLAB gateways against the ordering packages, model of MATLAB's array interface",
 "D02": "property-based testing: generated command lines and input files, documented-options model, end-to-end differential",
 "D01": "property-based testing: generated files, round trip against the described matrix",
}
LV = {"R01": "fault_enumeration"}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/harness/props/%s.cc" % (V, i)):
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --thorough" % i,
            "technique": T[i], "level": LV.get(i, "exploration"),
            "level_note": "random search over generated inputs against an explicit oracle; seeds from VERIF_SEED; see DESIGN.md"
                          if i not in LV else "every single allocation request of each generated call is failed in turn (and all later ones), over randomly generated calls"})
    else: na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "./check S01 --build-only", "checks": checks, "not_applicable": na,
  "hooks": {"guard": "none", "enable": "no hooks are needed: the checks use the public interface of the library", "source_commits": []},
  "notes": "Each check rebuilds the library from /repo (objects cached by content under build/). Known findings: known_findings.txt. Design: DESIGN.md."},
  open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
