#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
B = "property-based testing: "
CHECKS = {
"C01": "generated derive types and values, round trip oracle, shrinking",
"C02": "generated derive types and values; output parsed by an independent XML parser and compared with a reference model of the annotations",
"C03": "generated strings in every text position; independent parser round trip and byte-for-byte context relation",
"C04": "generated piece sequences (literals, references, near-references, CDATA) against a decoding oracle",
"C05": "metamorphic: documents re-rendered with random namespace layouts must read equal, model as oracle",
"C06": "name and namespace perturbations of generated documents against the reference model",
"C07": "metamorphic: insignificant rewrites of generated documents must read equal, model as oracle",
"C08": "metamorphic: permutations of generated documents must read equal, model as oracle",
"C09": "removed, emptied and repeated fields in generated documents against the reference model",
"C10": "generated values and lexical forms against independent lexical grammars",
"C11": "random, mutated and adversarial inputs and pull-API call sequences with crash and hang detection",
"C12": "fault injection: truncation at every byte and structural corruption, independent parser as oracle",
"C13": "generated documents around every limit boundary against a counting model",
"C14": "generated trees against the reference model of AnyElement",
"C15": "generated documents with known value spans; address-range oracle",
"C16": "generated enums, variants and near misses against the reference model",
"C17": "generated identifiers and renames against an independent implementation of the case rules",
"C18": "fault injection into the writer at every call and byte, repeated writes",
"C19": "stateful model-based testing of Serializer call sequences",
"C20": "stateful model-based testing of pull-API consumption strategies against the infoset",
"C21": "generated types and values; raw namespace declarations of the output against the documented scoping rules",
"C22": "generated hook placements and recorded hook calls against the reference model",
"C23": "differential: wrapped against plain types on generated values and documents",
"C25": "generated documents with exactly one fault; the reference model says which place the error must name",
"C26": "metamorphic: generated pieces repeated n and 4n times; counted memory, writes and time must stay in proportion",
"C24": "generated valid and invalid derive inputs; compiler diagnostics as oracle",
}
FAULT = {"C12", "C18"}
NOTE = {}
import re
NOT_BUILT = set(os.environ.get("NOT_BUILT", "").split())
m = {
 "version": 1,
 "setup_cmd": "python3 check.py setup",
 "checks": [
  {
   "property": k,
   "quick_cmd": f"python3 check.py {k} quick",
   "thorough_cmd": f"python3 check.py {k} thorough",
   "evidence_file": f"evidence/{k}.json",
   "technique": B + v,
   "level": "fault_enumeration" if k in FAULT else "exploration",
   "level_note": NOTE.get(k, "generated-input search with an explicit oracle; says nothing about inputs outside the generated space described in DESIGN.md"),
  }
  for k, v in CHECKS.items() if k not in NOT_BUILT
 ],
 "not_applicable": [{"property": k, "reason": "check under construction"} for k in sorted(NOT_BUILT)],
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
