#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
 "C01": ("Trie.tla", "abstract map key -> value; exhaustive model, every short and thousands of random call histories of the real containers validated against it"),
 "C02": ("Trie.tla", "navigation, lookup and search results as functions of the abstract key set, validated on recorded probes"),
 "C03": ("Trie.tla, Atom.tla", "round trips as identity steps of the abstract state, continued with further operations"),
 "C04": ("Atom.tla", "abstract string/identifier correspondence, histories of the real atom set validated against it"),
}
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
NA = "not claimed yet: the specification and conformance check for this component are still being built"
checks, na = [], []
for p in props:
    if p in TECH:
        mod, note = TECH[p]
        checks.append(dict(property=p, quick_cmd=f"bin/check {p}", thorough_cmd=f"bin/check {p} --thorough",
            technique=f"TLA+ specification ({mod}) model-checked with TLC and trace validation of the real code against it",
            level="model_checking",
            level_note=note + ". The specification is exhaustive within small constants; the code is bound by validating every recorded execution, so assurance about the code extends to the executions generated (systematic small cases plus seeded random ones). Trusts TLC, the recording harness and g++."))
    else: na.append(dict(property=p, reason=NA))
m = dict(version=1, setup_cmd="bash bin/setup.sh", hooks=dict(guard="WORDRING_VERIF_HOOKS (unused: no hooks were needed, every check goes through the public interface)", enable="nothing to enable", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Every check compiles its harness and the library sources it needs from /repo's working tree (object cache in /verif/_build keyed by the hash of the preprocessed source).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
