#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claims below and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIT = "bit-exact abstract interpretation of the crate's MIR (boolean-function domain joined at merge points)"
FLOW = "abstract interpretation of the crate's MIR (symbolic collections, joined states, loop widening) with a crate-wide query for writers of the state"
NOTE = ("Sound and exhaustive for the stated clauses over all inputs, given the MIR semantics coded in sa/ and rustc's MIR; "
        "no sampling, no execution, no path enumeration. ")
CLAIMS = {
 "C21": (BIT, NOTE), "C22": (BIT, NOTE), "C24": (BIT, NOTE), "C25": (BIT, NOTE), "C26": (BIT, NOTE),
 "C27": (BIT, NOTE), "C28": (BIT, NOTE), "C29": (BIT, NOTE),
 "C02": (FLOW, NOTE), "C03": (FLOW, NOTE), "C04": (FLOW, NOTE), "C10": (FLOW, NOTE), "C11": (FLOW, NOTE), "C12": (FLOW, NOTE),
 "C31": (FLOW, NOTE), "C32": (FLOW, NOTE), "C33": (FLOW, NOTE), "C37": (FLOW, NOTE),
 "C13": (FLOW, NOTE), "C14": (FLOW, NOTE), "C15": (FLOW, NOTE), "C34": (FLOW, NOTE), "C35": (FLOW, NOTE),
}
for _p in "C05 C06 C07 C08 C09 C16 C17 C30 C36".split():
    CLAIMS[_p] = (FLOW, NOTE)
CLAIMS["C01"] = ("panic-freedom obligations over the abstract executions of the crate's MIR, and call-graph coverage of every function reachable from the public interface", NOTE)
TYPES = "type-system queries (trait solver, types reachable from a type, signatures) and call-graph effect analysis over the crate's MIR"
CLAIMS["C20"] = CLAIMS["C19"] = CLAIMS["C38"] = (TYPES, NOTE)
CLAIMS["C18"] = ("abstract interpretation of the constructor and ownership queries over the crate's MIR (writers, makers and movers of the pinned builder)", NOTE)
CLAIMS["C23"] = (BIT, NOTE + "find_nth: every set for positions 0 to 15; for later positions n (n % 64 < 56) only the sets that hold every element below 8*(n/8); and every position in the sets near four full-or-empty patterns; the remaining positions and sets are not decided.")
NA = {
 "C90": "scanning is a stub in this commit: no matching engine exists to analyse, and match sets are runtime quantities no static argument in reach bounds",
 "C91": "time and memory are runtime quantities; no sound static bound on them is in reach of this family",
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in CLAIMS:
        t, n = CLAIMS[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check.py {p}", "thorough_cmd": f"./check.py {p}",
                            "evidence_file": f"evidence/{p}.json", "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check built yet")})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
