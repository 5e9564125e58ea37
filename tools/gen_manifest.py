#!/usr/bin/env python3
"""Write MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUN = "TLA+ definition evaluated by TLC over recorded calls (trace validation)"
SAMPLE = ("Every recorded call of the real code is compared by TLC with an independent TLA+ definition of the algorithm. Inputs are sampled "
          "from boundary classes, so an error that shows on no sampled input is missed. Trusts the Java twins of word operations, which "
          "tools/agree.py compares with their TLA+ definitions.")
CHECKS = {"C%d" % i: ("exploration", FUN, SAMPLE) for i in range(10, 22)}
MODEL = "TLA+ specification of the manager, model checked by TLC; recorded executions of the real code validated against it by TLC"
MODELNOTE = ("The specification is model checked within the bounds in the evidence file. The code is bound to it by validating recorded executions "
             "(walks covering the specification's state graph, steered interleavings, injected faults, kills, damaged files), so an error that "
             "shows in none of them is missed. Data of an epoch is compared through scaled-down chains.")
CHECKS.update({"C%02d" % i: ("model_checking", MODEL, MODELNOTE) for i in range(1, 10)})
CHECKS["C22"] = ("exploration", "TLA+ specification of client use; recorded call sequences validated by TLC",
                 "Arguments and their order are sampled, so an error that shows on no sampled sequence is missed.")
CHECKS["C23"] = ("exploration", "TLA+ specification of the primitives as functions and stateful objects; recorded uses validated by TLC", SAMPLE)
CHECKS["C24"] = ("exploration", FUN, "Every table the generator writes for the sampled parameters, and the committed ones, is compared by TLC entry by entry with the size formula.")
CHECKS["C18"] = ("model_checking", "TLA+ model of the verifier's walk, checked by TLC over every graph of few edges; recorded verdicts of the real verifiers on all those graphs validated by TLC",
                 "The walk is model checked, and the real verifiers are run, on every bipartite multigraph up to the number of edges in the evidence file; larger graphs and real headers are sampled.")
CHECKS["C25"] = ("exploration", FUN, SAMPLE)
NOT_APPLICABLE = {}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    doc = {"version": 1, "setup_cmd": "python3 tools/setup.py",
           "checks": [{"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                       "technique": CHECKS[p][1], "level": CHECKS[p][0], "level_note": CHECKS[p][2]} for p in props if p in CHECKS],
           "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "check under construction")} for p in props if p not in CHECKS]}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
