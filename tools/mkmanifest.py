#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
note = ("Specification Hpl.tla explored by TLC; every transition of the bounded model and randomly generated long executions are compared with the "
        "real contracts, built from /repo's working tree: success, events, response and query answers. Trusts: the harness's model of the CosmWasm "
        "runtime (message dispatch, rollback, balances, cw20 token), TLC, collision-freeness of keccak256 and unforgeability of secp256k1 signatures. "
        "Bounded: see DESIGN.md.")
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=[dict(property=i, quick_cmd=f"python3 tools/check.py {i} quick", thorough_cmd=f"python3 tools/check.py {i} thorough",
                      technique="TLA+ specification (TLC) bound to the contracts by model-generated and recorded traces",
                      level="model_checking", level_note=note) for i in ids],
         not_applicable=[],
         notes="The specification is spec/Hpl.tla; DESIGN.md says how each property is decided.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
