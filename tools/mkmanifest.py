#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = ("TLC checks the property exhaustively on the bounded model(s) of the specification; the code is bound to it by "
        "conformance: every transition of the models and seeded random executions are run on the real code and the recordings "
        "are validated by TLC against the same operators. Assurance about the code extends to the executions explored. "
        "Trusted: TLC, the decimal arithmetic of spec/java/lfa/Num.java, the harness's recording; reals agree up to 1e-9 relative.")
json.dump({
    "version": 1,
    "setup_cmd": "bin/setup",
    "checks": [dict(property=p["id"], quick_cmd="bin/check %s quick" % p["id"], thorough_cmd="bin/check %s thorough" % p["id"],
                    technique="TLA+ specification, TLC model checking, replay of model transitions and TLC trace validation",
                    level="model_checking", level_note=NOTE) for p in props],
    "not_applicable": [],
    "notes": "No hooks: the public API exposes the abstract state. known_findings.json lists findings and repairs."
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
