#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MP, BU = "ssz-multiproofs/src/multiproof.rs", "ssz-multiproofs/src/builder.rs"
PBT = "property-based testing (proptest): generated-input search with shrinking against "
BASE_NOTE = ("Exploration by seeded random search over structured generators; no alarm means no counterexample among the generated cases. "
             "Trusts SHA-256, serde/bincode/postcard and the Rust toolchain; runs natively with the deployed arithmetic settings, not in the zkVM. ")

PROPS = []

def prop(id, title, statement, over, text, why, files, mechanism, pkg=None, oracle="", note="", na=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, pkg=pkg, oracle=oracle, note=note, na=na, state=state))

exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        if p["state"]:
            anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")

pkgs = sorted({p["pkg"] for p in PROPS if p["pkg"]})
manifest = {
    "version": 1,
    "setup_cmd": " && ".join("./run.sh " + p for p in pkgs),
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['pkg']} {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['pkg']} {p['id']}",
        "technique": PBT + p["oracle"],
        "level": "exploration",
        "level_note": BASE_NOTE + p["note"],
    } for p in PROPS if p["pkg"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if not p["pkg"]],
    "notes": "Written by tools/spec.py. No hooks in /repo: the checks compile /repo's sources by path through the crates in shadow/.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
