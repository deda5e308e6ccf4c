#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below: python3 meta.py"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "path-sensitive abstract interpretation (value flow) over the compiler's MIR"
NOTE = ("Covers every path of the analysed functions for unknown operands/inputs within the stated bounds; trusts rustc's MIR, the models of "
        "standard-library calls in lib/models.py, and the specification tables written from docs/. Nothing is executed and no solver is used.")

PROPS = []
NA = []


def prop(id, title, statement, over, quant, tests, files, mech, note=None, technique=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, note=note,
                      technique=technique or TECH, observe=observe))


def na(id, title, statement, over, quant, tests, files, mech, reason):
    NA.append((id, reason))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, observe=None))


INS = ["src/instruction.rs", "waterbear-instruction-derive/src/lib.rs"]
exec(open(os.path.join(HERE, "meta_props.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                     why_tests_cant=p["tests"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None))
            if p.get("observe"):
                d["anchors"]["observe_at"] = p["observe"]
            f.write(json.dumps(d) + "\n")
    nas = {i for i, _ in NA}
    m = dict(version=1, setup_cmd="./check --setup",
             checks=[dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                          technique=p["technique"], level="other", level_note=(p["note"] + " " if p.get("note") else "") + NOTE)
                     for p in PROPS if p["id"] not in nas],
             not_applicable=[dict(property=i, reason=r) for i, r in NA],
             notes="Static analysis only: ./check <id> dumps the MIR of /repo's current tree (driver/), abstractly interprets the anchored functions "
                   "(lib/engine.py) and compares every path with the specification; see DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
