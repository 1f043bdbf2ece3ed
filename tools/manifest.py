"""writes MANIFEST.json from tools/props.py and the tables below"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
HERE = props.HERE
TECH = "contract-based deductive verification: contracts on the real functions, obligations generated from clang's AST of /repo by LTV and discharged by z3/cvc5"
BTECH = "bounded stand-in for contract verification: the contract evaluated at run time on the real compiled code over generated inputs (labelled bounded, nothing counted as proved)"
NOTES = {}
exec(open(os.path.join(HERE, "tools", "levels.py")).read())
m = dict(version=1, setup_cmd="python3-vt tools/setup.py",
         checks=[dict(property=x["id"], quick_cmd="python3-vt check.py %s" % x["id"], thorough_cmd="python3-vt check.py %s --thorough" % x["id"],
                      technique=BTECH if x["id"] in BOUNDED else TECH, level="exploration" if x["id"] in BOUNDED else "proof", level_note=NOTES[x["id"]]) for x in props.P if x["id"] in NOTES],
         not_applicable=[dict(property=x["id"], reason=NA[x["id"]]) for x in props.P if x["id"] not in NOTES],
         notes="No hooks in /repo: obligations come from the unmodified source. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "n/a")
