"""The table of properties: writes properties.jsonl and MANIFEST.json.

python3 meta.py        (run by hand after editing; both outputs are committed)
"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = ("contracts on the real functions, verification conditions generated from /repo's source on every run (dv/) "
        "and discharged by z3/cvc5 for all inputs; refutations replayed on the real code by bounded runtime contracts")
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mech, note, level="proof", tech=TECH, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    PROPS.append((d, note, level, tech))




def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, *_ in PROPS:
            f.write(json.dumps(d) + "\n")
    checks = []
    for d, note, level, tech in PROPS:
        if d["id"] in dict(NOT_APPLICABLE):
            continue
        assert os.path.exists(os.path.join(HERE, "props", d["id"].lower() + ".py")), d["id"]
        checks.append(dict(property=d["id"], quick_cmd=f"python3 /verif/check.py {d['id']} --tier quick",
                           thorough_cmd=f"python3 /verif/check.py {d['id']} --tier thorough",
                           evidence_file=f"evidence/{d['id']}.json", technique=tech, level=level, level_note=note))
    m = dict(version=1, setup_cmd="python3 /verif/setup_check.py", checks=checks,
             not_applicable=[dict(property=p, reason=r) for p, r in NOT_APPLICABLE],
             notes="No hooks are needed in /repo: contracts live in /verif/props and are attached to the live function objects of /repo. "
                   "'fix:' commits in /repo are recorded in known-findings.txt.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for d, *_ in PROPS:
            jsonschema.validate(d, s)
    except ImportError:
        print("jsonschema missing, not validated")
    print(len(PROPS), "properties,", len(checks), "checks")


