"""
Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table.
Every property has one script checks/<id>.py (lower case).
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = "neural_network_lyapunov/"
PY = "/opt/venv/bin/python"
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, note,
      state=(), observe=(), technique=None, level="model_checking"):
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over, quant=quant,
        why=why, files=[N + f for f in files],
        mech=[{"name": a, "where": N + b} for a, b in mech], note=note,
        state=[{"name": a, "meaning": b, "where": N + c}
               for a, b, c in state],
        observe=list(observe), technique=technique, level=level))


exec(open(os.path.join(HERE, "tools", "props.py")).read())


def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            rec = {
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mech"]},
            }
            for k in p["files"]:
                assert os.path.exists(os.path.join("/repo", k)), k
            if p["state"]:
                rec["anchors"]["state"] = p["state"]
            if p["observe"]:
                rec["anchors"]["observe_at"] = p["observe"]
            f.write(json.dumps(rec) + "\n")
    checks = []
    for p in PROPS:
        s = f"checks/{p['id'].lower()}.py"
        assert os.path.exists(os.path.join(HERE, s)), s
        checks.append({
            "property": p["id"],
            "quick_cmd": f"{PY} {s} --tier quick",
            "thorough_cmd": f"{PY} {s} --tier thorough",
            "technique": p["technique"] or
            "explicit-state model checking: exhaustive enumeration of a "
            "bounded state space against a rational reference model, replayed "
            "on the implementation",
            "level": p["level"],
            "level_note": p["note"],
        })
    man = {
        "version": 1,
        "setup_cmd": f"{PY} tools/setup_check.py",
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,  # noqa: F821
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(ids), "properties")


main()
