"""The properties, and how each is decided.  props/*.py hold one list PROPS each; generate() writes
properties.jsonl and MANIFEST.json from them, so that the three stay in step."""
import glob, importlib.util, json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

BUILDS, CHECKS, ORDER, NOT_APPLICABLE = {}, {}, [], []
for _p in sorted(glob.glob(os.path.join(HERE, "props", "*.py"))):
    _s = importlib.util.spec_from_file_location("props_" + os.path.basename(_p)[:-3], _p)
    _m = importlib.util.module_from_spec(_s)
    _s.loader.exec_module(_m)
    BUILDS.update(getattr(_m, "BUILDS", {}))
    for _q in getattr(_m, "PROPS", []):
        assert _q["id"] not in CHECKS, _q["id"]
        CHECKS[_q["id"]] = _q
        ORDER.append(_q["id"])
    NOT_APPLICABLE += getattr(_m, "NOT_APPLICABLE", [])


def coverage(reg, stats, samples):
    """The evidence's coverage: every number is a counter of this run's harnesses."""
    cov = {}
    for name, stat in reg["counts"].items():
        cov[name] = stats.get(stat, 0)
    if "rule" in reg:
        cov["rule"] = reg["rule"]
    # Counters that stand for something else than those above.
    cov["counters"] = {k: v for k, v in sorted(stats.items()) if k not in reg["counts"].values()}
    cov["samples"] = samples[:8]
    cov["exhaustive"] = reg.get("exhaustive", True)
    return cov


def generate():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for i in ORDER + NOT_APPLICABLE:
            q = CHECKS[i] if isinstance(i, str) else i
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["forall"]},
                "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mechanism"]]},
            }, ensure_ascii=True) + "\n")
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
           "notes": "No hooks: harnesses link clink's sources from /repo unchanged, with the Win32 calls they need to control interposed at link time."}
    for i in ORDER:
        q = CHECKS[i]
        man["checks"].append({"property": i, "quick_cmd": f"python3 tools/check.py {i} --tier quick",
                              "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
                              "evidence_file": f"evidence/{i}.json",
                              "technique": q["technique"], "level": q["level"], "level_note": q["level_note"]})
    for q in NOT_APPLICABLE:
        man["not_applicable"].append({"property": q["id"], "reason": q["reason"]})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    import jsonschema  # generate with python3-vt
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
        assert json.loads(l)["statement"].count(". ") <= 2, l


if __name__ == "__main__":
    generate()
