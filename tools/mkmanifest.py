"""Writes MANIFEST.json from the list of checks below and from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASAN = "AddressSanitizer/UBSan build and release build of the real core; "
CHECKS = {}


def C(pid, technique, note, level="exploration"):
    CHECKS[pid] = (technique, note, level)


exec(open(os.path.join(V, "tools", "checks.def")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
exec(open(os.path.join(V, "tools", "na.def")).read()) if os.path.exists(os.path.join(V, "tools", "na.def")) else None
m = {"version": 1,
     "setup_cmd": "python3 lib/build.py rel asan tsan",
     "hooks": {"guard": "SYS_MALLOC", "enable": "no hook was added to the sources; the asan and tsan builds use the tree's own -DSYS_MALLOC so that every object is its own malloc block, and the linker's --wrap puts the allocation monitor at the allocator's interface", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS and os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        t, n, l = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 checks/%s.py" % i.lower(),
                            "thorough_cmd": "python3 checks/%s.py --thorough" % i.lower(),
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check is registered for this property yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
