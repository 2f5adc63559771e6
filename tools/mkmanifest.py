import json, sys
sys.path.insert(0, '/verif')
import checks
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = getattr(checks, "NOT_APPLICABLE", {})
out = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out["checks"].append(dict(property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique=c.get("technique", "runtime monitoring: reference-model oracle over generated workloads under ASan+UBSan"),
            level=c.get("level", "exploration"),
            level_note=c.get("note", "Oracle judges every generated execution of the real code; inputs are sampled (seeded), not exhaustive.")))
    else:
        out["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check registered yet; machinery under construction")))
json.dump(out, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(out["checks"]), "checks", len(out["not_applicable"]), "n/a")
