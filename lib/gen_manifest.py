"""Writes MANIFEST.json and properties.jsonl from lib/props.py."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = ["17e1e07"]
full = [subprocess.check_output(["git", "-C", "/repo", "rev-parse", h], text=True).strip() for h in HOOKS]
m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
     "hooks": {"guard": "NATRIUM_VERIF", "enable": "-DNATRIUM_VERIF", "source_commits": full},
     "checks": [], "not_applicable": getattr(props, "NOT_APPLICABLE", [])}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, c in sorted(props.CHECKS.items()):
        p = json.loads(json.dumps(c["prop"]))
        if not p["anchors"]["state"]:
            del p["anchors"]["state"]
        assert len(p["title"]) <= 80, pid
        for x in p["anchors"]["files"]:
            assert os.path.exists(os.path.join("/repo", x)), (pid, x)
        f.write(json.dumps(p) + "\n")
        m["checks"].append({"property": pid, "quick_cmd": "python3 lib/check.py %s quick" % pid,
                            "thorough_cmd": "python3 lib/check.py %s thorough" % pid,
                            "evidence_file": "evidence/%s.json" % pid,
                            "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    for p in getattr(props, "NA_PROPS", []):
        f.write(json.dumps(p) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
