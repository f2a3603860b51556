"""Builds the instrumented library and all harnesses once, so that checks only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, props

need = {}
for c in props.CHECKS.values():
    for r in c["runs"]:
        need.setdefault(r.get("variant", "san"), set()).add(r["harness"])
for v, names in sorted(need.items()):
    vbuild.build_harnesses(v, sorted(names))
print("ready")
