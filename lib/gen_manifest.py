"""Writes MANIFEST.json (run by hand when a check is added)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {}
NOTE = {}
try:
    from manifest_notes import TECH, NOTE, NA, HOOKS
except ImportError:
    NA = {}
DT = "TLA+ specification (TLC): trace validation of real collectors against spec/Heap.tla"
DN = ("Every recorded execution of the real collectors (sampled histories, fixed by VERIF_SEED) is checked by TLC "
      "to be a behaviour of the heap specification. Assumes the driver reports faithfully what it reads back; "
      "decides the executions it runs, not all.")
C = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    assert i in checks.CHECKS, i
    C.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough",
                  evidence_file=f"evidence/{i}.json", technique=TECH.get(i, DT), level="model_checking",
                  level_note=NOTE.get(i, DN)))
m = dict(version=1, setup_cmd="python3 lib/setup.py", checks=C,
         hooks=HOOKS, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="The collectors are observed through their own embedder API, event listeners and unit harnesses "
               "that include /repo's sources. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(C), "checks")
