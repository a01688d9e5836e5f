"""record the names of the functions of the analysed tree: helpers not in the list are inlined by the checks"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.project import Project
P = Project("/repo")
out = {}
for f in P.all_funcs:
    out.setdefault(f.module.rel, set()).add(f.qual[len(f.module.name) + 1:])
json.dump({k: sorted(v) for k, v in sorted(out.items())}, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa", "baseline.json"), "w"), indent=0)
