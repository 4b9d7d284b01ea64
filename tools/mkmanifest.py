#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks below."""
import json, os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LANES="four lanes: SQLite, SQLite behind both adapters, PostgreSQL 16 (scratch server), Turso"
C={}
def c(id,technique,note,level="exploration"): C[id]=(technique,note,level)
c("C01","runtime monitor: result sets of random and templated filters compared online with a three-valued in-memory evaluator",
  f"Seeded random exploration on {LANES}. Trusts the evaluator in harness/src/oracle.rs, and that LIKE is ASCII-case-insensitive on SQLite/Turso.")
exec(open(os.path.join(ROOT,"tools/claims.py")).read()) if os.path.exists(os.path.join(ROOT,"tools/claims.py")) else None
props=[json.loads(l)["id"] for l in open(os.path.join(ROOT,"properties.jsonl"))]
m={"version":1,"setup_cmd":"python3 tools/check.py build","checks":[],"not_applicable":[],
   "hooks":{"guard":"rtm_hooks","enable":"RUSTFLAGS='--cfg rtm_hooks' (the sanitizer builds of san/ in tools/check.py)","source_commits":["2be4785"]},
   "notes":"One check per property: tools/check.py rebuilds harness/ against /repo's working tree and runs harness/src/bin/<id>.rs. Known findings are in known_findings.txt, the design in DESIGN.md."}
for p in props:
    if p in C:
        t,n,l=C[p]
        m["checks"].append({"property":p,"quick_cmd":f"python3 tools/check.py {p}","thorough_cmd":f"VERIF_TIER=thorough python3 tools/check.py {p}",
          "evidence_file":f"evidence/{p}.json","technique":t,"level":l,"level_note":n})
    else: m["not_applicable"].append({"property":p,"reason":"no check built yet; see DESIGN.md"})
json.dump(m,open(os.path.join(ROOT,"MANIFEST.json"),"w"),indent=1); print(len(m["checks"]),"claimed")
