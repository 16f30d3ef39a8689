#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claimed checks and the rest under not_applicable."""
import json, os, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
BFS="explicit-state model checking of the implementation: exhaustive breadth-first exploration of bounded operation histories executed on the real code against a reference model"
ASM=" Assumes the in-memory file system behaves like the real one (histories are replayed on both) and small scope."
C={}
def c(i,tech,level,note): C[i]=(tech,level,note)
c("C01",BFS,"model_checking","Every history in the bound is executed on the real code, every version extracted and compared with a small reference model."+ASM)
c("C02",BFS,"model_checking","Every history in the bound; every file and inventory entry of every committed version is compared before/after each operation."+ASM)
c("C03",BFS,"model_checking","Every history in the bound; each resulting object is read by an independent strict OCFL validator written from the specification."+ASM)
c("C07",BFS,"model_checking","Every history in the bound; stored content files and state names are compared with the update's source."+ASM)
c("C08",BFS,"model_checking","Every history in the bound; the set of logical paths is compared with the reference model of echo/contribute."+ASM)
c("C10",BFS,"model_checking","Every history in the bound; updates that are no-ops in the reference model must leave a byte-identical storage root."+ASM)
exec(open(V+"/tools/claims.py").read()) if os.path.exists(V+"/tools/claims.py") else None
NA={}
checks=[]; na=[]
for i in ids:
    if i in C:
        t,l,n=C[i]
        checks.append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":t,"level":l,"level_note":n})
    else:
        na.append({"property":i,"reason":NA.get(i,"check not built yet")})
m={"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: the harness is compiled into the module through a build overlay and drives exported API only. fix: commits in /repo are listed in KNOWN_FINDINGS.txt."}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"claimed",len(na),"not claimed")
