#!/usr/bin/env python3
"""newseed.py SPEC.py: SPEC defines seeds = [dict(id,prop,file,subs=[(old,new)..] or edits={file:[(old,new)]},main,needs,breaks)].
Creates the patches in a scratch worktree of /repo and writes /verif/seeded/<id>."""
import sys,subprocess,os,json,shutil
ns={}
exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:]
for s in ns["seeds"]:
    if only and s["id"] not in only: continue
    wt="/tmp/seedwt"
    subprocess.run(["git","-C",os.environ.get("REPO","/repo"),"worktree","remove","--force",wt],capture_output=True)
    subprocess.run(["git","-C",os.environ.get("REPO","/repo"),"worktree","add","--detach",wt,"HEAD"],check=True,capture_output=True)
    for f,subs in s["edits"].items():
        p=os.path.join(wt,f); t=open(p).read()
        for o,n in subs:
            assert t.count(o)==1,(s["id"],f,t.count(o),o)
            t=t.replace(o,n)
        open(p,"w").write(t)
    d=subprocess.run(["git","-C",wt,"diff"],check=True,capture_output=True,text=True).stdout
    subprocess.run(["git","-C",os.environ.get("REPO","/repo"),"worktree","remove","--force",wt],capture_output=True)
    D="/verif/seeded/"+s["id"]; os.makedirs(D,exist_ok=True)
    for f in ("demo.sh","kit.go"): shutil.copy("/verif/tools/demokit/"+f,D)
    os.chmod(D+"/demo.sh",0o755)
    open(D+"/patch.diff","w").write(d)
    open(D+"/main.go","w").write(s["main"].lstrip())
    json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(D+"/meta.json","w"),indent=1)
    print(s["id"],len(d.splitlines()),"lines")
