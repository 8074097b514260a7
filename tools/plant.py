#!/usr/bin/env python3
"""plant.py FILE: plants the bugs described in FILE (a Python file with a list
BUGS of dicts: id, property, edits [(file, old, new)], main, needs, breaks,
features, deps) as /verif/seeded/<id>, using the scratch copy /tmp/sr."""
import sys, os, json, subprocess
g={}
exec(open(sys.argv[1]).read(),g)
only=set(sys.argv[2:])
for b in g["BUGS"]:
    if only and b["id"] not in only: continue
    subprocess.run(["git","-C","/tmp/sr","checkout","-q","--","."],check=True)
    for f,old,new in b["edits"]:
        p="/tmp/sr/"+f
        s=open(p).read()
        if s.count(old)!=1: print(b["id"],"matches",s.count(old),old); sys.exit(1)
        open(p,"w").write(s.replace(old,new))
    d="/verif/seeded/"+b["id"]
    os.makedirs(d,exist_ok=True)
    if os.path.exists(d+"/demo.sh"): os.remove(d+"/demo.sh")
    env=dict(os.environ,FEATURES=b.get("features",""),DEPS=b.get("deps",""))
    subprocess.run(["/verif/tools/seed.sh","new",b["id"]],check=True,env=env)
    open(d+"/main.rs","w").write(b["main"].lstrip())
    json.dump({"property":b["property"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(d+"/meta.json","w"),indent=1)
    r=subprocess.run(["/verif/tools/seed.sh","verify",b["id"]],capture_output=True,text=True)
    print(r.stdout,r.stderr[-2000:],flush=True)
