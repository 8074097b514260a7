#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.json. `fixed` entries are records; they suppress nothing."""
import json, os, subprocess
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
PROP={ # subject keyword -> property
}
fixed=[]
for l in open(root+"/tools/fixed.tsv"):
    if not l.strip(): continue
    prop,commit,text=l.rstrip("\n").split("\t")
    fixed.append(f"fixed: property={prop} {commit} {text}")
findings=json.load(open(root+"/tools/findings.json")) if os.path.exists(root+"/tools/findings.json") else []
json.dump(dict(findings=findings,fixed=fixed),open(root+"/KNOWN_FINDINGS.json","w"),indent=1,ensure_ascii=False)
