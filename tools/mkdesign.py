#!/usr/bin/env python3
"""Assembles DESIGN.md from design/*.md, tools/fixed.tsv, KNOWN_FINDINGS.json and seeded/*/meta.json."""
import json,os,glob,subprocess
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
r=lambda p: open(os.path.join(root,p)).read()
out=r("design/intro.md")
out+="\n## Properties\n\n"+r("design/properties.md")
out+="\n"+r("design/judgement.md")
out+="\n## Defects found\n\nEach was shown against the real code by a minimised replay, then repaired in /repo by one `fix:` commit (the stable tests pass with all of them).\n\n| property | commit | what failed |\n|---|---|---|\n"
for l in r("tools/fixed.tsv").splitlines():
    a,b,c=l.split("\t"); out+=f"| {a} | {b} | {c} |\n"
out+="\nKnown findings, not repaired:\n\n"
for f in json.loads(r("KNOWN_FINDINGS.json"))["findings"]: out+=f"* **{f['property']}** {f['class']}: {f['text']}. Changing the equality of a public value type is not a small repair.\n"
out+="\n## Planted bugs\n\nAll compile, pass the 49 stable tests and only change original lines; each was caught by the quick check named (of its own property), the exceptions being noted in the last column.\n\n| id | check | what it breaks | needs |\n|---|---|---|---|\n"
notes=json.loads(r("design/seed_notes.json"))
for d in sorted(glob.glob(root+"/seeded/*")):
    m=json.load(open(d+"/meta.json")); n=os.path.basename(d)
    q=lambda s:s.replace("|","\\|").replace("\n"," ")
    out+=f"| {n} | {m['property']} | {q(m['what_it_breaks'])} | {q(m['needs'])}{(' — '+notes[n]) if n in notes else ''} |\n"
out+="\n"+r("design/limits.md")
open(os.path.join(root,"DESIGN.md"),"w").write(out)
