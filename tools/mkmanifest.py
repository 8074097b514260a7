#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of the checks (`sim list`)."""
import json, os, subprocess
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
ids=subprocess.check_output([root+"/target/debug/sim","list"],text=True).split()
NA={"C30":"Parsing and printing a context are pure functions of one value: no schedule, time, I/O, fault or second party is involved.",
"C32":"Comparing and hashing language tags is a pure function of two strings."}
PENDING="The check of this property is still under construction."
TECH={
"C01":"deterministic simulation: seeded interleavings of concurrent operations, compared with each alone",
"C02":"deterministic simulation: cancellation at seeded wait points, later and concurrent operations compared with an undisturbed run",
"C04":"deterministic simulation with network fault injection, history check and retry after the faults stop",
"C09":"deterministic simulation of an HTTP server behind the client's middleware seam, reference model of the negotiation",
"C10":"deterministic simulation of an HTTP server with fault injection in exchanges and bodies",
"C11":"deterministic simulation of a disk at the system call seam with fault injection, reference model of the loader",
"C12":"deterministic simulation of a disk recording every opened path, reference model of the mapping",
"C14":"deterministic simulation of flattening over simulated webs and schedules, results compared with a reference model up to blank node renaming",
"C15":"deterministic simulation of operations sharing a node generator, labels checked for freshness and consistency against a reference model",
"C16":"deterministic simulation of the conversion to RDF over simulated webs and schedules, datasets compared with a reference model up to blank node renaming",
"C17":"deterministic simulation: compaction then expansion over simulated webs and schedules, round trip compared with the original",
"C18":"deterministic simulation of comparisons of related documents over simulated webs and schedules, against a reference model",
"C24":"deterministic simulation of compaction over simulated webs and schedules, form compared with a reference model",
"C26":"deterministic simulation of histories of operations on documents by clients sharing a generator, each step checked against a reference",
"C27":"deterministic simulation: quads delivered in random orders with duplicates, result compared with the dataset by a reference model",
"C28":"deterministic simulation of visits of documents of simulated webs by clients sharing a generator, statements compared with a reference model",
"C13":"deterministic simulation of chained simulated hosts with fault injection, reference model of the chain",
}
checks=[]; na=[]
for l in open(root+"/properties.jsonl"):
    p=json.loads(l); i=p["id"]
    if i in ids:
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
          technique=TECH.get(i,"deterministic simulation: seeded search over webs, schedules and faults against an executable reference model"),
          level="exploration",level_note="Seeded sampling of schedules, faults, webs and inputs; evidence, not proof. DESIGN.md says what is real, what is stubbed, and the oracle."))
    else:
        na.append(dict(property=i,reason=NA.get(i,PENDING)))
m=dict(version=1,setup_cmd="./check.sh setup",
 hooks=dict(guard="none",enable="no hook was needed: the loader trait, the HTTP client's middleware, the vocabulary and generator traits and the C library's symbols are the seams",source_commits=[]),
 checks=checks,not_applicable=na,
 notes="Every check rebuilds the harness (/verif/sim) against /repo's working tree, then searches with 8 worker processes. ./check.sh replay FILE replays a violation.")
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1)
