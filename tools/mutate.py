#!/usr/bin/env python3
"""Mutation study: small mechanical changes of the code under test, one at a time, in scratch copies.
  mutate.py list FILE…                     prints the mutants of source files of /repo
  mutate.py run COPY CPUS OUT.jsonl ID…    COPY holds repo/ (a clone), sim/ (the harness, pointing at it), run/
Mutant ids are FILE:LINE:KIND[:N]; `run` reads them on the standard input when no ID is given."""
import sys, re, os, subprocess, json, time
REPO="/repo"
def strip_tests(lines):
    for i,l in enumerate(lines):
        if l.strip().startswith("#[cfg(test)]"): return i
    return len(lines)
def mutants(path):
    lines=open(os.path.join(REPO,path)).read().split("\n")
    end=strip_tests(lines)
    out=[]
    for i,l in enumerate(lines[:end]):
        s=l.strip()
        if not s or s.startswith(("//","#","use ","pub use","mod ","pub mod","impl","pub trait","trait ","where","extern")): continue
        if re.match(r"(pub(\(.*\))? )?(async )?(unsafe )?(const )?fn ",s): continue
        def put(kind,new):
            if new!=l: out.append((f"{path}:{i+1}:{kind}",new))
        m=re.match(r"^(\s*(?:\} else )?if )(?!let )(.*) \{$",l)
        if m and " let " not in m.group(2): put("notif",f"{m.group(1)}!({m.group(2)}) {{")
        for k,a,b in [("and"," && "," || "),("or"," || "," && "),("eq"," == "," != "),("ne"," != "," == "),
                      ("lt"," < "," <= "),("gt"," > "," >= "),("le"," <= "," < "),("ge"," >= "," > "),
                      ("some",".is_some()",".is_none()"),("none",".is_none()",".is_some()"),
                      ("inc"," + 1"," + 0"),("rev",".rev()",""),("any",".any(",".all("),("all",".all(",".any("),
                      ("first",".first()",".last()"),("vocab"," vocab: true"," vocab: false")]:
            for n,mm in enumerate(re.finditer(re.escape(a),l)):
                if k in("lt","gt") and re.search(r"<.*>|->|=>",l.replace(a,"")) and "if" not in l: continue
                put(k if n==0 else f"{k}:{n}",l[:mm.start()]+b+l[mm.end():])
        for n,mm in enumerate(re.finditer(r"\btrue\b",l)): put(f"true:{n}",l[:mm.start()]+"false"+l[mm.end():])
        for n,mm in enumerate(re.finditer(r"\bfalse\b",l)): put(f"false:{n}",l[:mm.start()]+"true"+l[mm.end():])
        for n,mm in enumerate(re.finditer(r"(?<!if )(?<![\w!=&(])!(?=[a-z(])",l)): put(f"not:{n}",l[:mm.start()]+l[mm.end():])
        if re.match(r"^\s*(?!let |use |type |const |static |pub |\}|\)|\]|\.|macro|return\b[^E]*$|break|continue)[a-zA-Z_*(].*;$",l) and not s.startswith(("return Ok","return Some","return None","return true","return false")):
            put("del",re.match(r"^\s*",l).group(0)+("{}" if s.startswith("return") else "();"))
        m=re.match(r"^(\s*)(return )?Some\((.*)\)(;?,?)$",l)
        if m: put("toNone",f"{m.group(1)}{m.group(2) or ''}None{m.group(4)}")
        if re.search(r"\bcontinue;",l): put("cont",l.replace("continue;","break;"))
        if re.search(r"\bbreak;",l): put("brk",l.replace("break;","continue;"))
        m=re.match(r"^(\s*)(Self::|\w+::)?([A-Z]\w*)(\(.*\))? (if .*)=> (.*)$",l)
        if m and " if " in l: put("guard",re.sub(r" if (.*?) =>"," if !(\\1) =>",l,count=1))
        m=re.match(r"^(.*\.)(unwrap_or|or)\((.*)$",l)
    return out
def get(mid):
    path=mid.split(":")[0]
    for a,b in mutants(path):
        if a==mid: return path,int(mid.split(":")[1])-1,b
    return None
LADDER="C03 C24 C14 C16 C23 C07 C22 C05 C18 C17 C15 C20 C21 C19 C06 C04 C13 C08 C01 C02".split()
FILES={"loader/reqwest":"C09 C10","loader/fs":"C11 C12","loader/chain":"C13","loader/map":"C13","loader/none":"C13","compaction/":"C24 C17","flattening":"C14 C15 C16","rdf":"C16 C15","context/inverse":"C24 C17","mapped_eq":"C18","syntax/":"C23 C03 C07"}
def ladder(path):
    first=[]
    for k,v in FILES.items():
        if k in path: first+=v.split()
    l=[]
    for c in first+LADDER+"C09 C10 C11 C12".split():
        if c not in l: l.append(c)
    if "loader/reqwest" in path or "loader/fs" in path: l=first
    return l
def run(copy,cpus,outp,ids):
    repo=f"{copy}/repo"
    env=dict(os.environ,CARGO_TARGET_DIR=f"{copy}/target",CARGO_NET_OFFLINE="true",VERIF_SECS="5",VERIF_MIN_SECS="0",VERIF_SEED="1")
    done=set()
    if os.path.exists(outp): done={json.loads(l)["id"] for l in open(outp)}
    for mid in ids:
        if mid in done: continue
        g=get(mid)
        if g is None: continue
        path,i,new=g
        subprocess.run(["git","-C",repo,"checkout","-q","--","."],check=True)
        f=f"{repo}/{path}"; lines=open(f).read().split("\n"); old=lines[i]; lines[i]=new; open(f,"w").write("\n".join(lines))
        t=time.time()
        b=subprocess.run(["taskset","-c",cpus,"cargo","build","--offline"],cwd=f"{copy}/sim",env=env,capture_output=True,text=True)
        r=dict(id=mid,old=old.strip(),new=new.strip(),build=round(time.time()-t))
        if b.returncode: r["result"]="no build"
        else:
            r["result"]="survived"
            for c in ladder(path):
                try: o=subprocess.run(["taskset","-c",cpus,f"{copy}/target/debug/sim","check",c,"quick"],cwd=f"{copy}/run",env=env,capture_output=True,text=True,timeout=200)
                except subprocess.TimeoutExpired: r["result"]="timeout "+c; break
                if o.returncode: r["result"]="killed "+c; break
            r["secs"]=round(time.time()-t)
        open(outp,"a").write(json.dumps(r)+"\n")
        subprocess.run(f"rm -rf {copy}/run/replays/*",shell=True)
    subprocess.run(["git","-C",repo,"checkout","-q","--","."],check=True)
if sys.argv[1]=="list":
    for p in sys.argv[2:]:
        for a,b in mutants(p): print(a,"\t",b.strip())
else: run(sys.argv[2],sys.argv[3],sys.argv[4],sys.argv[5:] or [l.strip() for l in sys.stdin if l.strip()])
