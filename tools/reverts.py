#!/usr/bin/env python3
"""Takes back each fix: commit alone (in a scratch copy) and runs the check of its property: reverts.py SLOT [COMMIT...]
Prints whether the check reports it; with KEEP=1 the minimised scenario goes to regress/."""
import sys,os,json,shutil,re,time
sys.argv,args=[sys.argv[0],sys.argv[1]],sys.argv[2:]
import mutate as M
M.setup()
fixed=[re.match(r"fixed: property=(\S+) (\S+) (.*)",x).groups() for x in json.load(open(M.ver+"/known-findings.json"))["fixed"]]
for prop,commit,what in fixed:
    if args and commit not in args: continue
    M.sh("git checkout -q -f -- . && git clean -fdq src && git reset -q --hard",M.repo)
    c,o=M.sh(f"git revert -n {commit}",M.repo)
    if c: M.sh("git revert --abort; git reset -q --hard",M.repo); print("REVERT",prop,commit,"conflict",flush=True); continue
    M.sh("git reset -q",M.repo)
    if prop in ("C21","C22","C23","C24","C25"): continue
    t0=time.time(); c,o=M.check(prop,int(os.environ.get("SECS","45")),jobs=int(os.environ.get("JOBS","4")))
    r=re.findall(r"VIOLATION property=\S+ replay=(\S+)",o)
    print("REVERT",prop,commit,{0:"MISSED",1:"caught"}.get(c,f"ERROR {c} {o[-200:]}"),f"{time.time()-t0:.0f}s",what[:60],flush=True)
    if r and os.environ.get("KEEP"):
        f=r[-1] if r[-1].startswith("/") else M.ver+"/"+r[-1]
        v=json.load(open(f)); d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+"/regress"; os.makedirs(d,exist_ok=True)
        s=json.dumps(v)
        if len(s)<60000: open(f"{d}/{prop}-{commit}.json","w").write(s)
M.sh("git reset -q --hard",M.repo)
