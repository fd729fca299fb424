#!/usr/bin/env python3
"""Applies planted bugs to scratch copies, checks that they compile and pass the tests, and runs this
framework's checks against them.   mutate.py SLOT ID... | mutate.py SLOT all   (see RESULT lines)"""
import sys,os,subprocess,json,shutil,time
sys.path.insert(0,os.path.dirname(__file__))
from mutants import MUTANTS
slot=sys.argv[1]; want=sys.argv[2:]
base=f"/tmp/mut/{slot}"; repo=base+"/repo"; ver=base+"/verif"
env=dict(os.environ,RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",CARGO_NET_OFFLINE="true",CARGO_INCREMENTAL="1",CARGO_PROFILE_DEV_DEBUG="line-tables-only",RUSTC_WRAPPER="",CARGO_TERM_COLOR="never")
def sh(c,cwd=None,t=900,e=env):
    p=subprocess.run(c,shell=True,cwd=cwd,env=e,capture_output=True,text=True,timeout=t); return p.returncode,p.stdout+p.stderr
def setup():
    if not os.path.exists(repo):
        os.makedirs(base,exist_ok=True)
        print(sh(f"cp -a /repo {repo}")[1])
    sh(f"git checkout -q -f -- . && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD",repo)
    os.makedirs(ver,exist_ok=True)
    sh(f"rsync -a --delete --exclude target --exclude target-vello --exclude target-apps --exclude gen --exclude .git --exclude seeded --exclude out --exclude 'sim/t-*' /verif/ {ver}/")
    sh(f"sed -i 's|path = \"/repo|path = \"{repo}|' {ver}/sim/subject/Cargo.toml; grep -rl '\"/repo' {ver}/sim --include=*.rs --include=*.toml --include=*.sh | xargs -r sed -i 's|\"/repo|\"{repo}|g'")
def apply(m):
    for f,o,n in m[2]:
        p=f"{repo}/{f}"; s=open(p).read()
        if s.count(o)!=1: return f"{s.count(o)} matches in {f}: {o[:60]!r}"
        open(p,"w").write(s.replace(o,n))
    return None
def tests():
    c,o=sh("cargo test --offline --locked -p velato --all-features 2>&1",repo)
    return ("ok" if c==0 else "TESTS FAIL"),o
def check(prop,secs,seed=1,jobs=4):
    v=" vello" if prop=="C18" else ""
    c,o=sh(f"bash sim/build.sh{v}",ver)
    if c: return 3,o
    b=o.strip().splitlines()[-1]
    return sh(f"{b} check --prop {prop} --tier quick --seed {seed} --runs 1000000 --secs {secs} --jobs {jobs} --out {base}/out --evidence {base}/ev.json --regress regress --known known-findings.json --shrink-secs 20",ver)
if __name__=="__main__":
    setup()
    for m in MUTANTS:
        if want!=["all"] and m[0] not in want and not (len(want)==1 and "/" in want[0] and (sum(map(ord,m[0]))%int(want[0].split("/")[1])==int(want[0].split("/")[0]))): continue
        sh("git checkout -q -f -- .",repo)
        e=apply(m)
        if e: print("RESULT",m[0],"NOAPPLY",e,flush=True); continue
        t,o=tests()
        if t!="ok": print("RESULT",m[0],t,o[-1500:],flush=True); continue
        d=f"{base}/patches"; os.makedirs(d,exist_ok=True)
        open(f"{d}/{m[0]}.diff","w").write(sh("git diff",repo)[1])
        t0=time.time(); c,o=check(m[1],int(os.environ.get("SECS","45")))
        lines=[l for l in o.splitlines() if l.strip()]
        print("RESULT",m[0],{0:"MISSED",1:"caught"}.get(c,f"ERROR {c}"),f"{time.time()-t0:.0f}s"," | ".join(l[:260] for l in lines[-3:]),flush=True)
    sh("git checkout -q -f -- .",repo)
