#!/usr/bin/env python3
"""Turns planted bugs (tools/mutants.py, patches made by mutate.py) into /verif/seeded/<id>/.
mkseed.py ID...: takes the patch and the last replay from /tmp/mut; or tools/demos/ID/ if a demo was written by hand."""
import sys,os,subprocess,json,shutil,glob,re
H=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(H)
sys.path.insert(0,H)
from mutants import MUTANTS
M={m[0]:m for m in MUTANTS}
W=os.environ.get("MKW","/tmp/mkseed"); os.makedirs(W,exist_ok=True)
env=dict(os.environ,RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",CARGO_NET_OFFLINE="true",RUSTC_WRAPPER="")
def sh(c,cwd=None,t=400):
    try: p=subprocess.run(c,shell=True,cwd=cwd,env=env,capture_output=True,text=True,timeout=t); return p.returncode,p.stdout+p.stderr
    except subprocess.TimeoutExpired: return 124,"timeout"
repo=W+"/repo"
if not os.path.exists(repo): sh(f"git clone -q /repo {repo}")
sh("git fetch -q origin; git checkout -q -f FETCH_HEAD || true; git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq",repo)
vsim=os.environ.get("VSIM",V+"/sim/target/debug/vsim")
log="".join(open(f).read() for f in sorted(glob.glob("/tmp/mut/*.log"),key=os.path.getmtime))
for i in sys.argv[1:]:
    m=M[i]; d=f"{V}/seeded/{i}"; hand=f"{H}/demos/{i}"
    ps=sorted(glob.glob(f"/tmp/mut/*/patches/{i}.diff"),key=os.path.getmtime)
    if not ps: print(i,"no patch"); continue
    c,o=sh(f"git checkout -q -f -- . && git apply --check {ps[-1]}",repo)
    if c: print(i,"patch does not apply",o); continue
    # only original lines may change
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    shutil.copy(ps[-1],d+"/patch.diff")
    shutil.copy(f"{V}/sim/Cargo.lock",d)
    if os.path.isdir(hand):
        for f in ["main.rs","demo.sh","Cargo.toml"]:
            if not os.path.exists(f"{hand}/{f}"): shutil.copy(f"{H}/demo/{f}",d)
        for f in os.listdir(hand): shutil.copy(f"{hand}/{f}",d)
    else:
        for f in ["main.rs","demo.sh","Cargo.toml"]: shutil.copy(f"{H}/demo/{f}",d)
        r=re.findall(r"RESULT "+re.escape(i)+r" caught.*?replay=(\S+)",log)
        if not r or not os.path.exists(r[-1]): print(i,"no replay"); shutil.rmtree(d); continue
        c,o=sh(f"{vsim} export {r[-1]}")
        if c: print(i,"export",o); continue
        open(d+"/script.json","w").write(o)
    sh("git checkout -q -f -- . && git clean -fdq",repo)
    dd=W+"/demo-"+i; shutil.rmtree(dd,ignore_errors=True); shutil.copytree(d,dd)
    for f in glob.glob(dd+"/*.diff"): os.remove(f)
    if os.path.exists(d+"/script.json") and not os.path.exists(hand+"/expected.txt"):
        c,o=sh(f"bash {dd}/demo.sh print",repo); 
        if c: print(i,"print fails",o[-500:]); continue
        open(d+"/expected.txt","w").write(o); open(dd+"/expected.txt","w").write(o)
    c1,o1=sh(f"bash {dd}/demo.sh",repo)
    sh(f"git apply {d}/patch.diff",repo)
    c2,o2=sh(f"bash {dd}/demo.sh",repo)
    ok=c1==0 and c2 not in (0,2)
    json.dump({"property":m[1],"needs":m[3],"what_it_breaks":m[4]},open(d+"/meta.json","w"),indent=1)
    print(i,"ok" if ok else f"BAD clean={c1} patched={c2} {o1[-300:]} {o2[-300:]}",os.path.getsize(d+"/expected.txt") if os.path.exists(d+"/expected.txt") else "",flush=True)
    if not ok: shutil.rmtree(d+".bad",ignore_errors=True); shutil.move(d,W+"/bad-"+i) if not os.path.exists(W+"/bad-"+i) else shutil.rmtree(d)
    shutil.rmtree(dd,ignore_errors=True)
    sh("git checkout -q -f -- .",repo)
