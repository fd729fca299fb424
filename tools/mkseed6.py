#!/usr/bin/env python3
"""Writes seeded/<id> for bugs of mutants6.py (shown by demo6).   mkseed6.py ID..."""
import sys,os,subprocess,json,shutil
here=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,here)
from mutants6 import MUTANTS6
work="/tmp/mkseed6"; repo=work+"/repo"; os.makedirs(work,exist_ok=True)
env=dict(os.environ,RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",CARGO_NET_OFFLINE="true",RUSTC_WRAPPER="",CARGO_TARGET_DIR=work+"/target")
def sh(c,cwd=None): return subprocess.run(c,shell=True,cwd=cwd,env=env,capture_output=True,text=True)
if not os.path.exists(repo): sh(f"git clone -q /repo {repo}")
sh("git checkout -q -f . && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD",repo)
d=work+"/demo"; shutil.rmtree(d,ignore_errors=True); shutil.copytree(here+"/demo6",d)
shutil.copy(here+"/../seeded/C12-scope/Cargo.lock",d)
t=open(d+"/Cargo.toml").read(); open(d+"/Cargo.toml","w").write(t.replace("@REPO@",repo))
def run():
    b=sh("cargo build --offline",d)
    if b.returncode: return None
    p=sh(f"timeout 60 {work}/target/debug/demo 2>/dev/null"); return p.returncode,p.stdout
clean=run(); assert clean and clean[0]==0
for m in MUTANTS6:
    if m[0] not in sys.argv[1:]: continue
    sh("git checkout -q -f .",repo)
    for f,o,n in m[2]:
        s=open(f"{repo}/{f}").read(); assert s.count(o)==1,(m[0],f); open(f"{repo}/{f}","w").write(s.replace(o,n))
    diff=sh("git diff",repo).stdout; got=run()
    if not got or got==clean: print(m[0],"not shown",bool(got)); continue
    out=f"{here}/../seeded/{m[0]}"; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    for f in("main.rs","demo.sh","Cargo.toml"): shutil.copy(f"{here}/demo6/{f}",out)
    shutil.copy(d+"/Cargo.lock",out); os.chmod(out+"/demo.sh",0o755)
    open(out+"/patch.diff","w").write(diff); open(out+"/expected.txt","w").write(clean[1])
    json.dump({"property":m[1],"needs":m[3],"what_it_breaks":m[4]},open(out+"/meta.json","w"),indent=1)
    print(m[0],"kept",got[0])
sh("git checkout -q -f .",repo)
