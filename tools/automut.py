#!/usr/bin/env python3
"""Mechanical mutations of /repo/src, in scratch copies: which ones do the checks miss?
automut.py list | automut.py run SLOT NSLOTS     (results: /tmp/am/SLOT.log, one RESULT line per mutation)"""
import re,os,sys,random,subprocess,glob,time
SRC="/repo/src"
SWAP=[(r" < "," <= "),(r" <= "," < "),(r" > "," >= "),(r" >= "," > "),(r" == "," != "),(r" != "," == "),(r" && "," || "),(r" \|\| "," && "),
 (r" \+ "," - "),(r" - "," + "),(r" \* "," / "),(r" / "," * "),(r" \+= "," -= "),(r" -= "," += "),(r" % "," + "),
 (r"\btrue\b","false"),(r"\bfalse\b","true"),(r"\.min\(",".max("),(r"\.max\(",".min("),(r"\.is_some\(\)",".is_none()"),(r"\.is_none\(\)",".is_some()"),
 (r"\bcontinue;","break;"),(r"\bbreak;","continue;"),(r"\.is_empty\(\)",".len() == 1"),(r"!(?=[a-z_]+[.(])",""),
 (r"\.rev\(\)",""),(r"\.rem_euclid\(([^()]*)\)",r" % \1"),(r"\.abs\(\)",""),(r"\.to_radians\(\)",""),(r"\.unwrap_or\(0\.0\)",".unwrap_or(1.0)"),(r"\.unwrap_or\(1\.0\)",".unwrap_or(0.0)"),
 (r"\.cos\(\)",".sin()"),(r"\.sin\(\)",".cos()"),(r"\.x\b",".y"),(r"\.y\b",".x"),(r"\.start\b",".end"),(r"\.end\b",".start"),(r"\.first\(\)",".last()"),(r"\.last\(\)",".first()"),(r"\.ceil\(\)",".floor()"),(r"\.floor\(\)",".ceil()"),(r"\.round\(\)",".floor()"),
 (r"\bSome\(([a-z_]+)\) = ",None)]
def muts():
    out=[]
    for f in sorted(glob.glob(SRC+"/**/*.rs",recursive=True)):
        rel=f[len("/repo/"):]
        L=open(f).read().split("\n")
        for i,l in enumerate(L):
            st=l.strip()
            if st.startswith("#[cfg(test)]"): break
            if st.startswith("//") or st.startswith("use ") or st.startswith("pub use") or st.startswith("mod ") or not st: continue
            if st.startswith("#["):
                if st.startswith("#[serde(") and "src/schema" in rel:
                    if "skip_serializing_if" not in st and ("default" in st or "flatten" in st): out.append((rel,i,l,re.sub(r"#\[.*",'',l),"del attr"))
                    m=re.search(r'rename = "([^"]+)"',st)
                    if m: out.append((rel,i,l,l.replace('rename = "%s"'%m[1],'rename(deserialize = "%s", serialize = "%s_")'%(m[1],m[1])),"rename ser")); out.append((rel,i,l,l.replace('rename = "%s"'%m[1],'rename = "%s_"'%m[1]),"rename"))
                continue
            code=l.split(" // ")[0]
            for a,b in SWAP:
                if b is None: continue
                for m in re.finditer(a,code):
                    if '"' in code[:m.start()] and code[:m.start()].count('"')%2: continue
                    n=code[:m.start()]+m.expand(b)+code[m.end():]
                    if n!=code: out.append((rel,i,l,n,f"{a}->{b}"))
            for m in re.finditer(r"(?<![\w.\"])(\d+)(\.\d+)?(?:_usize|_f64)?(?![\w.\"])",code):
                t=m[0]
                if code[:m.start()].count('"')%2: continue
                if "." in t: n={"0.0":"1.0","1.0":"0.0","100.0":"50.0"}.get(t,str(float(t)+1))
                else: n=str(int(m[1])+1)
                out.append((rel,i,l,code[:m.start()]+n+code[m.end():],f"{t}->{n}"))
            if st.endswith(";") and not re.match(r"(let|return|use|pub|type|const|static|mod|\}|fn|break|continue)\b",st) and not st.startswith(("}",")",".")) and st.count("(")==st.count(")") and L[i-1].strip().endswith((";","{","}")):
                out.append((rel,i,l,"","delete stmt"))
            m=re.match(r"(\s*(?:\} else )?if )(.*)( \{)$",code)
            if m and not m[2].startswith("let "): out+= [(rel,i,l,m[1]+"true"+m[3],"if true"),(rel,i,l,m[1]+"false"+m[3],"if false")]
            m=re.match(r"(\s*)(\S.*) => (.*),$",code)
    return out
def order():
    M=muts(); r=random.Random(5); r.shuffle(M); return M
PROPS={"schema":["C16","C07","C12","C06","C15","C01"],"vello":["C18"],
 "":["C07","C12","C06","C13","C10","C09","C08","C11","C05","C02","C03","C20","C19","C14","C01","C16","C27","C28","C37","C40","C41"]}
def main():
    if sys.argv[1]=="list":
        M=muts(); from collections import Counter
        print(len(M)); print(Counter(m[0] for m in M)); return
    slot,n=sys.argv[2],int(sys.argv[3]); lo=int(sys.argv[4]) if len(sys.argv)>4 else 0; flt=sys.argv[5] if len(sys.argv)>5 else ""
    base=f"/tmp/am/{slot}"; repo=base+"/repo"; ver=base+"/verif"
    os.makedirs(base,exist_ok=True)
    env=dict(os.environ,RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",CARGO_NET_OFFLINE="true",RUSTC_WRAPPER="",CARGO_TERM_COLOR="never",CARGO_BUILD_JOBS="3")
    def sh(c,cwd=None,t=600):
        try: p=subprocess.run(c,shell=True,cwd=cwd,env=env,capture_output=True,text=True,timeout=t); return p.returncode,p.stdout+p.stderr
        except subprocess.TimeoutExpired: return 124,"timeout"
    if not os.path.exists(repo): sh(f"cp -a /repo {repo}")
    sh("git checkout -q -f -- . && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD",repo)
    os.makedirs(ver,exist_ok=True)
    sh(f"rsync -a --delete --exclude target --exclude target-vello --exclude target-apps --exclude gen --exclude .git --exclude seeded --exclude out /verif/ {ver}/")
    sh(f"sed -i 's|path = \"/repo|path = \"{repo}|' {ver}/sim/subject/Cargo.toml; grep -rl '\"/repo' {ver}/sim --include=*.rs --include=*.toml --include=*.sh | xargs -r sed -i 's|\"/repo|\"{repo}|g'")
    M=[m for m in order() if flt in m[0]]
    for k,(rel,i,a,b,w) in enumerate(M):
        if k<lo or k%n!=sum(map(ord,slot))%n: continue
        t0=time.time()
        sh("git checkout -q -f -- .",repo)
        p=f"{repo}/{rel}"; L=open(p).read().split("\n")
        if L[i]!=a: continue
        L[i]=b; open(p,"w").write("\n".join(L))
        kind="schema" if "/schema/" in rel else "vello" if "vello" in rel else ""
        tag=f"RESULT {k} {rel.replace('src/','')}:{i+1} [{w}] `{a.strip()}` -> `{b.strip()}`"
        c,o=sh("bash sim/build.sh"+(" vello" if kind=="vello" else ""),ver)
        if c: print(tag,"NOBUILD",flush=True); continue
        bi=o.strip().splitlines()[-1]
        hit=None
        for pr in PROPS[kind]:
            c,o=sh(f"{bi} check --prop {pr} --tier quick --seed 1 --runs 100000 --secs {12 if kind=='schema' and pr=='C16' else 7} --jobs 3 --out {base}/out --evidence {base}/ev.json --regress regress --known known-findings.json --shrink-secs 0",ver)
            if c==1: hit=pr; break
            if c!=0: hit=f"{pr}-EXIT{c}"; break
        if hit is None:
            c,o=sh("cargo test --offline --locked -p velato --all-features 2>&1",repo)
            hit="TESTS" if c else "MISSED"
        print(tag,hit,f"{time.time()-t0:.0f}s",flush=True)
    sh("git checkout -q -f -- .",repo); print("END",flush=True)
main()
