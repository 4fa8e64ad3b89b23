#!/usr/bin/env python3
"""Authoring tool for planted bugs: mkseeds.py FILE [id...]; FILE defines SEEDS. Each is applied to a
scratch copy to make patch.diff, then laid out under /verif/seeded/<id>. Verified by tools/tryseed.sh."""
import sys,os,shutil,subprocess,json,runpy
src=sys.argv[1];only=sys.argv[2:]
S=runpy.run_path(src)["SEEDS"]
T="/verif/tools/seedtmpl"
for s in S:
    if only and s["id"] not in only: continue
    w="/tmp/w/seedwt"
    shutil.rmtree(w,ignore_errors=True); os.makedirs("/tmp/w",exist_ok=True)
    subprocess.check_call(["git","-C","/repo","worktree","prune"])
    subprocess.check_call(f"mkdir -p {w} && git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x",shell=True)
    for f,a,b in s["edits"]:
        p=f"{w}/{f}";t=open(p).read()
        n=t.count(a)
        if n!=1: sys.exit(f"{s['id']}: {n} matches of {a!r} in {f}")
        open(p,"w").write(t.replace(a,b))
    d=f"/verif/seeded/{s['id']}"
    os.makedirs(d,exist_ok=True)
    subprocess.run(["cargo","fmt","--manifest-path",f"{w}/Cargo.toml"],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
    open(f"{d}/patch.diff","wb").write(subprocess.check_output(["git","-C",w,"diff"]))
    for f in ("Cargo.toml","Cargo.lock"): shutil.copy(f"{T}/{f}",f"{d}/{f}")
    if s.get("deps"):
        c=open(f"{d}/Cargo.toml").read().replace("[profile",s["deps"]+"[profile"); open(f"{d}/Cargo.toml","w").write(c)
    open(f"{d}/demo.sh","w").write(open(f"{T}/demo.sh").read().replace("@FLAG@",s.get("flag","")))
    os.chmod(f"{d}/demo.sh",0o755)
    open(f"{d}/main.rs","w").write(s["demo"].lstrip("\n"))
    json.dump(dict(property=s["property"],needs=s["needs"],what_it_breaks=s["breaks"]),open(f"{d}/meta.json","w"),indent=1)
    print("laid out",s["id"])
