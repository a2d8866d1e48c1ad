#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE DEMO NEEDS BREAKS < 'OLD\n====\nNEW' : plants a change in a scratch copy of
/repo (bind-mounted over /repo in a private namespace), confirms that it builds, passes the stable tests
and that the demonstration tells the two trees apart, and keeps it under seeded/ID."""
import sys, os, subprocess, json, shutil, tempfile
sid,prop,path,demo,needs,breaks=sys.argv[1:7]
blocks=sys.stdin.read().split("\n@@@@\n")
T=tempfile.mkdtemp(prefix="seed_",dir="/tmp"); R=T+"/repo"
subprocess.check_call(["cp","-a","/repo",R])
subprocess.check_call(["git","-C",R,"checkout","-q","--","."])
d=os.path.join("/verif/seeded",sid); out=T+"/out"; os.makedirs(out)
shutil.copy(demo,out+"/demo.cpp")
SH='''#!/bin/bash
FLAGS="@FLAGS@"
# run in /repo after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
S="util/allocator.cpp util/timer.cpp util/integer.cpp util/hilbertpoly.cpp util/randpermutation.cpp ginv/monom.cpp ginv/poly.cpp ginv/poly_int.cpp ginv/wrap.cpp ginv/janet.cpp ginv/gb.cpp ginv/mcompletion.cpp"
for f in "$D/demo.cpp" $S; do g++ -std=c++14 -O1 $FLAGS -DNDEBUG -w -I. -c "$f" -o "$T/$(basename "$f").o" & done; wait
g++ $FLAGS -o "$T/demo" "$T"/*.o -lgmp -lgvc -lcgraph -lcdt || exit 2
(ulimit -c 0; cd "$T" && timeout 60 ./demo)
'''
open(out+"/demo.sh","w").write(SH.replace('@FLAGS@',os.environ.get('FLAGS',''))); os.chmod(out+"/demo.sh",0o755)
def inrepo(cmd,cwd="/repo"):
    p=subprocess.run(["unshare","-Urm","sh","-c","mount --bind %s /repo && cd %s && %s"%(R,cwd,cmd)],capture_output=True,text=True); return p.returncode,p.stdout+p.stderr
rc0,o0=inrepo("bash %s/demo.sh"%out)
for b in blocks:
    f=path
    if b.startswith("FILE "): f,b=b[5:].split("\n",1)
    old,new=b.split("\n====\n"); new=new.rstrip("\n"); old=old.rstrip("\n")
    s=open(R+"/"+f).read()
    if s.count(old)!=1: print("OLD occurs",s.count(old),"times in",f); sys.exit(1)
    open(R+"/"+f,"w").write(s.replace(old,new))
diff=subprocess.check_output(["git","-C",R,"diff"],text=True)
open(out+"/patch.diff","w").write(diff)
rc1,o1=inrepo("bash %s/demo.sh"%out)
rct,ot=inrepo("bash /opt/vp/test.sh %s/t.json"%T)
res=json.load(open(T+"/t.json")); base=json.load(open("/opt/vp/BASELINE.json"))
stable=base["stable"]
bad=[t for t in stable if t not in res["passed"]]
ok=rc0==0 and rc1!=0 and not bad
print(sid,"demo unchanged:",rc0,"demo patched:",rc1,"tests broken:",bad,"-> kept" if ok else "-> REJECTED")
if not ok: print(o0[-500:]); print(o1[-500:]); print(ot[-300:] if bad else "")
else:
    os.makedirs(d,exist_ok=True)
    for f in("demo.cpp","demo.sh","patch.diff"): shutil.copy(out+"/"+f,d+"/"+f)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
shutil.rmtree(T)
