"""Builds and runs the concrete harness against /repo's current sources."""
import os, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from . import build
VERIF=build.VERIF
CXX=["clang++","-std=c++14","-O1","-g","-fsanitize=address","-DNDEBUG","-w","-fno-omit-frame-pointer"]
class HarnessError(Exception): pass

def compile_harness(wd,files,srcs,shadow=True,libs=("-lgmp",)):
    """files: harness sources, srcs: sources of /repo.  Falls back to the real allocator when the
    checking stand-in does not fit the tree."""
    inc,root=build.incdirs(wd); hd=os.path.join(VERIF,"harness")
    def obj(p): return os.path.join(wd,"h_"+p.replace("/","_")+".o")
    def cc(p):
        q=subprocess.run(CXX+inc+["-I"+hd,"-c","-o",obj(p),p],capture_output=True,text=True)
        return p,q.returncode,q.stderr
    alloc=os.path.join(root,"util/allocator.cpp"); sh=os.path.join(hd,"shadow_allocator.cpp"); no=os.path.join(hd,"noshadow.cpp")
    base=[os.path.join(hd,f) for f in ["main.cpp"]+list(files)]+[os.path.join(root,s) for s in srcs if os.path.exists(os.path.join(root,s))]
    jobs=base+([sh] if shadow else [])+[alloc,no]
    with ThreadPoolExecutor(8) as ex: rs={p:(rc,err) for p,rc,err in ex.map(cc,jobs)}
    for p in base:
        if rs[p][0]: raise HarnessError("%s does not compile: %s"%(p,rs[p][1][-1500:]))
    exe=os.path.join(wd,"harness")
    def link(objs):
        q=subprocess.run(CXX+["-o",exe]+[obj(o) for o in objs]+list(libs),capture_output=True,text=True); return q.returncode,q.stderr
    err=""
    if shadow and rs[sh][0]==0:
        rc,err=link(base+[sh])
        if rc==0: return exe
    rc,err=link(base+[alloc,no])
    if rc: raise HarnessError("link: "+err[-1500:])
    return exe

def run_harness(exe,test,budget,seed,wd):
    """-> dict(status ok|fail|none, detail, cases, distinct, samples)"""
    t0=time.time()
    env=dict(os.environ); env["ASAN_SYMBOLIZER_PATH"]="/usr/bin/llvm-symbolizer-18"
    try: q=subprocess.run([exe,test,str(budget),str(seed)],capture_output=True,text=True,timeout=budget*3+90,cwd=wd,errors="replace",env=env)
    except subprocess.TimeoutExpired: return {"status":"none","detail":"harness timed out","cases":0,"distinct":0,"samples":[],"time":time.time()-t0}
    out=q.stdout; r={"status":"none","detail":out[-500:]+q.stderr[-1500:],"cases":0,"distinct":0,"samples":[],"time":round(time.time()-t0,1)}
    for l in out.splitlines():
        if l.startswith("CASE-FAIL: "): r["status"]="fail"; r["detail"]=l[11:]+"\n"+q.stderr[-3000:]
        if l.startswith("OK "):
            r["status"]="ok"; r["detail"]=l
            for w in l.split():
                if w.startswith("cases="): r["cases"]=int(w[6:])
                if w.startswith("distinct="): r["distinct"]=int(w[9:])
        if l.startswith("SAMPLE "): r["samples"].append(l[7:])
    return r
