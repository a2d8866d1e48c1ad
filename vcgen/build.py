"""Compile /repo's current sources to one LLVM module and prepare it for the executor.

What the extraction drops: asserts (-DNDEBUG, as in the project's Release build), exception
landing pads (-fno-exceptions) and optimisation.  Everything that is not under contract is
inlined by LLVM's always-inline pass, so that extracted helpers need no contract."""
import os, re, subprocess, hashlib, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO=os.environ.get("VERIF_REPO","/repo")
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM="/usr/lib/llvm-18/bin/"
CLANG=LLVM+"clang++" if os.path.exists(LLVM+"clang++") else shutil.which("clang++")
CFLAGS=["-std=c++11","-O0","-Xclang","-disable-O0-optnone","-fno-exceptions","-DNDEBUG","-gline-tables-only","-w"]
SRC=["util/allocator.cpp","util/integer.cpp","util/hilbertpoly.cpp","util/randpermutation.cpp",
     "ginv/monom.cpp","ginv/poly.cpp","ginv/wrap.cpp","ginv/janet.cpp","ginv/gb.cpp","ginv/mcompletion.cpp","ginv/poly_int.cpp"]
class BuildError(Exception): pass

def work_dir():
    d=os.path.join(VERIF,"build","run-%d"%os.getpid()); os.makedirs(d,exist_ok=True); return d

def incdirs(wd):
    """-I flags; generates config.h (cmake's output, ignored by git) when the tree lacks it."""
    r=["-I"+REPO]
    need=[]
    for m,defs in(("util",["GINV_UTIL_GRAPHVIZ","GINV_UTIL_ALLOCATOR","GINV_UTIL_INTEGER_ALLOCATOR"]),("ginv",["GINV_GRAPHVIZ","GINV_ALLOCATOR"])):
        if not os.path.exists(os.path.join(REPO,m,"config.h")): need.append((m,defs))
    if need:
        # the sources include "config.h" relative to their own directory: copy the tree
        cp=os.path.join(wd,"src")
        if not os.path.exists(cp):
            os.makedirs(cp)
            for m in("util","ginv"):
                os.makedirs(os.path.join(cp,m))
                for f in os.listdir(os.path.join(REPO,m)):
                    if f.endswith((".h",".cpp")): shutil.copy(os.path.join(REPO,m,f),os.path.join(cp,m,f))
            for m,defs in need:
                with open(os.path.join(cp,m,"config.h"),"w") as f:
                    f.write("#ifndef VC_%s_CONFIG\n#define VC_%s_CONFIG\n"%(m,m)+"".join("#define %s\n"%d for d in defs)+"#endif\n")
        return ["-I"+cp],cp
    return r,REPO

def run(cmd,**k):
    p=subprocess.run(cmd,capture_output=True,text=True,**k)
    if p.returncode: raise BuildError(" ".join(cmd)[:300]+"\n"+p.stderr[-3000:])
    return p.stdout

def compile_all(wd,srcs,extra_tus=()):
    inc,root=incdirs(wd)
    jobs=[]
    for s in srcs:
        p=os.path.join(root,s)
        if os.path.exists(p): jobs.append((p,os.path.join(wd,s.replace("/","_")+".ll")))
    for t in extra_tus: jobs.append((os.path.join(VERIF,"tu",t),os.path.join(wd,t+".ll")))
    own=[]
    def one(j):
        try: run([CLANG]+CFLAGS+inc+["-S","-emit-llvm","-o",j[1],j[0]])
        except BuildError:
            # an instantiation unit that no longer compiles only loses its own instances (reported as missing functions)
            if os.path.dirname(j[0])!=os.path.join(VERIF,"tu"): raise
            own.append(j)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one,jobs))
    out=os.path.join(wd,"all.ll")
    run([LLVM+"llvm-link","-S","-o",out]+[j[1] for j in jobs if j not in own])
    return out

def names_of(path):
    t=open(path).read()
    defs=re.findall(r'^define [^\n]*?@("?[^"(\n]+"?)\(',t,re.M)
    decl=re.findall(r'^declare [^\n]*?@("?[^"(\n]+"?)\(',t,re.M)
    return [d.replace('"','') for d in defs],[d.replace('"','') for d in decl]

def prepare(path,keep,roots,wd,tag,noreturn=()):
    """keep: mangled names that stay calls (contracts); roots: functions to verify."""
    t=open(path).read()
    t=re.sub(r'^(attributes #\d+ = \{.*)$',lambda m:re.sub(r'\b(noinline|optnone|alwaysinline|inlinehint)\b ?','',m.group(1)),t,flags=re.M)
    # constructor / destructor aliases: call the aliasee
    al=dict(re.findall(r'^@("?[^"\s]+"?) = [^\n]*\balias [^\n]*, ptr @("?[^"\s,]+"?)$',t,re.M))
    if al: t=re.sub(r'^(  [^\n]*\b(?:call|invoke) [^\n]*?@)("?[^"(\s]+"?)\(',lambda m:m.group(1)+al.get(m.group(2),m.group(2))+"(",t,flags=re.M)
    keep=set(keep); roots=set(roots)
    def fix(m):
        line=m.group(0)
        nm=re.search(r'@("?[^"(]+"?)\(',line).group(1).replace('"','')
        a="noinline" if nm in keep else "alwaysinline"
        if nm in roots: line=line.replace("linkonce_odr","weak_odr")
        # insert the attribute right before the first of: #N, comdat, align, !dbg, personality, {
        k=line.rfind(") ")
        # attributes follow the closing paren of the parameter list
        mm=re.search(r'\)( local_unnamed_addr| unnamed_addr)?( #\d+)',line)
        if mm: return line[:mm.start(2)]+" "+a+line[mm.start(2):]
        return line
    t=re.sub(r'^define [^\n]*\{$',fix,t,flags=re.M)
    src=os.path.join(wd,"in_%s.ll"%tag); open(src,"w").write(t)
    out=os.path.join(wd,"out_%s.ll"%tag)
    api=os.path.join(wd,"api_%s.txt"%tag); open(api,"w").write("\n".join(sorted(roots))+"\n")
    run([LLVM+"opt","-S","-passes=internalize,globaldce,always-inline,globaldce,function(sroa,early-cse,simplifycfg,sroa,early-cse,simplifycfg,loop-simplify)",
         "-internalize-public-api-file="+api,"-o",out,src])
    return out
