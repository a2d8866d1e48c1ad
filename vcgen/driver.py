"""Runs one property check: extraction, verification of every function under contract in
parallel, lemmas, concrete replay, evidence."""
import os, sys, time, json, shutil, traceback, subprocess, re, multiprocessing as mp
import z3
from . import build, ir, sym
from .sym import Engine
from .contract import verify
VERIF=build.VERIF

_G={}
def blank(name,group,status,error):
    return {"function":name,"status":status,"error":error,"obligations":[],"callees":[],"loops":0,"terminating_loops":0,"solver_time":0,"queries":0,"time":0,"assumptions":[],"trusted":[],"group":group}
def _task(t):
    _,grp,mangled,name,budget=t
    try:
        g=_G[grp]
        E=g["mk"]()
        r=E.verify("@"+mangled,g["con"][name],budget) if getattr(E,"own_verify",False) else verify(E,"@"+mangled,g["con"][name],budget)
        r["assumptions"]=sorted(E.assumptions); r["trusted"]=sorted(E.trusted); r["group"]=grp
        return r
    except Exception as ex:
        return blank(name,grp,"unsupported","internal: %s"%traceback.format_exc()[-800:])

def _lemma(t):
    n,fn,timeout=t
    t0=time.time(); obs=[]
    for label,hyp,goal in fn():
        st="failed"; t1=time.time(); det=""
        for opts in({},{"mbqi":False,"auto_config":False},{"random_seed":5}):
            s=z3.Solver(); s.set("timeout",timeout)
            for k,v in opts.items(): s.set(k,v)
            s.add(*hyp); s.add(z3.Not(goal))
            if str(s.check())=="unsat": st="proved"; break
            det="z3: "+s.reason_unknown()
        obs.append({"obligation":"lemma %s: %s"%(n,label),"status":st,"time_s":round(time.time()-t1,3),"queries":1,"detail":"" if st=="proved" else det})
    r=blank("lemmas "+n,"lemma","proved" if all(o["status"]=="proved" for o in obs) else "failed","")
    r["obligations"]=obs; r["queries"]=len(obs); r["solver_time"]=r["time"]=round(time.time()-t0,2)
    return r
_L={}; _L_T=[8000]
def _lemma_task(n):
    try: return _lemma((n,_L[n],_L_T[0]))
    except Exception: return blank("lemmas "+n,"lemma","unsupported",traceback.format_exc()[-800:])

class Session:
    def __init__(s,wd): s.wd=wd; s.path=None
    def extract(s,tus):
        s.path=build.compile_all(s.wd,build.SRC,tus)
        d,e=build.names_of(s.path); s.defs=d
        s.dm=ir.demangle(d+e)
        s.byname={}
        for k in d:
            if "C1E" in k and k.replace("C1E","C2E") in s.dm: continue
            if "D1Ev" in k and k.replace("D1Ev","D2Ev") in s.dm: continue
            if "D0Ev" in k: continue
            s.byname.setdefault(s.dm[k],k)
        s.names={("@"+k):v for k,v in s.dm.items()}
    def group(s,tag,contracts,kinds,level,want,mk=None):
        """extraction for one abstraction level; returns tasks, missing, callees of each function"""
        keep=[k for k in s.defs if s.dm[k] in contracts and contracts[s.dm[k]].keep]
        fn=lambda n: contracts[n].fn
        roots=sorted({s.byname[fn(n)] for n in want if fn(n) in s.byname})
        out=build.prepare(s.path,keep,roots,s.wd,tag)
        text=open(out).read(); mod=ir.Module(text)
        if mk is None: mk=Engine
        def make():
            E=mk(mod,s.names,contracts); E.level=level; E.predkinds=kinds
            return E
        _G[tag]={"mk":make,"con":contracts,"mod":mod}
        tasks=[];missing=[]; calls={}
        # direct callees by function
        cur=None; raw={}
        for line in text.splitlines():
            if line.startswith("define "):
                cur=re.search(r'@("?[^"(]+"?)\(',line).group(1).replace('"',''); raw[cur]=set()
            elif cur and " call " in line:
                m=re.search(r'call [^@]*@("?[^"(]+"?)\(',line)
                if m: raw[cur].add(s.dm.get(m.group(1).replace('"',''),""))
        for n in want:
            m=s.byname.get(fn(n))
            if m and ("@"+m) in mod.funcs:
                tasks.append(("fn",tag,m,n)); calls[n]=sorted(x for x in raw.get(m,()) if x in contracts)
            else: missing.append(n)
        return tasks,missing,calls

def retry(tasks,results,pick,budget,limit,scale=4):
    """second attempt, with more solver time and nothing else running, at the functions pick selects: a time
    limit hit on a busy machine is not a failed obligation"""
    again=[(t,r) for t,r in zip(tasks,results) if pick(r) and (r["status"]=="unsupported" or not all(o["status"]=="proved" or o["detail"].find("counterexample:")>=0 for o in r["obligations"]))]
    lem=[r["function"][7:] for r in results if r["group"]=="lemma" and pick(r)]
    if not again and not lem or limit<30: return results
    sym.SCALE[0]=scale; _L_T[0]=8000*scale
    try: new=run_tasks([t for t,r in again],{n:_L[n] for n in lem},budget*2,limit=limit)
    finally: sym.SCALE[0]=1; _L_T[0]=8000
    by={(r["group"],r["function"]):r for r in new if r["status"]=="proved"}
    return [by.get((r["group"],r["function"]),r) for r in results]

def run_tasks(tasks,lemmas,budget,procs=8,limit=600):
    """lemmas: {name: fn}"""
    if not tasks and not lemmas: return []
    _L.update(lemmas)
    ctx=mp.get_context("fork"); end=time.time()+limit
    with ctx.Pool(max(1,min(procs,len(tasks)+len(lemmas)))) as p:
        rl=[(n,p.apply_async(_lemma_task,(n,))) for n in lemmas]
        rs=[p.apply_async(_task,(t+(budget,),)) for t in tasks]
        out=[]
        for t,r in zip(tasks,rs):
            try: out.append(r.get(timeout=max(1,min(budget*4+60,end-time.time()))))
            except Exception as ex: out.append(blank(t[3],t[1],"unsupported","worker: %r"%ex))
        for n,r in rl:
            try: out.append(r.get(timeout=max(1,end-time.time())))
            except Exception as ex: out.append(blank("lemmas "+n,"lemma","unsupported","worker: %r"%ex))
        p.terminate()
    return out
