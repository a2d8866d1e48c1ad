#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> : decides one property on /repo's current tree."""
import os, sys, re, time, json, shutil, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vcgen import build, driver, replay
from specs import registry
VERIF=build.VERIF

def main():
    pid=sys.argv[1]; tier=os.environ.get("VERIF_TIER","quick"); seed=int(os.environ.get("VERIF_SEED","1") or 1)
    if len(sys.argv)>2: tier=sys.argv[2]
    P=registry.PROPS[pid]; t0=time.time()
    wd=os.path.join(VERIF,"build","run-%s-%d"%(pid,os.getpid())); os.makedirs(wd,exist_ok=True)
    try: rc=decide(pid,P,tier,seed,wd,t0)
    finally: shutil.rmtree(wd,ignore_errors=True)
    sys.exit(rc)

def decide(pid,P,tier,seed,wd,t0):
    thorough=tier=="thorough"
    budget=600 if thorough else P.get("budget",240)
    hb=(P.get("hthorough",180) if thorough else P.get("hquick",12))
    ex=ThreadPoolExecutor(2)
    # --- concrete replay harness, built and run beside the proofs
    def harness():
        h=P.get("harness")
        if not h: return {"status":"none","detail":"no harness","cases":0,"distinct":0,"samples":[],"time":0}, None
        try: exe=replay.compile_harness(wd,h["files"],h["srcs"],h.get("shadow",True),h.get("libs",("-lgmp",)))
        except replay.HarnessError as e: return {"status":"none","detail":str(e),"cases":0,"distinct":0,"samples":[],"time":0}, None
        return replay.run_harness(exe,h.get("test",pid),hb,seed,wd), exe
    fh=ex.submit(harness)
    results=[]; own=set(); missing=[]; tasks=[]; broken=""
    nfn=0
    try:
        results,own,missing,tasks=prove(P,wd,budget)
    except build.BuildError as e: broken="extraction: "+str(e)
    except Exception: broken="extraction: "+traceback.format_exc()[-2000:]
    h,exe=fh.result()
    # --- verdict
    def is_own(r): return r["function"] in own
    def classify():
        failed=[r for r in results if r["status"]=="failed"]
        unsup=[r for r in results if r["status"] in("unsupported","vacuous")]
        mem=P.get("only")     # property about a part of the obligations (memory): the others belong to other properties
        counts=lambda r: mem is None or any(o["status"]!="proved" and re.search(mem,o["obligation"]) for o in r["obligations"])
        own_failed=[r for r in failed if is_own(r) and counts(r)]; own_unsup=[r for r in unsup if is_own(r)]
        dep_failed=[r for r in failed+unsup if not is_own(r) or (r in failed and r not in own_failed)]
        return own_failed,own_unsup,dep_failed
    own_failed,own_unsup,dep_failed=classify()
    verdict=0; line=""
    if (own_failed or own_unsup or dep_failed or broken or missing) and h["status"]=="ok" and exe:
        # look longer for a failing input
        h2=replay.run_harness(exe,P["harness"].get("test",pid),P.get("hlong",45),seed+1000,wd)
        h2["cases"]+=h["cases"]; h2["distinct"]+=h["distinct"]; h2["samples"]=h["samples"]+h2["samples"]
        if h2["status"]!="none": h=h2
    if h["status"]!="fail" and tasks and (own_failed or own_unsup):
        mem=P.get("only")
        results=driver.retry(tasks,results,lambda r: (r["status"]=="failed" and r["function"] in own and (mem is None or any(o["status"]!="proved" and re.search(mem,o["obligation"]) for o in r["obligations"]))) or
            (r["status"]=="unsupported" and ("budget" in r["error"] or "worker" in r["error"])),budget,min(420,780-(time.time()-t0)))
        own_failed,own_unsup,dep_failed=classify()
    rp=os.path.join(VERIF,"replay",pid+".txt")
    os.makedirs(os.path.dirname(rp),exist_ok=True)
    def write_replay(head):
        with open(rp,"w") as f:
            f.write("property %s: %s\n\n%s\n"%(pid,P["title"],head))
            for r in own_failed+own_unsup+dep_failed:
                f.write("\nfunction %s: %s %s\n"%(r["function"],r["status"],r["error"]))
                for o in r["obligations"]:
                    if o["status"]!="proved": f.write("  FAILED OBLIGATION %s\n    %s\n"%(o["obligation"],o["detail"]))
            for m in missing: f.write("\nfunction %s is under contract but is not in the tree\n"%m)
            if broken: f.write("\n"+broken+"\n")
    if h["status"]=="fail":
        verdict=1; write_replay("failing input against the real code (harness test %s, seed %d):\n%s"%(pid,seed,h["detail"]))
        line="VIOLATION property=%s replay=%s"%(pid,rp)
    elif own_failed:
        verdict=1; write_replay("no failing input found in %d concrete cases"%h["cases"])
        line="VIOLATION property=%s replay=%s no-failing-input-found"%(pid,rp)
    elif (own_unsup or broken or missing) and h["status"]!="ok":
        # neither the proof nor the bounded stand-in can be carried out: the property is not established
        verdict=1; write_replay("the proof cannot be carried out and the bounded stand-in gives no answer: %s"%h["detail"])
        line="VIOLATION property=%s replay=%s no-failing-input-found"%(pid,rp)
    elif os.path.exists(rp): os.remove(rp)
    evidence(pid,P,tier,seed,results,own,missing,broken,h,verdict,t0)
    nob=sum(len(r["obligations"]) for r in results)
    for r in own_failed+own_unsup+dep_failed:
        print("NOTE %s: %s %s"%(r["function"],r["status"],r["error"][:300]))
        for o in r["obligations"]:
            if o["status"]!="proved": print("   obligation not discharged: %s"%o["obligation"])
    for m in missing: print("NOTE under contract but not in the tree: %s"%m)
    if broken: print("NOTE "+broken[:1500])
    if h["status"]=="none" and P.get("harness"): print("NOTE bounded companion gives no answer: "+h["detail"][-700:])
    for k in P.get("known",[]): print("KNOWN-FINDING: property=%s %s"%(pid,k))
    print("%s: %d functions, %d obligations, %d discharged, %d concrete cases, %.0f s"%(pid,len(results),nob,sum(1 for r in results for o in r["obligations"] if o["status"]=="proved"),h["cases"],time.time()-t0))
    if line: print(line)
    return verdict

def prove(P,wd,budget):
    S=driver.Session(wd); S.extract(registry.TUS)
    own=set(); todo={}; 
    for g,names in P["functions"].items():
        for n in names: todo.setdefault(g,[]).append(n); own.add(n)
    for g,names in P.get("deps",{}).items():
        for n in names:
            if n not in todo.get(g,[]): todo.setdefault(g,[]).append(n)
    done={}; tasks=[]; missing=[]; rnd=0
    # closure over callees under contract (each in the group that owns it)
    want={g:list(v) for g,v in todo.items()}
    cache={}
    while True:
        nxt={}; changed=False
        for g,ns in want.items():
            if cache.get(g)==ns: continue
            G=registry.GROUPS[g]
            cache[g]=list(ns)
            t,m,calls=S.group(g,G["contracts"],G["kinds"],G["level"],ns,G.get("engine"))
            done[g]=(t,m)
            for n,cs in calls.items():
                for c in cs:
                    k=registry.GROUPS[g]["contracts"][c]
                    if k.trusted or k.home is None: continue
                    hg=k.home
                    if c not in want.get(hg,[]) and c not in nxt.get(hg,[]): nxt.setdefault(hg,[]).append(c)
        for g,v in nxt.items():
            for n in v:
                if n not in want.get(g,[]): want.setdefault(g,[]).append(n); changed=True
        if not changed: break
    for g,(t,m) in done.items(): tasks+=t; missing+=[n for n in m if n in own]
    prio={n:i for i,n in enumerate(P.get("slow",[]))}
    tasks.sort(key=lambda t:(prio.get(t[3],99)))
    lem={n:registry.LEMMAS[n] for n in P.get("lemmas",[])}
    for n in lem: own.add("lemmas "+n)
    return driver.run_tasks(tasks,lem,budget,limit=600),own,missing,tasks

def evidence(pid,P,tier,seed,results,own,missing,broken,h,verdict,t0):
    obs=[o for r in results for o in r["obligations"]]
    ok=[o for o in obs if o["status"]=="proved"]
    assumptions=sorted(set(P.get("assumptions",[]))|set(registry.ASSUMPTIONS)|{a for r in results for a in r["assumptions"]})
    trusted=sorted({t for r in results for t in r["trusted"]}|set(P.get("trusted",[])))
    ev={"property":pid,"tier":tier,"seed":seed,"level":P.get("level","proof"),
      "coverage":{
        "obligations":len(obs),"discharged":len(ok),
        "checker_cmd":"python3-vt check.py %s"%pid,
        "trusted_base":["clang 18 front end, LLVM always-inline/sroa/early-cse/simplifycfg passes","vcgen symbolic executor (this framework)","z3 %s"%driver.z3.get_version_string()]+trusted,
        "functions_under_contract":[{"function":r["function"],"own":r["function"] in own,"status":r["status"],"obligations":len(r["obligations"]),"discharged":sum(1 for o in r["obligations"] if o["status"]=="proved"),"loops":r["loops"],"loops_proved_to_terminate":r["terminating_loops"],"solver_s":r["solver_time"],"queries":r["queries"],"note":r["error"]} for r in results],
        "functions_proved":sum(1 for r in results if r["status"]=="proved" and r["group"]!="lemma"),
        "functions_not_proved":[r["function"] for r in results if r["status"]!="proved"]+missing,
        "failed_obligations":[{"obligation":o["obligation"],"detail":o["detail"][:600]} for o in obs if o["status"]!="proved"],
        "extraction_problem":broken,
        "solver_s":round(sum(r["solver_time"] for r in results),1),"back_end":"z3",
        "bounded":{"label":"bounded companion, never counted as proved","functions_only_bounded":P.get("bounded",[]),"test":P.get("harness",{}).get("test",pid),"cases":h["cases"],"distinct":h["distinct"],"bound":P.get("bound","small operands enumerated, then seeded random ones within the time budget"),"result":h["status"],"samples":h["samples"][:3],"time_s":h["time"]},
      },
      "assumptions":assumptions,"wall_s":round(time.time()-t0,1),"violations":verdict}
    if P.get("level","proof")!="proof": ev["coverage"]["explanation"]=P.get("explanation","")
    if P.get("level") in("exploration",): ev["coverage"].update(evaluations=h["cases"],distinct_nontrivial=h["distinct"],rule=P.get("bound",""),samples=h["samples"][:3] or ["none"])
    os.makedirs(os.path.join(VERIF,"evidence"),exist_ok=True)
    with open(os.path.join(VERIF,"evidence",pid+".json"),"w") as f: json.dump(ev,f,indent=1)
if __name__=="__main__": main()
