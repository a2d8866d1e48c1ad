#!/usr/bin/env python3
"""Writes MANIFEST.json from specs/registry.py and the reasons below."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from specs import registry as R
NA={
"C24":"termination and completeness of the Groebner/involutive basis construction (Janet::build and gb) rest on ring theory (Noetherianity, involutive criteria) over the whole mutable Wrap/Janet graph; no contract within reach of the verifier here expresses or decides it",
"C25":"completion correctness is a statement about the whole set of stored monomials against the Janet division; the functions mutate a red-black tree of linked elements with client-side flags, which the verifier's heap abstraction does not reach",
"C26":"Cython (.pyx) sources: no deductive verifier for Cython or for the generated CPython-API C code is available offline",
"C27":"pure Python: no deductive verifier for Python is installed (CrossHair explores, it does not prove loops)",
"C28":"depends on getrusage/gettimeofday readings and double arithmetic only; the contract would restate the trusted calls",
}
def level_note(p):
    return p.get("note","")
checks=[]
for pid in sorted(R.PROPS):
    P=R.PROPS[pid]
    checks.append({"property":pid,"quick_cmd":"python3-vt check.py %s quick"%pid,"thorough_cmd":"python3-vt check.py %s thorough"%pid,
      "technique":P.get("technique","function contracts discharged on the compiled code (LLVM IR of /repo's sources) by symbolic execution with z3; loops cut by proved invariants"),
      "level":P.get("level","proof"),
      "level_note":P.get("note","Every function named in the evidence file is verified against its contract for all inputs and all iterations. Assumed: mathematical integers, no allocation failure, distinct operands, the clang front end and the executor itself; concrete runs accompany the proof and are never counted as proved.")})
ids=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl")) if l.strip()]
na=[{"property":i,"reason":NA.get(i,"no check yet: contracts for these functions are not written")} for i in ids if i not in R.PROPS]
m={"version":1,"setup_cmd":"python3-vt -m compileall -q vcgen specs check.py","checks":checks,"not_applicable":na,"notes":"check.py rebuilds from /repo's working tree on every run; repairs of genuine defects are listed in known_findings.txt"}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
