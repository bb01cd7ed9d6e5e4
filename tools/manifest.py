#!/usr/bin/env python3
# regenerates MANIFEST.json: CLAIMED lists the properties whose check is built
import json,subprocess,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
TECH='contract-based deductive verification: contracts on the real functions, verification conditions generated from go/ssa by govc on every run, discharged by z3/cvc5'
NOTE={}
CLAIMED='C01 C02 C03 C04 C05 C06 C07 C08 C09 C11 C12 C13 C14 C15 C16 C17 C18 C19 C21 C22 C23'.split()
NA={'C24':'Liveness of shutdown (bounded time, whatever is in flight) is a scheduling property of goroutines and channels; sequential contracts over one call cannot express or decide it.'}
exec(open(V+'/tools/claims.py').read()) if os.path.exists(V+'/tools/claims.py') else None
checks=[]
na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        checks.append({'property':i,'quick_cmd':'bash check.sh %s quick'%i,'thorough_cmd':'bash check.sh %s thorough'%i,'evidence_file':'evidence/%s.json'%i,'technique':TECH,'level':'proof','level_note':NOTE.get(i,'Every obligation of the functions under contract is discharged for all inputs and iterations on each run; assumes the leveldb/cbor/gowaves models and axioms listed in the evidence (trusted_base) and sequential calls under the store lock. A bounded randomized harness over the real code replays failures and is not counted as proof.')})
    else:
        na.append({'property':i,'reason':NA.get(i,'check not built yet')})
m={'version':1,'setup_cmd':'bash build.sh','checks':checks,'not_applicable':na,'notes':'See DESIGN.md. govc (in govc/) is the condition generator; spec/*.spec are the contracts; replay/ holds the bounded replay harnesses.'}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
