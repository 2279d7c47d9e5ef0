#!/usr/bin/env python3
# Generates MANIFEST.json from checks.py and properties.jsonl (run by hand after editing either).
import json,os,sys,subprocess
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'); sys.path.insert(0,V)
import checks
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
NA=json.load(open(V+'/tools/not_applicable.json'))
hook=[l.split()[0] for l in subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines() if ' hook: ' in l]
C=[]; N=[]
for i in ids:
    c=checks.CHECKS.get(i)
    if not c: N.append(dict(property=i,reason=NA.get(i,'no check built yet'))); continue
    b='; '.join(j['bounds'] for j in c['jobs'])
    C.append(dict(property=i,quick_cmd='VERIF_TIER=quick python3 /verif/run.py '+i,thorough_cmd='VERIF_TIER=thorough python3 /verif/run.py '+i,evidence_file='evidence/%s.json'%i,
      technique='symbolic execution of the compiled code (LLVM bitcode) with z3; counterexamples replayed natively',level=c.get('level','model_checking'),
      level_note=('Bounded: '+b+'. '+c.get('note','')+' Trusts clang\'s bitcode, the engine and z3; TBB replaced by the shim; timeouts are reported as inconclusive in the evidence, never as violations.')[:3000]))
m=dict(version=1,setup_cmd='bash /verif/setup.sh',hooks=dict(guard='PDT_VERIF_BLOCKSIZE, PDT_VERIF_BASE_CUTOFF, PDT_VERIF_GRAINSIZE',enable='-DPDT_VERIF_BLOCKSIZE=2 when the C06 harness is compiled, -DPDT_VERIF_BASE_CUTOFF=3 when the divide-and-conquer harnesses are, -DPDT_VERIF_GRAINSIZE=2 where loops over small id sets are to be divided',source_commits=hook),checks=C,not_applicable=N,
 notes='All checks: run.py compiles harness/*.cpp with the headers/sources of /repo to LLVM bitcode, engine/symx executes it symbolically, violations are replayed on a native ASan build. See DESIGN.md.')
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); print(len(C),len(N))
