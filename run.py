#!/usr/bin/env python3
"""Runner: decides one property.  usage: run.py <property> [--keep] [--job name] [--verbose]
Compiles the harnesses of the property against /repo's working tree to LLVM bitcode, runs the symbolic engine on
them, replays every counterexample (and sample traces) natively against the real code, writes evidence/<id>.json."""
import sys, os, json, subprocess, time, shutil, hashlib, re, signal
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,V)
REPO=os.environ.get('SYMX_REPO','/repo')
CXX='clang++-18'
COMMON=['-std=c++17','-g1','-ffp-contract=off','-D_GLIBCXX_EXTERN_TEMPLATE=0','-D_GLIBCXX_ASSERTIONS','-isystem',V+'/shim','-I'+REPO+'/include','-I'+REPO,'-I'+V+'/harness','-iquote',REPO+'/include/utils','-fopenmp-simd','-w']
BCF=['-O1','-fno-vectorize','-fno-slp-vectorize','-fno-unroll-loops','-emit-llvm','-c']
ASANF=['-O1','-fsanitize=address','-fno-omit-frame-pointer','-fno-vectorize','-fno-slp-vectorize']
def sh(cmd,timeout=None,env=None):
    try:
        p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,env=env,errors='replace'); return p.returncode,p.stdout
    except subprocess.TimeoutExpired as e:
        return 124,(e.stdout or b'').decode(errors='replace') if isinstance(e.stdout,bytes) else (e.stdout or '')
def main():
    prop=sys.argv[1]; verbose='--verbose' in sys.argv; keep='--keep' in sys.argv; only=sys.argv[sys.argv.index('--job')+1] if '--job' in sys.argv else None
    tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1') or 1)
    t0=time.time()
    import checks
    chk=checks.CHECKS[prop]; jobs=[j for j in chk['jobs'] if (tier=='thorough' or not j.get('thorough_only')) and (not only or j['name']==only)]
    B=V+'/build'; os.makedirs(B,exist_ok=True); os.makedirs(V+'/evidence',exist_ok=True)
    if not os.path.exists(B+'/symx') or not os.path.exists(B+'/rt.bc'):
        rc,o=sh(['bash',V+'/setup.sh']); 
        if rc: print(o[-3000:]); print('ERROR: setup failed'); sys.exit(2)
    W=B+'/work-%s-%d'%(prop,os.getpid()); shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
    RP=V+'/evidence/replay-'+prop; shutil.rmtree(RP,ignore_errors=True); os.makedirs(RP)
    try: rc=decide(prop,chk,jobs,tier,seed,B,W,RP,t0,verbose)
    finally:
        if not keep: shutil.rmtree(W,ignore_errors=True)
    sys.exit(rc)
def unitkey(j): return hashlib.md5(json.dumps([j['h'],j.get('defs',[]),j.get('ubsan',True)]).encode()).hexdigest()[:10]
def compile_bc(j,B,W):
    k=unitkey(j); src=V+'/harness/'+j['h']+'.cpp'; out=W+'/'+k+'.bc'
    ub=['-fsanitize=shift-exponent,float-cast-overflow,integer-divide-by-zero,null,return,unreachable','-fno-sanitize-recover=all'] if j.get('ubsan',False) else []
    rc,o=sh([CXX]+COMMON+BCF+ub+j.get('defs',[])+[src,'-o',out+'.0'],600)
    if rc: return k,None,o
    srcs=[out+'.0']
    for x in j.get('srcs',[]):
        x2=out+'.'+os.path.basename(x)+'.bc'; rc,o=sh([CXX]+COMMON+BCF+ub+j.get('defs',[])+[x.replace('REPO',REPO),'-o',x2],600)
        if rc: return k,None,o
        srcs.append(x2)
    rc,o=sh(['llvm-link-18']+srcs+[B+'/rt.bc','-o',out],120)
    return (k,out,o) if rc==0 else (k,None,o)
def compile_native(j,B,W):
    k=unitkey(j); src=V+'/harness/'+j['h']+'.cpp'; out=W+'/'+k+'.exe'
    objs=[]
    for x in [src]+[y.replace('REPO',REPO) for y in j.get('srcs',[])]:
        b=out+'.'+os.path.basename(x)+'.bc'
        rc,o=sh([CXX]+COMMON+ASANF+['-DSYMX_NATIVE','-emit-llvm','-c']+j.get('defs',[])+[x,'-o',b],600)
        if rc: return k,None,o
        rc,o=sh([B+'/symx','--instrument',b+'.i.bc',b],120)
        if rc: return k,None,o
        ob=b+'.o'
        rc,o=sh([CXX,'-O1','-c','-fPIC',b+'.i.bc','-o',ob],600)
        if rc: return k,None,o
        objs.append(ob)
    rc,o=sh([CXX,'-fsanitize=address','-no-pie','-Wl,--unresolved-symbols=ignore-all']+objs+[B+'/native_rt.o','-o',out,'-lpthread'],300)
    return (k,out,o) if rc==0 else (k,None,o)
def run_engine(j,bc,W,tier,params,tag,B):
    out=W+'/'+tag+'.json'
    tm=j.get('time',60) if tier=='quick' else j.get('ttime',max(240,j.get('time',60)))
    cmd=[B+'/symx','--out',out,'--time',str(tm),'--qtimeout',str(j.get('qtimeout',10)),'--pre',str(j.get('tpre',j.get('pre',2)) if tier=='thorough' else j.get('pre',2)),'--steps',str(j.get('steps',3000000)),'--search',j.get('search','dfs'),'--ite',str(j.get('ite',72)),'--mem',str(j.get('mem',3))]
    for p in params: cmd+=['--param',str(p)]
    if j.get('race'): cmd.append('--race')
    cmd+=j.get('opts',[])
    cmd.append(bc); t=time.time(); rc,o=sh(cmd,tm*2+120)
    if not os.path.exists(out): return None,'engine rc=%d %s'%(rc,o[-1500:]),time.time()-t
    return json.load(open(out)),o,time.time()-t
def write_trace(path,j,params,tr,meta):
    with open(path,'w') as f:
        for p in params: f.write('P %d\n'%p)
        for n,v in tr['inputs']: f.write('V %s\n'%v)
        for s in tr['sched']: f.write('S %d\n'%s)
        f.write('# '+json.dumps(meta)+'\n')
def native(exe,trace,alarm=20):
    env=dict(os.environ,SYMX_ALARM=str(alarm),ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0',UBSAN_OPTIONS='halt_on_error=1')
    return sh([exe,trace],alarm+15,env)
def confirms(v,rc,o):
    """does the native outcome reproduce the engine's verdict?"""
    k=v['kind']
    if rc==3 and 'SYMX-DIVERGED' in o: return False
    if k=='assert': return ('SYMX-VIOLATION '+v['label']) in o or rc in (77,-signal.SIGSEGV,-signal.SIGABRT)
    if k in('memory','ub','abort','exception'): return rc not in(0,3,124,-signal.SIGALRM) 
    if k=='nontermination': return rc in(-signal.SIGALRM,124)or rc in(77,-signal.SIGSEGV)
    if k=='race': return rc!=99 # decided by happens-before on a feasible path; the native replay shows the path is real
    if k=='deadlock': return 'SYMX-VIOLATION deadlock' in o or rc in(-signal.SIGALRM,124)
    return False
def decide(prop,chk,jobs,tier,seed,B,W,RP,t0,verbose):
    known=[k for k in json.load(open(V+'/known_findings.json'))['findings'] if k['property']==prop and k.get('status','known')=='known']
    units={}
    for j in jobs: units.setdefault(unitkey(j),j)
    ncpu=min(8,os.cpu_count() or 4); pool=ThreadPoolExecutor(ncpu); npool=ThreadPoolExecutor(4)
    bcs={k:pool.submit(compile_bc,j,B,W) for k,j in units.items()}
    nats={k:npool.submit(compile_native,j,B,W) for k,j in units.items()}
    runs=[]
    for j in jobs:
        k,bc,o=bcs[unitkey(j)].result()
        if not bc: print(o[-4000:]); print('ERROR: harness %s does not compile against the current tree'%j['h']); return 2
        plist=j.get('tparams',j.get('params',[[]])) if tier=='thorough' else j.get('params',[[]])
        for i,p in enumerate(plist): runs.append((j,p,pool.submit(run_engine,j,bc,W,tier,p,'%s-%d'%(j['name'],i),B)))
    agg=dict(paths=0,paths_completed=0,paths_assumed_away=0,steps=0,forks=0,queries=0,sat=0,unsat=0,unknown=0,cache_hits=0,asserts=0,asserts_proved_by_solver=0,asserts_folded=0,solver_s=0.0)
    funcs=set(); reached={}; labels={}; jobrep=[]; viol=[]; incon=[]; samples=[]; validated=0; valfail=[]; errs=[]; vac=[]
    todo=[]
    for j,p,f in runs:
        d,o,wall=f.result()
        if d is None: errs.append('%s%s: %s'%(j['name'],p,o)); continue
        for k in agg: agg[k]+=d[k]
        funcs|=set(d['functions'])
        for k,v in d['reached'].items(): reached[k]=reached.get(k,0)+v
        for k,v in d['assert_labels'].items(): labels[k]=labels.get(k,0)+v
        jobrep.append(dict(job=j['name'],params=p,harness='harness/%s.cpp'%j['h'],bounds=j.get('bounds',''),exhausted=d['exhausted'],paths=d['paths'],queries=d['queries'],unknown=d['unknown'],solver_s=round(d['solver_s'],2),wall_s=round(wall,2),unsupported=d['unsupported'],reached=d['reached']))
        if verbose: print('  %-28s %s exh=%s paths=%d q=%d unk=%d solver=%.1f wall=%.1f unsup=%s reach=%s'%(j['name'],p,d['exhausted'],d['paths'],d['queries'],d['unknown'],d['solver_s'],wall,d['unsupported'],d['reached']),flush=True)
        for m in j.get('must_reach',['end']):
            if not d['reached'].get(m) and not d['violations']: (vac if d['exhausted'] else incon).append('%s%s: witness "%s" not reached'%(j['name'],p,m))
        for i,v in enumerate(d['violations']):
            if 'recursion' in v['label'] or True:
                path='%s/%s-%s-%d.trace'%(RP,j['name'],'_'.join(map(str,p)),i); write_trace(path,j,p,v,dict(property=prop,job=j['name'],kind=v['kind'],label=v['label'],msg=v['msg'],loc=v['loc'],inputs=v['inputs'],harness=j['h'],defs=j.get('defs',[]),params=p)); todo.append((j,p,v,path))
        ns=0
        for i,s in enumerate(d['samples']):
            path='%s/%s-%s-s%d.trace'%(W,j['name'],'_'.join(map(str,p)),i); write_trace(path,j,p,s,{}); samples.append((j,p,s,path))
    # native replay
    exes={}
    for k,fu in nats.items():
        kk,exe,o=fu.result()
        if not exe: errs.append('native build failed: '+o[-1500:])
        exes[k]=exe
    res={}
    seen=set(); out_v=[]; out_k=[]
    def rp(x): j,p,v,path=x; exe=exes.get(unitkey(j)); return native(exe,path,j.get('alarm',10)) if exe else (99,'no native build')
    for x,(rc,o) in zip(todo,pool.map(rp,todo)):
        j,p,v,path=x; key=(j['name'],v['kind'],v['label'])
        if confirms(v,rc,o):
            m=[k for k in known if k['label']==v['label'] and k.get('job',j['name'])==j['name'] and re.search(k.get('loc',''),v['loc'])]
            if m:
                if m[0]['id'] not in out_k: out_k.append(m[0]['id']); print('KNOWN-FINDING: property=%s %s'%(prop,m[0]['what']))
            elif key not in seen:
                seen.add(key); out_v.append(dict(job=j['name'],params=p,kind=v['kind'],label=v['label'],loc=v['loc'],inputs=v['inputs'],replay=path)); print('VIOLATION property=%s replay=%s'%(prop,path)); print('   %s/%s: %s [%s] at %s; inputs %s'%(v['kind'],v['label'],v['msg'],j['name'],v['loc'][:300],v['inputs'][:24]),flush=True)
        else: incon.append('%s%s: counterexample %s/%s did not reproduce natively (rc=%d): %s | %s'%(j['name'],p,v['kind'],v['label'],rc,v['loc'][:200],o[-200:]))
    if samples:
        import random; rnd=random.Random(seed); rnd.shuffle(samples); sel=samples[:40]
        for x,(rc,o) in zip(sel,pool.map(rp,sel)):
            if rc==0 and 'SYMX-OK' in o: validated+=1
            else: valfail.append('%s%s rc=%d %s inputs=%s'%(x[0]['name'],x[1],rc,o[-300:],x[2]['inputs'][:20]))
    samp=[dict(job=x[0]['name'],params=x[1],inputs=x[2]['inputs'][:30],schedule=x[2]['sched'][:60]) for x in samples[:4]] or [dict(note='no path completed')]
    level=chk.get('level','model_checking')
    cov=dict(states=agg['paths_completed'],transitions=agg['steps'],traces_validated_against_impl=validated,samples=samp,exhaustive=all(r['exhausted'] for r in jobrep) and bool(jobrep),
        meaning='states = symbolic paths completed (each stands for every input/schedule satisfying its path condition); transitions = LLVM instructions executed symbolically; traces_validated = sampled path models replayed on a native ASan build of the same harness and the real code, agreeing with the symbolic run',
        symbolic=dict(agg,solver_s=round(agg['solver_s'],2)),functions_encoded=sorted(funcs),assertions=labels,reach_witnesses=reached,jobs=jobrep,inconclusive=incon,trace_validation_failures=valfail,engine_errors=errs,known_findings_seen=out_k)
    ev=dict(property=prop,tier=tier,seed=seed,level=level,coverage=cov,assumptions=chk.get('assumptions',[])+checks_common(),wall_s=round(time.time()-t0,2),violations=len(out_v),violation_details=out_v)
    json.dump(ev,open(V+'/evidence/%s.json'%prop,'w'),indent=1)
    print('%s %s: paths=%d queries=%d (sat %d, unsat %d, unknown %d, cached %d) solver=%.1fs functions=%d asserts=%d proved=%d validated=%d/%d exhausted=%d/%d inconclusive=%d wall=%.1fs'%(prop,tier,agg['paths_completed'],agg['queries'],agg['sat'],agg['unsat'],agg['unknown'],agg['cache_hits'],agg['solver_s'],len(funcs),agg['asserts'],agg['asserts_proved_by_solver']+agg['asserts_folded'],validated,validated+len(valfail),sum(r['exhausted'] for r in jobrep),len(jobrep),len(incon),time.time()-t0))
    for x in incon[:8]: print('  inconclusive: '+x[:600])
    for x in valfail[:5]: print('  trace validation failure: '+x[:600])
    for x in errs: print('  engine error: '+x[:1500])
    if out_v: return 1
    if errs or (vac and not todo): 
        for x in vac: print('  vacuous: '+x)
        return 2
    return 0
def checks_common(): return ['the LLVM-18 -O1 bitcode clang produces is a faithful rendering of the source; z3 is sound','sequential consistency for atomics; thread schedules bounded by the stated number of preemptions','allocation never fails','TBB is replaced by the shim in /verif/shim/tbb (each loop body / split is run in every order the harness allows)']
main()
