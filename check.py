#!/usr/bin/env python3
"""check.py PROPERTY: decide one property from /repo's current source."""
import sys, os, json, time, importlib, traceback, multiprocessing as mp, resource
HERE=os.path.dirname(os.path.abspath(__file__))
sys.path[:0]=[os.path.join(HERE,'vc'),os.path.join(HERE,'contracts')]
sys.setrecursionlimit(20000)
import numpy as np
import build, llparse, poly, explore, lib
MODS=[f[:-3] for f in sorted(os.listdir(os.path.join(HERE,'contracts'))) if f.startswith('c_') and f.endswith('.py')]
SEED=int(os.environ.get('VERIF_SEED','1') or 1); TIER=os.environ.get('VERIF_TIER','quick')
_built={}
def get_build(spec):
    return _built[bkey(spec)]
def bkey(s): return (tuple(sorted(s['sources'])),tuple(sorted(s['drivers'])))
def outcome(ex):
    return dict(obls=[dict(label=o.label,status=o.status,method=o.method,detail=o.detail,unwit=o.unwit) for o in ex.obls],viol=ex.violations,paths=ex.paths,wit=ex.witnessed,
        called=ex.called,assumed=ex.assumed,steps=ex.steps,problem=ex.problem,samples=ex.samples_checked,smt=ex.smt_time,q=poly.STATS['queries'])
def job(a):
    spec,mode,seed,N,overrides=a
    t=time.time()
    try:
        ll,so,dem,mod=get_build(spec)
        if callable(spec.get(mode+'_run')):
            r=spec[mode+'_run'](spec,mod,so,dem,seed,TIER)
            r.setdefault('wall',time.time()-t); return r
        ex=explore.Explorer(spec,mod,mode,seed=seed,N=N,so=so,dem=dem,overrides=overrides,budget=spec.get('budget',150 if TIER=='quick' else 600))
        ex.run(spec['fn']); r=outcome(ex)
        if mode=='sym' and so and isinstance(spec.get('sized'),tuple) and any(o['status']!='discharged' for o in r['obls']):
            # sizes of the paths that are not discharged: replay natively
            name,lo,hi,mkfn=spec['sized']
            for n in sorted(set(explore.loops.sizes(ex.intfails,name,lo,hi))|{x for x in(lo,lo+1,100,1000,hi) if lo<=x<=hi}):
                try:
                    s2=dict(spec); s2['numN']=max(2,min(20,20000//max(1,n))); s2['name']+=' (replay, size %d)'%n
                    e2=explore.Explorer(s2,mod,'num',seed=seed+n,so=so,dem=dem,budget=30); e2.run(mkfn(n)); r['samples']+=e2.samples_checked
                    r.setdefault('sizes',[]).append((n,e2.samples_checked,len(e2.violations)))
                    if e2.violations: r['viol']=[dict(v,size=n) for v in e2.violations[:3]]; break
                except Exception as e: r['replay_problem']='size %d: %s'%(n,e)
        if mode=='sym' and so and (ex.cands or ex.pathmodels):
            # replay the verifier's candidate counterexamples and the solver's models of paths no sample reaches against the real (natively compiled) code
            done=[]
            for m in ex.cands[::max(1,len(ex.cands)//8)][:10]+ex.pathmodels[:40]:
                if m not in done: done.append(m)
            if not spec.get('nonum'):
                try:
                    s2=dict(spec); s2['numN']=16*len(done)
                    e2=explore.Explorer(s2,mod,'num',seed=seed+1,N=16*len(done),so=so,dem=dem,overrides=done,budget=60); e2.run(spec['fn']); r['viol']=r['viol']+[dict(v,replayed_model=True) for v in e2.violations]
                except Exception as e: r['replay_problem']=str(e)
            if not r['viol'] and ex.pathmodels and any(o['unwit'] and o['status']=='unknown' for o in r['obls']) and time.time()-t<200:
                # second pass: the same exploration with the solver's models among the samples, so that those paths are witnessed
                e3=explore.Explorer(spec,mod,mode,seed=seed,N=N,so=so,dem=dem,overrides=ex.pathmodels[:40],budget=spec.get('budget',150 if TIER=='quick' else 600)); e3.run(spec['fn'])
                r3=outcome(e3)
                if len(r3['obls'])>=len(r['obls'])//2: r=dict(r3,viol=r['viol'])
    except Exception as e:
        r=dict(obls=[],viol=[],paths=0,wit=0,called={},assumed={},steps=0,problem='internal: %s'%e,samples=0,smt=0,q=0,tb=traceback.format_exc())
    r['wall']=time.time()-t
    return r
def main(prop,only=None,verbose=False):
    t0=time.time()
    for m in MODS: importlib.import_module(m)
    specs=[s for s in lib.REG.get(prop,[]) if not only or only in s['name']]
    if not specs: print('no contracts for',prop); return 2
    keys={}
    for s in specs: keys.setdefault(bkey(s),s)
    try:
        import concurrent.futures as cf
        def b(s):
            try: return build.build(s['sources'],s['drivers'])
            except build.BuildError as e:
                if s.get('stub'): return None,str(e)[-2000:]      # the dependency stand-in lacks something the sources now use: no answer from these contracts
                raise
        with cf.ThreadPoolExecutor(4) as tp: res=list(tp.map(b,keys.values()))
    except build.BuildError as e:
        print('EXTRACTION FAILED: the sources do not compile for the verifier:\n'+str(e)[-3000:]); return 3
    nobuild=[]
    for k,(ll,so) in zip(keys,res):
        if ll is None:
            print('UNDECIDED: contracts not extracted: '+so[-600:]); nobuild+=[dict(contract=s['name'],label='(not extracted)',status='unknown',method='',detail=so[-300:],unwit=True) for s in specs if bkey(s)==k]; specs=[s for s in specs if bkey(s)!=k]; continue
        mod=llparse.Module(open(ll).read())
        names=list(mod.funcs)+[d for d in mod.decls]
        _built[k]=(ll,so,build.demangle(names),mod)
    tb=time.time()-t0
    Nn=1500 if TIER=='quick' else 20000
    jobs=[]
    for s in specs:
        if not s.get('nosym'): jobs.append((s,'sym',SEED,s.get('N',384),None))
        if not s.get('nonum'): jobs.append((s,'num',SEED,s.get('numN',Nn) if TIER=='quick' else s.get('numN',Nn)*5,None))
    jobs.sort(key=lambda j:j[1]!='num')     # native runs first: a failing input ends the check
    ctx=mp.get_context('fork'); global _jobs; _jobs=jobs
    outs=[None]*len(jobs); limit=time.time()+(540 if TIER!='thorough' else 780)
    pool=ctx.Pool(max(1,min(8,len(jobs))))
    it=pool.imap_unordered(_run,range(len(jobs)),chunksize=1)
    for _ in jobs:
        try: i,r=it.next(max(1,limit-time.time()))
        except mp.TimeoutError: break
        outs[i]=r
        if r['viol']: break          # a failing input: nothing more to decide
    # Pool.terminate can wait for ever for a lock held by a worker it has just stopped in the middle of sending its result
    import multiprocessing.pool as mpp
    pool._terminate.cancel(); pool._state=mpp.TERMINATE; pool._worker_handler._state=mpp.TERMINATE; pool._task_handler._state=mpp.TERMINATE; pool._worker_handler.join(2)
    for p in list(pool._pool): p.kill()
    why='stopped: failing input found' if any(o and o['viol'] for o in outs) else 'stopped: time limit of the check'
    for i,(s,mode,_,_,_) in enumerate(jobs):
        if outs[i] is None: outs[i]=dict(obls=[dict(label='(not finished)',status='unknown',method='',detail=why,unwit=True)] if mode=='sym' else [],viol=[],paths=0,wit=1,called={},assumed={},steps=0,problem=why,samples=0,smt=0,q=0,wall=0)
    fn_called={}; assumed={}; obl=nobuild; viol=[]; bounded=[]; samples=0; smt=0; q=0; backends={}; per=[]
    for (s,mode,_,_,_),r in zip(jobs,outs):
        if r.get('tb') and verbose: print(r['tb'])
        for o in r['obls']:
            o['contract']=s['name']
            (bounded if s.get('bounded') else obl).append(o)
            if o['status']=='discharged':
                k=o['method'].split(' ')[0]; backends[k]=backends.get(k,0)+1
        if mode=='sym' and not r['obls']: obl.append(dict(contract=s['name'],label='(no obligations generated)',status='unknown',method='',detail=r.get('problem') or '',unwit=True))
        if mode=='sym' and r['obls'] and not r['wit'] and not s.get('sized'): obl.append(dict(contract=s['name'],label='(vacuous: no feasible path)',status='unknown',method='',detail='',unwit=True))
        for v in r['viol']: v['contract']=s['name']; viol.append(v)
        if mode=='num' and r.get('problem','') and 'internal' in str(r['problem']): obl.append(dict(contract=s['name'],label='(native conformance run failed)',status='unknown',method='',detail=str(r['problem'])[:300],unwit=True))
        for k,v in r['called'].items(): fn_called[k]=fn_called.get(k,0)+v
        for k,v in r['assumed'].items(): assumed[k]=assumed.get(k,0)+v
        samples+=r['samples']; smt+=r['smt']; q+=r['q']
        per.append(dict(contract=s['name'],mode=mode,paths=r['paths'],witnessed=r['wit'],obligations=len(r['obls']),instructions=r['steps'],wall_s=round(r['wall'],2),problem=r['problem'],**({'sizes':r['sizes']} if r.get('sizes') else {}),**({'replay_problem':r['replay_problem']} if r.get('replay_problem') else {})))
    dem={}
    for v in _built.values(): dem.update(v[2])
    dis=[o for o in obl if o['status']=='discharged']; ref=[o for o in obl+bounded if o['status']=='refuted']; unk=[o for o in obl+bounded if o['status']=='unknown']
    if verbose:
        for p in per: print(p)
    seen=set()
    for o in ref+unk:
        k=(o['contract'],o['label'],o['status'])
        if k in seen: continue
        seen.add(k); print('%s: %s: %s [%s]%s'%(o['status'].upper(),o['contract'],o['label'],o['detail'][:300],' (path not sampled)' if o['unwit'] else ''))
    rc=0; os.makedirs(os.path.join(HERE,'evidence'),exist_ok=True)
    rp=os.path.join(HERE,'evidence','replay_%s.json'%prop)
    if os.path.exists(rp): os.unlink(rp)
    line=None
    if viol:
        v=viol[0]; json.dump(dict(property=prop,failed_obligations=[o for o in ref][:20],native_counterexamples=viol[:20],how_to_replay='python3 check.py --replay '+rp),open(rp,'w'),indent=1,default=str)
        print('failing input: contract %s, obligation %s: got %s expected %s %s'%(v['contract'],v['label'],v.get('got'),v.get('expected'),v.get('why','')))
        line='VIOLATION property=%s replay=%s'%(prop,rp); rc=1
    elif ref:
        json.dump(dict(property=prop,failed_obligations=ref[:20],note='the verifier refuted these obligations; native sampling found no failing input'),open(rp,'w'),indent=1,default=str)
        line='VIOLATION property=%s replay=%s no-failing-input-found'%(prop,rp); rc=1
    funcs=sorted({f for s in specs for f in s['funcs']})
    ev=dict(property=prop,tier=TIER if TIER in('quick','thorough') else 'quick',seed=SEED,level='other' if prop in lib.BOUNDED_PROPS else 'proof',
      coverage=dict(**(dict(explanation='contracts discharged by the same verifier for symbolic values of every input, but with sizes (points, nodes, planes, iterations) fixed per contract: '+', '.join(sorted({s['name'] for s in specs if s.get('bounded') and not s.get('nosym')}))[:1500]) if prop in lib.BOUNDED_PROPS else {}),obligations=len(obl),discharged=len(dis),checker_cmd='VERIF_TIER=%s python3 check.py %s'%(TIER,prop),
        trusted_base=TRUST,functions_under_contract=funcs,functions_executed_from_ir=sorted({dem.get(k,k)[:140] for k in fn_called})[:200],
        contracts_assumed_at_call_sites=sorted({dem.get(k,k)[:140] for k in assumed}),backends=backends,
        undischarged=[dict(contract=o['contract'],label=o['label'],reason=o['detail'][:200]) for o in unk+ref if o in obl][:40],
        bounded_obligations=len(bounded),bounded_discharged=len([o for o in bounded if o['status']=='discharged']),bounded_contracts=sorted({s['name']+' ['+s['bounded']+']' for s in specs if s.get('bounded')}),
        native_conformance_comparisons=samples,solver_time_s=round(smt,2),solver_queries=q,build_s=round(tb,1),runs=per,
        samples=[dict(contract=o['contract'],label=o['label'],status=o['status'],method=o['method']) for o in (obl+bounded)[:12]]),
      assumptions=ASSUME+sorted({x for s in specs for x in s.get('assumptions',[])}),wall_s=round(time.time()-t0,1),violations=len(viol)+len(ref))
    json.dump(ev,open(os.path.join(HERE,'evidence',prop+'.json'),'w'),indent=1,default=str)
    print('%s: %d/%d obligations discharged (%d bounded), %d native comparisons, %.1f s (build %.1f)'%(prop,len(dis),len(obl),len(bounded),samples,time.time()-t0,tb))
    for kf in known(prop): print('KNOWN-FINDING: property=%s %s'%(prop,kf))
    if line: print(line)
    return rc
def known(prop):
    p=os.path.join(HERE,'known_findings.txt'); r=[]
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s '%prop): r.append(l.split(' ',2)[2].strip())
    return r
def _run(i): return i,job(_jobs[i])
TRUST=['clang 18 front end and opt -O2 scalar passes (IR of /repo sources, no source edits)','the VC generator in /verif/vc (IR semantics, memory model)','Schwartz-Zippel identity test over GF(2^61-1) at 4 to 10 random points (error below 2^-100 per identity)','z3 4.8.12 / cvc5 1.1.2 for path feasibility and inequalities','LLVM IR of Eigen 3.4 inlined and executed except for the routines listed under contracts_assumed_at_call_sites','exact loop summaries (vc/loops.py): affine inductions, sums and array maps from one generic iteration, for arrays of symbolic length']
ASSUME=['double arithmetic treated as exact real arithmetic in the proofs (rounding covered only by the bounded native conformance run)','libm sin/cos/acos/atan2/sqrt assumed to be the mathematical functions','inputs finite (no NaN/inf)']
def replay(path):
    d=json.load(open(path)); prop=d['property']
    for m in MODS: importlib.import_module(m)
    bad=0
    for v in d.get('native_counterexamples',[])[:5]:
        s=[s for s in lib.REG[prop] if s['name']==v['contract']][0]; ll,so=build.build(s['sources'],s['drivers'])
        out,crash=explore.run_native(so,v['driver'],np.array([v['input']]),400)
        print(v['contract'],v['label'],'input',v['input'],'output',[x for x in out[0].tolist() if x==x],'expected',v.get('expected'),crash)
    return 0
if __name__=='__main__':
    if sys.argv[1]=='--replay': sys.exit(replay(sys.argv[2]))
    rc=main(sys.argv[1],sys.argv[2] if len(sys.argv)>2 and sys.argv[2]!='-v' else None,'-v' in sys.argv)
    sys.stdout.flush(); sys.stderr.flush()
    if build._tmp: import shutil; shutil.rmtree(build._tmp,True)
    os._exit(rc)      # nothing left to wait for: no handler thread or pool can hold the answer back
