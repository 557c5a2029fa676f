"""Runner of one property's check: build from /repo, discharge the obligations, fall back, replay, report, write evidence."""
import sys, os, json, time, importlib, multiprocessing as mp, subprocess, signal, traceback, concurrent.futures as cf
sys.setrecursionlimit(20000)
from . import build, spec, solver
VERIF=build.VERIF
MODS=[]
def worker(q,tid,prop,name,assign,dec,timeout):
    try:
        signal.alarm(int(2*timeout+30))
        r=pack(spec.run_symbolic(spec.CASES[prop][name],MODS,assign,timeout,[dec]))
        q.put((tid,r,dict(solver.stats)))
    except BaseException as e:
        q.put((tid,blank('unsupported','engine: '+traceback.format_exc()[-900:],assign),dict(solver.stats)))
def blank(status,detail,assign): return dict(status=status,detail=detail,mode='proof' if assign is None else 'bounded',obl=[],assumed=[],called=[],paths=0,time=0,loops=0,bounds=0,assign=assign,n=0,disch=0,by={},names=[],steps=0,cex=[])
def merge(parts,assign):
    """results of the splits of one case"""
    r=blank('proved','',assign)
    for p in parts:
        for k in('paths','time','loops','bounds','n','disch','steps'): r[k]+=p[k]
        r['obl']+=p['obl']; r['cex']=(r['cex']+p['cex'])[:6]
        for k in('assumed','called','names'): r[k]=sorted(set(r[k])|set(p[k]))
        for k,v in p['by'].items(): r['by'][k]=r['by'].get(k,0)+v
    st=[p['status'] for p in parts]
    for s in('refuted','error','unsupported','undecided'):
        if s in st: r['status']=s; r['detail']=next(p['detail'] for p in parts if p['status']==s); break
    else:
        if not r['n']: r['status']='vacuous'
    r['obl']=r['obl'][:20]
    return r
def pack(r):
    from collections import Counter
    return dict(status=r.status,detail=r.detail[:1500],mode=r.mode,assign=r.assign,paths=r.paths,time=r.time,loops=r.loops,bounds=r.bounds,steps=r.steps,
        obl=[(n,s,h,d[:1200]) for n,s,h,d in r.obl if s!='discharged'][:20],n=len(r.obl),disch=sum(o[1]=='discharged' for o in r.obl),
        by=dict(Counter(o[2] for o in r.obl if o[1]=='discharged')),cex=r.cex[:3],names=sorted({o[0] for o in r.obl}),assumed=sorted(r.assumed),called=sorted(r.called))
def extents(cs):
    """names of the extents of a case and small assignments for the bounded stand-in"""
    import itertools
    from . import terms as T
    ex=[]
    for d in spec.splits(cs):
        c=spec.SymBase(cs,None,None,d); T.oracle[0]=c.decide
        try: next(cs.fn(c))
        except spec.Reject: pass
        finally: T.oracle[0]=None
        ex+=[k for k,v in c.inputs.items() if k not in ex and isinstance(v,T.Poly) and any(a.isext for m in v.d for a,_ in m)]
    if cs.ext.get('assign'): return cs.ext['assign']
    alls=sorted(itertools.product(range(1,cs.bound+1),repeat=len(ex)),key=lambda t:(sum(t),t))
    return [dict(zip(ex,t)) for t in alls][:cs.maxbound]
def run_tasks(prop,tasks,timeout,jobs,stop=None,deadline=None):
    """tasks: {tid:(case,assign,dec)}; stop(tid,result,results): tids to drop"""
    ctx=mp.get_context('fork'); q=ctx.Queue(); res={}; st=[]; pend=list(tasks); live={}; dropped=set()
    while pend or live:
        while pend and len(live)<jobs:
            t=pend.pop(0)
            if t in dropped: continue
            n,a,d=tasks[t]; p=ctx.Process(target=worker,args=(q,t,prop,n,a,d,timeout)); p.start(); live[t]=(p,time.time())
        try:
            t,out,s=q.get(timeout=0.3)
            if t in live: live[t][0].join(); del live[t]
            res[t]=out; st.append(s)
            if stop: dropped|=stop(t,out)
        except Exception:
            for t,(p,t1) in list(live.items()):
                if t in dropped: p.kill(); p.join(); del live[t]; continue
                if not p.is_alive() and q.empty():
                    time.sleep(.2)
                    if q.empty(): res[t]=blank('unsupported','worker ended (%s)'%p.exitcode,tasks[t][1]); del live[t]
                elif time.time()-t1>2*timeout+20 or (deadline and time.time()>deadline):
                    p.kill(); p.join(); res[t]=blank('unsupported','time limit',tasks[t][1]); del live[t]
        if deadline and time.time()>deadline:
            for t in pend: res[t]=blank('unsupported','time limit',tasks[t][1])
            pend=[]
    return res,st
def run_cases(prop,names,bcs,timeout,jobs=8,deadline=None,budget=60):
    """proof of every case (split over its preconditions' decisions), then bounded stand-ins where the proof does not go through"""
    from .llvmc import Module
    MODS[:]=[Module(b) for b in bcs]
    C=spec.CASES[prop]; tasks={}; out={n:[] for n in names}; stats=[]
    for n in names:
        if C[n].proof:
            for i,d in enumerate(spec.splits(C[n])): tasks[(n,i)]=(n,None,d)
    bad={}
    def stop(t,r):
        if r['status'] in('refuted','unsupported','undecided','error'):
            bad.setdefault(t[0],r)
            return {x for x in tasks if x[0]==t[0]}  # one open split is enough to go to the stand-in
        return set()
    res,s=run_tasks(prop,tasks,timeout,jobs,stop,deadline); stats+=s
    for n in names:
        if C[n].proof: out[n].append(merge([r for t,r in res.items() if t[0]==n] or [blank('unsupported','no result',None)],None))
    tasks={}; sp={}
    k=0
    todo=[n for n in names if not C[n].proof or out[n][0]['status']!='proved']
    for n in todo:
        for ai,a in enumerate(extents(C[n])):
            for i,d in enumerate(spec.splits(C[n],a)): tasks[(n,ai,i)]=(n,a,d)
    if tasks:
        order=sorted(tasks,key=lambda t:(t[1],t[0],t[2])); tasks={t:tasks[t] for t in order}
        def stop2(t,r):
            if r['status']=='refuted': return {x for x in tasks if x[0]==t[0]}
            if r['status'] in('unsupported','undecided','error'): return {x for x in tasks if x[0]==t[0] and x[1]>=t[1]}
            return set()
        dl=time.time()+budget*max(1,len(todo)/3)
        res,s=run_tasks(prop,tasks,timeout,jobs,stop2,min(dl,deadline) if deadline else dl); stats+=s
        for n in todo:
            for ai in sorted({t[1] for t in tasks if t[0]==n}):
                want=[t for t in tasks if t[0]==n and t[1]==ai]; got=[res[t] for t in want if t in res]
                if not got: continue
                r=merge(got,tasks[want[0]][1])
                if len(got)<len(want) and r['status'] in('proved','vacuous'): continue
                out[n].append(r)
    for n in names:
        if not out[n]: out[n]=[blank('unsupported','no result',None)]
    return out,stats
def run_native(prop,so,names,seed,trials,timeout,cex=None):
    """native search; returns {case: {...}}; crashes and hangs are attributed to the case being run"""
    d=build.scratch(); res={}; todo=list(names); tag=0
    env=dict(os.environ,MALLOC_PERTURB_='165',PYTHONPATH=VERIF)
    end=time.time()+timeout
    json.dump(cex or {},open(d+'/cex.json','w')); env['VERIF_CEX']=d+'/cex.json'
    groups=[todo[i::6] for i in range(6)]
    def go(g,i):
        r={}; rest=list(g); k=0
        while rest:
            out='%s/nat%d_%d.json'%(d,i,k); k+=1
            left=max(5,end-time.time())
            try: p=subprocess.run([sys.executable,'-m','vcgen.native',prop,so,out,str(seed),str(trials)]+rest,env=env,capture_output=True,text=True,timeout=left,cwd=VERIF); rc=p.returncode; err=p.stderr
            except subprocess.TimeoutExpired: rc='timeout'; err=''
            got=json.load(open(out)) if os.path.exists(out) else {}
            r.update(got)
            if rc==0: break
            cur=json.load(open(out+'.cur')) if os.path.exists(out+'.cur') and os.path.getsize(out+'.cur') else None
            if rc=='timeout':
                for n in rest: r.setdefault(n,dict(done=0,checks=0,note='native run did not finish in time'))
                if cur is not None: r[cur['case']]=dict(done=0,checks=0,note='native run did not finish in time',hang=cur['inputs'])
                break
            if rc<0 and cur is not None and cur['case'] in rest:
                n=cur['case']; r[n]=dict(done=1,checks=1,fail=dict(inputs=cur['inputs'],failures=[('native execution','killed by signal %d'%-rc,'returns',{})]))
                rest=rest[rest.index(n)+1:]
            else:
                for n in rest: r.setdefault(n,dict(done=0,checks=0,note='native worker error: '+err[-240:]))
                break
        return r
    with cf.ThreadPoolExecutor(6) as ex:
        for r in ex.map(lambda t:go(t[1],t[0]),[(i,g) for i,g in enumerate(groups) if g]): res.update(r)
    return res
def known(prop):
    fs=[]
    p=VERIF+'/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s '%prop):
                kv=dict(w.split('=',1) for w in l.split() if '=' in w); fs.append((kv.get('case'),l.strip()[9:]))
    return fs
def main(argv):
    prop=argv[0]; only=argv[1:]
    tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1')); t0=time.time()
    mod=importlib.import_module('checks.'+prop)
    cases=spec.CASES[prop]; names=[n for n in cases if not only or n in only]
    timeout=getattr(mod,'TIMEOUT',60)*(4 if tier=='thorough' else 1)
    try:
        with cf.ThreadPoolExecutor(2) as ex:
            fi=ex.submit(build.compile_ir,mod.IR,getattr(mod,'FLAGS',()),8,getattr(mod,'JT',False)); fn=ex.submit(build.compile_native,getattr(mod,'NATIVE',mod.IR),prop,getattr(mod,'FLAGS',()),getattr(mod,'LIBS',()))
            bcs=fi.result(); so=fn.result()
    except build.BuildError as e:
        print('check: build of the code under verification failed'); print(str(e)[-3000:]); sys.exit(2)
    tb=time.time()-t0
    end=t0+(640 if tier!='thorough' else 3*3600)
    res,st=run_cases(prop,names,bcs,timeout,deadline=max(time.time()+60,end-100))
    proved=[n for n in names if res[n][0]['mode']=='proof' and res[n][0]['status']=='proved']
    rest=[n for n in names if n not in proved]
    k=4 if tier=='thorough' else 1
    nat=run_native(prop,so,proved,seed,20*k,120*k) if proved else {}
    if rest: nat.update(run_native(prop,so,rest,seed,max(cases[n].trials for n in rest)*k,240*k,{n:[x for o in res[n] for x in o['cex']] for n in rest}))
    kf=known(prop); viol=[]; kfs=[]; bounded=[]; undecided=[]
    rdir=VERIF+'/evidence/replay'; os.makedirs(rdir,exist_ok=True)
    for n in names:
        outs=res[n]; nr=nat.get(n,{}); final=None
        if nr.get('fail'):
            final=('failing input',dict(inputs=nr['fail']['inputs'],failures=nr['fail']['failures']))
        else:
            ref=[o for o in outs if o['status']=='refuted']
            bref=[o for o in ref if o['mode']=='bounded']
            bok=[o for o in outs if o['mode']=='bounded' and o['status']=='proved']
            if bref: final=('refuted at extents %s'%bref[0]['assign'],dict(obligations=bref[0]['obl'],detail=bref[0]['detail']))
            elif ref and not bok: final=('refuted',dict(obligations=ref[0]['obl'],detail=ref[0]['detail']))
        if final is None:
            if n in proved: continue
            b=[o for o in outs if o['mode']=='bounded' and o['status']=='proved']
            (bounded if b else undecided).append(n); continue
        f=[x for x in kf if x[0]==n]
        if f: kfs.append(f[0][1]); continue
        path='%s/%s_%s.json'%(rdir,prop,n.replace('/','_'))
        json.dump(dict(property=prop,case=n,contract=cases[n].doc,entry=cases[n].entry,kind=final[0],verifier=[dict(mode=o['mode'],status=o['status'],assign=o['assign'],failed=o['obl'],detail=o['detail']) for o in outs],**final[1]),open(path,'w'),indent=1,default=str)
        viol.append((n,path,final[0]=='failing input',final))
    ev=evidence(prop,mod,cases,names,res,st,nat,proved,bounded,undecided,viol,kfs,tier,seed,tb,time.time()-t0)
    os.makedirs(VERIF+'/evidence',exist_ok=True)
    json.dump(ev,open('%s/evidence/%s.json'%(VERIF,prop),'w'),indent=1)
    for n in names:
        o=res[n][0]; print('%-34s %-11s %5d obligations %4d loops %5.1fs  native %s %s'%(n,'proved' if n in proved else ('bounded' if n in bounded else 'undecided' if n in undecided else 'VIOLATED'),sum(x.get('n',0) for x in res[n]),o['loops'],sum(x['time'] for x in res[n]),nat.get(n,{}).get('done','-'),'' if n in proved else o['detail'][:200].replace('\n',' ')))
        if nat.get(n,{}).get('note'): print('   ',nat[n]['note'][:300])
    print('build %.1fs total %.1fs'%(tb,time.time()-t0))
    for l in kfs: print('KNOWN-FINDING: '+l)
    for n,path,found,final in viol:
        print('case %s: %s: %s'%(n,final[0],json.dumps(final[1],default=str)[:900]))
    for n,path,found,final in sorted(viol,key=lambda v:not v[2])[:1]:
        print('VIOLATION property=%s replay=%s%s'%(prop,path,'' if found else ' no-failing-input-found'))
    sys.exit(1 if viol else 0)
def evidence(prop,mod,cases,names,res,st,nat,proved,bounded,undecided,viol,kfs,tier,seed,tb,wall):
    ass=set(GENERIC)|set(getattr(mod,'ASSUME',()))
    for n in names:
        for o in res[n]: ass|=set(o['assumed'])
    pr=[res[n][0] for n in proved]
    by={}
    for o in pr:
        for k,v in o['by'].items(): by[k]=by.get(k,0)+v
    called=set()
    for n in names:
        for o in res[n]: called|=set(o['called'])
    repo=sorted(c for c in called if any(w in c for w in ('mode::','Mode','qbit::','Qbit','spin::','Spin','structure::','quantumdata::','quantumoperator::','cppqedutils::','blitzplusplus::','binary::','composite::','trajectory::','jaynes','JaynesCummings','multilevel','parameters::','mathutils','ode_engine','quantumtrajectory::','CoupledModes','coupledmodes','particle::','ladder','evolution','initialcondition')) and not c.startswith('std::'))
    allob=sum(o['n'] for n in names for o in res[n][:1] if o['mode']=='proof'); dis=sum(o['disch'] for o in pr)
    cov=dict(obligations=sum(o['n'] for o in pr)+sum(o['bounds'] for o in pr),discharged=dis+sum(o['bounds'] for o in pr),
        checker_cmd='bin/check '+prop+'  (vcgen: LLVM IR of the current tree -> obligations; back ends: polynomial normal form, z3)',
        trusted_base=['clang-18 front end and -O1 (IR is what is verified)','vcgen engine and loop-summary rules','z3']+sorted(ass),
        contracts_proved=proved,contracts_bounded=[dict(case=n,bound='extents: '+', '.join(str(o['assign']) for o in res[n] if o['mode']=='bounded' and o['status']=='proved'),reason=(res[n][0]['detail'] if res[n][0]['mode']=='proof' else cases[n].why_bounded)[:300],obligations=sum(o['n'] for o in res[n] if o['mode']=='bounded')) for n in bounded],
        contracts_undecided=[dict(case=n,reason=res[n][0]['detail'][:300]) for n in undecided],
        discharged_by=by,loops_with_inferred_invariants=sum(o['loops'] for o in pr),paths=sum(o['paths'] for o in pr),
        functions_under_contract=sorted({cases[n].entry for n in names}),functions_verified_text=repo[:400],functions_executed=len(called),
        solver=dict(queries=sum(s.get('queries',0) for s in st),seconds=round(sum(s.get('time',0) for s in st),2),unknown=sum(s.get('unknown',0) for s in st)),
        native_replays=sum(r.get('done',0) for r in nat.values()),native_checks=sum(r.get('checks',0) for r in nat.values()),
        samples=[dict(case=n,contract=cases[n].doc[:300],obligations=res[n][0].get('names',[])[:12],status='proved' if n in proved else 'bounded' if n in bounded else 'open',native_sample=str(nat.get(n,{}).get('sample',''))[:300]) for n in names[:12]],
        build_s=round(tb,1))
    return dict(property=prop,tier=tier,seed=seed,level='proof',coverage=cov,assumptions=sorted(ass),wall_s=round(wall,2),violations=len(viol))
GENERIC=['IEEE doubles are treated as real numbers (rounding, NaN and overflow not modelled)','machine integers are treated as mathematical integers (no wrap-around) where not constant','arrays handed in by the harness are distinct and suitably sized (is_fresh)','library callees listed are used by contract']
if __name__=='__main__': main(sys.argv[1:])
