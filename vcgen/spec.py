import os
"""Contracts.  A case is a generator function over a context c:

    @case('C10','mode.jump',entry='h_mode_jump')
    def mode_jump(c):
        n=c.extent('n'); kappa=c.real('kappa',nonneg=True); psi=c.carr('psi',n)      # requires
        yield c.call(psi,n,kappa)                                                    # the real code
        i=c.idx('i',n)                                                               # for all i
        c.ensure('amplitude',psi.new(i),...)                                         # ensures

The same text is evaluated (1) over symbolic terms with symbolic extents: the proof; (2) over symbolic terms with small
concrete extents: bounded stand-in; (3) over numbers with the natively compiled code: replay and search for failing inputs."""
import math, cmath, random, time, itertools, os
from fractions import Fraction as Fr
from .terms import *
from . import terms as T
from . import solver

CASES={}
class Case:
    def __init__(s,prop,name,entry,fn,**kw):
        s.prop=prop; s.name=name; s.entry=entry; s.fn=fn; s.doc=(fn.__doc__ or '').strip()
        s.ret=kw.get('ret'); s.bound=kw.get('bound',3); s.maxbound=kw.get('maxbound',40); s.tol=kw.get('tol',1e-9)
        s.contracts=kw.get('contracts',{}); s.trials=kw.get('trials',60); s.proof=kw.get('proof',True); s.peel=kw.get('peel',False)
        if s.proof=='thorough': s.proof=os.environ.get('VERIF_TIER')=='thorough'   # too expensive for every change
        s.timeout=kw.get('timeout',90)
        s.why_bounded=kw.get('why_bounded',''); s.ext=kw.get('ext',{}); s.unroll=kw.get('unroll',64); s.maxext=kw.get('maxext',5); s.maxpaths=kw.get('maxpaths',400)
        s.kw=kw
def case(prop,name,entry,**kw):
    def d(fn):
        c=Case(prop,name,entry,fn,**kw); CASES.setdefault(prop,{})[name]=c
        return fn
    return d

class Reject(Exception): pass
class CallMark:
    def __init__(s,args): s.args=args

# ================================================================ symbolic context
class SArr:
    def __init__(s,c,name,dims,kind):
        s.c=c; s.name=name; s.dims=dims; s.kind=kind; s.es={'c':16,'d':8,'i':4,'l':8}[kind]
        n=1
        for d in dims: n=mul(n,d)
        s.n=n; s.oid=None
    def flat(s,idx):
        r=0
        for i,d in zip(idx,s.dims): r=add(mul(r,d),i)
        return r
    def basefn(s):
        nm=s.name; es=8 if s.kind!='i' else 4; srt='I' if s.kind in 'il' else 'R'
        def base(off,size,ty):
            q=div(off,es)
            if size!=es: raise Unsupported('access of size %d in %s'%(size,nm))
            return app(nm,(q,),srt)
        base.es=es
        return base
    def old(s,*idx):
        f=s.flat(idx)
        if s.kind=='c': return Cx(app(s.name,(scale(f,2),)),app(s.name,(add(scale(f,2),1),)))
        return app(s.name,(f,),'I' if s.kind in'il' else 'R')
    def new(s,*idx):
        f=s.flat(idx); c=s.c; off=scale(f,s.es)
        if s.kind=='c': return Cx(c._read(s.oid,off,8,'R'),c._read(s.oid,add(off,8),8,'R'))
        return c._read(s.oid,off,s.es,'I' if s.kind in 'il' else 'R')

class SymBase:
    native=False
    def __init__(c,case,engine=None,assign=None,decisions=None):
        c.case=case; c.e=engine; c.assign=assign; c.dec=list(decisions or []); c.di=0; c.pushed=[]
        c.arrays=[]; c.pre=[]; c.state=None; c.obl=[]; c.inputs={}; c.phase=0; c.cex=[]
    # ---- inputs
    def extent(c,name,lo=1,hi=None):
        if c.assign is not None:
            v=c.assign[name]; c.inputs[name]=v
            if v<lo or (hi is not None and v>hi): raise Reject()
            return v
        v=sym(name,'I',True); ((a,_),),=v.d.keys(); a.isext=True
        c.pre.append(v>=lo); c.pre.append(v<=(hi if hi is not None else (1<<30)))
        c.inputs[name]=v
        return v
    def int(c,name,lo=None,hi=None,small=None):
        v=sym(name,'I',lo is not None and isnum(lo) and lo>=0)
        if lo is not None: c.pre.append(v>=lo)
        if hi is not None: c.pre.append(v<=hi)
        c.inputs[name]=v
        return v
    def choice(c,name,options):
        """a parameter with finitely many values, enumerated exhaustively"""
        v=c._pick(list(options)); c.inputs[name]=v
        return v
    def real(c,name,nonneg=False,pos=False,nonzero=False,lo=None,hi=None):
        v=sym(name,'R',nonneg or pos)
        if pos: c.pre.append(v>0)
        if nonzero: c.pre.append(bnot(mkcmp('eq',v)))
        if lo is not None: c.pre.append(v>=lo)
        if hi is not None: c.pre.append(v<=hi)
        c.inputs[name]=v
        return v
    def cplx(c,name): return Cx(c.real(name+'.re'),c.real(name+'.im'))
    def _arr(c,name,dims,kind):
        a=SArr(c,name,dims,kind); c.arrays.append(a); return a
    def carr(c,name,*dims,**kw): return c._arr(name,dims,'c')
    def rarr(c,name,*dims,**kw): return c._arr(name,dims,'d')
    def iarr(c,name,*dims,**kw): return c._arr(name,dims,'i')
    def larr(c,name,*dims,**kw): return c._arr(name,dims,'l')
    def assume(c,b):
        if b is True or b is False: b=bconst(b)
        if c.phase==0: c.pre.append(b)
        else: c.state.assume(b)
    def call(c,*args): return CallMark(args)
    # ---- decisions
    def _pick(c,opts):
        if len(opts)==1: return opts[0]
        if c.di<len(c.dec): v=c.dec[c.di]
        else:
            for o in opts[1:]: c.pushed.append(c.dec+[o])
            v=opts[0]; c.dec.append(v)
        c.di+=1
        return v
    def decide(c,b):
        """truth of a condition on the current path; splits the path when both are possible"""
        if b is True or b is False: return b
        if b is TRUE: return True
        if b is FALSE: return False
        pc=c.state.pc if c.state is not None else c.pre
        r=solver.decide(pc,b)
        if r is not None: return r
        v=c._pick([True,False])
        (c.state.assume if c.state is not None else c.pre.append)(b if v else bnot(b))
        return v
    def _read(c,oid,off,size,srt):
        from .engine import NeedFork,F8,Ptr
        from .stubs import I32,I64
        ty=F8 if srt=='R' else (I32 if size==4 else I64)
        while True:
            try: return c.e.read_obj(c.state,c.state.mem[oid],off,size,ty)
            except NeedFork as nf: c.decide(nf.cond)
    # ---- specification vocabulary
    def idx(c,name,hi,lo=0):
        if c.assign is not None and isnum(hi) and isnum(lo):
            if hi<=lo: raise Reject()
            return c._pick(list(range(lo,hi)))
        if solver.check(c.state.pc+[bnot(mkcmp('eq',sub(sub(hi,lo),1)))])=='unsat': return lo
        v=sym(name,'I',isnum(lo) and lo>=0); c.state.assume(v>=lo); c.state.assume(v<hi)
        if solver.check(c.state.pc)=='unsat': raise Reject()
        return v
    def sum(c,lo,hi,f):
        if isnum(lo) and isnum(hi):
            r=0
            for k in range(lo,hi): r=f(k)+r
            return r
        k=T._mk('sym','σ!%d'%next(T._ctr),(),'I',True)
        return mk_sum(k,lo,hi,f(T.P(k)))
    def ite(c,b,a,d):
        if b is True or b is TRUE: return a
        if b is False or b is FALSE: return d
        return ite(b,a,d)
    def both(c,*bs): return band(*[x if isinstance(x,Bool) else bconst(x) for x in bs])
    def either(c,*bs): return bor(*[x if isinstance(x,Bool) else bconst(x) for x in bs])
    def no(c,b): return bnot(b)
    diff=staticmethod(lambda x,v: diff(x,v)); pow=staticmethod(lambda x,n: power(x,n))
    sqrt=staticmethod(lambda x: sqrt_(x)); exp=staticmethod(lambda x:exp_(x)); cos=staticmethod(lambda x:cos_(x)); sin=staticmethod(lambda x:sin_(x)); abs=staticmethod(lambda x:abs_(x))
    def cexp(c,z): 
        z=cx(z); r=exp_(z.re); return Cx(mul(r,cos_(z.im)),mul(r,sin_(z.im)))
    def cx(c,re,im=0): return Cx(re,im)
    def conj(c,z): return cx(z).conj()
    def re(c,z): return cx(z).re
    def im(c,z): return cx(z).im
    def abs2(c,z): return cx(z).abs2()
    def eq(c,a,b): 
        if isinstance(a,Cx) or isinstance(b,Cx):
            a=cx(a); b=cx(b); return band(mkcmp('eq',sub(a.re,b.re)),mkcmp('eq',sub(a.im,b.im)))
        return mkcmp('eq',sub(a,b))
    @property
    def ret(c): return c.state.retval
    # ---- obligations
    def ensure(c,name,lhs,rhs):
        if isinstance(lhs,Cx) or isinstance(rhs,Cx):
            l=cx(lhs); r=cx(rhs)
            c._ob(name,[(l.re,r.re),(l.im,r.im)])
        else: c._ob(name,[(lhs,rhs)])
    def require(c,name,b):
        """obligation: condition b holds"""
        if b is True or b is False: b=bconst(b)
        pc=c.state.pc
        if b is TRUE: c.obl.append((name,'discharged','normal form','')); return
        r=solver.entails(pc,b,8000)
        if r is True: c.obl.append((name,'discharged','z3','')); return
        w=bool_witness(pc,b)
        if w is not None:
            c.obl.append((name,'refuted','z3 + evaluation','path: %s ; does not imply %r'%(pc,b))); c.add_cex(w)
        else: c.obl.append((name,'undecided','z3','%r'%b))
    def add_cex(c,env):
        v=to_inputs(c,env)
        if v is not None and len(c.cex)<4: c.cex.append(v)
    def _ob(c,name,pairs):
        how='normal form'
        for l,r in pairs:
            if l is None or r is None: c.obl.append((name,'refuted','normal form','no value')); return
            st,h,det,*w=equal(c.state.pc,l,r)
            if st!='discharged':
                c.obl.append((name,st,h,det))
                if w: c.add_cex(w[0])
                return
            if h!='normal form': how=h
        c.obl.append((name,'discharged',how,''))
def equal(pc,l,r):
    if not (isnum(l) or isinstance(l,Poly)) or not (isnum(r) or isinstance(r,(Poly,float))): return 'undecided','',"%r vs %r"%(l,r)
    d=sub(l,r if not isinstance(r,float) else Fr(r))
    if is_zero(d): solver.stats['nf']+=1; return 'discharged','normal form',''
    try:
        d2=clear_denoms(d)
        if is_zero(d2): solver.stats['nf']+=1; return 'discharged','normal form',''
        d3=ites(d2,pc)
        if is_zero(d3): return 'discharged','normal form',''
        d2=d3
    except Unsupported: d2=d
    if nearly_same(l,r) : solver.stats['nf']+=1; return 'discharged','normal form (rounded literals)',''
    # use linear integer equalities of the path to simplify
    d4=by_equalities(pc,d2)
    if is_zero(d4): return 'discharged','normal form',''
    d4=forced_ints(pc,d4)
    if is_zero(d4): return 'discharged','normal form',''
    d5=align_sums(pc,d4)
    if d5 is not None: return 'discharged','normal form (range split)',''
    try:
        from .canon import canon
        d6=canon(list(pc),d4)
        if not is_zero(d6): d6=clear_denoms(d6)
        if is_zero(d6) or align_sums(pc,d6) is not None: return 'discharged','normal form (sum lemmas)',''
        d4=d6
    except Unsupported: pass
    q=solver.entails(pc,mkcmp('eq',d2),6000)
    if q is True: return 'discharged','z3',''
    det='difference %s on path %s'%(poly_str(d4)[:900],str(pc)[:900])
    w=numeric_witness(pc,sub(l,r if not isinstance(r,float) else Fr(r)))
    if w is not None: return 'refuted','z3 + evaluation',det+' ; nonzero at %s'%{repr(k):v for k,v in w.items() if not isinstance(k,str)},w
    return 'undecided','z3',det
def numeric_witness(pc,d,tries=6):
    """a point on the path where the difference is clearly nonzero (None: none found, the identity may hold)"""
    rng=random.Random(12345)
    syms=set()
    for b in pc: syms|=T.deps(b)
    syms|=T.deps(P(d))
    t0=time.time()
    for _ in range(tries):
        if time.time()-t0>10: return None
        extra=[]
        for a in syms:
            if a.sort=='I' and rng.random()<.5: extra.append(T.P(a)>=rng.randint(0,3)); 
            if a.sort=='I': extra.append(T.P(a)<=6)
        r,m=solver.check(list(pc)+extra,3000,True)
        if r!='sat': r,m=solver.check(list(pc),3000,True)
        if r!='sat': continue
        env={}
        for a in syms:
            v=m.value(T.P(a))
            if v is None: v=0
            env[a]=int(v) if a.sort=='I' else float(v)
        # free reals are randomised when the path allows it
        env2=dict(env)
        for a in syms:
            if a.sort!='I': env2[a]=rng.uniform(.1,1.6)*(1 if a.nonneg else rng.choice((1,-1)))
        for e,apps in ((env2,False),(env2,True),(env,True)):
            fn={}; e=dict(e)
            def fun(a,args,fn=fn):
                k=(a.name,args)
                if k not in fn: fn[k]=rng.uniform(.1,1.5)*(1 if a.nonneg else rng.choice((1,-1))) if a.sort!='I' else rng.randint(0,4)
                return fn[k]
            e['__fun__']=fun
            try:
                if apps: # array elements the path constrains: values of the model
                    for a in T.atoms_of(list(pc)):
                        if a.kind=='app' and a.sort in 'IR' and a.name not in('sqrt','exp','sin','cos','inv','floor','abs','log','pow'):
                            v=m.value(T.P(a))
                            if v is not None: fn[(a.name,tuple(evalnum(x,e) for x in a.args))]=int(v) if a.sort=='I' else float(v)
                if not all(evalnum(b,e) for b in pc): continue
                v=evalnum(d,e)
                mag=sum(abs(evalnum(Poly({mm:cc}),e)) for mm,cc in P(d).d.items())
            except (Unsupported,ZeroDivisionError,ValueError,OverflowError,TypeError): continue
            if abs(v)>1e-7*(1e-3+mag): return dict(e,__fn__=dict(fn))
            break
    return None
def bool_witness(pc,b):
    r,m=solver.check(list(pc)+[bnot(b)],5000,True)
    if r!='sat': return None
    rng=random.Random(7); syms=set(); apps=set()
    for x in list(pc)+[b]: syms|=T.deps(x)
    fn={}
    def fun(a,args):
        k=(a.name,args)
        if k not in fn:
            try: v=m.value(T.P(a)) if False else None
            except Exception: v=None
            fn[k]=v if v is not None else (rng.uniform(.1,1.5) if a.sort!='I' else rng.randint(0,4))
        return fn[k]
    env={'__fun__':fun}
    for a in syms:
        v=m.value(T.P(a))
        if v is None: v=0
        env[a]=int(v) if a.sort=='I' else float(v)
    try:
        for a in T.atoms_of(list(pc)+[b]):
            if a.kind=='app' and a.sort in 'IR' and a.name not in('sqrt','exp','sin','cos','inv','floor') :
                v=m.value(T.P(a)); fn[(a.name,tuple(evalnum(x,env) for x in a.args))]=int(v) if a.sort=='I' else float(v)
    except Exception: pass
    try:
        if all(evalnum(x,env) for x in pc) and not evalnum(b,env): return dict(env,__fn__=fn)
    except (Unsupported,ZeroDivisionError,ValueError,OverflowError,TypeError): return None
    return None
def to_inputs(c,env):
    """inputs of the harness at a counterexample"""
    rng=random.Random(99); vals={}
    ev=lambda x: x if isnum(x) else evalnum(x,env)
    try:
        for n,v in c.inputs.items():
            if isnum(v): vals[n]=v if isinstance(v,int) else float(v)
            elif isinstance(v,Poly):
                ((a,_),),=v.d.keys(); x=env.get(a)
                if x is None: x=1 if a.sort=='I' else rng.uniform(.1,1.)
                vals[n]=int(x) if a.sort=='I' else float(x)
        for a in c.arrays:
            n=int(ev(a.n))
            if n>5000: return None
            m=n*2 if a.kind=='c' else n; l=[round(rng.uniform(-1.5,1.5),6) if a.kind in'cd' else rng.randint(0,3) for _ in range(m)]
            for (nm,args),v in env.get('__fn__',{}).items():
                if nm==a.name and len(args)==1 and 0<=args[0]<m: l[int(args[0])]=float(v) if a.kind in 'cd' else int(v)
            vals['@'+a.name]=l
    except (Unsupported,ValueError,KeyError,TypeError,ZeroDivisionError,OverflowError): return None
    return vals
def ites(d,pc):
    from .loops import resolve_ite
    return resolve_ite(d,pc)
def by_equalities(pc,d):
    """eliminate with the equalities of the path"""
    d=P(d); eqs=[]
    def flat(b):
        if b.op=='eq': eqs.append(b.args[0])
        elif b.op=='and':
            for x in b.args: flat(x)
    for b in pc: flat(b)
    eqs=[P(p) for p in eqs]
    while eqs:
        p=eqs.pop(0); best=None
        for m,c in p.d.items():
            if len(m)==1 and m[0][1]==1 and m[0][0].kind=='sym' and not any(m[0][0] in a.deps for mm in p.d if mm!=m for a,_ in mm):
                if m[0][0].sort=='I' and c not in(1,-1): continue
                sc=(m[0][0].isext,abs(c)!=1)
                if best is None or sc<best[0]: best=(sc,m,c)
        if best is None: continue
        _,m,c=best
        sol=scale(sub(p,Poly({m:c})),Fr(-1)/c); env={m[0][0]:sol}
        try: d=P(T.subst(d,env)); eqs=[P(T.subst(q,env)) for q in eqs]
        except Unsupported: pass
        eqs=[q for q in eqs if not isnum(num(q))]
    return clear_denoms(d)

def forced_ints(pc,d):
    """replace integer symbols which the path forces to one value"""
    d=P(d); syms=[a for a in T.deps(d) if a.kind=='sym' and a.sort=='I']
    if not syms or len(syms)>6: return d
    r,m=solver.check(list(pc),3000,True)
    if r!='sat': return d
    env={}
    for a in syms:
        v=m.value(T.P(a))
        if v is None or abs(v)>8: continue
        v=int(v)
        if solver.entails(pc,mkcmp('eq',sub(T.P(a),v)),2000) is True: env[a]=v
    ext=[a for a in syms if a.isext]
    for a in syms:
        if a in env or a.isext: continue
        for b in ext:
            va,vb=m.value(T.P(a)),m.value(T.P(b))
            if va is None or vb is None or abs(va-vb)>4: continue
            v=int(va-vb)
            if solver.entails(pc,mkcmp('eq',sub(T.P(a),add(T.P(b),v))),2000) is True: env[a]=add(T.P(b) if b not in env else env[b],v); break
    if not env: return d
    d=P(T.subst(d,env))
    return clear_denoms(d)
def align_sums(pc,d):
    """sums over ranges differing by a constant: split first/last terms off so that all have the same range; 0 if everything cancels"""
    d=P(d); sums=[]
    for m in d.d:
        for a,n in m:
            if a.kind=='sum' and len(a.args)==2 and a not in sums: sums.append(a)
    if len(sums)<2: return None
    his={a:P(a.args[0]) for a in sums}
    ref=his[sums[0]]; off={}
    for a in sums:
        x=sub(his[a],ref)
        if not isnum(x): return None
        off[a]=x
    lo=min(off.values()); mx=max(off.values())-lo
    if mx>4: return None
    base=add(ref,lo)
    if solver.entails(pc,P(base)>=0,3000) is not True: return None
    def peel(a,p):
        (v,),_=a.name; body=a.args[-1]; D=off[a]-lo; p=min(p,D); r=0
        for i in range(p): r=add(r,T.subst(body,{v:i}))
        k=T._mk('sym','σ!%d'%next(T._ctr),(),'I',True)
        r=add(r,mk_sum(k,0,base,T.subst(body,{v:add(T.P(k),p)})))
        for i in range(D-p): r=add(r,T.subst(body,{v:add(base,p+i)}))
        return r
    for p in range(mx+1):
        t=0
        for m,c in d.d.items():
            x=c
            for a,n in m: x=mul(x,power(peel(a,p),n) if a in his else Poly({((a,n),):1}))
            t=add(t,x)
        if is_zero(t) or is_zero(clear_denoms(t)): return 0
    return None
class Result:
    def __init__(s,case,mode): s.case=case; s.mode=mode; s.obl=[]; s.status=None; s.detail=''; s.assumed=set(); s.called=set(); s.paths=0; s.time=0; s.loops=0; s.bounds=0; s.assign=None; s.steps=0; s.cex=[]
    def __repr__(s): return '%s[%s]: %s %d obligations %s'%(s.case.name,s.mode,s.status,len(s.obl),s.detail[:300])

def splits(case,assign=None):
    """all complete decision lists of the precondition part (choices and undetermined comparisons)"""
    pres=[[]]; out=[]
    while pres:
        c=SymBase(case,None,assign,pres.pop()); T.oracle[0]=c.decide
        try: next(case.fn(c)); out.append(list(c.dec))
        except Reject: pass
        finally: T.oracle[0]=None
        pres+=c.pushed
    return out
def run_symbolic(case,modules,assign=None,timeout=None,pres=None):
    """status: proved / refuted / undecided / unsupported / vacuous"""
    from .engine import Engine,State,Ptr,Violated,demangle
    mode='proof' if assign is None else 'bounded'
    R=Result(case,mode); R.assign=assign; t0=time.time()
    pres=[[]] if pres is None else [list(p) for p in pres]
    try:
      while pres:
        pd=pres.pop()
        E=Engine(modules,symbolic_loops=(mode=='proof'),max_paths=case.maxpaths,timeout=timeout or case.timeout)
        E.unroll_limit=case.unroll
        for k,h in case.contracts.items(): E.contracts[k]=h
        E.opt_direct=case.peel
        c=SymBase(case,E,assign,pd)
        g=case.fn(c)
        T.oracle[0]=c.decide
        try: mark=next(g)
        except Reject: pres+=c.pushed; continue
        finally: T.oracle[0]=None
        pres+=c.pushed
        pd=c.dec
        st=E.run_ctors(State())
        for b in c.pre: st.assume(b)
        if any(b is FALSE for b in st.pc) or solver.check(st.pc)=='unsat': continue
        for a in c.arrays:
            o=E.new_obj(st,a.name,scale(a.n,a.es) if not isnum(a.n) else a.n*a.es); o.base=a.basefn(); a.oid=o.id
            if not isnum(a.n): o.arr=True
            else: o.arr=False
        oids={a.name:a.oid for a in c.arrays}
        args=[]
        for x in mark.args:
            if isinstance(x,SArr): args.append(Ptr(oids[x.name],0))
            elif isinstance(x,Cx): args+= [x.re,x.im]
            elif isinstance(x,bool): args.append(int(x))
            else: args.append(x)
        outs=E.run_call(st,case.entry,args)
        R.paths+=len(outs); R.loops+=E.summaries; R.bounds+=E.bounds_checks; R.assumed|=E.assumed; R.called|={demangle(n) for n in E.called}; R.steps+=E.steps
        if E.ctor_fail: R.assumed.add('static initialisers skipped: %d'%len(E.ctor_fail))
        for pc,ok,what in E.undecided_mem: R.obl.append(('memory safety',solver_mem(pc,ok),'z3',what))
        for kd,s in outs:
            if kd=='exc':
                if solver.check(s.pc)!='sat': R.obl.append(('no escaping exception','undecided','z3','exception %s escapes, on a path not known to be feasible'%(s.exc[1],))); continue
                R.obl.append(('no escaping exception','refuted','execution','exception %s escapes'%(s.exc[1],))); continue
            posts=[list(pd)]
            while posts:
                dec=posts.pop()
                c=SymBase(case,E,assign,dec)
                g=case.fn(c); T.oracle[0]=c.decide; next(g)
                for a in c.arrays: a.oid=oids[a.name]
                c.state=s.copy(); c.phase=1
                T.oracle[0]=c.decide
                try: g.send(None)
                except StopIteration: pass
                except Reject: pass
                finally: T.oracle[0]=None
                posts+=c.pushed
                R.obl+=c.obl; R.cex+=c.cex[:4-len(R.cex)]
                if len(R.obl)>60000: raise Unsupported('too many obligations')
                if time.time()-t0>(timeout or case.timeout): raise Unsupported('time limit')
        E.undecided_mem=[]
    except Unsupported as ex: R.status='unsupported'; R.detail=str(ex); 
    except Violated as ex:
        if getattr(ex,'pc',None) is not None and solver.check(ex.pc)!='sat': R.status='unsupported'; R.detail='%s, on a path not known to be feasible'%ex
        else: R.obl.append(('memory safety','refuted','execution',str(ex)))
    except RecursionError as ex:
        if os.environ.get("VDBG"): import traceback; print("".join(traceback.format_exc().splitlines(True)[:60])[:6000])
        R.status='unsupported'; R.detail='recursion'
    R.time=time.time()-t0
    bad=[o for o in R.obl if o[1]=='refuted']
    if bad: R.status='refuted'; R.detail='; '.join('%s: %s'%(o[0],o[3]) for o in bad[:3])
    elif R.status is None:
        und=[o for o in R.obl if o[1]!='discharged']
        if und: R.status='undecided'; R.detail='; '.join('%s: %s'%(o[0],o[3]) for o in und[:3])
        elif not R.obl: R.status='vacuous'
        else: R.status='proved'
    return R
def solver_mem(pc,ok): return 'undecided'

# ================================================================ numeric context (native code)
class NArr:
    def __init__(s,c,name,dims,kind,buf):
        import numpy as np
        s.c=c; s.name=name; s.dims=dims; s.kind=kind; s.o=buf.copy(); s.buf=buf
    def _f(s,idx):
        r=0
        for i,d in zip(idx,s.dims): r=r*d+i
        return r
    def _g(s,b,idx):
        if any(not 0<=i<d for i,d in zip(idx,s.dims)): return complex('nan') if s.kind=='c' else 0 if s.kind in'il' else float('nan')  # read in a branch not taken
        f=s._f(idx)
        if s.kind=='c': return complex(b[2*f],b[2*f+1])
        return int(b[f]) if s.kind in'il' else float(b[f])
    def old(s,*idx): return s._g(s.o,idx)
    def new(s,*idx): return s._g(s.buf,idx)
    def poke(s,v,*idx):
        """native sampling only: choose an input so that the preconditions stated next hold (not for given inputs)"""
        if s.c.vals is not None: return
        f=s._f(idx); s.o[f]=v; s.buf[f]=v; s.c.inputs['@'+s.name][f]=float(v)
class NumCtx:
    native=True; assign=None
    def __init__(c,case,rng,values=None,maxext=5):
        c.case=case; c.rng=rng; c.vals=values; c.inputs={}; c.arrays=[]; c.fail=[]; c.dec=[]; c.di=0; c.pushed=[]; c.maxext=maxext; c.retval=None; c.nob=0; c.phase=0
    def _v(c,name,gen):
        if name in c.inputs: return c.inputs[name]
        if c.vals is not None and name in c.vals: v=c.vals[name]
        else: v=gen()
        c.inputs[name]=v
        return v
    def extent(c,name,lo=1,hi=None): 
        mx=c.maxext if hi is None else min(hi,max(c.maxext,lo))
        v=c._v(name,lambda:c.rng.randint(lo,max(lo,mx)))
        return v
    def int(c,name,lo=None,hi=None,small=None):
        a=-5 if lo is None else lo; b=(max(a+8,5) if hi is None else hi)
        if small is not None and c.rng.random()<.8: a=max(a,small[0]); b=min(b,small[1])
        return c._v(name,lambda:c.rng.randint(a,b))
    def choice(c,name,options):
        return c._v(name,lambda:c.rng.choice(list(options)))
    def real(c,name,nonneg=False,pos=False,nonzero=False,lo=None,hi=None):
        def g():
            r=c.rng.random()
            if lo is not None or hi is not None:
                a=float(lo) if lo is not None else float(hi)-2; b=float(hi) if hi is not None else a+2
                if r<.15: return a
                if r<.25: return b
                return a+(b-a)*c.rng.random()
            if r<.12 and not pos and not nonzero: return 0.
            if r<.2: return 1. if (pos or nonneg) or c.rng.random()<.5 else -1.
            if r<.32:
                o=[x for x in c.inputs.values() if isinstance(x,float) and x]
                if o:
                    v=c.rng.choice(o)*c.rng.choice((1,-1))
                    return abs(v) if (pos or nonneg) else v
            v=c.rng.uniform(0.02,1.7)
            return v if (pos or nonneg) else v*c.rng.choice((-1,1))
        return c._v(name,g)
    def cplx(c,name): return complex(c.real(name+'.re'),c.real(name+'.im'))
    def _arr(c,name,dims,kind,lo=None,hi=None):
        import numpy as np
        n=1
        for d in dims: n*=d
        m=n*2 if kind=='c' else n
        def g():
            if kind in 'cd':
                l=[round(c.rng.uniform(-1.5 if lo is None else lo,1.5 if hi is None else hi),6) for _ in range(m)]
                if (lo is None or lo<=0) and (hi is None or hi>=0) and c.rng.random()<.3: # special values
                    q=c.rng.choice((.3,.7,1.))
                    l=[0. if c.rng.random()<q else x for x in l]
                return l
            return [c.rng.randint(-3 if lo is None else lo,6 if hi is None else hi) for _ in range(m)]
        v=c._v('@'+name,g)
        for a in c.arrays:
            if a.name==name: return a
        a=NArr(c,name,dims,kind,np.array(v,dtype={'c':np.float64,'d':np.float64,'i':np.int32,'l':np.int64}[kind])); c.arrays.append(a)
        return a
    def carr(c,name,*dims,**kw): return c._arr(name,dims,'c',**kw)
    def rarr(c,name,*dims,**kw): return c._arr(name,dims,'d',**kw)
    def iarr(c,name,*dims,**kw): return c._arr(name,dims,'i',**kw)
    def larr(c,name,*dims,**kw): return c._arr(name,dims,'l',**kw)
    def assume(c,b):
        if not b: raise Reject()
    def call(c,*args): return CallMark(args)
    def _pick(c,opts):
        if len(opts)==1: return opts[0]
        if c.di<len(c.dec): v=c.dec[c.di]
        else:
            if len(c.pushed)<5000:
                for o in opts[1:]: c.pushed.append(c.dec+[o])
            v=opts[0]; c.dec.append(v)
        c.di+=1
        return v
    def decide(c,b): return bool(b)
    def idx(c,name,hi,lo=0):
        if hi<=lo: raise Reject()
        v=c._pick(list(range(lo,hi))); c.cur[name]=v
        return v
    def sum(c,lo,hi,f):
        r=0
        for k in range(lo,hi): r=r+f(k)
        return r
    def ite(c,b,a,d): return a if b else d
    def both(c,*bs): return all(bs)
    def either(c,*bs): return any(bs)
    def no(c,b): return not b
    sqrt=staticmethod(lambda x: math.sqrt(x) if x>=0 else float('nan')); exp=staticmethod(math.exp); cos=staticmethod(math.cos); sin=staticmethod(math.sin); abs=staticmethod(abs)
    def cexp(c,z): return cmath.exp(z)
    def cx(c,re,im=0): return complex(re,im)
    def conj(c,z): return complex(z).conjugate()
    def re(c,z): return complex(z).real
    def im(c,z): return complex(z).imag
    def abs2(c,z): return abs(z)**2
    def eq(c,a,b): return abs(a-b)<=c.case.tol*(1+abs(a)+abs(b))
    @property
    def ret(c): return c.retval
    def ensure(c,name,lhs,rhs):
        c.nob+=1
        d=abs(complex(lhs)-complex(rhs)); t=c.case.tol*(1+abs(complex(lhs))+abs(complex(rhs)))
        if not d<=t: c.fail.append((name,repr(lhs),repr(rhs),dict(c.cur)))
    def require(c,name,b):
        c.nob+=1
        if not b: c.fail.append((name,'false','true',dict(c.cur)))
_sigs={}
def signature(entry):
    """argument types of an extern "C" entry, from the harness text"""
    if not _sigs:
        import re,glob
        for f in glob.glob(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/harness/*.cc'):
            for m in re.finditer(r'extern "C" \w+ (\w+)\(([^)]*)\)',open(f).read()):
                _sigs[m.group(1)]=[re.sub(r'\s*\w+\s*$','',a.strip()).strip() if '*' not in a else 'ptr' for a in m.group(2).split(',') if a.strip()]
    return _sigs[entry]
def run_native(case,lib,rng,values=None,before=None,maxext=None):
    """one native execution; returns (failures, inputs, number of checks) or None if the sample is outside the precondition"""
    import ctypes, numpy as np
    c=NumCtx(case,rng,values,maxext or case.maxext); c.cur={}
    g=case.fn(c)
    try: mark=next(g)
    except Reject: return None
    if before: before(c.inputs)
    args=[]; sig=signature(case.entry); flat=[]
    for x in mark.args: flat+=[x.real,x.imag] if isinstance(x,complex) else [x]
    assert len(flat)==len(sig),(case.entry,len(flat),sig)
    for x,ty in zip(flat,sig):
        if isinstance(x,NArr): args.append(x.buf.ctypes.data_as(ctypes.c_void_p))
        else: args.append(ctypes.c_double(float(x)) if ty=='double' else ctypes.c_int(int(x)))
    f=getattr(lib,case.entry)
    f.restype={'d':ctypes.c_double,'i':ctypes.c_int,None:None}[case.ret]
    c.retval=f(*args)
    c.phase=1
    posts=[[]]; fails=[]; n=0; arrays=c.arrays; inputs=dict(c.inputs); ret=c.retval
    while posts:
        dec=posts.pop()
        c2=NumCtx(case,rng,inputs,maxext or case.maxext); c2.dec=list(dec); c2.cur={}; c2.arrays=arrays; c2.retval=ret; c2.phase=1
        g=case.fn(c2); next(g)
        try: g.send(None)
        except StopIteration: pass
        except Reject: pass
        posts+=c2.pushed; fails+=c2.fail; n+=c2.nob
        if len(fails)>5 or n>40000: break
    return fails,inputs,n
