"""Rewriting of sums with lemmas of arithmetic, each application checked against the path condition:
   absorb   Sum[k<T] f(k) + f(T) = Sum[k<T+1] f(k) and Sum[k<T] f(k) + f(-1) = Sum[k<T+1] f(k-1), for T>=0
   flatten  Sum[i<m] Sum[j<n] f(n i+j) = Sum[k<m n] f(k), for m,n>=0
   merge    ite(c,A,B) = B if c and the path leave only one value v of an integer symbol, and A = B[v]"""
import itertools
from .terms import *
from . import terms as T, solver
def _ge0(pc,p):
    if isnum(p): return p>=0
    return solver.entails(pc,P(p)>=0,2000) is True
def _sumof(ranges,body):
    """nested sum over [(sym,hi)]"""
    for v,h in reversed(ranges): body=mk_sum(v,0,h,body)
    return body
def _open(a):
    """fresh variables for the bound ones of a sum atom"""
    vs,_=a.name; ren={}; rs=[]
    for v,h in zip(vs,a.args[:-1]):
        nv=T._mk('sym',('fresh§',next(T._ctr)),(),'I',True); hh=T.subst(h,ren); ren[v]=T.P(nv); rs.append((nv,hh))
    return rs,T.subst(a.args[-1],ren)
def _frozen(p): return isnum(p) or not any(a.kind in('sum','ite') or (a.kind=='app' and any(not isinstance(x,Bool) and _hassum(x) for x in a.args)) for m in p.d for a,_ in m)
_hs={}
def _hassum(p):
    if isnum(p) or isinstance(p,Bool): return False
    return any(_hatom(a) for m in p.d for a,_ in m)
def _hatom(a):
    r=_hs.get(a)
    if r is None:
        r=a.kind in('sum','ite') or any(isinstance(x,Poly) and _hassum(x) for x in a.args if not isinstance(x,Bool))
        _hs[a]=r
    return r
def canon(pc,p,depth=0):
    if isnum(p) or not _hassum(p) or depth>6: return p
    acc=0
    for m,c in p.d.items():
        t=c
        for a,n in m:
            v=_atom(pc,a,depth) if _hatom(a) else T.P(a)
            t=mul(t,power(v,n))
        acc=add(acc,t)
    r=absorb(pc,acc)
    if not isnum(r) and not (isinstance(acc,Poly) and r.d==acc.d) and any(a.kind=='sum' and len(a.args)>2 for m in r.d for a,_ in m): return canon(pc,r,depth+1)
    return r
def _atom(pc,a,depth):
    if a.kind=='ite':
        c,x,y=a.args; own=[f for f in pc if isinstance(f,Bool) and T.deps(f)<=T.deps(c)]
        r=solver.decide(own,c)
        if r is not None: return canon(pc,x if r else y,depth+1)
        pcx=pc+[c]; pcy=pc+[bnot(c)]
        x=canon(pcx,x,depth+1); y=canon(pcy,y,depth+1)
        for g,other,pp in ((x,y,pcy),(y,x,pcx)):   # is the general form g also right where the other branch applies?
            if is_zero(sub(g,other)): return g
            d=sub(g,other)
            for s in list(T.deps(d)):
                if s.kind!='sym' or s.sort!='I': continue
                v=_only(pp,s)
                if v is None: continue
                try: e=canon(pp,T.subst(d,{s:v}),depth+1)
                except Unsupported: continue
                if is_zero(e): return g
        return ite(c,x,y)
    if a.kind=='sum':
        rs,b=_open(a); pc2=pc+[T.P(v)<h for v,h in rs]
        b=canon(pc2,b,depth+1)
        r=flatten(pc,rs,b)
        return r if r is not None else _sumof(rs,b)
    if a.kind=='app':
        args=[canon(pc,x,depth+1) if isinstance(x,Poly) else x for x in a.args]
        f={'sqrt':sqrt_,'exp':exp_,'sin':sin_,'cos':cos_,'abs':abs_}.get(a.name)
        if f: return f(args[0])
        if a.name=='inv': return div(1,args[0])
        return T.P(a)
    return T.P(a)
def _only(pc,s):
    """the only value of integer symbol s allowed by pc, if there is one"""
    own=[f for f in pc if isinstance(f,Bool) and T.deps(f)=={s}]
    r,m=solver.check(own,2000,True)
    if r!='sat': return None
    v=m.value(T.P(s))
    if v is None or abs(v)>8: return None
    return int(v) if solver.entails(own,mkcmp('eq',sub(T.P(s),int(v))),2000) is True else None
def flatten(pc,rs,b):
    for i,j in itertools.permutations(range(len(rs)),2):
        vi,m=rs[i]; vj,n=rs[j]
        if isnum(n) or isnum(m): continue
        ot=[rs[q] for q in range(len(rs)) if q not in(i,j)]
        if any(vi in T.deps(P(h)) or vj in T.deps(P(h)) for _,h in rs): continue
        if any(o in T.deps(P(m)) or o in T.deps(P(n)) for o,_ in ot): continue
        k=T._mk('sym',('fresh§',next(T._ctr)),(),'I',True)
        try: b2=T.subst(b,{vj:sub(T.P(k),mul(n,T.P(vi)))})
        except Unsupported: continue
        if vi in T.deps(b2): continue
        if not (_ge0(pc,m) and _ge0(pc,n)): continue
        nr=ot+[(k,mul(m,n))]
        return flatten(pc,nr,b2) or _sumof(nr,b2)
    return None
def absorb(pc,p,limit=40):
    for _ in range(limit):
        if isnum(p): return p
        q=_absorb1(pc,p)
        if q is None: return p
        p=q
    return p
def _absorb1(pc,p):
    for m,c in p.d.items():
        for a,n in m:
            if a.kind!='sum' or n!=1: continue
            rest=tuple(x for x in m if x[0] is not a); R=Poly({rest:c})
            rs,b=_open(a)
            for i,(v,h) in enumerate(rs):
                if any(v in T.deps(P(hh)) for _,hh in rs): continue
                if any(o in T.deps(P(h)) for o,_ in rs): continue
                ot=rs[:i]+rs[i+1:]
                for at,sh in ((h,0),(-1,-1)):
                    try: e=mul(R,_sumof(ot,T.subst(b,{v:at})))
                    except Unsupported: continue
                    if isnum(e): continue
                    if not all(p.d.get(mm)==cc for mm,cc in e.d.items()): continue
                    if not _ge0(pc,h): continue
                    new=mul(R,_sumof(ot+[(v,add(h,1))],T.subst(b,{v:add(T.P(v),sh)}) if sh else b))
                    return num(add(sub(sub(p,Poly({m:c})),e),new))
    return None
