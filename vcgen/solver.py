"""SMT back end (z3): path feasibility, validity of obligations, counterexample models."""
import z3, time
from .terms import *
from . import terms as T
stats=dict(queries=0,time=0.0,unknown=0,nf=0)
_cache={}
_zs={}
z3.set_param('smt.random_seed',1)
def zsym(a):
    v=_zs.get(a)
    if v is None:
        nm=(a.name if isinstance(a.name,str) else '%s%s'%a.name)+'#%d'%a.id
        v=z3.Int(nm) if a.sort=='I' else z3.Real(nm)
        _zs[a]=v
    return v
_zf={}
def zatom(a,ax):
    v=_zs.get(('z',a))
    if v is not None:
        if a.kind!='sym': _axioms(a,v,ax)
        elif a.nonneg: ax[a]=[v>=0]
        return v
    if a.kind=='sym':
        v=zsym(a)
        if a.nonneg: ax[a]=[v>=0]
    elif a.kind=='ite':
        v=z3.If(zb(a.args[0],ax),zp(a.args[1],ax,a.sort),zp(a.args[2],ax,a.sort))
    elif a.kind=='app' and a.name=='idiv': v=zp(a.args[0],ax,'I')/zp(a.args[1],ax,'I')
    elif a.kind=='app' and a.name=='imod': v=zp(a.args[0],ax,'I')%zp(a.args[1],ax,'I')
    elif a.kind=='app' and a.name=='abs':
        x=zp(a.args[0],ax,'R'); v=z3.If(x>=0,x,-x)
    elif a.kind=='app' and a.name=='inv': v=z3.Real('inv#%d'%a.id)
    elif a.kind=='app':
        zargs=[zb(x,ax) if isinstance(x,Bool) else zp(x,ax,sort_of(x) if a.name not in('sqrt','exp','sin','cos') else 'R') for x in a.args]
        if not zargs: v=zsym(a)
        else:
            key=(a.name,a.sort,tuple(str(z.sort()) for z in zargs))
            f=_zf.get(key)
            if f is None:
                f=z3.Function('%s|%d'%(a.name,len(_zf)),*([z.sort() for z in zargs]+[z3.IntSort() if a.sort=='I' else z3.RealSort()])); _zf[key]=f
            v=f(*zargs)
    else: v=z3.Real('sum#%d'%a.id)
    _zs[('z',a)]=v
    _axioms(a,v,ax)
    return v
def _axioms(a,v,ax):
    if a in ax: return
    ax[a]=[]
    l=[]
    if a.kind in('app','ite'):
        for x in a.args:   # collect axioms of arguments
            if isinstance(x,Bool): zb(x,ax)
            else: zp(x,ax,'R')
    if a.kind=='app' and a.name=='sqrt':
        x=zp(a.args[0],ax,'R'); l=[v>=0,z3.Implies(x>=0,v*v==x)]
    elif a.kind=='app' and a.name=='inv':
        x=zp(a.args[0],ax,'R'); l=[v*x==1]
    elif a.kind=='app' and a.name=='floor':
        x=zp(a.args[0],ax,'R'); l=[z3.ToReal(v)<=x,x<z3.ToReal(v)+1]
    elif a.kind=='app' and a.name=='exp': l=[v>0]
    elif a.kind=='app' and a.name in('sin','cos'): l=[v<=1,v>=-1]
    elif a.nonneg: l=[v>=0]
    ax[a]=l
def zp(p,ax,want='R'):
    if isnum(p): p=const(p)
    isint=sort_of(p)=='I'
    terms=[]
    for m,c in p.d.items():
        fs=[]
        inv=[]
        for a,n in m:
            z=zatom(a,ax)
            if not isint and z.sort()==z3.IntSort(): z=z3.ToReal(z)
            if n<0:
                ia=T._mk('app','inv',(T.P(a),),'R'); zi=zatom(ia,ax)
                fs+=[zi]*(-n)
            else: fs+=[z]*n
        if isint: t=z3.IntVal(c)
        else: t=z3.RealVal(str(Fr(c)))
        if fs:
            pr=fs[0]
            for f in fs[1:]: pr=pr*f
            t=pr if c==1 else t*pr
        terms.append(t)
    if not terms: r=z3.IntVal(0) if isint else z3.RealVal(0)
    else:
        r=terms[0]
        for t in terms[1:]: r=r+t
    if want=='R' and isint: r=z3.ToReal(r)
    return r
def zb(b,ax):
    if b is TRUE or b is True: return z3.BoolVal(True)
    if b is FALSE or b is False: return z3.BoolVal(False)
    if b.op in('eq','lt','le'):
        s=sort_of(b.args[0]); x=zp(b.args[0],ax,s); z=z3.IntVal(0) if s=='I' else z3.RealVal(0)
        return x==z if b.op=='eq' else x<z if b.op=='lt' else x<=z
    if b.op=='not': return z3.Not(zb(b.args[0],ax))
    if b.op=='and': return z3.And(*[zb(x,ax) for x in b.args])
    if b.op=='or': return z3.Or(*[zb(x,ax) for x in b.args])
    if b.op=='bsym': return z3.Bool(b.args[0])
    raise Unsupported('zb '+b.op)
class Timeout(Exception): pass
def _lin(b):
    return True
def check(fs,timeout=4000,want_model=False):
    """satisfiability of the conjunction of Bool terms -> 'sat'/'unsat'/'unknown' (,model)"""
    fs=[f for f in fs if f is not TRUE]
    if any(f is FALSE for f in fs): return ('unsat',None) if want_model else 'unsat'
    if not fs and not want_model: return 'sat'
    key=(frozenset(fs),timeout)
    if not want_model and key in _cache: return _cache[key]
    t0=time.time(); stats['queries']+=1
    ax={}
    s=z3.Solver(); s.set('timeout',timeout)
    for f in fs: s.add(zb(f,ax))
    sums={}
    for a in list(ax):
        if a.kind=='sum' and len(a.args)==2: sums.setdefault(a.args[1],[]).append(a)
    for body,l in sums.items():   # ranges of the same sum that differ by a small number
        for a in l:
            for b in l:
                d=sub(a.args[0],b.args[0])
                if a is not b and isnum(d) and 0<d<=3:
                    k=a.name[0][0]; r=T.P(b)
                    if k is not b.name[0][0]: continue
                    for i in range(int(d)): r=add(r,subst(body,{k:add(b.args[0],i)}))
                    s.add(z3.Implies(zp(b.args[0],ax,'I')>=0,zatom(a,ax)==zp(r,ax,'R')))
    for l in ax.values():
        for x in l: s.add(x)
    r=str(s.check())
    stats['time']+=time.time()-t0
    if r=='unknown': stats['unknown']+=1
    if want_model:
        return r,(Model(s.model()) if r=='sat' else None)
    _cache[key]=r
    return r
class Model:
    def __init__(self,m): self.m=m
    def value(self,p):
        ax={}
        z=zp(P(p),ax,sort_of(p)) if not isinstance(p,Bool) else zb(p,ax)
        v=self.m.eval(z,model_completion=True)
        if z3.is_int_value(v): return v.as_long()
        if z3.is_rational_value(v): return Fr(v.numerator_as_long(),v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a=v.approx(20); return Fr(a.numerator_as_long(),a.denominator_as_long())
        if z3.is_true(v): return True
        if z3.is_false(v): return False
        return None
def relevant(pc,goal):
    """cone of influence: conjuncts of pc sharing symbols (transitively) with goal"""
    seen=set(deps(goal)); out=[]; rest=list(pc); ch=True
    while ch:
        ch=False; r2=[]
        for f in rest:
            d=deps(f)
            if not d or d & seen:
                out.append(f); seen|=d; ch=True
            else: r2.append(f)
        rest=r2
    return out
def _upper(pc):
    """upper bounds v<=u of nonnegative integer symbols, from conjuncts of pc that are linear in v with coefficient 1"""
    ub={}
    for f in pc:
        for g in (f.args if isinstance(f,Bool) and f.op=='and' else (f,)):
            if not isinstance(g,Bool) or g.op not in('le','eq'): continue
            p=g.args[0]
            if sort_of(p)!='I': continue
            for m,c in p.d.items():
                if len(m)!=1 or m[0][1]!=1 or m[0][0].kind!='sym': continue
                a=m[0][0]
                if sum(1 for mm in p.d if any(x is a for x,_ in mm))!=1: continue
                if c==1 or (c==-1 and g.op=='eq'): ub.setdefault(a,[]).append(scale(sub(p,T.P(a)) if c==1 else add(p,T.P(a)),-c))
    return ub
def horner(pc,b):
    """sufficient condition for p<=0: replace symbols whose coefficient is a sum of products of nonnegative symbols by an upper bound"""
    if b.op=='and': return all(x is TRUE or (isinstance(x,Bool) and (x in pc or horner(pc,x))) for x in b.args)
    if b.op!='le' or sort_of(b.args[0])!='I': return False
    p=b.args[0]; ub=None
    for _ in range(8):
        if isnum(p): return p<=0
        s=T._sign_hint(p)
        if s in('neg','nonpos'): return True
        if s in('pos',): return False
        if ub is None: ub=_upper(pc)
        best=None
        for a in {a for m,c in p.d.items() if c>0 for a,n in m if n==1 and a in ub}:
            co={}; ok=True
            for m,c in p.d.items():
                if any(x is a for x,_ in m):
                    if c<0 or any((x is a and n!=1) or not x.nonneg for x,n in m): ok=False; break
            if not ok: continue
            for u in ub[a]:
                if not isnum(u) and any(x is a for m in u.d for x,_ in m): continue
                d=0 if isnum(u) else max((sum(n for _,n in m) for m in u.d),default=0)
                if best is None or d<best[0]: best=(d,a,u)
        if best is None: return False
        p=T.num(subst(p,{best[1]:best[2]}))
    return False
_pins={}
def pinned(pc):
    """symbols that pc says are small numbers"""
    env=None
    for f in pc:
        if isinstance(f,Bool) and f.op=='eq':
            r=_pins.get(f)
            if r is None:
                r=False; p=f.args[0]
                if isinstance(p,T.Poly) and sort_of(p)=='I' and len(p.d)<=2:
                    m=[x for x in p.d if x]
                    if len(m)==1 and len(m[0])==1 and m[0][0][1]==1 and m[0][0][0].kind=='sym' and abs(p.d[m[0]])==1:
                        v=-p.d.get((),0)*p.d[m[0]]
                        if abs(v)<=4: r=(m[0][0][0],v)
                _pins[f]=r
            if r:
                if env is None: env={}
                env[r[0]]=r[1]
    return env
_pcache={}
def pin(pc,b):
    """conjuncts of pc and goal with these numbers put in"""
    env=pinned(pc)
    if not env: return pc,b
    e=tuple(sorted((a.id if hasattr(a,'id') else id(a),v) for a,v in env.items()))
    def g(f):
        if not isinstance(f,Bool) or not any(a in env for a in deps(f)): return f
        k=(e,f); r=_pcache.get(k)
        if r is None: r=_pcache[k]=subst(f,env)
        return r
    b2=g(b); out=list(pc); seen=set(out)
    for f in pc:
        h=g(f)
        if h not in seen: seen.add(h); out.append(h)
    return out,b2
def entails(pc,b,timeout=4000):
    """True/False/None"""
    if b is TRUE: return True
    if b in pc: return True
    pc,b=pin(pc,b)
    if b is TRUE: return True
    if b in pc: return True
    if isinstance(b,Bool) and b.op in('le','and') and horner(pc,b): stats['nf']+=1; return True
    nb=bnot(b)
    if b is not FALSE and nb in pc: return False
    rel=relevant(pc,nb)
    r=check(rel+[nb],timeout)
    if r=='unsat': return True
    if r=='unknown' and _int(nb):
        ri=[f for f in rel if _int(f)]
        if len(ri)<len(rel) and check(ri+[nb],timeout)=='unsat': return True
    if r=='sat': return False
    return None
_ints={}
def _int(b):
    r=_ints.get(b)
    if r is None:
        if not isinstance(b,Bool): r=True
        elif b.op in('eq','lt','le'): r=isnum(b.args[0]) or sort_of(b.args[0])=='I'
        elif b.op in('not','and','or'): r=all(_int(x) for x in b.args)
        else: r=True
        _ints[b]=r
    return r
def decide(pc,b,timeout=3000):
    """True if pc=>b, False if pc=>not b, None otherwise"""
    if b is TRUE: return True
    if b is FALSE: return False
    if b in pc: return True
    pc,b=pin(pc,b)
    if b is TRUE: return True
    if b is FALSE: return False
    nb=bnot(b)
    if b in pc: return True
    if nb in pc: return False
    rel=relevant(pc,b)
    if _int(b):   # conjuncts over integers only first: what they settle needs no nonlinear real arithmetic
        ri=[f for f in rel if _int(f)]
        if len(ri)<len(rel):
            if check(ri+[b],300)=='unsat': return False
            if check(ri+[nb],300)=='unsat': return True
    r1=check(rel+[b],timeout)
    if r1=='unsat': return False
    r2=check(rel+[nb],timeout)
    if r2=='unsat': return True
    return None
