"""Loop contracts inferred and checked: for a loop with header h the invariant has the form
   'after k iterations every loop-carried value is its closed form at k, and memory is the memory at entry overwritten
   by the write patterns of iterations 0..k-1'.
Candidates (closed forms, trip count, patterns) are guessed from a scouting pass; the deciding pass executes one
arbitrary iteration k (0<=k<T) under the invariant and checks that it is re-established and that no exit is possible;
then the iteration k=T is executed and must leave the loop.  Nothing guessed is trusted."""
import os
from .terms import *
from . import terms as T
from . import llvmc, solver
from .llvmc import Reg,K_int,K_double,K_ptr,UNDEF
from . import engine as EN
from .engine import Ptr,Write,Bulk,Fill,Pending,CopyThunk,NeedFork,Violated,PathEnd,State,F8

class _Unk(Exception): pass
MAXDEPTH=[0]

def mini(e,st,f,x,env,blocks,memo):
    """evaluate a register of the loop from header-phi values env (pure instructions only)"""
    if type(x) is not Reg: return e.val(st,f,x)
    i=x.i
    if i in env: 
        v=env[i]
        if v is None: raise _Unk()
        return v
    if i in memo: return memo[i]
    d=_defs(f.fn).get(i)
    if d is None or d[0] not in blocks: 
        return f.regs[i]
    ins=d[1]; m=lambda y:mini(e,st,f,y,env,blocks,memo)
    op=ins.op
    if op in EN.BINI: r=e.binop(st,op,m(ins.ops[0]),m(ins.ops[1]),ins.ty)
    elif op=='icmp': r=e.icmp(st,ins.x,m(ins.ops[0]),m(ins.ops[1]),ins.cty)
    elif op in('sext','zext','trunc'): r=e.conv(st,op,m(ins.ops[0]),ins.cty,ins.ty,ins.x)
    elif op=='freeze': r=m(ins.ops[0])
    elif op=='gep':
        p=m(ins.ops[0]); off,var=ins.x
        if not isinstance(p,Ptr): raise _Unk()
        o=add(p.off,off)
        for y,s in var:
            iv=m(y)
            if not (isnum(iv) or isinstance(iv,Poly)): raise _Unk()
            o=add(o,scale(iv,s))
        r=Ptr(p.o,o)
    elif op=='load':
        r=e.load(st,m(ins.ops[0]),ins.ty)
    else: raise _Unk()
    memo[i]=r
    return r
def _defs(fn):
    d=getattr(fn,'_preds',None)
    c=_defcache.get(id(fn))
    if c is None:
        c={}
        for b in fn.blocks:
            for ph in b.phis: c[ph.dest]=(b.i,ph)
            for ins in b.instrs: c[ins.dest]=(b.i,ins)
        _defcache[id(fn)]=c; _keep.append(fn)
    return c
_defcache={}; _keep=[]
def tryeval(*a):
    try: return mini(*a)
    except (_Unk,Unsupported,NeedFork,Violated,PathEnd,KeyError,TypeError,AttributeError): return None

def linear_in(p,k):
    """p = a*k+b -> (a,b) or None"""
    p=num(p)
    if isnum(p): return 0,p
    a=0; b=0
    for m,c in p.d.items():
        ks=[(x,n) for x,n in m if k in x.deps]
        if not ks: b=add(b,Poly({m:c}))
        elif len(ks)==1 and ks[0][0] is k and ks[0][1]==1: a=add(a,Poly({tuple(y for y in m if y[0] is not k):c}))
        else: return None
    return a,b
def candidates(cond,k,out):
    """trip-count candidates from an exit condition"""
    if cond.op in('and','or'):
        for x in cond.args: candidates(x,k,out)
        return
    if cond.op in('eq','le'):
        l=linear_in(cond.args[0],k)
        if l is None: return
        a,b=l
        if isnum(a) and a==0: return
        if cond.op=='eq':
            t=div(neg(b),a)
            if isinst_int(t): out.append((t,'eq'))
        elif isnum(a) and a<0:
            t=b if a==-1 else idiv(add(b,-a-1),-a)
            out.append((t,'le'))
        elif isinstance(a,Poly): return
def isinst_int(t): return isinstance(t,int) or (isinstance(t,Poly) and sort_of(t)=='I')

def exit_conds(e,st,f,blocks,env):
    """statically evaluated exit conditions (Bool or None)"""
    r=[]
    for b in blocks:
        t=f.fn.blocks[b].instrs[-1]
        if t.op=='br' and len(t.x)==2:
            o=[s not in blocks for s in t.x]
            if any(o) and not all(o):
                c=tryeval(e,st,f,t.ops[0],env,blocks,{})
                if type(c) is int: c=bconst(c&1)
                if not isinstance(c,Bool): r.append(None)
                else: r.append(c if o[0] else bnot(c))
        elif t.op=='switch': 
            if any(s not in blocks for s in f.fn.blocks[b].succs): r.append(None)
    return r

class Carried:
    """a loop-carried value: header phi or memory cell"""
    def __init__(s,kind,key,x0,ty): s.kind=kind; s.key=key; s.x0=x0; s.ty=ty; s.form=None; s.ph=None
    # form: ('lin',c) | ('inv',) | ('sum',g) with g(k) | ('shift',q) | None
def diffval(a,b):
    if a is None or b is None: return 0 if a is b else None
    if isinstance(a,Ptr) and isinstance(b,Ptr):
        if a.o!=b.o: return None
        return sub(a.off,b.off)
    if isinstance(a,Bool) or isinstance(b,Bool): return 0 if a==b else None
    if a is UNDEF or b is UNDEF or isinstance(a,tuple) or isinstance(b,tuple): return 0 if a is b or a==b else None
    if isinstance(a,Ptr) or isinstance(b,Ptr): return None
    return sub(a,b)
def zero(d): return d is not None and isnum(d) and d==0
def addval(a,d):
    if isinstance(a,Ptr): return Ptr(a.o,add(a.off,d))
    return add(a,d)
def has(x,atoms):
    if isinstance(x,Ptr): x=x.off
    if isinstance(x,CopyThunk): return has(x.off,atoms)
    return bool(T.deps(x) & atoms) if not isnum(x) else False
def sb(x,env):
    if isnum(x) or x is UNDEF or x is None: return x
    return T.subst(x,env)

def calls_in_header(fn,h,blocks,direct=False):
    """a decision to leave the loop is taken on the result of an indirect call"""
    defs=_defs(fn)
    for b in blocks:
        t=fn.blocks[b].instrs[-1]
        if t.op!='br' or len(t.x)!=2: continue
        o=[s not in blocks for s in t.x]
        if not any(o) or all(o): continue
        todo=[(t.ops[0],0)]; seen=set()
        while todo:
            r,n=todo.pop()
            if type(r) is not Reg or r.i in seen or n>6: continue
            seen.add(r.i); d=defs.get(r.i)
            if d is None or d[0] not in blocks: continue
            i=d[1]
            if hasattr(i,'op') and i.op in('call','invoke'):
                if isinstance(i.x[0],Reg) or direct: return True
                continue
            if not hasattr(i,'op') or i.op in('load','phi'): 
                if (d[0]!=h or direct) and isinstance(getattr(i,'x',None),dict): todo+=[(v,n+1) for v in i.x.values()]
                continue
            todo+=[(v,n+1) for v in i.ops]
    return False
def summarise(e,st,f,h,blocks,entry):
    """states positioned right before the jump out of the loop (st.jump set), or None: unroll instead"""
    fn=f.fn
    phis=fn.blocks[h].phis
    for ph in phis: # list/tree traversal: unroll over the concrete structure
        if ph.ty.kind==K_ptr:
            for b in blocks:
                if b in ph.x and type(ph.x[b]) is Reg:
                    d=_defs(fn).get(ph.x[b].i)
                    if d is not None and d[0] in blocks and getattr(d[1],'op',None)=='load': return None
    k=T._mk('sym','k!%d'%next(T._ctr),(),'I',True); kp=T.P(k)
    # --- static induction variables
    env={}
    for ph in phis:
        x0=entry[ph.dest]
        env[ph.dest]=None
    car={}
    latches=[b for b in blocks if h in fn.blocks[b].succs]
    for ph in phis:
        x0=entry[ph.dest]
        c=Carried('phi',ph.dest,x0,ph.ty); car[('phi',ph.dest)]=c
        if isinstance(x0,Ptr) or (ph.ty.kind==K_int and ph.ty.w>1 and (isnum(x0) or isinstance(x0,Poly))):
            s=T._mk('sym','iv!%d'%next(T._ctr),(),'I'); pv=Ptr(x0.o,T.P(s)) if isinstance(x0,Ptr) else T.P(s)
            ds=[]
            for l in latches:
                v=tryeval(e,st,f,ph.x[l],{**env,ph.dest:pv},blocks,{})
                d=diffval(v,pv) if v is not None else None
                ds.append(d)
            if ds and all(d is not None and not has(d,{s}) for d in ds) and all(zero(sub(d,ds[0])) for d in ds):
                c.form=('lin',ds[0])
    def val_at(c,kk):
        if c.form is None: return None
        if c.form[0]=='lin': return addval(c.x0,mul(c.form[1],kk)) if not zero(c.form[1]) else c.x0
        if c.form[0]=='inv': return c.x0
        if c.form[0]=='shift': return sb(c.form[1],{k:sub(kk,1)})
        if c.form[0]=='sum':
            j=T._mk('sym','j!%d'%next(T._ctr),(),'I',True)
            return add(c.x0,mk_sum(j,0,kk,sb(c.form[1],{k:T.P(j)})))
    # --- static exit conditions: constant ones at entry -> unroll
    env0={ph.dest:entry[ph.dest] for ph in phis}
    ec0=exit_conds(e,st,f,blocks,env0)
    if ec0 and all(c is TRUE or c is FALSE for c in ec0): return None
    envk={ph.dest:val_at(car[('phi',ph.dest)],kp) for ph in phis}
    cands=[]
    for c in exit_conds(e,st,f,blocks,envk):
        if c is not None: candidates(c,k,cands)
    depth=len(st.frames)
    stop=(depth,h,blocks,fn)
    def header_state(base,kk,pats,assume):
        """state at the header in iteration kk"""
        s=base.copy(); fr=s.frames[-1]
        fr.nosum=fr.nosum|{h}
        for a in assume: s.assume(a)
        for c in car.values():
            v=val_at(c,kk)
            if c.form is None or c.form[0]=='sum':
                if c.ph is None: c.ph=mkph(c)
                v=c.ph if kk is kp else (v if v is not None else c.ph)
            setc(e,s,c,v)
        for oid,pl in pats.items():
            o=s.wobj(oid); o.layers.append(Pending([renamed(p,k) for p in pl]))
        fr.prev=fr.bi; fr.bi=h; fr.ii=0
        return s
    def mkph(c):
        if isinstance(c.x0,Ptr): return Ptr(c.x0.o,T.P(T._mk('sym','ph!%d'%next(T._ctr),(),'I')))
        if c.ty.kind==K_int:
            if c.ty.w==1: return bsym('pb!%d'%next(T._ctr))
            return T.P(T._mk('sym','ph!%d'%next(T._ctr),(),'I'))
        if c.ty.kind==K_double: return T.P(T._mk('sym','ph!%d'%next(T._ctr),(),'R'))
        if c.ty.kind==K_ptr: raise Unsupported('loop-carried pointer without provenance')
        raise Unsupported('loop-carried value of unsupported type')
    def phatoms():
        r=set()
        for c in car.values():
            if c.ph is not None: r|=T.deps(c.ph.off if isinstance(c.ph,Ptr) else c.ph)
        return r
    def explore(s,early=None):
        return e.explore(s,depth-1,stop,early)
    def common(ns,backs,hs,pa):
        """one expression for the values the back-edge states give a carried location"""
        if all(zero(diffval(n,ns[0])) for n in ns): return ns[0]
        if not all(isinstance(n,(Poly,int)) and not isinstance(n,bool) for n in ns): return None
        for q in ns:
            if all(zero(diffval(n,q)) or solver.check(s.pc+[bnot(mkcmp('eq',sub(T.P(n),T.P(q))))])=='unsat' for n,s in zip(ns,backs)): return q
        gs=[band(*s.pc[len(hs.pc):]) for s in backs]
        if any(T.deps(g)&pa for g in gs): return None
        q=ns[0]
        for n,g in list(zip(ns,gs))[1:]: q=ite(g,n,q)
        return q
    # --- scouting
    pats={}; Tc=None
    if cands:
        Tc=pick(e,st,cands)
        if isnum(Tc) : 
            if Tc<=e.unroll_limit: return None
    for rnd in range(8):
        um=list(e.undecided_mem); sf=list(e.summary_fail)
        asm=[kp<Tc] if Tc is not None else []
        try:
            hs=header_state(st,kp,pats,asm)
            if asm and solver.check(hs.pc)=='unsat':
                # no complete iteration: T=0
                return finish(e,st,f,h,blocks,car,{},0,k,val_at,stop,explore)
            sc=e.scout; e.scout=True
            def early(kd,s):
                cc=[]
                if kd=='exit':
                    for c in s.pc[len(st.pc):]: candidates(c,k,cc)
                return bool(cc)
            try: outs=explore(hs.copy(),early if Tc is None else None)
            finally: e.scout=sc
        except Violated as v:
            raise Unsupported('scouting: %s'%v)
        finally:
            e.undecided_mem=um
        if os.environ.get('VDBG')=='2': print('ROUND',fn.name[:40],h,rnd,Tc,[(kd,str(s.pc[len(st.pc):])[:200]) for kd,s in outs][:5])
        backs=[s for kd,s in outs if kd=='back']
        if Tc is None:
            cc=[]
            for kd,s in outs:
                if kd=='exit':
                    for c in s.pc[len(st.pc):]: candidates(c,k,cc)
            if cc:
                Tc=pick(e,st,cc)
                if isnum(Tc) and Tc<=e.unroll_limit: return None
                continue
            if not backs: raise Unsupported('no trip count')   # else: find the carried locations first
        elif any(kd!='back' for kd,s in outs): 
            # exits not excluded by k<T: unsupported (data dependent exits)
            if not backs: raise Unsupported('loop leaves early')
            raise Unsupported('data-dependent loop exit')
        if not backs: raise Unsupported('no back edge state')
        if len(backs)>1:   # guess: no iteration frees an object existing before the loop
            fr=[s for s in backs if any(o.freed and oid in hs.mem and not hs.mem[oid].freed for oid,o in s.mem.items())]
            if fr and len(fr)<len(backs): backs=[s for s in backs if s not in fr]
        changed=False
        # memory effects
        npats={}
        for s in backs:
            for oid,o in s.mem.items():
                b=hs.mem.get(oid)
                if b is None:
                    continue   # object created in the iteration (or lazily materialised global)
                if o is b: continue
                if o.freed!=b.freed: raise Unsupported('object freed inside loop: %s'%o.name)
                if not o.arr:
                    if len(o.fills)!=len(b.fills): raise Unsupported('fill of flat object in loop')
                    for off in set(o.cells)|set(b.cells):
                        x=o.cells.get(off); y=b.cells.get(off)
                        if x is y: continue
                        if x is not None and y is not None and x[0]==y[0] and zero(diffval_safe(x[1],y[1])): continue
                        key=('cell',oid,off)
                        if key in car: continue
                        if x is None:   # indeterminate after an iteration: forget it before the loop as well
                            st=st.copy(); st.wobj(oid).cells.pop(off,None); changed=True; continue
                        size=x[0]
                        ty=F8 if size==8 and not isinstance(x[1],Ptr) and not _isint(x[1]) else _ty(size,x[1])
                        try: x0=e.read_obj(st,st.mem[oid],off,size,ty)
                        except KeyError: raise Unsupported('cell of new object')
                        if x0 is UNDEF and isinstance(x[1],Ptr): x0=x[1] if not has(x[1],{k}|phatoms()) else UNDEF
                        c=Carried('cell',(oid,off,size),x0,ty); car[key]=c; changed=True
                else:
                    nb=len(b.layers)
                    if o.layers[:nb]!=b.layers: raise Unsupported('layers')
                    g=band(*s.pc[len(hs.pc):])
                    for L in o.layers[nb:]:
                        if isinstance(L,Write) and not has(L.off,{k}|phatoms()):
                            key=('acell',oid,K(T.P(L.off)),L.size)
                            if key in car: continue
                            ty=F8 if L.size==8 else _ty(L.size,L.val)
                            x0=e.read_obj(st,st.mem[oid],L.off,L.size,ty)
                            car[key]=Carried('acell',(oid,L.off,L.size),x0,ty); changed=True
                            continue
                        if Tc is not None: npats.setdefault(oid,[]).append(lift(L,k,0,Tc,g))
        if changed: continue
        # recurrences
        nl=len(car)-sum(c.form is None for c in car.values())
        for c in car.values():
            if c.form is not None: continue
            ns=[getc(e,s,c) for s in backs]
            ds=[diffval(n,c.ph) for n in ns]
            if all(zero(d) for d in ds): c.form=('inv',); changed=True; continue
            pa=phatoms()
            if all(d is not None and not has(d,pa) for d in ds):
                if all(not has(d,{k}) for d in ds) and all(zero(sub(d,ds[0])) for d in ds):
                    c.form=('lin',ds[0]); changed=True; continue
                if isinstance(c.x0,Ptr) : raise Unsupported('pointer reduction')
                g=ds[0]
                for d,s in list(zip(ds,backs))[1:]:
                    g=ite(band(*s.pc[len(hs.pc):]),d,g)
                c.form=('sum',g); changed=True; continue
            if all(not has(n,pa) and not isinstance(n,(tuple,Bool)) and n is not UNDEF for n in ns):
                # shifted: value of the previous iteration
                q=common(ns,backs,hs,pa)
                if q is None: continue
                q1=sb(q,{k:-1})
                if c.x0 is not UNDEF and zero(diffval(q1,c.x0)):
                    c.form=('shift',q); changed=True; continue
                if c.x0 is UNDEF or (isinstance(c.x0,Poly) and 'uninit' in repr(c.x0)):
                    c.form=('shift',q); c.weak=True; changed=True; continue
                # value before the loop differs: temporaries overwritten before being read
                c.form=('last',q); changed=True; continue
        if any(c.form is None for c in car.values()) and not changed:
            if os.environ.get('VDBG'): print('UNSOLVED',fn.name if 'fn' in dir() else '',[(c.kind,c.key,c.ph,c.x0,[getc(e,s,c) for s in backs][:4]) for c in car.values() if c.form is None][:12])
            raise Unsupported('unsolved recurrence')
        if Tc is None:
            if not changed: raise Unsupported('no trip count')
            la=[c for c in car.values() if c.form is not None and c.form[0]=='last']
            for c in la: c.form=None
            if la and nl==len(car)-sum(c.form is None for c in car.values()): raise Unsupported('no trip count')
            continue
        same=patkey(npats)==patkey(pats)
        if not changed and same: break
        pats=npats
    else: raise Unsupported('loop invariant not found')
    try:
        return decide_pass(e,st,f,h,blocks,car,pats,Tc,k,kp,val_at,header_state,explore,phatoms,stop,depth)
    except Unsupported as ex:
        if str(ex) not in('stale temporary written','condition on a stale temporary'): raise
        # values of the previous iteration are used: at iteration k, that of iteration k-1, or the initial one
        return decide_pass(e,st,f,h,blocks,car,pats,Tc,k,kp,val_at,header_state,explore,phatoms,stop,depth,True)

def diffval_safe(a,b):
    try: return diffval(a,b)
    except (Unsupported,TypeError,AttributeError): return None
def _isint(v): return isinstance(v,int) and False
def _ty(size,v):
    t=EN._F8()
    if isinstance(v,Ptr): t.kind=K_ptr
    else: t.kind=K_int; t.w=8*size
    t.store=size; t.size=size
    return t
def patkey(p):
    def one(x):
        env={}
        r=[]
        for n,(v,lo,hi) in enumerate(x.vars):
            r.append(repr(sb(hi,env))); env[v]=T.P(T._mk('sym','pk!%d'%n,(),'I',True))
        return (repr(sb(x.off,env)),repr(sb(x.guard,env)),r)
    return sorted((str(oid),[one(x) for x in l]) for oid,l in p.items())
def renamed(p,k):
    """pattern of earlier iterations: variable k renamed, range [0,k)"""
    env={}
    vs=[]
    for v,lo,hi in p.vars:
        nv=T._mk('sym','q!%d'%next(T._ctr),(),'I',True)
        if v is k: vs.append((nv,0,T.P(k)))
        else: vs.append((nv,sb(lo,env),sb(hi,env)))
        env[v]=T.P(nv)
    return Bulk(vs,sb(p.guard,env),sb(p.off,env),p.size,None)
def lift(L,k,lo,hi,g):
    if isinstance(L,Write): return Bulk([(k,lo,hi)],g,L.off,L.size,L.val)
    if isinstance(L,Bulk): return Bulk([(k,lo,hi)]+list(L.vars),band(g,L.guard),L.off,L.size,L.val)
    if isinstance(L,Fill):
        j=T._mk('sym','fj!%d'%next(T._ctr),(),'I',True)
        return Bulk([(k,lo,hi),(j,0,div(sub(L.hi,L.lo),8))],g,add(L.lo,scale(T.P(j),8)),8,0)
    raise Unsupported('layer kind in loop')
def setc(e,s,c,v):
    if c.kind=='phi': s.frames[-1].regs[c.key]=v
    elif c.kind=='cell':
        oid,off,size=c.key; o=s.wobj(oid); e.write_obj(s,o,off,size,v)
    else:
        oid,off,size=c.key; o=s.wobj(oid); o.layers.append(Write(off,size,v))
def getc(e,s,c):
    if c.kind=='phi': return s.ghost['phinext'][c.key]
    if c.kind=='cell':
        oid,off,size=c.key; return e.coerce(s,e.read_obj(s,s.mem[oid],off,size,c.ty),c.ty) if c.ty.kind!=K_double else e.read_obj(s,s.mem[oid],off,size,c.ty)
    oid,off,size=c.key
    return e.read_obj(s,s.mem[oid],off,size,c.ty)
def pick(e,st,cands):
    seen=[]
    for t,kind in cands:
        t=num(t)
        if any(zero(sub(t,s)) for s,_ in seen): continue
        seen.append((t,kind))
    if len(seen)>1:
        # smallest if decidable
        best=seen[0]
        for t in seen[1:]:
            d=solver.decide(st.pc,T.P(t[0])<best[0])
            if d is None: raise NeedFork(T.P(t[0])<best[0])
            if d: best=t
        seen=[best]
    t,kind=seen[0]
    if isnum(t):
        if t<0: t=0 if kind=='le' else None
        if t is None: raise Unsupported('negative trip count')
        return t
    d=solver.decide(st.pc,T.P(t)>=0)
    if d is True: return t
    if d is None: raise NeedFork(T.P(t)>=0)
    if kind=='le': return 0
    raise Unsupported('negative trip count %s'%poly_str(T.P(t))[:200])

def decide_pass(e,st,f,h,blocks,car,pats,Tc,k,kp,val_at,header_state,explore,phatoms,stop,depth,prev=False):
    """one arbitrary iteration under the invariant"""
    for c in car.values():
        if c.form[0]=='last': c.ph=None
    for c in car.values():
        if c.form[0]=='last':
            # poison: must be overwritten before use
            c.ph=_poison(c)
    prevs=set()
    if prev:
        for key,c in car.items():
            if c.form[0]!='last' or c.x0 is UNDEF or isinstance(c.x0,Ptr) or isinstance(c.form[1],(Ptr,Bool)) or c.form[1] is UNDEF or isinstance(c.x0,(Bool,bool)): continue
            c.ph=T.ite(mkcmp('eq',kp),c.x0,sb(c.form[1],{k:sub(kp,1)})); prevs.add(key)
    def hv(c,kk):
        return val_at(c,kk)
    hs=header_state_checked(e,st,car,pats,[kp<Tc],k,kp,val_at,h)
    um=len(e.undecided_mem)
    outs=explore(hs.copy())
    pa=set()
    for key,c in car.items():
        if c.form[0] in('sum','last') and key not in prevs: pa|=T.deps(c.ph.off if isinstance(c.ph,Ptr) else c.ph)
    sums={a:val_at(c,kp) for c in car.values() if c.form[0]=='sum' for a in T.deps(c.ph)}
    lasts=set()
    for key,c in car.items():
        if c.form[0]=='last' and key not in prevs: lasts|=T.deps(c.ph.off if isinstance(c.ph,Ptr) else c.ph)
    full={}
    for kd,s in outs:
        if kd!='back': raise Unsupported('exit possible before the last iteration')
    if not outs: raise Unsupported('no path through the body')
    evs=[]
    for kd,s in outs:
        g=band(*s.pc[len(hs.pc):])
        if has(g,lasts): raise Unsupported('condition on a stale temporary')
        for c in car.values():
            n=getc(e,s,c)
            if c.form[0] in('lin','inv'): want=val_at(c,add(kp,1))
            elif c.form[0]=='sum': 
                d=diffval(n,c.ph)
                if d is None or has(d,pa): raise Unsupported('reduction not inductive')
                gg=c.form[1]
                if len(outs)>1: d2=sub(d,gg); ok=zero(d2) or solver.entails(s.pc,mkcmp('eq',d2)) is True or zero(resolve_ite(d2,s.pc))
                else: ok=zero(sub(d,gg))
                if not ok: raise Unsupported('reduction not inductive')
                continue
            else: want=c.form[1]
            if c.form[0]=='last' :
                if n is UNDEF or has(n,lasts): raise Unsupported('stale temporary survives')
            d=diffval(n,want)
            if not zero(d) and not (d is not None and not isinstance(d,bool) and solver.entails(s.pc,mkcmp('eq',d)) is True): raise Unsupported('invariant not inductive')
        for oid,o in s.mem.items():
            b=hs.mem.get(oid)
            if b is None or o is b: continue
            if o.freed!=b.freed: raise Unsupported('freed in loop')
            if not o.arr:
                for off in set(o.cells)|set(b.cells):
                    x=o.cells.get(off); y=b.cells.get(off)
                    if x is y: continue
                    if x is not None and y is not None and x[0]==y[0] and zero(diffval_safe(x[1],y[1])): continue
                    if ('cell',oid,off) not in car: raise Unsupported('new cell write')
                continue
            for L in o.layers[len(b.layers):]:
                if isinstance(L,Write) and ('acell',oid,K(T.P(L.off)),L.size) in car: continue
                B=lift(L,k,0,Tc,sb(g,sums) if has(g,set(sums)) else g)
                if has(B.off,pa) or has(B.guard,lasts): raise Unsupported('address depends on a reduction')
                if has(B.val,lasts): raise Unsupported('stale temporary written')
                if isinstance(B.val,Ptr): raise Unsupported('pointer written in a loop')
                if has(B.val,set(sums)): B.val=sb(B.val,sums)
                if isinstance(B.val,CopyThunk) and any(isinstance(x,Pending) for x in B.val.obj.layers): 
                    raise Unsupported('copy of memory modified by the loop')
                full.setdefault(oid,[]).append(B)
        if s.events!=hs.events:
            n0=len(hs.events)
            evs.append((g,s.events[n0:]))
    if patkey(full)!=patkey(pats): raise Unsupported('write patterns not stable')
    # order of writes across iterations: an earlier pattern in a later iteration must not hit a later pattern of an earlier one
    for oid,l in full.items():
        vcells=[c for c in car.values() if c.kind=='acell' and c.key[0]==oid]
        for i,p in enumerate(l):
            for q in l[i+1:]:
                if overlap(e,st,p,q,k): raise Unsupported('write order')
            for c in vcells:
                r=e.solve_bulk(st,p,c.key[1])
                if r is not None and solver.decide(st.pc,r[0]) is not False: raise Unsupported('overlap with accumulated cell')
    return finish(e,st,f,h,blocks,car,full,Tc,k,val_at,stop,explore,evs)
def resolve_ite(d,pc):
    d=P(d); env=None
    for _ in range(8):
        t=None
        for m in d.d:
            for a,n in m:
                if a.kind=='ite': t=a
        if t is None: return num(d)
        r=solver.decide(pc,t.args[0])
        if r is None: return d
        v=t.args[1] if r else t.args[2]
        out=0
        for m,c in d.d.items():
            x=c
            for a,n in m: x=mul(x,power(v if a is t else T.P(a),n))
            out=add(out,x)
        d=P(out)
    return d
def _poison(c):
    if isinstance(c.x0,Ptr): return Ptr(c.x0.o,T.P(T._mk('sym','stale!%d'%next(T._ctr),(),'I')))
    return T.P(T._mk('sym','stale!%d'%next(T._ctr),(),'I' if c.ty.kind==K_int else 'R'))
def header_state_checked(e,st,car,pats,asm,k,kp,val_at,h):
    s=st.copy(); fr=s.frames[-1]; fr.nosum=fr.nosum|{h}
    for a in asm: s.assume(a)
    for c in car.values():
        if c.form[0]=='sum':
            if c.ph is None: c.ph=T.P(T._mk('sym','ph!%d'%next(T._ctr),(),'I' if c.ty.kind==K_int else 'R'))
            v=c.ph
        elif c.form[0]=='last': v=c.ph
        else: v=val_at(c,kp)
        setc(e,s,c,v)
    for oid,pl in pats.items():
        o=s.wobj(oid); o.layers.append(Pending([renamed(p,k) for p in pl]))
    fr.prev=fr.bi; fr.bi=h; fr.ii=0
    return s
def overlap(e,st,p,q,k):
    """can p in iteration k1 and q in iteration k2<k1 write the same cell?"""
    e1={}; e2={}; rng=[]
    for (L,en) in ((p,e1),(q,e2)):
        for v,lo,hi in L.vars:
            nv=T._mk('sym','o!%d'%next(T._ctr),(),'I',True)
            rng+=[T.P(nv)>=sb(lo,en),T.P(nv)<sb(hi,en)]
            en[v]=T.P(nv)
    k1=e1[k]; k2=e2[k]
    pc=st.pc+[x for x in rng if x is not TRUE]+[k2<k1]
    eqs=e.split_eq(pc,sub(sb(p.off,e1),sb(q.off,e2)))
    if eqs is None: return False
    return solver.check(pc+[mkcmp('eq',x) for x in eqs]+[sb(p.guard,e1),sb(q.guard,e2)])!='unsat'
def finish(e,st,f,h,blocks,car,full,Tc,k,val_at,stop,explore,evs=()):
    s=st.copy(); fr=s.frames[-1]; fr.nosum=fr.nosum|{h}
    if isnum(Tc) and Tc==0:
        for c in car.values():
            if c.kind=='phi': setc(e,s,c,c.x0)
    else:
        for c in car.values():
            if c.form[0]=='last':
                v=sb(c.form[1],{k:sub(Tc,1)})
                if c.x0 is not UNDEF:
                    d=solver.decide(s.pc,T.P(Tc)>0)
                    if d is None: raise NeedFork(T.P(Tc)>0)
                    if d is False: v=c.x0
            else: v=val_at(c,Tc)
            setc(e,s,c,v)
        for oid,l in full.items():
            o=s.wobj(oid)
            for p in l: o.layers.append(Bulk(p.vars,p.guard,p.off,p.size,p.val))
        for g,ev in evs:
            s.events=s.events+(('forall',k,Tc,g,ev),)
    fr.prev=fr.bi; fr.bi=h; fr.ii=0
    marks={oid:len(o.layers) for oid,o in s.mem.items() if o.arr}
    outs=explore(s)
    res=[]
    for kd,x in outs:
        if kd!='exit': raise Unsupported('loop does not end at its trip count (%s)'%kd)
        x.jump=x.ghost['exit'][1]
        fr=x.frames[-1]; fr.nosum=fr.nosum-{h}
        res.append(x)
        # extend bulk ranges over the last iteration where it repeats the pattern
        if len(outs)==1:
            for oid,l in full.items():
                o=x.mem[oid]; tail=o.layers[marks[oid]:]
                if len(tail)==len(l) and all(_repeats(w,p,k,Tc) for w,p in zip(tail,l)):
                    o=x.wobj(oid); o.layers=o.layers[:marks[oid]-len(l)]+[Bulk([(v,lo,add(hi,1)) if v is k else (v,lo,hi) for v,lo,hi in p.vars],p.guard,p.off,p.size,p.val) for p in l]
                elif len(tail)>len(l)==0: pass
    e.summaries+=1
    return res
def _repeats(w,p,k,Tc):
    env={k:T.P(Tc)}
    if isinstance(w,Write):
        return len(p.vars)==1 and p.guard is TRUE and w.size==p.size and zero(sub(sb(p.off,env),w.off)) and zero(diffval_safe(sb(p.val,env),w.val))
    if isinstance(w,Bulk):
        if len(p.vars)!=len(w.vars)+1 or w.size!=p.size: return False
        env2=dict(env)
        for (v,lo,hi),(v2,lo2,hi2) in zip(p.vars[1:],w.vars):
            if not zero(sub(sb(lo,env2),lo2)) or not zero(sub(sb(hi,env2),hi2)): return False
            env2[v]=T.P(v2)
        if sb(p.guard,env2)!=w.guard: return False
        return zero(sub(sb(p.off,env2),w.off)) and zero(diffval_safe(sb(p.val,env2),w.val))
    return False
