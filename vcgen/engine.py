"""Symbolic execution of LLVM IR with contracts for callees; generates the facts the obligations are stated over."""
import time, re, subprocess
from fractions import Fraction as Fr
from .terms import *
from . import terms as T
from . import llvmc
from .llvmc import FnRef,GlRef,CGep,CP2I,CBin,UNDEF,NULL,Reg,NaNInf,K_int,K_double,K_float,K_ptr,K_struct,K_array,K_vector,K_void
from . import solver

class NeedFork(Exception):
    def __init__(s,cond): s.cond=cond
class PathEnd(Exception):
    """path is infeasible / unreachable"""
class Thrown(Exception):
    def __init__(s,obj,ti): s.obj=obj; s.ti=ti

class Ptr:
    __slots__=('o','off')
    def __init__(s,o,off=0): s.o=o; s.off=off
    def __repr__(s): return '&%s+%s'%(s.o,s.off)
    def subst(s,env): return Ptr(s.o,T.subst(s.off,env))
    def __hash__(s): return hash((s.o,s.off if isnum(s.off) else hash(s.off)))
NULLP=Ptr(None,0)
def sameptr(a,b):
    return a.o==b.o and num(sub(a.off,b.off)) is not None and isnum(sub(a.off,b.off)) and sub(a.off,b.off)==0

class Write:
    __slots__=('off','size','val')
    def __init__(s,off,size,val): s.off=off; s.size=size; s.val=val
class Bulk:
    """for all vars in ranges with guard: cell off(vars) := val(vars)"""
    __slots__=('vars','guard','off','size','val')
    def __init__(s,vars,guard,off,size,val): s.vars=vars; s.guard=guard; s.off=off; s.size=size; s.val=val
class Fill:
    __slots__=('lo','hi','val')
    def __init__(s,lo,hi,val): s.lo=lo; s.hi=hi; s.val=val
class Pending:
    """cells written by earlier iterations (of the loop being summarised); patterns: list of Bulk; must not be hit"""
    __slots__=('pats',)
    def __init__(s,pats): s.pats=pats
class CopyThunk:
    """value of object snapshot at a byte offset"""
    __slots__=('obj','off','size','ty')
    def __init__(s,obj,off,size,ty): s.obj=obj; s.off=off; s.size=size; s.ty=ty
    def subst(s,env): return CopyThunk(s.obj,T.subst(s.off,env),s.size,s.ty)

class Pack:
    """an integer register holding several smaller cells (structure copied as a whole)"""
    __slots__=('parts',)
    def __init__(s,parts): s.parts=parts      # [(byte offset,size,value)]
class Obj:
    __slots__=('id','name','size','cells','fills','base','layers','arr','owner','freed','const','log')
    def __init__(s,id,name,size):
        s.id=id; s.name=name; s.size=size; s.cells={}; s.fills=[]; s.base=None; s.layers=[]; s.arr=False; s.freed=False; s.const=False; s.owner=None
    def clone(s,owner):
        o=Obj(s.id,s.name,s.size); o.cells=dict(s.cells); o.fills=list(s.fills); o.base=s.base; o.layers=list(s.layers); o.arr=s.arr; o.freed=s.freed; o.const=s.const; o.owner=owner
        return o
class Frame:
    __slots__=('fn','mod','bi','prev','ii','regs','ret_to','unw','visits','nosum','allocas','callins')
    def copy(s):
        f=Frame(); f.fn=s.fn; f.mod=s.mod; f.bi=s.bi; f.prev=s.prev; f.ii=s.ii; f.regs=list(s.regs); f.visits=dict(s.visits) if s.visits else None; f.nosum=s.nosum; f.callins=s.callins
        return f
_sid=[0]
class State:
    __slots__=('frames','mem','pc','events','ghost','id','exc','retval','jump')
    def __init__(s):
        s.frames=[]; s.mem={}; s.pc=[]; s.events=(); s.ghost={}; _sid[0]+=1; s.id=_sid[0]; s.exc=None; s.retval=None; s.jump=None
    def copy(s):
        n=State(); n.frames=[f.copy() for f in s.frames]; n.mem=dict(s.mem); n.pc=list(s.pc); n.events=s.events; n.ghost=dict(s.ghost); n.exc=s.exc; n.retval=s.retval; n.jump=s.jump
        _sid[0]+=1; s.id=_sid[0]   # both states own nothing now
        return n
    def wobj(s,oid):
        o=s.mem[oid]
        if o.owner!=s.id:
            o=o.clone(s.id); s.mem[oid]=o
        return o
    def assume(s,b):
        if b is TRUE: return
        for x in (b.args if b.op=='and' else (b,)):
            if x not in s.pc: s.pc.append(x)

_demc={}
def demangle(n):
    r=_demc.get(n)
    if r is None:
        r=subprocess.run(['c++filt',n.split('@@')[0]],capture_output=True,text=True).stdout.strip(); _demc[n]=r
    return r

import os; TB=os.environ.get('TB')
PEEL=('object freed inside loop','no value','cell of new object','loop-carried pointer')
class Engine:
    opt_direct=False   # execute the first iterations of loops whose exit is decided by a call (of known target)
    def __init__(self,modules,symbolic_loops=False,max_paths=400,max_steps=3000000,timeout=120):
        self.mods=modules; self.symloops=symbolic_loops; self.max_paths=max_paths
        self.defs={}; self.gdefs={}
        for m in modules:
            for n,f in m.fns.items():
                if not llvmc.IsDecl(f) and n not in self.defs: self.defs[n]=m
            for n,g in m.gls.items():
                if not llvmc.IsDecl(g) and n not in self.gdefs: self.gdefs[n]=m
            for n,a in m.als.items():
                c=m.const(a)
                if isinstance(c,FnRef) and n not in self.defs: self.aliases=getattr(self,'aliases',{}); self.aliases[n]=c.name
        self.aliases=getattr(self,'aliases',{})
        self.forks=None; self.stubs={}; self.prefix_stubs=[]; self.over_stubs=[]; self.contracts={}; self.used_contracts=set()
        self.nid=0; self.gobj={}; self.steps=0; self.max_steps=max_steps; self.deadline=time.time()+timeout
        self.called=set()        # functions of the verified text that were executed (inlined) or used by contract
        self.assumed=set()       # external contracts used
        self.obl=[]              # safety obligations checked on the way
        self.unroll_limit=64; self.summaries=0; self.loops_unrolled=0; self.summary_fail=[]
        self.bounds_checks=0; self.ctor_fail=[]
        self.undecided_mem=[]; self.scout=False
        from . import stubs; stubs.install(self)
    def run_ctors(self,st,skip=()):
        """dynamic initialisation of the globals of every module"""
        sl,self.symloops=self.symloops,False
        for m in self.mods:
            g=m.gls.get('llvm.global_ctors')
            if g is None: continue
            for c in m.const(llvmc.GInit(g)):
                fn=c[1]
                if not isinstance(fn,FnRef): continue
                try:
                    outs=self.run_call(st.copy(),fn.name,[])
                    if len(outs)!=1 or outs[0][0]!='ret': raise Unsupported('initialiser outcome')
                    st=outs[0][1]
                except Unsupported as e: self.ctor_fail.append((fn.name,str(e)))
        self.symloops=sl
        return st
    # ------------------------------------------------------------ objects
    def new_obj(self,st,name,size):
        self.nid+=1
        o=Obj(self.nid,name,size); o.owner=st.id
        if not isnum(size): o.arr=True
        st.mem[self.nid]=o
        return o
    def glob(self,st,g):
        """object of a global variable (lazily materialised in the state)"""
        key=('g',g.name)
        if key in st.mem: return key
        o=Obj(key,'@'+g.name,None)
        m=self.gdefs.get(g.name)
        if m is not None:
            gv=m.gls[g.name]; t=m.ty(llvmc.GValT(gv)); o.size=t.size
            self._expand(st,o,0,t,m.const(llvmc.GInit(gv)))
        o.owner=st.id
        st.mem[key]=o
        if m is None and g.name.startswith('_ZTI'):
            k2=('g','_ZTS'+g.name[4:]); so=Obj(k2,k2[1],None); so.owner=st.id; st.mem[k2]=so
            for i,ch in enumerate(g.name[4:]): so.cells[i]=(1,ord(ch))
            so.cells[len(g.name)-4]=(1,0); o.cells[8]=(8,Ptr(k2,0))
        if m is None and g.name.startswith('_ZTT'):
            vb=112 if 'ostringstream' in g.name else 128 if 'basic_stringstream' in g.name else 120 if 'istringstream' in g.name else 8
            p=self.fake_vt(st,vb); o.base=lambda off,size,ty:p
        if g.name in ('_ZSt4cout','_ZSt4cerr','_ZSt4clog'): o.cells[0]=(8,self.fake_vt(st,8)); o.cells[40]=(4,0); o.cells[248]=(8,self.fake_ctype(st))
        if g.name in ('__libc_single_threaded',): o.cells[0]=(1,1)
        return key
    def fake_vt(self,st,vb):
        """virtual table stand-in of a standard stream: only the offset of its ios_base"""
        k=('g','!stream vtable %d'%vb)
        if k not in st.mem:
            o=Obj(k,k[1],None); o.owner=st.id; o.cells[0]=(8,vb); st.mem[k]=o
        return Ptr(k,24)
    def fake_ctype(self,st):
        k=('g','!ctype')
        if k not in st.mem:
            o=Obj(k,k[1],None); o.owner=st.id; o.cells[56]=(1,1); o.base=lambda off,size,ty:off-57; st.mem[k]=o
        return Ptr(k,0)
    def _expand(self,st,o,off,t,c):
        if c is UNDEF: return
        if isinstance(c,tuple):
            for i,x in enumerate(c):
                if t.kind==K_struct: self._expand(st,o,off+t.offs[i],t.elems[i],x)
                else: self._expand(st,o,off+i*t.elem.size,t.elem,x)
            return
        o.cells[off]=(t.store,('const',c) if not isinstance(c,(int,Fr)) else (bconst(c&1) if t.kind==K_int and t.w==1 else c))
    def cval(self,st,c):
        if isinstance(c,(int,Fr)): return c
        if c is NULL: return NULLP
        if c is UNDEF: return UNDEF
        if isinstance(c,FnRef): return Ptr(('fn',c.name),0)
        if isinstance(c,GlRef): return Ptr(self.glob(st,c),0)
        if isinstance(c,CGep):
            b=self.cval(st,c.base); return Ptr(b.o,add(b.off,c.off))
        if isinstance(c,CP2I): return self.ptrtoint(st,self.cval(st,c.p))
        if isinstance(c,CBin):
            a=self.cval(st,c.a); b=self.cval(st,c.b); return add(a,b) if c.op=='add' else sub(a,b)
        if isinstance(c,tuple): return tuple(self.cval(st,x) for x in c)
        if isinstance(c,NaNInf): return app('fpconst_'+str(c.v),(),'R')
        if c is None: return None
        raise Unsupported('constant %r'%(c,))
    def ptrtoint(self,st,p):
        if p.o is None: return p.off
        a=T._mk('sym',('addr',p.o),(),'I',True)
        return add(T.P(a),p.off)
    def inttoptr(self,st,v):
        if v is None: raise Unsupported("no value")
        if isinstance(v,Ptr): return v
        if isnum(v): return Ptr(None,v)
        for m,c in v.d.items():
            if len(m)==1 and m[0][0].kind=='sym' and isinstance(m[0][0].name,tuple) and m[0][0].name[0]=='addr' and c==1 and m[0][1]==1:
                return Ptr(m[0][0].name[1],sub(v,Poly({m:1})))
        raise Unsupported('inttoptr %r'%v)
    # ------------------------------------------------------------ memory
    def decide(self,st,b):
        if b is TRUE: return True
        if b is FALSE: return False
        r=solver.decide(st.pc,b)
        if r is None: raise NeedFork(b)
        return r
    def split_eq(self,pc,d):
        """d==0 as a conjunction of simpler equations using digit uniqueness; [] = true, None = false"""
        d=num(d)
        if isnum(d): return [] if d==0 else None
        # gcd test on integer coefficients
        cs=[c for m,c in d.d.items() if m!=ONE]; c0=d.d.get(ONE,0)
        if all(isinstance(c,int) for c in cs) and isinstance(c0,int):
            import math
            g=0
            for c in cs: g=math.gcd(g,c)
            if c0%g: return None
            if g>1: d=scale(d,Fr(1,g))
        exts=set()
        for m in d.d:
            em=[(a,n) for a,n in m if a.isext and n>0]
            for k in range(1,1<<len(em)): exts.add(tuple(x for i,x in enumerate(em) if k>>i&1))
        exts=sorted(exts,key=lambda em:(sum(n for _,n in em),[a.id for a,_ in em]))
        def divs():
            for e in exts: # sum or difference of two extents
                if len(e)!=1 or e[0][1]!=1: continue
                x=e[0][0]
                if any(dict(m).get(x,0)>1 for m in d.d): continue
                q={}; r={}
                for m,c in d.d.items():
                    dm=dict(m)
                    if dm.get(x,0)==1: del dm[x]; q[tuple(sorted(dm.items(),key=lambda t:t[0].id))]=c
                    else: r[m]=c
                q=num(Poly(q)); r=num(Poly(r))
                if isnum(q): continue
                ys={a for m in T.P(r).d if len(m)>1 for a,n in m if n==1 and a is not x and a.isext}
                for y in sorted(ys,key=lambda a:a.id):
                    for sgn in (1,-1):
                        r2=sub(r,mul(q,scale(T.P(y),sgn)))
                        if len(T.P(r2).d)<len(T.P(r).d): yield q,r2,add(T.P(x),scale(T.P(y),sgn))
            for e in exts:
                q={}; r={}
                for m,c in d.d.items():
                    dm=dict(m)
                    if all(dm.get(a,0)>=n for a,n in e):
                        for a,n in e: dm[a]-=n
                        q[tuple(sorted(((a,n) for a,n in dm.items() if n),key=lambda t:t[0].id))]=c
                    else: r[m]=c
                yield num(Poly(q)),num(Poly(r)),Poly({tuple(sorted(e,key=lambda t:t[0].id)):1})
            for e in exts: # extent shifted by one
                if len(e)!=1 or e[0][1]!=1: continue
                x=e[0][0]
                if any(dict(m).get(x,0)>1 for m in d.d): continue
                q={}; r={}
                for m,c in d.d.items():
                    dm=dict(m)
                    if dm.get(x,0)==1: del dm[x]; q[tuple(sorted(dm.items(),key=lambda t:t[0].id))]=c
                    else: r[m]=c
                q=num(Poly(q)); r=num(Poly(r))
                for sgn in (1,-1): yield q,add(r,scale(q,sgn)) if not isnum(q) else add(r,sgn*q),sub(T.P(x),sgn)
            gs=sorted({abs(c) for m,c in d.d.items() if isinstance(c,int) and abs(c)>1 and m!=ONE})
            if all(isinstance(c,int) for c in d.d.values()):
                for g in gs:
                    q={m:c//g for m,c in d.d.items() if c%g==0 and m!=ONE}; r={m:c for m,c in d.d.items() if c%g or m==ONE}
                    if not q: continue
                    c0=r.get(ONE,0); qc=c0//g
                    yield add(num(Poly(q)),qc),sub(num(Poly(r)),qc*g),T.P(g)
        for q,r,ep in divs():
            q0=q.d.get(ONE,0) if isinstance(q,Poly) else q
            for sh in ((0,1,-1) if q0 in (0,1,-1) or not isnum(q0) else (0,1,-1,q0)):
                q1=sub(q,sh); r1=add(r,mul(ep,sh))
                if solver.entails(pc,band(T.P(r1)<ep,neg(T.P(r1))<ep)):
                    a=self.split_eq(pc,q1) 
                    if a is None: return None
                    b=self.split_eq(pc,r1) if sh==0 else ([] if zero_(r1) else [T.P(r1)] if not isnum(num(r1)) else None)
                    if b is None: return None
                    return a+b
        return [d]
    def fixed_exts(self,pc):
        """extents the path equates to a number"""
        r={}
        for b in pc:
            if b.op in('eq','le','lt') and isinstance(b.args[0],Poly) and len(b.args[0].d)<=2:
                d=b.args[0].d; ms=[m for m in d if m!=ONE]
                if len(ms)==1 and len(ms[0])==1 and ms[0][0][1]==1 and ms[0][0][0].isext:
                    v=Fr(-d.get(ONE,0))/d[ms[0]]
                    if b.op=='eq' and v.denominator==1: r[ms[0][0][0]]=int(v)
                    elif b.op!='eq' and d[ms[0]]>0 and (v<2 if b.op=='le' else v<=2): r[ms[0][0][0]]=1   # extents are at least 1
        return r
    def solve_bulk(self,st,L,t):
        """condition and variable values for cell t being written by Bulk L. returns None (never) or (cond, env)"""
        vs=[v for v,_,_ in L.vars]
        rng=[]
        for v,lo,hi in L.vars: rng+= [T.P(v)>=lo, T.P(v)<hi]
        rng=[x for x in rng if x is not TRUE]
        pc=st.pc+rng
        env={}
        fx=self.fixed_exts(st.pc)
        for v,lo,hi in L.vars:
            w=num(T.subst(sub(hi,lo),fx)) if fx else num(sub(hi,lo))
            if isnum(w) and w==1: env[v]=T.P(lo)   # one value only
        d=sub(t,L.off)
        if fx: d=T.subst(T.P(d),fx)
        if env: d=T.subst(T.P(d),env)
        eqs=self.split_eq(pc,d)
        if eqs is None: return None
        eqs=list(eqs); prog=True
        while eqs and prog:
            prog=False
            for i,e in enumerate(eqs):
                e=T.subst(e,env); e=num(e)
                if isnum(e):
                    if e!=0: return None
                    eqs.pop(i); prog=True; break
                for v in vs:
                    if v in env: continue
                    c=e.d.get(((v,1),))
                    if c in (1,-1) and all(((v,1),)==m or v not in {x for a,_ in m for x in a.deps} for m in e.d):
                        sol=scale(sub(e,scale(T.P(v),c)),-c)
                        env={k:T.subst(x,{v:sol}) for k,x in env.items()}; env[v]=sol
                        eqs.pop(i); prog=True; break
                if prog: break
        conds=[]
        for e in eqs:
            e=num(T.subst(e,env))
            if not isnum(e) and any(v in T.deps(e) for v in vs): raise Unsupported('cannot solve write pattern %r'%e)
            conds.append(mkcmp('eq',e) if not isnum(e) else bconst(e==0))
        if any(v not in env for v in vs): raise Unsupported('non-injective write pattern %r at %r vars %r eqs %r'%(L.off,t,L.vars,env))
        for v,lo,hi in L.vars:
            k=env[v]; conds.append(T.subst(T.P(lo),env)<=k if not isnum(lo) else (T.P(k)>=lo)); conds.append(T.P(k)<T.subst(hi,env))
        if L.guard is not TRUE: conds.append(T.subst(L.guard,env))
        return band(*conds),env
    def read_arr(self,st,o,off,size,ty,start=None):
        i=(len(o.layers) if start is None else start)-1
        while i>=0:
            L=o.layers[i]; i-=1
            if isinstance(L,Write):
                eqs=self.split_eq(st.pc,sub(off,L.off))
                if eqs is None: continue
                c=band(*[mkcmp('eq',e) for e in eqs])
                if self.decide(st,c):
                    if L.size!=size: raise Unsupported('size mismatch')
                    return self.resolve(st,L.val)
            elif isinstance(L,Bulk):
                r=self.solve_bulk(st,L,off)
                if r is None: continue
                c,env=r
                if self.decide(st,c):
                    if L.size!=size: raise Unsupported('size mismatch')
                    return self.resolve(st,T.subst(L.val,env) if not isnum(L.val) else L.val)
            elif isinstance(L,Fill):
                c=band(T.P(off)>=L.lo if not isnum(off) else T.P(L.lo)<=off, T.P(off)<L.hi)
                if self.decide(st,c): return self.zero(ty)
            elif isinstance(L,Pending):
                for pt in L.pats:
                    r=self.solve_bulk(st,pt,off)
                    if r is None: continue
                    c,env=r
                    d=solver.decide(st.pc,c)
                    if d is False: continue
                    raise Unsupported('loop-carried memory dependence')
        if o.base is None:
            return app('uninit[%s]'%o.name,(off,),'I' if ty.kind==K_int else 'R')
        return o.base(off,size,ty)
    def resolve(self,st,v):
        if isinstance(v,CopyThunk): return self.read_obj(st,v.obj,v.off,v.size,v.ty)
        return v
    def zero(self,ty):
        if ty.kind==K_ptr: return NULLP
        if ty.kind==K_int and ty.w==1: return FALSE
        return 0
    def read_obj(self,st,o,off,size,ty):
        off=num(off)
        if o.arr:
            if not self.scout: return self.read_arr(st,o,off,size,ty)
            try: return self.read_arr(st,o,off,size,ty)
            except Unsupported as ex:   # only guessing: the position is not known yet
                if isnum(off) or not str(ex).startswith(('non-injective','cannot solve write')) or ty.kind not in(K_double,K_int): raise
                return app('opaque',(off,),'R' if ty.kind==K_double else 'I')
        if not isnum(off):
            # symbolic offset into a concretely laid out object: split over existing cells
            offs=sorted(x for x,(s,_) in o.cells.items() if s==size)
            if len(offs)>64: raise Unsupported('symbolic offset')
            for c in offs:
                if self.decide(st,mkcmp('eq',sub(off,c))): return self.read_obj(st,o,c,size,ty)
            raise Unsupported('symbolic offset outside cells of '+o.name)
        c=o.cells.get(off)
        if c is not None and c[0]==size: 
            v=c[1]
            if isinstance(v,tuple) and len(v)==2 and v[0]=='const': v=self.cval(st,v[1])
            return v
        if c is not None and isnum(c[1]) and isinstance(c[1],int) and size<c[0]:
            m=c[1] & ((1<<(8*size))-1)
            if m>>(8*size-1): m-=1<<(8*size)
            return m
        # assembled from smaller constant cells
        got=self._bytes(o,off,size)
        if got is not None:
            if ty.kind==K_double:
                import struct
                d=struct.unpack('<d',got)[0]; return cn(Fr(d))
            if ty.kind==K_ptr:
                v=int.from_bytes(got,'little',signed=True); return Ptr(None,v)
            v=int.from_bytes(got,'little',signed=True)
            return bconst(v&1) if ty.kind==K_int and ty.w==1 else v
        for lo,hi in reversed(o.fills):
            if lo<=off and off+size<=hi:
                if not any(off-16<x<off+size and x+o.cells[x][0]>off for x in range(max(lo,off-15),off+size) if x in o.cells): return self.zero(ty)
        if ty.kind==K_int:
            parts=[]; x=off
            while x<off+size:
                c=o.cells.get(x)
                if c is None or x+c[0]>off+size: break
                parts.append((x-off,c[0],c[1])); x+=c[0]
            if x==off+size: return Pack(parts)
            cc=o.cells.get(off)
            if parts==[] and cc is not None and isinstance(cc[1],Pack): return self.sub_pack(cc[1],0,size)
        for s0 in range(off-15,off):
            cc=o.cells.get(s0)
            if cc is not None and s0+cc[0]>=off+size and isinstance(cc[1],Pack): return self.sub_pack(cc[1],off-s0,size)
        if any((x in o.cells and x+o.cells[x][0]>off) for x in range(off-15,off+size)):
            if ty.kind!=K_int: raise Unsupported('partial overlap read of %s+%s size %d'%(o.name,off,size))
            return T.P(T._mk('sym','partial!%d'%next(T._ctr),(),'I',False))      # arbitrary value: partly uninitialised bytes
        if o.base is not None: return o.base(off,size,ty)
        return UNINIT(o,off,ty)
    def sub_pack(self,p,off,size):
        q=[(a-off,b,v) for a,b,v in p.parts if off<=a and a+b<=off+size]
        if sum(b for _,b,_ in q)!=size: raise Unsupported('pack cut')
        return q[0][2] if len(q)==1 else Pack(q)
    def _bytes(self,o,off,size):
        out=b''; x=off; end=off+size
        # find cell containing x
        while x<end:
            for s in range(x,x-17,-1):
                c=o.cells.get(s)
                if c is not None:
                    if s+c[0]<=x: c=None
                    break
            if c is None:
                for lo,hi in reversed(o.fills):
                    if lo<=x<hi: out+=b'\0'; x+=1; break
                else: return None
                continue
            v=c[1]
            if v is FALSE: v=0
            if v is TRUE: v=1
            if isinstance(v,Ptr) and v.o is None and isnum(v.off): v=v.off
            if isinstance(v,tuple) and len(v)==2 and v[0]=='const' and v[1] is NULL: v=0
            if isinstance(v,Fr) or (isinstance(v,int) and c[0]==8 and False): return None
            if not isinstance(v,int): return None
            b=(v & ((1<<(8*c[0]))-1)).to_bytes(c[0],'little')
            take=b[x-s:min(len(b),end-s)]; out+=take; x+=len(take)
        return out
    def load(self,st,p,ty):
        if not isinstance(p,Ptr): 
            if p is UNDEF: raise Unsupported('load through undef')
            p=self.inttoptr(st,p)
        if ty.kind==K_struct: return tuple(self.load(st,Ptr(p.o,add(p.off,f)),e) for f,e in zip(ty.offs,ty.elems))
        if ty.kind in (K_array,K_vector): return tuple(self.load(st,Ptr(p.o,add(p.off,i*ty.elem.size)),ty.elem) for i in range(ty.n))
        if p.o is None: raise Violated('null-dereference','load through a null pointer')
        if isinstance(p.o,tuple) and p.o[0]=='fn': raise Unsupported('load from function')
        o=st.mem[p.o]
        if o.freed: raise Violated('use-after-free','load from freed %s'%o.name)
        self.bound(st,o,p.off,ty.store,'load')
        v=self.read_obj(st,o,p.off,ty.store,ty)
        return self.coerce(st,v,ty)
    def coerce(self,st,v,ty):
        if ty.kind==K_int and ty.w==1 and not isinstance(v,Bool):
            if v is UNDEF: return v
            return bnot(mkcmp('eq',v))
        if ty.kind==K_int and ty.w!=1 and isinstance(v,Bool): return ite(v,1,0) if v not in(TRUE,FALSE) else int(v is TRUE)
        if ty.kind==K_int and isinstance(v,Ptr): return self.ptrtoint(st,v)
        if ty.kind==K_ptr and not isinstance(v,Ptr) and v is not UNDEF: return self.inttoptr(st,v)
        return v
    def bound(self,st,o,off,size,what):
        if o.size is None: return
        if isnum(off) and isnum(o.size):
            if off<0 or off+size>o.size: raise Violated('out-of-bounds','%s of %d bytes at offset %s of %s (size %s)'%(what,size,off,o.name,o.size))
            return
        if self.scout: return   # only guessing: checked in the deciding pass
        self.bounds_checks+=1
        ok=band(T.P(off)>=0 if not isnum(off) else bconst(off>=0), T.P(add(off,size))<=o.size)
        r=solver.entails(st.pc,ok)
        if r is True: return
        self.undecided_mem.append((list(st.pc),ok,'%s %s+%s size %s'%(what,o.name,off,o.size)))
    def store(self,st,p,val,ty):
        if not isinstance(p,Ptr): p=self.inttoptr(st,p)
        if ty.kind==K_struct:
            for f,e,x in zip(ty.offs,ty.elems,val if val is not UNDEF else [UNDEF]*ty.n): self.store(st,Ptr(p.o,add(p.off,f)),x,e)
            return
        if ty.kind in(K_array,K_vector):
            for i in range(ty.n): self.store(st,Ptr(p.o,add(p.off,i*ty.elem.size)),val[i] if val is not UNDEF else UNDEF,ty.elem)
            return
        if p.o is None: raise Violated('null-dereference','store through a null pointer')
        o=st.mem[p.o]
        if o.freed: raise Violated('use-after-free','store to freed %s'%o.name)
        self.bound(st,o,p.off,ty.store,'store')
        o=st.wobj(p.o)
        if isinstance(val,Bool): val=val if val not in(TRUE,FALSE) else val
        self.write_obj(st,o,p.off,ty.store,val)
    def write_obj(self,st,o,off,size,val):
        off=num(off)
        if isinstance(val,Pack):
            for a,b,v in val.parts: self.write_obj(st,o,add(off,a),b,v)
            return
        if o.arr: o.layers.append(Write(off,size,val)); return
        if not isnum(off):
            offs=sorted(x for x,(s,_) in o.cells.items() if s==size)
            if len(offs)>64: raise Unsupported('symbolic offset store')
            for c in offs:
                if self.decide(st,mkcmp('eq',sub(off,c))): o.cells[c]=(size,val); return
            raise Unsupported('symbolic offset store outside cells')
        c=o.cells.get(off)
        if c is None or c[0]!=size:
            for x in range(off-15,off+size):
                cc=o.cells.get(x)
                if cc is not None and x+cc[0]>off: self._carve(o,x,cc,off,off+size)
        if o.fills: pass
        o.cells[off]=(size,val)
    def _carve(self,o,x,cc,lo,hi):
        del o.cells[x]
        if lo<=x and x+cc[0]<=hi: return
        v=cc[1]
        if v is FALSE: v=0
        if isinstance(v,Ptr) and v.o is None and isnum(v.off): v=v.off
        if isinstance(v,int):
            b=(v & ((1<<(8*cc[0]))-1)).to_bytes(cc[0],'little')
            for i in range(cc[0]):
                if not lo<=x+i<hi: o.cells[x+i]=(1,b[i] if b[i]<128 else b[i]-256)
            return
        raise Unsupported('partial overwrite')
    def memset(self,st,p,val,n):
        if isnum(n) and n==0: return
        o=st.wobj(p.o)
        self.bound(st,o,p.off,n,'memset') if isnum(n) else None
        if isnum(n) and isnum(p.off) and not o.arr:
            for x in range(p.off-15,p.off): 
                cc=o.cells.get(x)
                if cc is not None and x+cc[0]>p.off: self._carve(o,x,cc,p.off,p.off+n)
            for x in [x for x in o.cells if p.off<=x<p.off+n]: 
                cc=o.cells[x]
                if x+cc[0]>p.off+n: self._carve(o,x,cc,p.off,p.off+n)
                else: del o.cells[x]
            if val==0: o.fills.append((p.off,p.off+n))
            else:
                for i in range(n): o.cells[p.off+i]=(1,val)
            return
        if not (isnum(val) and val==0): raise Unsupported('memset nonzero')
        if isnum(n) and n<=64 and n%8==0:
            for i in range(0,n,8): o.layers.append(Write(add(p.off,i),8,0))
            return
        if not o.arr: raise Unsupported('symbolic memset on flat object')
        o.layers.append(Fill(p.off,add(p.off,n),0))
    def memcpy(self,st,d,s,n):
        if isnum(n) and n==0: return
        if d.o is None or s.o is None: raise Violated('null-dereference','memcpy')
        so=st.mem[s.o]; 
        if d.o==s.o and not isnum(sub(d.off,s.off)): pass
        if isnum(n) and isnum(s.off) and isnum(d.off) and not so.arr and not st.mem[d.o].arr:
            if so.size is not None and isnum(so.size) and s.off+n>so.size: raise Violated('out-of-bounds','memcpy read beyond %s'%so.name)
            items=[]
            for x,(sz,v) in so.cells.items():
                if s.off<=x and x+sz<=s.off+n: items.append((x-s.off,sz,v))
                elif x<s.off+n and x+sz>s.off:
                    if isinstance(v,int):
                        b=(v & ((1<<(8*sz))-1)).to_bytes(sz,'little')
                        for i in range(sz):
                            if s.off<=x+i<s.off+n: items.append((x+i-s.off,1,b[i] if b[i]<128 else b[i]-256))
                    else: raise Unsupported('memcpy cuts a cell')
            fl=[(max(lo,s.off)-s.off,min(hi,s.off+n)-s.off) for lo,hi in so.fills if lo<s.off+n and hi>s.off]
            if so.base is not None or st.mem[d.o].base is not None:   # contents not written yet: as given initially
                cov=set()
                for x,sz,_ in items: cov.update(range(x,x+sz))
                for lo,hi in fl: cov.update(range(lo,hi))
                es=getattr(so.base,'es',8); i=0
                while i<n:
                    if i in cov: i+=1; continue
                    if so.base is None or (s.off+i)%es or i+es>n or any(j in cov for j in range(i,i+es)): raise Unsupported('memcpy of partly given contents')
                    items.append((i,es,so.base(s.off+i,es,None))); i+=es
            do=st.wobj(d.o)
            self.bound(st,do,d.off,n,'memcpy')
            for x in [x for x in do.cells if d.off-16<x<d.off+n]:
                cc=do.cells[x]
                if x+cc[0]>d.off: self._carve(do,x,cc,d.off,d.off+n)
            for lo,hi in fl: do.fills.append((d.off+lo,d.off+hi))
            for x,sz,v in items: do.cells[d.off+x]=(sz,v)
            return
        if isnum(n) and n<=64 and n%8==0:
            vals=[self.read_obj(st,so,add(s.off,i),8,F8) for i in range(0,n,8)]
            do=st.wobj(d.o)
            for i,v in enumerate(vals): self.write_obj(st,do,add(d.off,8*i),8,v)
            return
        do=st.wobj(d.o)
        if not do.arr:
            if not isnum(n): raise Unsupported('symbolic memcpy into flat object')
            raise Unsupported('memcpy arr->flat large')
        snap=so.clone(None) if so is not do else do.clone(None)
        k=T._mk('sym','cpy!%d'%next(T._ctr),(),'I',True)
        cnt=div(n,8)
        do.layers.append(Bulk([(k,0,cnt)],TRUE,add(d.off,scale(T.P(k),8)),8,CopyThunk(snap,add(s.off,scale(T.P(k),8)),8,F8)))
    # ------------------------------------------------------------ execution
    def start(self,name,args,st=None):
        st=st or State()
        self.push(st,name,args,None)
        return st
    def push(self,st,name,args,callins):
        m=self.defs[name]; fn=m.func(name)
        self.called.add(name)
        f=Frame(); f.fn=fn; f.mod=m; f.bi=0; f.prev=None; f.ii=0; f.regs=[None]*fn.nregs; f.visits=None; f.nosum=frozenset(); f.callins=callins
        for i,a in enumerate(args): f.regs[i]=a
        if len(st.frames)>200: raise Unsupported('recursion too deep')
        st.frames.append(f)
    def val(self,st,f,x):
        if type(x) is Reg: return f.regs[x.i]
        if type(x) is int or type(x) is Fr: return x
        return self.cval(st,x)
    def run_call(self,st,name,args):
        """execute a call to completion from a state with no frames: list of (kind,state)"""
        d=len(st.frames)
        self.push(st,name,args,'base')
        return self.explore(st,d)
    def explore(self,st0,depth,stop=None,early=None):
        """outcomes: ('ret',st) frame stack back to depth; ('exc',st); with stop=(depth,header,blocks): ('back',st),('exit',st)"""
        out=[]; work=[st0]; bad=None
        while work:
            st=work.pop()
            if len(out)+len(work)>self.max_paths: raise Unsupported('too many paths')
            try:
                k=self.step_until(st,depth,stop,work,early is not None)
            except PathEnd:
                continue
            except (Unsupported,Violated) as ex:
                if isinstance(ex,Violated) and getattr(ex,'pc',None) is None: ex.pc=list(st.pc)
                if not getattr(ex,'where',None):
                    ex.where=self.where=[(demangle(f.fn.name)[:200],f.bi,f.ii) for f in st.frames]
                if self.scout and isinstance(ex,Violated) and (out or work): continue   # only guessing: checked in the deciding pass
                if early is None or isinstance(ex,Violated) or time.time()>self.deadline: raise
                bad=ex; continue
            if k=='slice': work.insert(0,st); continue
            if k is not None:
                out.append((k,st))
                if early is not None and early(k,st): return out
        if bad is not None: raise bad
        return out
    def step_until(self,st,depth,stop,work,sliced=False):
        s0=self.steps
        while True:
            f=st.frames[-1]
            if sliced and work and self.steps>s0+400: return 'slice'
            if st.jump is not None:
                b=st.jump
                try: st.jump=None; r=self.goto(st,f,b,stop,work)
                except NeedFork as nf:
                    st.jump=b; st2=st.copy(); st2.assume(bnot(nf.cond)); st.assume(nf.cond); work.append(st2); continue
                if r is not None: return r
                continue
            ins=f.fn.blocks[f.bi].instrs[f.ii]
            self.steps+=1
            if self.steps>self.max_steps: raise Unsupported('step limit')
            if (self.steps & 255)==0 and time.time()>self.deadline: raise Unsupported('time limit')
            try:
                r=self.exec1(st,f,ins,depth,stop,work)
            except NeedFork as nf:
                if self.forks is not None:
                    k=(demangle(f.fn.name)[:160],f.bi,f.ii,str(nf.cond)[:150]); self.forks[k]=self.forks.get(k,0)+1
                st2=st.copy()
                st2.assume(bnot(nf.cond)); st.assume(nf.cond)
                work.append(st2)
                continue
            except Thrown as th:
                r=self.unwind(st,depth,th,stop,work)
            if r is not None: return r
    def unwind(self,st,depth,th,stop=None,work=None):
        """exception thrown by the current call instruction in the top frame"""
        while True:
            f=st.frames[-1]
            ins=f.fn.blocks[f.bi].instrs[f.ii]
            if ins.op=='invoke':
                st.exc=(th.obj,th.ti)
                return self.goto(st,f,ins.x[2],stop,work)
            st.frames.pop()
            if len(st.frames)<=depth:
                st.exc=(th.obj,th.ti)
                return 'exc'
    def goto(self,st,f,b,stop,work,depth=None):
        """transfer control; returns outcome kind if a stop condition is met"""
        fn=f.fn
        if stop is not None and len(st.frames)==stop[0] and f.fn is stop[3]:
            if b==stop[1]:
                f.prev=f.bi
                st.ghost=dict(st.ghost); st.ghost['phinext']={ph.dest:self.val(st,f,ph.x[f.bi]) for ph in fn.blocks[b].phis}
                return 'back'
            if b not in stop[2]:
                st.ghost=dict(st.ghost); st.ghost['exit']=(f.bi,b)
                return 'exit'
        B=fn.blocks[b]
        if B.phis:
            vals=[(ph.dest,self.val(st,f,ph.x[f.bi])) for ph in B.phis]
        else: vals=()
        if self.symloops:
            loops=llvmc.find_loops(fn)
            if b in loops and b not in f.nosum and (f.bi not in loops[b] or (f.visits or {}).get(('peel',b),0)==(f.visits or {}).get(b,0)>0):
                from . import loops as LP
                nu=len(self.undecided_mem); nv=(f.visits or {}).get(b,0)
                try:
                    if nv<3 and LP.calls_in_header(fn,b,loops[b],self.opt_direct): raise Unsupported('object freed inside loop: number of iterations told by a call: the first few are executed')
                    states=LP.summarise(self,st,f,b,loops[b],dict(vals))
                except Unsupported as e:
                    if TB and TB==str(e): import traceback; traceback.print_exc()
                    self.summary_fail.append((fn.name,b,str(e)))
                    states=None
                    nv=(f.visits or {}).get(b,0)
                    if nv<3 and str(e).startswith(PEEL):   # the first iteration is special: execute it and try again
                        f.visits=dict(f.visits or {}); f.visits[('peel',b)]=nv+1
                if states is None: del self.undecided_mem[nu:]
                if states is not None:
                    # states: list of states positioned at the header
                    for s in states[1:]: work.append(s)
                    if not states: raise PathEnd()
                    s0=states[0]
                    # adopt s0 into st
                    st.frames=s0.frames; st.mem=s0.mem; st.pc=s0.pc; st.events=s0.events; st.ghost=s0.ghost; st.jump=s0.jump; st.exc=s0.exc
                    _sid[0]+=1; st.id=_sid[0]
                    return None
            if b in loops:
                if f.visits is None: f.visits={}
                f.visits[b]=f.visits.get(b,0)+1
                if f.visits[b]>self.unroll_limit:
                    if solver.check(st.pc)=='unsat': raise PathEnd()
                    raise Unsupported('unroll limit in %s block %d'%(fn.name,b))
        for dst,v in vals: f.regs[dst]=v
        f.prev=f.bi; f.bi=b; f.ii=0
        return None
    def exec1(self,st,f,ins,depth,stop,work):
        op=ins.op; R=f.regs
        v=self.val
        if op=='load':
            R[ins.dest]=self.load(st,v(st,f,ins.ops[0]),ins.ty); f.ii+=1; return
        if op=='store':
            self.store(st,v(st,f,ins.ops[1]),v(st,f,ins.ops[0]) if not (ins.cty.kind==K_int and ins.cty.w==1 and type(ins.ops[0]) is int) else bconst(ins.ops[0]&1),ins.cty); f.ii+=1; return
        if op=='gep':
            p=v(st,f,ins.ops[0]); off,var=ins.x
            if not isinstance(p,Ptr):
                if isinstance(p,tuple) or p is UNDEF: raise Unsupported('gep base %r'%(p,))
                p=self.inttoptr(st,p)
            o=add(p.off,off) if off else p.off
            for x,s in var:
                iv=v(st,f,x)
                if isinstance(iv,Ptr): iv=self.ptrtoint(st,iv)
                o=add(o,scale(iv,s) if not isinstance(iv,Bool) else (s if iv is TRUE else 0))
            if not isnum(o) and any(isinstance(a.name,tuple) and a.name[0]=='addr' for m in o.d for a,_ in m if a.kind=='sym'):
                # pointer difference arithmetic: normalise
                tot=add(self.ptrtoint(st,Ptr(p.o,0)),o); R[ins.dest]=self.inttoptr(st,tot)
            else: R[ins.dest]=Ptr(p.o,o)
            f.ii+=1; return
        if op=='br':
            if len(ins.x)==1: return self.goto(st,f,ins.x[0],stop,work)
            c=v(st,f,ins.ops[0])
            if type(c) is int: c=bconst(c&1)
            if c is UNDEF: raise Unsupported('branch on undef')
            b=ins.x[0] if self.decide(st,c) else ins.x[1]
            return self.goto(st,f,b,stop,work)
        if op in BINI:
            a=v(st,f,ins.ops[0]); b=v(st,f,ins.ops[1])
            R[ins.dest]=self.binop(st,op,a,b,ins.ty); f.ii+=1; return
        if op in BINF:
            a=v(st,f,ins.ops[0]); b=v(st,f,ins.ops[1])
            if isinstance(a,tuple) or isinstance(b,tuple):
                R[ins.dest]=tuple(BINF[op](x,y) for x,y in zip(a,b))
            else:
                if a is UNDEF or b is UNDEF: R[ins.dest]=UNDEF
                else: R[ins.dest]=BINF[op](a,b)
            f.ii+=1; return
        if op=='fneg':
            a=v(st,f,ins.ops[0]); R[ins.dest]=tuple(neg(x) for x in a) if isinstance(a,tuple) else neg(a); f.ii+=1; return
        if op=='icmp':
            a=v(st,f,ins.ops[0]); b=v(st,f,ins.ops[1])
            R[ins.dest]=self.icmp(st,ins.x,a,b,ins.cty); f.ii+=1; return
        if op=='fcmp':
            a=v(st,f,ins.ops[0]); b=v(st,f,ins.ops[1])
            R[ins.dest]=self.fcmp(ins.x,a,b); f.ii+=1; return
        if op in('call','invoke'):
            return self.docall(st,f,ins,depth,stop,work)
        if op=='ret':
            val=v(st,f,ins.ops[0]) if ins.ops else None
            if ins.ops and f.fn.retty.kind==K_int and f.fn.retty.w==1 and type(val) is int: val=bconst(val&1)
            st.frames.pop()
            if len(st.frames)<=depth:
                st.retval=val; return 'ret'
            if stop is not None and len(st.frames)<stop[0]:
                st.retval=val
                raise Unsupported('return from inside a loop')
            g=st.frames[-1]; ci=g.fn.blocks[g.bi].instrs[g.ii]
            return self.finish_call(st,g,ci,val,stop,work)
        if op=='select':
            c=v(st,f,ins.ops[0]); 
            if type(c) is int: c=bconst(c&1)
            a=v(st,f,ins.ops[1]); b=v(st,f,ins.ops[2])
            if ins.ty.kind==K_int and ins.ty.w==1:
                a=bconst(a&1) if type(a) is int else a; b=bconst(b&1) if type(b) is int else b
            if c is TRUE: r=a
            elif c is FALSE: r=b
            elif isinstance(c,tuple): r=tuple(x if self.decide(st,cc if isinstance(cc,Bool) else bconst(cc)) else y for cc,x,y in zip(c,a,b))
            elif c is None: raise Unsupported('select on an unknown value')
            elif isinstance(a,Bool) and isinstance(b,Bool): r=bor(band(c,a),band(bnot(c),b))
            else: r=a if self.decide(st,c) else b
            R[ins.dest]=r; f.ii+=1; return
        if op in('sext','zext','trunc'):
            R[ins.dest]=self.conv(st,op,v(st,f,ins.ops[0]),ins.cty,ins.ty,ins.x); f.ii+=1; return
        if op in('sitofp','uitofp'):
            a=v(st,f,ins.ops[0])
            if isinstance(a,Bool): a=ite(a,1,0) if a not in(TRUE,FALSE) else (1 if a is TRUE else 0)
            if op=='uitofp' and not isinstance(a,tuple): a=self.unsigned(st,a,ins.cty.w)
            R[ins.dest]=a; f.ii+=1; return
        if op in('fptosi','fptoui'):
            a=v(st,f,ins.ops[0])
            if isnum(a): R[ins.dest]=int(a)
            elif sort_of(a)=='I': R[ins.dest]=a
            else:
                fl=app('floor',(a,),'I')
                if self.decide(st,T.P(a)>=0): R[ins.dest]=fl
                else: R[ins.dest]=neg(app('floor',(neg(a),),'I'))
            f.ii+=1; return
        if op in('fpext','fptrunc','bitcast','freeze','addrspacecast'):
            a=v(st,f,ins.ops[0]); 
            R[ins.dest]=a; f.ii+=1; return
        if op=='ptrtoint': R[ins.dest]=self.ptrtoint(st,v(st,f,ins.ops[0])); f.ii+=1; return
        if op=='inttoptr': R[ins.dest]=self.inttoptr(st,v(st,f,ins.ops[0])); f.ii+=1; return
        if op=='alloca':
            n=v(st,f,ins.ops[0]); o=self.new_obj(st,'stack:%s.%d'%(f.fn.name[:30],ins.dest),mul(ins.cty.size,n)); R[ins.dest]=Ptr(o.id,0); f.ii+=1; return
        if op=='extractvalue':
            a=v(st,f,ins.ops[0])
            for i in ins.x: a=a[i] if a is not UNDEF else UNDEF
            R[ins.dest]=a; f.ii+=1; return
        if op=='insertvalue':
            a=v(st,f,ins.ops[0]); x=v(st,f,ins.ops[1])
            R[ins.dest]=self._ins(a,ins.x,x,ins.ty); f.ii+=1; return
        if op=='extractelement':
            a=v(st,f,ins.ops[0]); i=v(st,f,ins.ops[1]); R[ins.dest]=a[i]; f.ii+=1; return
        if op=='insertelement':
            a=v(st,f,ins.ops[0]); i=v(st,f,ins.ops[2]); a=list(a) if a is not UNDEF else [UNDEF]*ins.ty.n; a[i]=v(st,f,ins.ops[1]); R[ins.dest]=tuple(a); f.ii+=1; return
        if op=='shufflevector':
            a=v(st,f,ins.ops[0]); b=v(st,f,ins.ops[1])
            n=ins.ty.n
            la=list(a) if a is not UNDEF else [UNDEF]*max(len(b),n); lb=list(b) if b is not UNDEF else [UNDEF]*len(la)
            al=la+lb; R[ins.dest]=tuple(al[i] if i>=0 else UNDEF for i in ins.x); f.ii+=1; return
        if op=='switch':
            c=v(st,f,ins.ops[0]); d,cs=ins.x
            for k,b in cs:
                if self.decide(st,mkcmp('eq',sub(c,k)) if not isinstance(c,Bool) else (c if k else bnot(c))): return self.goto(st,f,b,stop,work)
            return self.goto(st,f,d,stop,work)
        if op=='unreachable': raise PathEnd()
        if op=='landingpad':
            obj,ti=st.exc
            cleanup,cl=ins.x
            sel=0
            for i,c in enumerate(cl):
                if c is NULL: sel=('catchall',); break
                if isinstance(c,tuple): continue
                if isinstance(c,GlRef) and self.ti_match(st,ti,c.name): sel=('ti',c.name); break
            # selector as integer id
            if sel==0:
                if not cleanup:
                    # does not catch: propagate
                    pass
                s=0
            elif sel[0]=='catchall': s=1
            else: s=self.ti_id(sel[1])
            R[ins.dest]=(obj,s); f.ii+=1; return
        if op=='resume':
            obj,ti=st.exc
            th=Thrown(obj,ti)
            st.frames.pop()
            if len(st.frames)<=depth: return 'exc'
            return self.unwind(st,depth,th,stop,work)
        if op=='atomicrmw':
            p=v(st,f,ins.ops[0]); x=v(st,f,ins.ops[1]); old=self.load(st,p,ins.cty)
            nw={'add':lambda:add(old,x),'sub':lambda:sub(old,x),'xchg':lambda:x}.get(ins.x)
            if nw is None: raise Unsupported('atomicrmw '+ins.x)
            self.store(st,p,nw(),ins.cty); R[ins.dest]=old; f.ii+=1; return
        if op=='fence': f.ii+=1; return
        raise Unsupported('instruction '+op)
    def ti_id(self,name):
        self._tis=getattr(self,'_tis',{}); return self._tis.setdefault(name,2+len(self._tis))
    def ti_match(self,st,ti,want):
        """is the thrown type `ti` (typeinfo global name) derived from `want`"""
        if ti==want: return True
        for b,_ in self.ti_bases(st,ti):
            if self.ti_match(st,b,want): return True
        return False
    KNOWN_BASES={'_ZTISt13runtime_error':['_ZTISt9exception'],'_ZTISt11logic_error':['_ZTISt9exception'],'_ZTISt16invalid_argument':['_ZTISt11logic_error'],'_ZTISt14overflow_error':['_ZTISt13runtime_error'],'_ZTISt12out_of_range':['_ZTISt11logic_error'],'_ZTISt12length_error':['_ZTISt11logic_error'],'_ZTISt12domain_error':['_ZTISt11logic_error'],'_ZTISt9bad_alloc':['_ZTISt9exception'],'_ZTISt8bad_cast':['_ZTISt9exception'],'_ZTISt20bad_array_new_length':['_ZTISt9bad_alloc']}
    def ti_bases(self,st,ti):
        """[(base typeinfo name, byte offset)] of non-virtual bases (virtual: offset None)"""
        if ti in self.KNOWN_BASES: return [(b,0) for b in self.KNOWN_BASES[ti]]
        m=self.gdefs.get(ti)
        if m is None: return []
        c=m.const(llvmc.GInit(m.gls[ti]))
        vt=c[0]
        kind=vt.base.name if isinstance(vt,CGep) else ''
        if '__si_class_type_info' in kind: return [(c[2].name,0)]
        if '__vmi_class_type_info' in kind:
            r=[]
            for i in range(c[3]):
                b=c[4+2*i].name; fl=c[5+2*i]
                r.append((b,None if fl&1 else fl>>8, fl))
            return [(x[0],x[1]) if x[1] is not None else (x[0],('v',x[2]>>8)) for x in r]
        return []
    def _ins(self,a,idx,x,ty):
        if a is UNDEF: a=(UNDEF,)*ty.n
        i=idx[0]
        sub_=x if len(idx)==1 else self._ins(a[i],idx[1:],x,ty.elems[i] if ty.kind==K_struct else ty.elem)
        return a[:i]+(sub_,)+a[i+1:]
    def unsigned(self,st,a,w):
        if isnum(a): return a if a>=0 else a+(1<<w)
        if isinstance(a,Poly):
            h=T._sign_hint(a)
            if h in('pos','nonneg'): return a
            if self.decide(st,a>=0): return a
            return add(a,1<<w)
        return a
    def wrap(self,v,w):
        if isinstance(v,int):
            v&=(1<<w)-1
            if v>>(w-1): v-=1<<w
        return v
    def conv(self,st,op,a,src,dst,nneg):
        if isinstance(a,tuple): return tuple(self.conv(st,op,x,src.elem,dst.elem,nneg) for x in a)
        if a is UNDEF: return a
        if src.w==1:
            c=bconst(a&1) if type(a) is int else a
            if op=='sext': return (-1 if c is TRUE else 0 if c is FALSE else ite(c,-1,0))
            return (1 if c is TRUE else 0 if c is FALSE else ite(c,1,0))
        if op=='trunc':
            if isinstance(a,Pack): return self.sub_pack(a,0,dst.w//8)
            if dst.w==1:
                if isnum(a): return bconst(a&1)
                if isinstance(a,Poly) and len(a.d)==1:
                    (m,c),=a.d.items()
                    if c==1 and len(m)==1 and m[0][0].kind=='ite' and isnum(num(m[0][0].args[1])):
                        return m[0][0].args[0] if num(m[0][0].args[1])==1 else bnot(m[0][0].args[0])
                return mkcmp('eq',sub(imod(a,2),1))
            if isinstance(a,int): return self.wrap(a,dst.w)
            return a   # assumption: value fits (listed)
        if op=='zext':
            if isinstance(a,int): return a if a>=0 else a+(1<<src.w)
            if nneg: return a
            return self.unsigned(st,a,src.w)
        return a
    def binop(self,st,op,a,b,ty):
        if a is None or b is None: raise Unsupported('no value')
        if isinstance(a,tuple) or isinstance(b,tuple): return tuple(self.binop(st,op,x,y,ty.elem) for x,y in zip(a,b))
        if a is UNDEF or b is UNDEF:
            o=b if a is UNDEF else a
            if op=='or' and ty.kind==K_int and ty.w==1 and (o is TRUE or (isnum(o) and o&1)): return TRUE   # whatever the undefined operand is
            if op=='and' and (o is FALSE or (isnum(o) and o==0)): return o
            return UNDEF
        if ty.kind==K_int and ty.w==1:
            a=bconst(a&1) if type(a) is int else a; b=bconst(b&1) if type(b) is int else b
            if op=='and': return band(a,b)
            if op=='or': return bor(a,b)
            if op in('xor','add','sub'): 
                if b is TRUE: return bnot(a)
                if b is FALSE: return a
                if a is TRUE: return bnot(b)
                if a is FALSE: return b
                return bor(band(a,bnot(b)),band(bnot(a),b))
        w=ty.w
        if isinstance(a,Pack):
            if op in('lshr','ashr') and isnum(b) and b%8==0: return self.sub_pack(a,b//8,w//8-b//8)
            if op=='and' and b==(1<<32)-1 and w==64: return self.sub_pack(a,0,4)
            raise Unsupported('arithmetic on packed cells')
        if isinstance(b,Pack): raise Unsupported('arithmetic on packed cells')
        if isinstance(a,Ptr): a=self.ptrtoint(st,a)
        if isinstance(b,Ptr): b=self.ptrtoint(st,b)
        if isinstance(a,Bool): a=ite(a,1,0)
        if isinstance(b,Bool): b=ite(b,1,0)
        ci=isinstance(a,int) and isinstance(b,int)
        if op=='add': return self.wrap(add(a,b),w)
        if op=='sub': return self.wrap(sub(a,b),w)
        if op=='mul': return self.wrap(mul(a,b),w)
        if ci:
            M=(1<<w)-1
            if op=='and': return self.wrap(a&b,w)
            if op=='or': return self.wrap(a|b,w)
            if op=='xor': return self.wrap(a^b,w)
            if op=='shl': return self.wrap(a<<b,w)
            if op=='lshr': return self.wrap((a&M)>>b,w)
            if op=='ashr': return a>>b
            if op=='udiv': return self.wrap((a&M)//(b&M),w)
            if op=='urem': return self.wrap((a&M)%(b&M),w)
            if op=='sdiv': q=abs(a)//abs(b); return self.wrap(q if (a<0)==(b<0) else -q,w)
            if op=='srem': r=abs(a)%abs(b); return r if a>=0 else -r
        if op=='shl' and isnum(b): return scale(a,1<<b)
        if op=='ashr' and isnum(b): return idiv(a,1<<b)
        if op=='lshr' and isnum(b): return idiv(self.unsigned(st,a,w),1<<b)
        if op in('udiv','sdiv') and isnum(b) and b>0:
            if op=='udiv': return idiv(self.unsigned(st,a,w),b)
            r=div(a,b)
            if not isnum(r) and all(isinstance(c,int) for c in r.d.values()): return r   # exact
            if self.decide(st,a>=0): return idiv(a,b)
            return neg(idiv(neg(a),b))
        if op in('urem','srem') and isnum(b) and b>0:
            if op=='urem': return imod(self.unsigned(st,a,w),b)
            if self.decide(st,a>=0): return imod(a,b)
            return neg(imod(neg(a),b))
        if op in('udiv','urem','sdiv','srem'):
            if op[0]=='u': a=self.unsigned(st,a,w); b=self.unsigned(st,b,w)
            if self.decide(st,T.P(a)>=0) and self.decide(st,T.P(b)>0): return (idiv if op.endswith('div') else imod)(a,b)
        if op=='and' and isnum(b):
            if b>=0 and (b&(b+1))==0 and b<(1<<31)-1: return self.lowbits(a,b+1)
            nb=-b
            if b<0 and (nb&(nb-1))==0: return sub(a,self.lowbits(a,nb))
            lowb=b&-b
            if b+lowb>=(1<<31) and lowb<(1<<20) and ((b+lowb)&b)==0 and self.decide(st,T.P(a)>=0): return sub(a,self.lowbits(a,lowb))
            if b>0 and b&((1<<40)-1)==0 and self.decide(st,T.P(a)>=0): return 0     # machine integers assumed within range
            if b in((1<<31)-1,(1<<63)-1,(1<<32)-1):
                if self.decide(st,a>=0): return a   # machine integers assumed within range
                return self.lowbits(a,b+1)
        if op=='or' and isnum(b) and b>=0:
            # disjoint or
            k=1
            while k<=b: k<<=1
            lb=self.lowbits(a,k)
            if isnum(lb) and (lb&b)==0: return add(a,b)
        if op=='xor' and isnum(b) and b==-1: return sub(-1,a)
        if op in('and','or','xor') and isinstance(b,Poly) and isinstance(a,Poly) and a.d==b.d: return 0 if op=='xor' else a
        raise Unsupported('integer %s %r %r'%(op,a,b))
    def lowbits(self,a,k):
        if isnum(a): return a%k
        # addresses are assumed 64-byte aligned
        r={m:c for m,c in a.d.items() if not(len(m)==1 and m[0][0].kind=='sym' and isinstance(m[0][0].name,tuple) and m[0][0].name[0]=='addr')}
        if len(r)!=len(a.d) and k<=64: return self.lowbits(num(Poly(r)),k)
        return imod(a,k)
    def icmp(self,st,pred,a,b,ty):
        if isinstance(a,tuple): return tuple(self.icmp(st,pred,x,y,ty.elem) for x,y in zip(a,b))
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if not isinstance(a,Ptr): a=self.inttoptr(st,a)
            if not isinstance(b,Ptr): b=self.inttoptr(st,b)
            if a.o!=b.o:
                if pred=='eq': return FALSE
                if pred=='ne': return TRUE
                if b.o is None and isnum(b.off) and b.off==0: return bconst(pred in('ugt','uge'))
                if a.o is None and isnum(a.off) and a.off==0: return bconst(pred in('ult','ule'))
                a=self.ptrtoint(st,a); b=self.ptrtoint(st,b)
                return {'ult':T.P(a)<b,'ule':T.P(a)<=b,'ugt':T.P(a)>b,'uge':T.P(a)>=b}[pred]
            a=a.off; b=b.off
            pred={'ult':'slt','ule':'sle','ugt':'sgt','uge':'sge'}.get(pred,pred)
        elif ty.kind==K_int and ty.w==1:
            a=bconst(a&1) if type(a) is int else a; b=bconst(b&1) if type(b) is int else b
            if pred=='eq': return bor(band(a,b),band(bnot(a),bnot(b)))
            if pred=='ne': return bor(band(a,bnot(b)),band(bnot(a),b))
            a=ite(a,1,0); b=ite(b,1,0)
        if isinstance(a,Bool): a=ite(a,1,0)
        if isinstance(b,Bool): b=ite(b,1,0)
        if pred[0]=='u':
            a=self.unsigned(st,a,ty.w); b=self.unsigned(st,b,ty.w); pred='s'+pred[1:]
        if pred in('slt','sle','sgt','sge'):     # machine integers assumed below 2^40 in magnitude
            if type(b) is int and abs(b)>=1<<40 and not isnum(a): return bconst((pred in('slt','sle'))==(b>0))
            if type(a) is int and abs(a)>=1<<40 and not isnum(b): return bconst((pred in('sgt','sge'))==(a>0))
        d=sub(a,b)
        if pred=='eq': return mkcmp('eq',d)
        if pred=='ne': return bnot(mkcmp('eq',d))
        return {'slt':lambda:mkcmp('lt',d),'sle':lambda:mkcmp('le',d),'sgt':lambda:mkcmp('lt',neg(d)),'sge':lambda:mkcmp('le',neg(d))}[pred]()
    def fcmp(self,pred,a,b):
        if isinstance(a,tuple): return tuple(self.fcmp(pred,x,y) for x,y in zip(a,b))
        if pred in('uno','false'): return FALSE      # assumption: no NaN
        if pred in('ord','true'): return TRUE
        for x,y,flip in ((a,b,False),(b,a,True)):
            n=inf_of(y)
            if n is not None and inf_of(x) is None:
                big=n>0
                if flip: big=not big
                # a ? b with b=+inf (or a=-inf)
                return bconst({'eq':False,'ne':True,'lt':big,'le':big,'gt':not big,'ge':not big}[pred[1:]])
        d=sub(a,b); p=pred[1:]
        return {'eq':lambda:mkcmp('eq',d),'ne':lambda:bnot(mkcmp('eq',d)),'lt':lambda:mkcmp('lt',d),'le':lambda:mkcmp('le',d),'gt':lambda:mkcmp('lt',neg(d)),'ge':lambda:mkcmp('le',neg(d))}[p]()
    # ------------------------------------------------------------ calls
    def docall(self,st,f,ins,depth,stop,work):
        cal,nd,ud=ins.x
        if isinstance(cal,Reg): p=f.regs[cal.i]
        elif cal=='asm': f.ii+=1; return
        else: p=self.cval(st,cal) if not isinstance(cal,FnRef) else Ptr(('fn',cal.name),0)
        if not isinstance(p,Ptr) or not (isinstance(p.o,tuple) and p.o[0]=='fn'):
            if isinstance(p,Ptr) and p.o is None: raise Violated('null-call','call through a null function pointer')
            raise Unsupported('indirect call %r'%p)
        name=self.aliases.get(p.o[1],p.o[1])
        if name.startswith('llvm.lifetime'):   # the contents of the slot are indeterminate from here on
            p=self.val(st,f,ins.ops[1])
            if isinstance(p,Ptr) and p.o in st.mem and isnum(p.off) and p.off==0:
                o=st.mem[p.o]
                if not o.arr and o.name.startswith('stack:') and (o.cells or o.fills): o=st.wobj(p.o); o.cells={}; o.fills=[]
            f.ii+=1; return
        if name.startswith('llvm.') and (name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.experimental.noalias') or name.startswith('llvm.assume') or name.startswith('llvm.invariant')): f.ii+=1; return
        args=[]
        for x,t in zip(ins.ops,ins.cty):
            a=self.val(st,f,x)
            if t.kind==K_int and t.w==1 and type(a) is int: a=bconst(a&1)
            args.append(a)
        h=self.contracts.get(name)
        if type(h) is str:   # callee replaced by its contract, an executable specification; with concrete extents the body itself is run
            if self.symloops and name in self.defs: self.used_contracts.add(demangle(name)); name=h
            h=None
        h=h or self.stubs.get(name)
        if h is None:
            for pf,hh in self.over_stubs:
                if name.startswith(pf): h=hh; break
        if h is None and name not in self.defs:
            for pf,hh in self.prefix_stubs:
                if name.startswith(pf): h=hh; break
            if h is None and name.startswith('llvm.'):
                raise Unsupported('intrinsic '+name)
        if h is not None:
            r=h(self,st,args,ins)
            if isinstance(r,list):   # several outcomes: (cond, thunk)
                raise Unsupported('multi-outcome stub')
            return self.finish_call(st,f,ins,r,stop,work)
        if name in self.defs:
            self.push(st,name,args,ins); return None
        raise Unsupported('external function '+demangle(name))
    def finish_call(self,st,f,ins,val,stop,work):
        if val is not None: f.regs[ins.dest]=val
        if ins.op=='invoke': return self.goto(st,f,ins.x[1],stop,work)
        f.ii+=1
        return None

class Violated(Exception):
    """memory-safety violation on a feasible path"""
    def __init__(s,kind,msg): s.kind=kind; s.msg=msg; Exception.__init__(s,kind+': '+msg)
def inf_of(x):
    if isinstance(x,Poly) and len(x.d)==1:
        (m,c),=x.d.items()
        if len(m)==1 and m[0][0].kind=='app' and isinstance(m[0][0].name,str) and m[0][0].name.startswith('fpconst_'):
            nm=m[0][0].name
            if 'inf' in nm: return (-1 if '-' in nm else 1)*(1 if c>0 else -1)
    return None
def UNINIT(o,off,ty):
    if ty.kind==K_ptr: return UNDEF
    if ty.kind==K_int: return app('uninit[%s]'%o.name,(off,),'I')
    return app('uninit[%s#%s]'%(o.name,o.id),(off,),'R')
def zero_(x):
    x=num(x); return isnum(x) and x==0
class _F8:
    kind=K_double; w=None; store=8; size=8
F8=_F8()
BINI={'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'}
BINF={'fadd':add,'fsub':sub,'fmul':mul,'fdiv':div}
