"""Terms of the verification conditions: polynomials over interned atoms (mathematical integers and reals),
boolean formulas over them, and their translation to SMT.

Normal form: a polynomial is a sum of monomials over atoms; at most one sqrt, one exp and one trigonometric atom
occur in a monomial (sqrt a*sqrt b = sqrt(ab), exp a*exp b = exp(a+b), product-to-sum for sin/cos), so that
polynomial identities modulo those rules are decided by comparing normal forms."""
from fractions import Fraction as Fr
import itertools, math

class Unsupported(Exception):
    """The engine cannot represent this: the obligation is out of reach (never 'violated')."""

_atoms={}
_atom_list=[]
class Atom:
    __slots__=('id','kind','name','args','sort','nonneg','deps','key','isext','depth','special')
    def __repr__(self): return atom_str(self)
    def __lt__(self,o): return self.id<o.id
    def __hash__(self): return self.id
    def __eq__(self,o): return self is o
    def __reduce__(self): raise TypeError

def _mk(kind,name,args,sort,nonneg=False):
    key=(kind,name,tuple(K(x) if isinstance(x,Poly) else x for x in args),sort)
    a=_atoms.get(key)
    if a is not None: return a
    a=Atom(); a.id=len(_atom_list); a.kind=kind; a.name=name; a.args=args; a.sort=sort; a.nonneg=nonneg; a.key=key; a.isext=False
    a.special = 1 if (kind=='app' and name in ('sqrt','exp','sin','cos')) else 0
    d=set()
    if kind=='sym': d.add(a)
    for x in args:
        d|=deps(x)
    if kind=='sum':
        for v in name[0]: d.discard(v)
        a.depth=max([v.name[1] for v in name[0]])
    else:
        a.depth=max([0]+[depth(x) for x in args])
    a.deps=frozenset(d)
    _atoms[key]=a; _atom_list.append(a)
    return a

def depth(x):
    if isinstance(x,Poly): return max([0]+[a.depth for m in x.d for a,_ in m])
    if isinstance(x,Bool): return max([0]+[depth(y) for y in x.args])
    return 0
def deps(x):
    if isinstance(x,Poly):
        r=set()
        for m in x.d:
            for a,_ in m: r|=a.deps
        return r
    if isinstance(x,Bool):
        r=set()
        for y in x.args: r|=deps(y)
        return r
    return set()

class Poly:
    __slots__=('d','_h')
    def __init__(self,d):
        self.d=d; self._h=None
    def __hash__(self):
        if self._h is None: self._h=hash(frozenset(self.d.items()))
        return self._h
    def __eq__(self,o):
        if isinstance(o,(int,Fr)): o=const(o)
        elif isinstance(o,float): o=const(Fr(o))
        if not isinstance(o,Poly): return NotImplemented
        return mkcmp('eq',sub(self,o))
    def __ne__(self,o): return bnot(self==o)
    def same(self,o): return isinstance(o,Poly) and self.d==o.d
    def __add__(self,o): return add(self,o)
    __radd__=__add__
    def __sub__(self,o): return sub(self,o)
    def __rsub__(self,o): return sub(o,self)
    def __mul__(self,o):
        if isinstance(o,Cx): return NotImplemented
        return mul(self,o)
    __rmul__=__mul__
    def __neg__(self): return neg(self)
    def __truediv__(self,o): return div(self,o)
    def __rtruediv__(self,o): return div(o,self)
    def __pow__(self,n): return power(self,n)
    def __lt__(self,o): return mkcmp('lt',sub(self,o))
    def __le__(self,o): return mkcmp('le',sub(self,o))
    def __gt__(self,o): return mkcmp('lt',sub(o,self))
    def __ge__(self,o): return mkcmp('le',sub(o,self))
    def __repr__(self): return poly_str(self)
    @property
    def real(self): return self
    @property
    def imag(self): return 0

class _Eqkey:
    pass
# dictionary keys need structural equality: wrap
class K:
    __slots__=('p',)
    def __init__(self,p): self.p=p
    def __hash__(self): return hash(self.p)
    def __eq__(self,o): return self.p.d==o.p.d if isinstance(self.p,Poly) and isinstance(o.p,Poly) else (self.p is o.p)

ONE=()
def cn(c):
    if isinstance(c,Fr) and c.denominator==1: return c.numerator
    return c
def const(c): 
    if isinstance(c,float): c=Fr(c)
    if isinstance(c,bool): c=int(c)
    c=cn(c)
    return Poly({ONE:c} if c!=0 else {})
def P(x):
    if isinstance(x,Poly): return x
    if isinstance(x,(int,Fr,float)): return const(x)
    if isinstance(x,Atom): return Poly({((x,1),):1})
    raise Unsupported('not a number: %r'%(x,))
def num(x):
    """python number if the term is constant, else the Poly"""
    if isinstance(x,Poly):
        if not x.d: return 0
        if len(x.d)==1 and ONE in x.d: return x.d[ONE]
    return x
def isnum(x): return isinstance(x,(int,Fr)) and not isinstance(x,bool)

def add(a,b):
    if isnum(a) and isnum(b): return cn(a+b)
    if isinstance(b,Cx): return b+a
    a=P(a); b=P(b)
    if len(a.d)<len(b.d): a,b=b,a
    d=dict(a.d)
    for m,c in b.d.items():
        s=d.get(m,0)+c
        if s==0: d.pop(m,None)
        else: d[m]=cn(s)
    return num(Poly(d))
def neg(a):
    if isnum(a): return -a
    return Poly({m:-c for m,c in a.d.items()})
def sub(a,b):
    if isnum(a) and isnum(b): return cn(a-b)
    return add(a,neg(b if isnum(b) else P(b)))
def scale(a,c):
    if c==0: return 0
    if isnum(a): return cn(a*c)
    return Poly({m:cn(x*c) for m,x in a.d.items()})

def _mulmono(m1,m2):
    """product of two monomials: returns Poly-dict (usually single)"""
    if not m1: return {m2:1}
    if not m2: return {m1:1}
    e={}
    sp=False
    for a,n in m1: e[a]=n; sp = sp or a.special
    sp2=False
    for a,n in m2:
        e[a]=e.get(a,0)+n; sp2=sp2 or a.special
    if sp and sp2: return _special(e)
    return {tuple(sorted(((a,n) for a,n in e.items() if n!=0),key=lambda t:t[0].id)):1}

def _special(e):
    """normalise a monomial that may contain several special atoms"""
    rest=[]; sq=[]; ex=[]; tr=[]
    for a,n in e.items():
        if n==0: continue
        if not a.special: rest.append((a,n)); continue
        if n<0:
            raise Unsupported('negative power of special atom')
        (sq if a.name=='sqrt' else ex if a.name=='exp' else tr).append((a,n))
    if len(sq)<2 and len(ex)<2 and len(tr)<2 and all(n==1 for l in(sq,ex,tr) for _,n in l):
        return {tuple(sorted(rest+sq+ex+tr,key=lambda t:t[0].id)):1}
    res=Poly({tuple(sorted(rest,key=lambda t:t[0].id)):1})
    if sq:
        arg=1; out=1
        for a,n in sq:
            out=mul_ns(out,power(a.args[0],n//2)) if n//2 else out
            if n%2: arg=mul(arg,a.args[0])
        res=_mulp(res,P(out))
        if not (isnum(arg) and arg==1): res=_mulp(res,P(sqrt_(arg)))
    if ex:
        arg=0
        for a,n in ex: arg=add(arg,scale(a.args[0],n))
        res=_mulp(res,P(exp_(arg)))
    if tr:
        # list of trig factors -> product to sum
        cur=Poly({ONE:1}); 
        terms=[('one',None,Fr(1))]
        for a,n in tr:
            for _ in range(n):
                nt=[]
                for (k,arg,c) in terms:
                    x=a.args[0]
                    if k=='one': nt.append((a.name,x,c)); continue
                    s=add(arg,x); d_=sub(arg,x)
                    if k=='cos' and a.name=='cos': nt+= [('cos',d_,c/2),('cos',s,c/2)]
                    elif k=='sin' and a.name=='sin': nt+= [('cos',d_,c/2),('cos',s,-c/2)]
                    elif k=='sin' and a.name=='cos': nt+= [('sin',s,c/2),('sin',d_,c/2)]
                    else: nt+= [('sin',s,c/2),('sin',d_,-c/2)]
                terms=nt
        tot=0
        for k,arg,c in terms:
            t={'one':lambda x:1,'cos':cos_,'sin':sin_}[k](arg)
            tot=add(tot,scale(t,c))
        res=_mulp(res,P(tot))
    return res.d
def mul_ns(a,b): return mul(a,b)
def _mulp(a,b):
    d={}
    for m1,c1 in a.d.items():
        for m2,c2 in b.d.items():
            c=c1*c2
            for m,k in _mulmono(m1,m2).items():
                s=d.get(m,0)+c*k
                if s==0: d.pop(m,None)
                else: d[m]=cn(s)
    return Poly(d)
MAXTERMS=60000
def mul(a,b):
    if isnum(a): return scale(b,a)
    if isnum(b): return scale(a,b)
    a=P(a); b=P(b)
    if len(a.d)*len(b.d)>MAXTERMS: raise Unsupported('term too large')
    return num(_mulp(a,b))
def power(a,n):
    if n<0: return div(1,power(a,-n))
    r=1
    for _ in range(n): r=mul(r,a)
    return r
def _invmono(m,c):
    res=const(Fr(1)/c if not isinstance(c,Fr) else 1/c)
    out=[]
    extra=[]
    for a,n in m:
        if a.special:
            if a.name=='exp': extra.append(exp_(scale(a.args[0],-n)))
            elif a.name=='sqrt':
                # 1/sqrt(x)=sqrt(x)/x
                p=div(power(P(a),n%2) if n%2 else 1,power(a.args[0],(n+1)//2)); extra.append(p)
            else: extra.append(power(inv_atom(P(a)),n))
        elif a.kind=='app' and a.name=='inv': extra.append(power(a.args[0],n))
        else: out.append((a,-n))
    r=Poly({tuple(out):cn(res.d[ONE])})
    for x in extra: r=mul(r,x)
    return r
def inv_atom(p):
    return P(_mk('app','inv',(p,),'R'))
def div(a,b):
    if isnum(b):
        if b==0: raise Unsupported('division by zero constant')
        if isnum(a): return cn(Fr(a)/b)
        return scale(a,Fr(1)/b)
    b=P(b)
    if len(b.d)==1:
        (m,c),=b.d.items()
        return mul(a,_invmono(m,c))
    if not isnum(a) and P(a).d==b.d: return 1
    # content normalisation
    items=sorted(b.d.items(),key=lambda t:[(x.id,n) for x,n in t[0]])
    lead=items[-1][1]
    nb=scale(b,Fr(1)/lead)
    # common monomial
    cm=None
    for m in nb.d:
        dm=dict(m)
        if cm is None: cm=dict(dm)
        else: cm={x:min(n,dm[x]) for x,n in cm.items() if x in dm}
    cm={x:n for x,n in (cm or {}).items() if n!=0 and not x.special}
    r=a
    if cm:
        mm=tuple(sorted(cm.items(),key=lambda t:t[0].id))
        imm=_invmono(mm,1)
        nb=mul(nb,imm); r=mul(r,imm)
    return scale(mul(r,inv_atom(P(nb))),Fr(1)/lead)

def sym(name,sort='R',nonneg=False): return P(_mk('sym',name,(),sort,nonneg))
_ctr=itertools.count()
def fresh(prefix,sort='R',nonneg=False): return sym('%s!%d'%(prefix,next(_ctr)),sort,nonneg)
def app(name,args,sort='R',nonneg=False):
    return P(_mk('app',name,tuple(P(x) if not isinstance(x,Bool) else x for x in args),sort,nonneg))

def _isqrt_part(n):
    """largest s with s*s | n"""
    s=1; f=2
    while f*f<=n and f<2000:
        while n%(f*f)==0: n//=f*f; s*=f
        f+=1
    r=math.isqrt(n)
    if r*r==n: s*=r; n=1
    return s,n
def sqrt_(x):
    if isinstance(x,float): x=Fr(x)
    if isnum(x):
        if x<0: raise Unsupported('sqrt of a negative number')
        if x==0: return 0
        x=Fr(x)
        s,r=_isqrt_part(x.numerator*x.denominator)
        out=Fr(s,x.denominator)
        if r==1: return cn(out)
        return scale(P(_mk('app','sqrt',(const(r),),'R',True)),out)
    # content
    num_g=0; den_l=1
    for c in x.d.values():
        c=Fr(c); num_g=math.gcd(num_g,c.numerator); den_l=den_l*c.denominator//math.gcd(den_l,c.denominator)
    # common monomial factors which are declared nonnegative
    cm=None
    for m in x.d:
        dm=dict(m)
        if cm is None: cm=dict(dm)
        else: cm={a:min(n,dm.get(a,0)) for a,n in cm.items() if a in dm}
    out=Poly({ONE:1}); inner=x
    mm=[];
    for a,n in (cm or {}).items():
        if a.nonneg and not a.special and abs(n)>=2:
            h=n//2 if n>0 else -((-n)//2)
            mm.append((a,h))
    s,r=_isqrt_part(num_g*den_l)
    outc=Fr(s,den_l)
    inner=scale(x,1/(outc*outc))
    res=const(outc)
    if mm:
        m1=tuple(sorted(mm,key=lambda t:t[0].id)); m2=tuple((a,-2*n) for a,n in m1)
        inner=_mulp(P(inner),Poly({m2:1})); res=_mulp(res,Poly({m1:1}))
    inner=num(inner)
    if isnum(inner):
        return mul(res,sqrt_(inner)) 
    # perfect square of a single nonneg-known poly (difference handled by prover)
    return num(_mulp(P(res),P(_mk('app','sqrt',(inner,),'R',True))))
def exp_(x):
    if isnum(x) and x==0: return 1
    return P(_mk('app','exp',(P(x),),'R',True))
def _canon_sign(x):
    items=min(x.d.items(),key=lambda t:[(a.id,n) for a,n in t[0]])
    return -1 if items[1]<0 else 1
def cos_(x):
    if isnum(x) and x==0: return 1
    x=P(x)
    if _canon_sign(x)<0: x=neg(x)
    return P(_mk('app','cos',(x,),'R'))
def sin_(x):
    if isnum(x) and x==0: return 0
    x=P(x)
    if _canon_sign(x)<0: return neg(P(_mk('app','sin',(neg(x),),'R')))
    return P(_mk('app','sin',(x,),'R'))
def abs_(x):
    if isnum(x): return abs(x)
    if all(c>0 for c in x.d.values()) and all((a.nonneg or n%2==0) for m in x.d for a,n in m): return x
    if all(c<0 for c in x.d.values()) and all((a.nonneg or n%2==0) for m in x.d for a,n in m): return neg(x)
    if _canon_sign(x)<0: x=neg(x)
    return P(_mk('app','abs',(x,),'R',True))
def ite(c,a,b):
    if c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a,Cx) or isinstance(b,Cx):
        a=cx(a); b=cx(b); return Cx(ite(c,a.re,b.re),ite(c,a.im,b.im))
    a=P(a); b=P(b)
    if a.d==b.d: return num(a)
    return P(_mk('ite',None,(c,a,b),sort_of(a) if sort_of(a)==sort_of(b) else 'R'))
def sort_of(p):
    if isinstance(p,int): return 'I'
    if isinstance(p,Fr): return 'R'
    for m,c in p.d.items():
        if isinstance(c,Fr): return 'R'
        for a,n in m:
            if a.sort!='I' or n<0: return 'R'
    return 'I'

def bvar(i): return _mk('sym',('§',i),(),'I')
def mk_sum(k,lo,hi,body):
    """sum_{k=lo}^{hi-1} body ; k is a sym atom or Poly of a single sym"""
    if isinstance(k,Poly): ((k,_),),=k.d.keys()
    if isinstance(body,Cx): return Cx(mk_sum(k,lo,hi,body.re),mk_sum(k,lo,hi,body.im))
    n=sub(hi,lo)
    if isnum(n):
        if n<=0: return 0
        if n<=24:
            r=0
            for i in range(int(n)): r=add(r,subst(body,{k:add(lo,i)}))
            return r
    if isnum(body): return mul(body,n)
    body=P(body)
    if not (isnum(lo) and lo==0): body=P(subst(body,{k:add(P(k),lo)}))
    tot=0
    for m,c in body.d.items():
        dep=tuple((a,e) for a,e in m if k in a.deps); ind=tuple((a,e) for a,e in m if k not in a.deps)
        if not dep: t=n
        else: t=_sum_atom(k,n,dep)
        tot=add(tot,mul(Poly({ind:c}),t))
    return tot
def _sum_atom(k,n,dep):
    # flatten a nested sum when it is a single factor power one
    ranges=[(k,n)]
    body=list(dep)
    sums=[(a,e) for a,e in body if a.kind=='sum' and e==1]
    while sums:
        a,e=sums[0]
        body.remove((a,e))
        vs,_=a.name
        ren={}
        for v,hi in zip(vs,a.args[:-1]):
            nv=_mk('sym',('fresh§',next(_ctr)),(),'I'); ren[v]=P(nv)
            ranges.append((nv,subst(hi,ren)))
        ib=P(subst(a.args[-1],ren))
        if len(ib.d)!=1: raise Unsupported('sum body')
        (m2,c2),=ib.d.items()
        if c2!=1: raise Unsupported('sum body coefficient')
        dd=_mulmono(tuple(sorted(body,key=lambda t:t[0].id)),m2)
        if len(dd)!=1:
            # cannot flatten
            return P(_mk('sum',((bvar(1+max(x.depth for x,_ in dep)),),None),(P(n),P(subst(Poly({dep:1}),{k:P(bvar(1+max(x.depth for x,_ in dep)))}))),'R'))
        (mm,cc),=dd.items()
        if cc!=1: raise Unsupported('sum coefficient')
        body=list(mm)
        sums=[(a,e) for a,e in body if a.kind=='sum' and e==1]
    bodyp=Poly({tuple(sorted(body,key=lambda t:t[0].id)):1})
    base=max([0]+[a.depth for a,_ in body])
    best=None
    r=len(ranges)
    perms=itertools.permutations(range(r)) if r<=4 else [tuple(range(r))]
    for pm in perms:
        # ranges may depend only on earlier variables
        ok=True; seen=set()
        for i in pm:
            dd=deps(P(ranges[i][1]))
            for j in range(r):
                if ranges[j][0] in dd and j not in seen: ok=False
            seen.add(i)
        if not ok: continue
        ren={ranges[i][0]:P(bvar(base+1+q)) for q,i in enumerate(pm)}
        rs=tuple(P(subst(P(ranges[i][1]),ren)) for i in pm)
        b=P(subst(bodyp,ren))
        key=(tuple(poly_str(x) for x in rs),poly_str(b))
        if best is None or key<best[0]: best=(key,rs,b)
    if best is None: raise Unsupported('sum ranges')
    _,rs,b=best
    return P(_mk('sum',(tuple(bvar(base+1+q) for q in range(r)),None),rs+(b,),'R'))

def subst(x,env,_c=None):
    """env: sym atom -> Poly/number"""
    if _c is None: _c={}
    if isnum(x) or isinstance(x,bool): return x
    if isinstance(x,Cx): return Cx(subst(x.re,env,_c),subst(x.im,env,_c))
    if isinstance(x,Bool):
        if x in (TRUE,FALSE): return x
        if not (deps(x) & env.keys()): return x
        if x.op in ('eq','lt','le'): return mkcmp(x.op,subst(x.args[0],env,_c))
        if x.op=='not': return bnot(subst(x.args[0],env,_c))
        if x.op=='and': return band(*[subst(y,env,_c) for y in x.args])
        if x.op=='or': return bor(*[subst(y,env,_c) for y in x.args])
        return x
    if not isinstance(x,Poly):
        if hasattr(x,'subst'): return x.subst(env)
        return x
    tot={}
    acc=0
    for m,c in x.d.items():
        if not any(a.deps & env.keys() for a,_ in m):
            acc=add(acc,Poly({m:c})); continue
        t=c
        for a,n in m:
            if a.deps & env.keys():
                v=_c.get(a)
                if v is None: v=_subst_atom(a,env,_c); _c[a]=v
                t=mul(t,power(v,n))
            else: t=mul(t,Poly({((a,n),):1}))
        acc=add(acc,t)
    return acc
def _subst_atom(a,env,_c):
    if a.kind=='sym': return env[a]
    if a.kind=='sum':
        vs,_=a.name
        e2={k:v for k,v in env.items() if k not in vs}
        # rename bound variables to fresh ones, then rebuild
        ren={}; fr=[]
        his=[]
        for v,h in zip(vs,a.args[:-1]):
            his.append(subst(subst(h,ren),e2))
            nv=_mk('sym',('fresh§',next(_ctr)),(),'I'); ren[v]=P(nv); fr.append(nv)
        b=subst(subst(a.args[-1],ren),e2)
        for nv,h in reversed(list(zip(fr,his))): b=mk_sum(nv,0,h,b)
        return b
    args=[subst(y,env,_c) for y in a.args]
    if a.kind=='ite': return ite(*args)
    f={'sqrt':sqrt_,'exp':exp_,'sin':sin_,'cos':cos_,'abs':abs_}.get(a.name)
    if f: return f(args[0])
    if a.name=='inv': return div(1,args[0])
    if a.name in ('idiv','imod'): return (idiv if a.name=='idiv' else imod)(args[0],args[1])
    return app(a.name,args,a.sort,a.nonneg)
def idiv(a,b):
    """floor division by a positive number"""
    if isnum(a) and isnum(b) and b!=0: return a//b
    if isnum(b) and b==1: return a
    if isnum(b) and b>1 and isinstance(a,Poly) and all(isinstance(c,int) for c in a.d.values()):
        q={m:c//b for m,c in a.d.items() if c%b==0}; r={m:c for m,c in a.d.items() if c%b}
        if not r: return num(Poly(q))
        if q and set(r)=={ONE}:
            return add(Poly(q),r[ONE]//b)
        if q: return add(Poly(q),app('idiv',(Poly(r),b),'I'))
    return app('idiv',(a,b),'I')
def imod(a,b):
    if isnum(a) and isnum(b) and b!=0: return a%b
    if isnum(b):
        q=idiv(a,b); return sub(a,scale(q,b)) if isnum(q) or not _hasidiv(q) else app('imod',(a,b),'I',True)
    return app('imod',(a,b),'I',True)
def _hasidiv(q): return any(x.kind=='app' and x.name=='idiv' for m in q.d for x,_ in m)

# ---------------------------------------------------------------- booleans
oracle=[None]     # current decision procedure for Bool.__bool__ (spec evaluation)
class Bool:
    __slots__=('op','args','_h')
    def __init__(self,op,args): self.op=op; self.args=args; self._h=hash((op,tuple(hash(a) for a in args)))
    def __hash__(self): return self._h
    def __eq__(self,o):
        if self is o: return True
        if not isinstance(o,Bool) or self.op!=o.op or len(self.args)!=len(o.args): return False
        for a,b in zip(self.args,o.args):
            if isinstance(a,Poly):
                if not isinstance(b,Poly) or a.d!=b.d: return False
            elif a!=b: return False
        return True
    def __bool__(self):
        if self is TRUE: return True
        if self is FALSE: return False
        if oracle[0] is None: raise Unsupported('undecided condition %r'%self)
        return oracle[0](self)
    def __and__(self,o): return band(self,o)
    def __or__(self,o): return bor(self,o)
    def __invert__(self): return bnot(self)
    def __repr__(self):
        if self.op in('eq','lt','le'): return '(%r %s 0)'%(self.args[0],{'eq':'==','lt':'<','le':'<='}[self.op])
        if self.op=='bsym': return self.args[0]
        return '%s(%s)'%(self.op,', '.join(map(repr,self.args)))
TRUE=Bool('true',()); FALSE=Bool('false',())
def bconst(b): return TRUE if b else FALSE
def mkcmp(op,p):
    p=num(p)
    if isnum(p): return bconst({'eq':p==0,'lt':p<0,'le':p<=0}[op])
    # normalise scale
    cs=list(p.d.values())
    l=1; g=0
    for c in cs:
        c=Fr(c); l=l*c.denominator//math.gcd(l,c.denominator)
    for c in cs: g=math.gcd(g,int(Fr(c)*l))
    f=Fr(l,g)
    if op=='eq' and _canon_sign(p)<0: f=-f
    if f!=1: p=scale(p,f)
    if op=='lt' and sort_of(p)=='I': op='le'; p=add(p,1)
    s=_sign_hint(p)
    if op=='eq' and s=='pos': return FALSE
    if op=='le':
        if s=='pos': return FALSE
        if s in('neg','nonpos'): return TRUE
    if op=='lt':
        if s in ('pos','nonneg'): return FALSE
        if s=='neg': return TRUE
    return Bool(op,(P(p),))
def _sign_hint(p):
    pos=all(c>0 for c in p.d.values()); negs=all(c<0 for c in p.d.values())
    if not (pos or negs): return None
    for m in p.d:
        for a,n in m:
            if not (a.nonneg or n%2==0): return None
    strict=ONE in p.d
    return ('pos' if strict else 'nonneg') if pos else ('neg' if strict else 'nonpos')
def bnot(b):
    if b is TRUE: return FALSE
    if b is FALSE: return TRUE
    if b is True or b is False: return bconst(not b)
    if b.op=='not': return b.args[0]
    if b.op=='lt': return mkcmp('le',neg(b.args[0]))
    if b.op=='le': return mkcmp('lt',neg(b.args[0]))
    return Bool('not',(b,))
def _flat(op,xs):
    out=[]
    for x in xs:
        if x is True: x=TRUE
        if x is False: x=FALSE
        if x.op==op: out+=list(x.args)
        else: out.append(x)
    return out
def band(*xs):
    o=[]
    for x in _flat('and',xs):
        if x is FALSE: return FALSE
        if x is TRUE: continue
        if x not in o: o.append(x)
    if not o: return TRUE
    return o[0] if len(o)==1 else Bool('and',tuple(o))
def bor(*xs):
    o=[]
    for x in _flat('or',xs):
        if x is TRUE: return TRUE
        if x is FALSE: continue
        if x not in o: o.append(x)
    if not o: return FALSE
    return o[0] if len(o)==1 else Bool('or',tuple(o))
def implies(a,b): return bor(bnot(a),b)
def bsym(name): return Bool('bsym',(name,))

# ---------------------------------------------------------------- complex pairs
class Cx:
    __slots__=('re','im')
    def __init__(self,re,im=0): self.re=re; self.im=im
    def __add__(s,o): o=cx(o); return Cx(add(s.re,o.re),add(s.im,o.im))
    __radd__=__add__
    def __sub__(s,o): o=cx(o); return Cx(sub(s.re,o.re),sub(s.im,o.im))
    def __rsub__(s,o): return cx(o)-s
    def __mul__(s,o):
        o=cx(o); return Cx(sub(mul(s.re,o.re),mul(s.im,o.im)),add(mul(s.re,o.im),mul(s.im,o.re)))
    __rmul__=__mul__
    def __neg__(s): return Cx(neg(s.re),neg(s.im))
    def __truediv__(s,o):
        if isinstance(o,(Cx,complex)):
            o=cx(o); n=add(mul(o.re,o.re),mul(o.im,o.im)); q=s*o.conj(); return Cx(div(q.re,n),div(q.im,n))
        return Cx(div(s.re,o),div(s.im,o))
    def __rtruediv__(s,o): return cx(o)/s
    def conj(s): return Cx(s.re,neg(s.im))
    conjugate=conj
    def abs2(s): return add(mul(s.re,s.re),mul(s.im,s.im))
    @property
    def real(s): return s.re
    @property
    def imag(s): return s.im
    def __repr__(s): return '(%r + i %r)'%(s.re,s.im)
def cx(x):
    if isinstance(x,Cx): return x
    if isinstance(x,complex): return Cx(cn(Fr(x.real)),cn(Fr(x.imag)))
    if isinstance(x,float): return Cx(cn(Fr(x)),0)
    return Cx(x,0)

# ---------------------------------------------------------------- printing / denominators
def atom_str(a):
    if a.kind=='sym': return a.name if isinstance(a.name,str) else '%s%s'%a.name
    if a.kind=='ite': return 'ite(%r,%r,%r)'%a.args
    if a.kind=='sum': return 'Sum[%s](%s)'%(','.join('%s<%s'%(atom_str(v),poly_str(h)) for v,h in zip(a.name[0],a.args[:-1])),poly_str(a.args[-1]))
    return '%s(%s)'%(a.name,','.join(poly_str(x) if isinstance(x,Poly) else repr(x) for x in a.args))
def poly_str(p):
    if isnum(p): return str(p)
    if not p.d: return '0'
    out=[]
    for m,c in sorted(p.d.items(),key=lambda t:[(a.id,n) for a,n in t[0]]):
        f='*'.join(atom_str(a)+('' if n==1 else '^%d'%n) for a,n in m)
        cs=str(c) if (abs(Fr(c).denominator)<10**6) else '%.17g'%float(c)
        out.append(f if c==1 and f else cs if not f else cs+'*'+f)
    return ' + '.join(out)

def clear_denoms(p):
    """multiply by all denominators (assumed non-zero)"""
    p=P(p)
    for _ in range(12):
        # negative powers
        mn={}
        for m in p.d:
            for a,n in m:
                if n<0: mn[a]=min(mn.get(a,0),n)
        if mn:
            p=P(mul(p,Poly({tuple(sorted(((a,-n) for a,n in mn.items()),key=lambda t:t[0].id)):1})))
        inv=None
        for m in p.d:
            for a,n in m:
                if a.kind=='app' and a.name=='inv': inv=a if inv is None or a.id>inv.id else inv
        if inv is None: return p
        mx=max(n for m in p.d for a,n in m if a is inv)
        q=inv.args[0]; r=0
        for m,c in p.d.items():
            e=dict(m).get(inv,0); mm=tuple((a,n) for a,n in m if a is not inv)
            r=add(r,mul(Poly({mm:c}),power(q,mx-e)))
        p=P(r)
        if not p.d: return p
    return p

def is_zero(p,tol=True):
    """normal-form zero test; tol: coefficients that came from rounded literals may differ by 1e-12 relative"""
    p=num(p)
    if isnum(p): return p==0 or (tol and abs(p)<1e-300)
    return False
def nearly_same(a,b,tol=Fr(1,10**11)):
    """identical up to relative rounding of literal coefficients"""
    a=P(a); b=P(b); d=P(sub(a,b))
    for m,c in d.d.items():
        ref=max(abs(a.d.get(m,0)),abs(b.d.get(m,0)))
        if abs(c)>tol*ref: return False
    return True

# ---------------------------------------------------------------- numeric evaluation
def evalnum(x,env):
    """env: atom -> float  or callable(atom)->float for syms/apps"""
    if isnum(x): return float(x) if not isinstance(x,int) else x
    if isinstance(x,Bool):
        if x is TRUE: return True
        if x is FALSE: return False
        if x.op=='eq': return abs(evalnum(x.args[0],env))<1e-300
        if x.op=='lt': return evalnum(x.args[0],env)<0
        if x.op=='le': return evalnum(x.args[0],env)<=0
        if x.op=='not': return not evalnum(x.args[0],env)
        if x.op=='and': return all(evalnum(y,env) for y in x.args)
        if x.op=='or': return any(evalnum(y,env) for y in x.args)
        raise Unsupported('eval')
    t=0
    for m,c in x.d.items():
        v=float(c) if isinstance(c,Fr) else c
        for a,n in m: v=v*evalatom(a,env)**n
        t+=v
    return t
def evalatom(a,env):
    if a in env: return env[a]
    if a.kind=='app':
        f={'sqrt':math.sqrt,'exp':math.exp,'sin':math.sin,'cos':math.cos,'abs':abs,'inv':lambda z:1/z,'floor':math.floor}.get(a.name)
        if f: return f(evalnum(a.args[0],env))
        if a.name=='idiv': return evalnum(a.args[0],env)//evalnum(a.args[1],env)
        if a.name=='imod': return evalnum(a.args[0],env)%evalnum(a.args[1],env)
    if a.kind=='ite': return evalnum(a.args[1] if evalnum(a.args[0],env) else a.args[2],env)
    if a.kind=='sum':
        vs=a.name[0]
        def rec(i,en):
            if i==len(vs): return evalnum(a.args[-1],en)
            t=0
            for j in range(int(evalnum(a.args[i],en))): t+=rec(i+1,{**en,vs[i]:j})
            return t
        return rec(0,env)
    if a.kind=='app' and '__fun__' in env:
        return env['__fun__'](a,tuple(round(evalnum(x,env),9) if not isinstance(x,Bool) else evalnum(x,env) for x in a.args))
    if '__default__' in env: return env['__default__'](a)
    raise Unsupported('no value for %r'%a)
def atoms_of(xs):
    """all atoms occurring in the terms, arguments first"""
    seen=[]; s=set()
    def go(x):
        if isinstance(x,Bool):
            for y in x.args:
                if isinstance(y,(Bool,Poly)): go(y)
        elif isinstance(x,Poly):
            for m in x.d:
                for a,_ in m:
                    if a in s: continue
                    s.add(a)
                    for y in a.args: go(y)
                    seen.append(a)
    for x in xs: go(x)
    return seen

def diff(x,v):
    """derivative with respect to a symbol (a polynomial that is one symbol)"""
    (m,_),=P(v).d.items(); (a0,_),=m
    def at(a):
        if a is a0: return 1
        if a0 not in a.deps: return 0
        if a.kind=='app' and a.name in('exp','sin','cos','sqrt','inv'):
            u=a.args[0]; du=df(u)
            if a.name=='exp': return mul(exp_(u),du)
            if a.name=='sin': return mul(cos_(u),du)
            if a.name=='cos': return neg(mul(sin_(u),du))
            if a.name=='sqrt': return mul(du,div(Fr(1,2),sqrt_(u)))
            return neg(mul(du,power(div(1,u),2)))
        raise Unsupported('derivative of '+str(a.name))
    def df(x):
        if isnum(x): return 0
        if isinstance(x,Cx): return Cx(df(x.re),df(x.im))
        r=0
        for m,c in P(x).d.items():
            for i,(a,n) in enumerate(m):
                d=at(a)
                if isnum(d) and d==0: continue
                t=mul(c*n,d)
                for j,(b,k) in enumerate(m):
                    e=k-1 if j==i else k
                    if e: t=mul(t,power(P(b),e))
                r=add(r,t)
        return r
    return df(x)
