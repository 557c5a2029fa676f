from vcgen.spec import *
from checks._el import *
NATIVE=['tri.cc']+UTILS+CORE
IR=RT+NATIVE
def diags(c,flags,m,k,s=''):
    return [c.carr(x+s,m+k if x=='zero' else m) for x in('zero','minus','plus')]
def sel(flags,bit,v): return v if flags&bit else 0
def act(c,flags,m,k,Z,M,P,psi,i):
    """row i of T psi, T given by functions of its diagonals"""
    r=0
    if flags&1: r=r+Z(i)*psi.old(i)
    if flags&2: r=r+c.ite(i>=k,M(i-k)*psi.old(i-k),0)
    if flags&4: r=r+c.ite(i<m,P(i)*psi.old(i+k),0)
    return r
def shape(c,s='',flags=(1,3,5,6,7)):
    f=c.choice('flags'+s,list(flags)); m=c.extent('m'+s); k=c.extent('k'+s); return f,m,k
@case('C08','apply',entry='h_tri_apply')
def _(c):
    """apply adds the action of the matrix with the given main, lower (distance k) and upper diagonals"""
    f,m,k=shape(c); z,mi,pl=diags(c,f,m,k); psi=c.carr('psi',m+k); d=c.carr('d',m+k)
    yield c.call(f,m,k,z,mi,pl,psi,d)
    i=c.idx('i',m+k); c.ensure('T psi',d.new(i),d.old(i)+act(c,f,m,k,z.old,mi.old,pl.old,psi,i)); c.ensure('psi',psi.new(i),psi.old(i))
@case('C08','dimension',entry='h_tri_dim',ret='i')
def _(c):
    """the dimension is the one implied by any diagonal present"""
    f,m,k=shape(c,flags=(1,2,3,4,5,6,7)); z,mi,pl=diags(c,f,m,k); tf=c.choice('toFreqs',[0,1]) if f&1 else 0
    yield c.call(f,m,k,z,mi,pl,tf)
    c.ensure('dimension',c.ret,m+k)
@case('C08','freqs',entry='h_tri_freqs',ret='d')
def _(c):
    """toFreqs: the main diagonal becomes the frequencies delta_n=zero(n)-zero(n+k) of the off-diagonals, whatever intermediate time was visited"""
    f,m,k=shape(c,flags=(3,5,7)); z,mi,pl=diags(c,f,m,k); psi=c.carr('psi',m+k); d=c.carr('d',m+k); ta=c.real('ta'); t=c.real('t')
    yield c.call(f,m,k,z,mi,pl,ta,t,psi,d)
    dl=lambda n:(z.old(n)-z.old(n+k))*t
    i=c.idx('i',m+k); c.ensure('T(t) psi',d.new(i),d.old(i)+act(c,f&6,m,k,None,lambda n:mi.old(n)*c.cexp(dl(n)),lambda n:pl.old(n)*c.cexp(-dl(n)),psi,i))
    c.ensure('time',c.ret,t)
@case('C08','furnish',entry='h_tri_furnish',ret='d')
def _(c):
    """furnishWithFreqs: off-diagonals rotate with the differences of the given main diagonal, the operator's own main diagonal stays"""
    f,m,k=shape(c,flags=(2,4,6,7)); z,mi,pl=diags(c,f,m,k); M=c.carr('main',m+k); psi=c.carr('psi',m+k); d=c.carr('d',m+k); ta=c.real('ta'); t=c.real('t')
    yield c.call(f,m,k,z,mi,pl,M,ta,t,psi,d)
    dl=lambda n:(M.old(n+k)-M.old(n))*t
    i=c.idx('i',m+k); c.ensure('T(t) psi',d.new(i),d.old(i)+act(c,f,m,k,z.old,lambda n:mi.old(n)*c.cexp(dl(n)),lambda n:pl.old(n)*c.cexp(-dl(n)),psi,i))
    c.ensure('time',c.ret,t)
@case('C08','dagger',entry='h_tri_dagger')
def _(c):
    """Hermitian conjugate: conjugated main diagonal, lower and upper diagonals conjugated and exchanged"""
    f,m,k=shape(c); z,mi,pl=diags(c,f,m,k); psi=c.carr('psi',m+k); d=c.carr('d',m+k)
    yield c.call(f,m,k,z,mi,pl,psi,d)
    i=c.idx('i',m+k); g=(f&1)|(4 if f&2 else 0)|(2 if f&4 else 0); cj=lambda a:lambda n:c.conj(a.old(n))
    c.ensure('T^dagger psi',d.new(i),d.old(i)+act(c,g,m,k,cj(z),cj(pl),cj(mi),psi,i))
@case('C08','scale',entry='h_tri_scale')
def _(c):
    """scalar multiples, quotients and negative"""
    op=c.choice('op',[0,1,2,3,4,5]); f,m,k=shape(c,flags=(6,7)); z,mi,pl=diags(c,f,m,k); s=c.cplx('c'); psi=c.carr('psi',m+k); d=c.carr('d',m+k)
    if op in(2,): c.assume(c.no(c.eq(s,c.cx(0,0))))
    if op in(4,): c.assume(c.no(c.eq(c.re(s),0)))
    yield c.call(op,f,m,k,z,mi,pl,s,psi,d)
    F=[s,s,c.conj(s)/c.abs2(s) if op==2 else 0,c.re(s),1/c.re(s) if op==4 else 0,-1][op]
    i=c.idx('i',m+k); c.ensure('scaled',d.new(i),d.old(i)+F*act(c,f,m,k,z.old,mi.old,pl.old,psi,i))
@case('C08','sum',entry='h_tri_sum')
def _(c):
    """sum and difference of two operators, whichever diagonals each has"""
    op=c.choice('op',[0,1]); fa,fb=c.choice('f',[(7,7),(1,6),(6,1),(3,5)]); m=c.extent('m'); k=c.extent('k'); A=diags(c,fa,m,k,'a'); B=diags(c,fb,m,k,'b'); psi=c.carr('psi',m+k); d=c.carr('d',m+k)
    yield c.call(op,fa,fb,m,k,*A,*B,psi,d)
    i=c.idx('i',m+k); r=lambda f,X:act(c,f,m,k,X[0].old,X[1].old,X[2].old,psi,i)
    c.ensure('(a+-b) psi',d.new(i),d.old(i)+r(fa,A)+(-1 if op else 1)*r(fb,B))
@case('C08','derive',entry='h_tri_derive',ret='d')
def _(c):
    """copies, multiples, sums and conjugates of an operator already propagated propagate on from its time; the original is independent of them"""
    op=c.choice('op',[0,1,2,3,4]); m=c.extent('m'); k=c.extent('k'); z,mi,pl=diags(c,7,m,k); ta=c.real('ta'); t=c.real('t'); s=c.cplx('c')
    psi=c.carr('psi',m+k); d=c.carr('d',m+k); d0=c.carr('d0',m+k)
    yield c.call(op,m,k,z,mi,pl,ta,t,s,psi,d,d0)
    dl=lambda n,t:(z.old(n)-z.old(n+k))*t
    i=c.idx('i',m+k); F=[1,-1,s,2,1][op]
    lo=lambda n,t:mi.old(n)*c.cexp(dl(n,t)); up=lambda n,t:pl.old(n)*c.cexp(-dl(n,t))
    if op<4: r=F*act(c,6,m,k,None,lambda n:lo(n,t),lambda n:up(n,t),psi,i)
    else: r=act(c,6,m,k,None,lambda n:c.conj(up(n,ta))*c.cexp(dl(n,t-ta)),lambda n:c.conj(lo(n,ta))*c.cexp(-dl(n,t-ta)),psi,i)
    c.ensure('derived',d.new(i),d.old(i)+r); c.ensure('original',d0.new(i),d0.old(i)+act(c,6,m,k,None,lambda n:lo(n,ta),lambda n:up(n,ta),psi,i))
    c.ensure('time',c.ret,t)
@case('C08','inplace',entry='h_tri_inplace')
def _(c):
    """a+=b, then a*=c: a is c(a+b), b stays as it was"""
    fa,fb=c.choice('f',[(7,7),(1,6),(6,1),(3,5)]); m=c.extent('m'); k=c.extent('k'); A=diags(c,fa,m,k,'a'); B=diags(c,fb,m,k,'b'); s=c.cplx('c')
    psi=c.carr('psi',m+k); d=c.carr('d',m+k); db=c.carr('db',m+k)
    yield c.call(fa,fb,m,k,*A,*B,s,psi,d,db)
    i=c.idx('i',m+k); r=lambda f,X:act(c,f,m,k,X[0].old,X[1].old,X[2].old,psi,i)
    c.ensure('c(a+b) psi',d.new(i),d.old(i)+s*(r(fa,A)+r(fb,B))); c.ensure('b psi',db.new(i),db.old(i)+r(fb,B))
@case('C08','hc',entry='h_tri_hc')
def _(c):
    """T+T^dagger, T-T^dagger and (T+T^dagger)/i"""
    op=c.choice('op',[0,1,2]); f,m,k=shape(c,flags=(2,7)); z,mi,pl=diags(c,f,m,k); psi=c.carr('psi',m+k); d=c.carr('d',m+k)
    yield c.call(op,f,m,k,z,mi,pl,psi,d)
    i=c.idx('i',m+k); g=(f&1)|(4 if f&2 else 0)|(2 if f&4 else 0); cj=lambda a:lambda n:c.conj(a.old(n))
    a=act(c,f,m,k,z.old,mi.old,pl.old,psi,i); b=act(c,g,m,k,cj(z),cj(pl),cj(mi),psi,i)
    c.ensure('T+-T^dagger',d.new(i),d.old(i)+[a+b,a-b,c.cx(0,-1)*(a+b)][op])
@case('C08','identity',entry='h_tri_identity')
def _(c):
    """identity(n) acts as the identity"""
    n=c.extent('n'); psi=c.carr('psi',n); d=c.carr('d',n)
    yield c.call(n,psi,d)
    i=c.idx('i',n); c.ensure('psi added',d.new(i),d.old(i)+psi.old(i))
def act2(c,A,B,psi,i,j):
    """(A x B) psi at (i,j); A,B: flags,m,k,Z,M,P"""
    def rows(X,i):
        f,m,k,Z,M,P=X; r=[]
        if f&1: r.append((None,Z(i),i))
        if f&2: r.append((i>=k,M(i-k),i-k))
        if f&4: r.append((i<m,P(i),i+k))
        return r
    s=0
    for g1,a,p in rows(A,i):
        for g2,b,q in rows(B,j):
            t=a*b*psi.old(p,q)
            if g2 is not None: t=c.ite(g2,t,0)
            if g1 is not None: t=c.ite(g1,t,0)
            s=s+t
    return s
def two(c,fa,fb):
    ma=c.extent('ma'); ka=c.extent('ka'); mb=c.extent('mb'); kb=c.extent('kb')
    A=diags(c,fa,ma,ka,'a'); B=diags(c,fb,mb,kb,'b'); psi=c.carr('psi',ma+ka,mb+kb); d=c.carr('d',ma+ka,mb+kb)
    return ma,ka,mb,kb,A,B,psi,d
def direct(fa,fb,proof):
    @case('C08','direct.%d%d'%(fa,fb),entry='h_tri_direct',bound=2,proof=proof)
    def _(c):
        """direct product acts as the Kronecker product of the matrices"""
        ma,ka,mb,kb,A,B,psi,d=two(c,fa,fb)
        yield c.call(fa,ma,ka,*A,fb,mb,kb,*B,psi,d)
        i=c.idx('i',ma+ka); j=c.idx('j',mb+kb)
        c.ensure('(A x B) psi',d.new(i,j),d.old(i,j)+act2(c,(fa,ma,ka,*[x.old for x in A]),(fb,mb,kb,*[x.old for x in B]),psi,i,j))
for fa,fb,p in((1,2,True),(2,1,True),(2,2,True),(2,4,True),(7,7,'thorough')): direct(fa,fb,p)
def directdagger(fa,fb,proof):
    @case('C08','direct.dagger.%d%d'%(fa,fb),entry='h_tri_directdagger',bound=2,proof=proof)
    def _(c):
        """Hermitian conjugate of a direct product"""
        ma,ka,mb,kb,A,B,psi,d=two(c,fa,fb)
        yield c.call(fa,ma,ka,*A,fb,mb,kb,*B,psi,d)
        i=c.idx('i',ma+ka); j=c.idx('j',mb+kb); cj=lambda a:lambda n:c.conj(a.old(n)); g=lambda f:(f&1)|(4 if f&2 else 0)|(2 if f&4 else 0)
        D=lambda X:[cj(X[0]),cj(X[2]),cj(X[1])]
        c.ensure('(A x B)^dagger psi',d.new(i,j),d.old(i,j)+act2(c,(g(fa),ma,ka,*D(A)),(g(fb),mb,kb,*D(B)),psi,i,j))
for fa,fb,p in((2,1,True),(2,4,True),(7,7,'thorough')): directdagger(fa,fb,p)
@case('C08','direct.freqs',entry='h_tri_directfreqs',bound=2,proof='thorough')
def _(c):
    """direct product of operators with or without frequencies taken at any common time, propagated to t: the product of the propagated factors"""
    fa,fb=c.choice('freqs',[(0,1),(1,0),(1,1)]); ma=c.extent('ma'); ka=c.extent('ka'); mb=c.extent('mb'); kb=c.extent('kb')
    A=diags(c,7,ma,ka,'a'); B=diags(c,7,mb,kb,'b'); ta=c.real('ta'); t=c.real('t'); psi=c.carr('psi',ma+ka,mb+kb); d=c.carr('d',ma+ka,mb+kb)
    yield c.call(fa,fb,ma,ka,*A,mb,kb,*B,ta,t,psi,d)
    i=c.idx('i',ma+ka); j=c.idx('j',mb+kb)
    def X(fr,m,k,D):
        z,mi,pl=D
        if not fr: return (7,m,k,z.old,mi.old,pl.old)
        dl=lambda n:(z.old(n)-z.old(n+k))*t
        return (6,m,k,None,lambda n:mi.old(n)*c.cexp(dl(n)),lambda n:pl.old(n)*c.cexp(-dl(n)))
    c.ensure('(A(t) x B(t)) psi',d.new(i,j),d.old(i,j)+act2(c,X(fa,ma,ka,A),X(fb,mb,kb,B),psi,i,j))
