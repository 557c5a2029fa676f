from vcgen.spec import *
from checks._el import *
NATIVE=['arrays.cc']+UTILS
IR=RT+NATIVE; TIMEOUT=150
@case('C15','tworeal',entry='h_tworeal')
def _(c):
    """calculateTwoTimesRealPartOfSelf: M <- M + M^dagger in place"""
    n=c.extent('n'); m=c.carr('m',n,n)
    yield c.call(n,m)
    i=c.idx('i',n); j=c.idx('j',n)
    c.ensure('M+M^dagger',m.new(i,j),m.old(i,j)+c.conj(m.old(j,i)))
@case('C15','apply',entry='h_matapply')
def _(c):
    """linalg::apply: b += M a, a and M unchanged"""
    m=c.extent('m'); n=c.extent('n'); a=c.carr('a',n); b=c.carr('b',m); M=c.carr('M',m,n)
    yield c.call(m,n,a,b,M)
    i=c.idx('i',m); j=c.idx('j',n)
    c.ensure('b',b.new(i),b.old(i)+c.sum(0,n,lambda k:M.old(i,k)*a.old(k)))
    c.ensure('a unchanged',a.new(j),a.old(j)); c.ensure('M unchanged',M.new(i,j),M.old(i,j))
def direct(name,entry,dims,ka):
    @case('C15',name,entry=entry)
    def _(c):
        """doDirect: A1_i*A2_j resp. A1_i+A2_j with the indices of the first factor first"""
        mu=c.choice('mult',[0,1]); e=[c.extent(x) for x in dims]; a=c.carr('a',*e[:ka]); b=c.carr('b',*e[ka:]); o=c.carr('out',*e)
        yield c.call(mu,*e,a,b,o)
        ix=[c.idx('i%d'%k,e[k]) for k in range(len(e))]; p,q=a.old(*ix[:ka]),b.old(*ix[ka:])
        c.ensure('direct product/sum',o.new(*ix),p*q if mu else p+q)
        c.ensure('first unchanged',a.new(*ix[:ka]),p); c.ensure('second unchanged',b.new(*ix[ka:]),q)
direct('direct11','h_direct11',['m','n'],1); direct('direct12','h_direct12',['l','m','n'],1); direct('direct21','h_direct21',['l','m','n'],2)
def hc(name,entry,dims,pure):
    @case('C15',name,entry=entry)
    def _(c):
        """Hermitian conjugate: exchange of the first and second half of the indices and complex conjugation"""
        e=[c.extent(x) for x in dims]; h=len(e)//2; a=c.carr('a',*e); o=c.carr('out',*(e[h:]+e[:h]))
        yield c.call(*e,a,o)
        ix=[c.idx('i%d'%k,e[k]) for k in range(len(e))]
        c.ensure('conjugate transpose',o.new(*(ix[h:]+ix[:h])),c.conj(a.old(*ix)))
        if pure: c.ensure('input unchanged',a.new(*ix),a.old(*ix))
hc('hc2','h_hc2','mn',1); hc('hcself2','h_hcself2','mn',0); hc('hc4','h_hc4','klmn',1); hc('hcself4','h_hcself4','klmn',0)
@case('C15','unary',entry='h_unary')
def _(c):
    """unaryArray: row-major one-dimensional view"""
    m=c.extent('m'); n=c.extent('n'); a=c.carr('a',m,n); o=c.carr('out',m*n)
    yield c.call(m,n,a,o)
    i=c.idx('i',m); j=c.idx('j',n); c.ensure('view',o.new(i*n+j),a.old(i,j)); c.ensure('input unchanged',a.new(i,j),a.old(i,j))
@case('C15','binary',entry='h_binary')
def _(c):
    """binaryArray: matrix view with row-major combined row and column indices"""
    m=c.extent('m'); n=c.extent('n'); a=c.carr('a',m,n,m,n); o=c.carr('out',m*n,m*n)
    yield c.call(m,n,a,o)
    i=c.idx('i',m); j=c.idx('j',n); k=c.idx('k',m); l=c.idx('l',n); c.ensure('view',o.new(i*n+j,k*n+l),a.old(i,j,k,l))
@case('C15','sqrabs',entry='h_sqrabs',ret='d')
def _(c):
    """sqrAbs(z)=|z|^2"""
    x=c.real('x'); y=c.real('y')
    yield c.call(x,y)
    c.ensure('|z|^2',c.ret,x*x+y*y)
