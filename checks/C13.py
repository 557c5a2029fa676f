from vcgen.spec import *
from vcgen.build import RT,UTILS
NATIVE=['qdata.cc']+UTILS; IR=RT+NATIVE
def pos(i,j,n): return n+2*(i*n-i*(i+1)//2+j-i-1)
# ---- flattening: populations, then real and imaginary parts of the upper triangle in row-major order
@case('C13','deflate.diagonal.sv1',entry='h_deflate1')
def _(c):
    n=c.extent('n'); p=c.carr('psi',n); o=c.rarr('out',n); yield c.call(n,0,p,o)
    i=c.idx('i',n); c.ensure('population',o.new(i),c.abs2(p.old(i)))
@case('C13','deflate.diagonal.do1',entry='h_deflate1d')
def _(c):
    n=c.extent('n'); p=c.carr('rho',n,n); o=c.rarr('out',n); yield c.call(n,0,p,o)
    i=c.idx('i',n); c.ensure('population',o.new(i),c.re(p.old(i,i)))
@case('C13','deflate.diagonal.do2',entry='h_deflate2d',proof='thorough')
def _(c):
    m=c.extent('m'); n=c.extent('n'); p=c.carr('rho',m,n,m,n); o=c.rarr('out',m*n); yield c.call(m,n,0,p,o)
    i=c.idx('i',m); k=c.idx('k',n); c.ensure('population',o.new(i*n+k),c.re(p.old(i,k,i,k)))
@case('C13','inflate.diagonal.1',entry='h_inflate1')
def _(c):
    """restoring the populations only"""
    n=c.extent('n'); f=c.rarr('f',n); p=c.carr('rho',n,n); yield c.call(n,0,f,p)
    i=c.idx('i',n); j=c.idx('j',n); c.ensure('population',p.new(i,j),c.ite(c.eq(i,j),c.cx(f.old(i)),p.old(i,j)))
@case('C13','inflate.diagonal.2',entry='h_inflate2',proof='thorough')
def _(c):
    m=c.extent('m'); n=c.extent('n'); f=c.rarr('f',m*n); p=c.carr('rho',m,n,m,n); yield c.call(m,n,0,f,p)
    i=c.idx('i',m); k=c.idx('k',n); c.ensure('population',p.new(i,k,i,k),c.cx(f.old(i*n+k)))
# ---- with off-diagonals: the position is quadratic in the index
def full(name,entry,R,inflate,sv):
    @case('C13',name,entry=entry,proof=False,bound=4 if R==1 else 3,maxext=4)
    def _(c):
        """all of the N^2 numbers: populations followed by re,im of the upper triangle, row by row"""
        if R==1: e=[c.extent('n')]; N=e[0]
        else: e=[c.extent('m'),c.extent('n')]; N=e[0]*e[1]
        a=c.carr('a',*e) if sv else c.carr('a',*e,*e); f=c.rarr('f',N*N)
        yield (c.call(*e,1,f,a) if inflate else c.call(*e,1,a,f))
        def ix(i): return [i] if R==1 else [i//e[1],i%e[1]]
        def get(i,j,new):
            if sv: return a.old(*ix(i))*c.conj(a.old(*ix(j)))
            return (a.new if new else a.old)(*ix(i),*ix(j))
        for i in range(N):
            for j in range(i,N):
                if i==j:
                    if inflate: c.ensure('population',get(i,i,1),c.cx(f.old(i)))
                    else: c.ensure('population',f.new(i),c.re(get(i,i,0)))
                else:
                    q=pos(i,j,N)
                    if inflate:
                        c.ensure('upper',get(i,j,1),c.cx(f.old(q),f.old(q+1))); c.ensure('lower',get(j,i,1),c.cx(f.old(q),-f.old(q+1)))
                    else: c.ensure('re',f.new(q),c.re(get(i,j,0))); c.ensure('im',f.new(q+1),c.im(get(i,j,0)))
full('deflate.full.sv1','h_deflate1',1,0,1); full('deflate.full.do1','h_deflate1d',1,0,0); full('deflate.full.do2','h_deflate2d',2,0,0)
full('inflate.full.1','h_inflate1',1,1,0); full('inflate.full.2','h_inflate2',2,1,0)
