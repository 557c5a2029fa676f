from vcgen.spec import *
from vcgen.build import RT,UTILS
NATIVE=['qdata.cc']+UTILS; IR=RT+NATIVE
def ix(c,name,n): return c.int(name,lo=0,hi=n-1)
# ---- the common interface: element (i,j) and trace
@case('C14','index.sv1',entry='h_svldo1')
def _(c):
    """a state vector seen as a density operator has the elements psi_i conj(psi_j)"""
    n=c.extent('n'); i=ix(c,'i',n); j=ix(c,'j',n); p=c.carr('psi',n); o=c.rarr('out',3)
    yield c.call(n,i,j,p,o)
    z=p.old(i)*c.conj(p.old(j))
    c.ensure('re',o.new(0),c.re(z)); c.ensure('im',o.new(1),c.im(z)); c.ensure('diagonal',o.new(2),c.abs2(p.old(i)))
@case('C14','index.sv2',entry='h_svldo2')
def _(c):
    m=c.extent('m'); n=c.extent('n'); i=ix(c,'i',m); k=ix(c,'k',n); j=ix(c,'j',m); l=ix(c,'l',n); p=c.carr('psi',m,n); o=c.rarr('out',3)
    yield c.call(m,n,i,k,j,l,p,o)
    z=p.old(i,k)*c.conj(p.old(j,l))
    c.ensure('re',o.new(0),c.re(z)); c.ensure('im',o.new(1),c.im(z)); c.ensure('diagonal',o.new(2),c.abs2(p.old(i,k)))
@case('C14','index.do1',entry='h_doldo1')
def _(c):
    n=c.extent('n'); i=ix(c,'i',n); j=ix(c,'j',n); p=c.carr('rho',n,n); o=c.rarr('out',3)
    yield c.call(n,i,j,p,o)
    z=p.old(i,j)
    c.ensure('re',o.new(0),c.re(z)); c.ensure('im',o.new(1),c.im(z)); c.ensure('diagonal',o.new(2),c.re(p.old(i,i)))
@case('C14','index.do2',entry='h_doldo2')
def _(c):
    m=c.extent('m'); n=c.extent('n'); i=ix(c,'i',m); k=ix(c,'k',n); j=ix(c,'j',m); l=ix(c,'l',n); p=c.carr('rho',m,n,m,n); o=c.rarr('out',3)
    yield c.call(m,n,i,k,j,l,p,o)
    z=p.old(i,k,j,l)
    c.ensure('re',o.new(0),c.re(z)); c.ensure('im',o.new(1),c.im(z)); c.ensure('diagonal',o.new(2),c.re(p.old(i,k,i,k)))
def norm2(c,p,*e):
    if len(e)==1: return c.sum(0,e[0],lambda i:c.abs2(p.old(i)))
    return c.sum(0,e[0],lambda i:c.sum(0,e[1],lambda j:c.abs2(p.old(i,j))))
@case('C14','trace.sv1',entry='h_svtrace1',ret='d')
def _(c):
    n=c.extent('n'); p=c.carr('psi',n); yield c.call(n,p); c.ensure('trace',c.ret,norm2(c,p,n))
@case('C14','trace.sv2',entry='h_svtrace2',ret='d')
def _(c):
    m=c.extent('m'); n=c.extent('n'); p=c.carr('psi',m,n); yield c.call(m,n,p); c.ensure('trace',c.ret,norm2(c,p,m,n))
@case('C14','trace.do1',entry='h_dotrace1',ret='d')
def _(c):
    n=c.extent('n'); p=c.carr('rho',n,n); yield c.call(n,p); c.ensure('trace',c.ret,c.sum(0,n,lambda i:c.re(p.old(i,i))))
@case('C14','trace.do2',entry='h_dotrace2',ret='d')
def _(c):
    m=c.extent('m'); n=c.extent('n'); p=c.carr('rho',m,n,m,n); yield c.call(m,n,p)
    c.ensure('trace',c.ret,c.sum(0,m,lambda i:c.sum(0,n,lambda j:c.re(p.old(i,j,i,j)))))
@case('C14','norm.sv1',entry='h_svnorm1',ret='d')
def _(c):
    n=c.extent('n'); p=c.carr('psi',n); yield c.call(n,p); c.ensure('norm',c.ret,c.sqrt(norm2(c,p,n)))
@case('C14','renorm.sv1',entry='h_svrenorm1',ret='d')
def _(c):
    """renormalising divides every amplitude by the norm, which is returned"""
    n=c.extent('n'); p=c.carr('psi',n); s=norm2(c,p,n); c.assume(s>0); yield c.call(n,p)
    r=c.sqrt(s); c.ensure('norm',c.ret,r); i=c.idx('i',n); c.ensure('state',p.new(i)*c.ret,p.old(i))
@case('C14','renorm.sv2',entry='h_svrenorm2',ret='d')
def _(c):
    m=c.extent('m'); n=c.extent('n'); p=c.carr('psi',m,n); s=norm2(c,p,m,n); c.assume(s>0); yield c.call(m,n,p)
    r=c.sqrt(s); c.ensure('norm',c.ret,r); i=c.idx('i',m); j=c.idx('j',n); c.ensure('state',p.new(i,j)*c.ret,p.old(i,j))
@case('C14','renorm.do1',entry='h_dorenorm1',ret='d')
def _(c):
    n=c.extent('n'); p=c.carr('rho',n,n); s=c.sum(0,n,lambda i:c.re(p.old(i,i))); c.assume(s>0); yield c.call(n,p)
    c.ensure('trace',c.ret,s); i=c.idx('i',n); j=c.idx('j',n); c.ensure('state',p.new(i,j)*s,p.old(i,j))
@case('C14','renorm.do2',entry='h_dorenorm2',ret='d')
def _(c):
    m=c.extent('m'); n=c.extent('n'); p=c.carr('rho',m,n,m,n); s=c.sum(0,m,lambda i:c.sum(0,n,lambda j:c.re(p.old(i,j,i,j)))); c.assume(s>0); yield c.call(m,n,p)
    c.ensure('trace',c.ret,s); i=c.idx('i',m); k=c.idx('k',n); j=c.idx('j',m); l=c.idx('l',n); c.ensure('state',p.new(i,k,j,l)*s,p.old(i,k,j,l))
def frob(c,p,n): return c.sum(0,n,lambda i:c.sum(0,n,lambda j:c.abs2(p.old(i,j))))
@case('C14','frobenius.do1',entry='h_dofrob1',ret='d')
def _(c):
    n=c.extent('n'); p=c.carr('rho',n,n); yield c.call(n,p); c.ensure('norm',c.ret,c.sqrt(frob(c,p,n)))
@case('C14','purity.do1',entry='h_dopurity1',proof='thorough',ret='d')
def _(c):
    """for a Hermitian operator the sum of the squared moduli of the elements is tr(rho^2)"""
    n=c.extent('n'); p=c.carr('rho',n,n); yield c.call(n,p); c.ensure('purity',c.ret,frob(c,p,n))
@case('C14','purity.do2',entry='h_dopurity2',proof='thorough',ret='d')
def _(c):
    m=c.extent('m'); n=c.extent('n'); p=c.carr('rho',m,n,m,n); yield c.call(m,n,p)
    c.ensure('purity',c.ret,c.sum(0,m,lambda i:c.sum(0,n,lambda k:c.sum(0,m,lambda j:c.sum(0,n,lambda l:c.abs2(p.old(i,k,j,l)))))))
# ---- dyads
@case('C14','dyad.1',entry='h_dyad1')
def _(c):
    n=c.extent('n'); a=c.carr('a',n); b=c.carr('b',n); o=c.carr('out',n,n); yield c.call(n,a,b,o)
    i=c.idx('i',n); j=c.idx('j',n); c.ensure('dyad',o.new(i,j),a.old(i)*c.conj(b.old(j)))
@case('C14','dyad.2',entry='h_dyad2',proof='thorough')
def _(c):
    m=c.extent('m'); n=c.extent('n'); a=c.carr('a',m,n); b=c.carr('b',m,n); o=c.carr('out',m,n,m,n); yield c.call(m,n,a,b,o)
    i=c.idx('i',m); k=c.idx('k',n); j=c.idx('j',m); l=c.idx('l',n); c.ensure('dyad',o.new(i,k,j,l),a.old(i,k)*c.conj(b.old(j,l)))
@case('C14','ctor.1',entry='h_doctor1')
def _(c):
    n=c.extent('n'); a=c.carr('a',n); o=c.carr('out',n,n); yield c.call(n,a,o)
    i=c.idx('i',n); j=c.idx('j',n); c.ensure('dyad',o.new(i,j),a.old(i)*c.conj(a.old(j)))
@case('C14','ctor.2',entry='h_doctor2',proof='thorough')
def _(c):
    m=c.extent('m'); n=c.extent('n'); a=c.carr('a',m,n); o=c.carr('out',m,n,m,n); yield c.call(m,n,a,o)
    i=c.idx('i',m); k=c.idx('k',n); j=c.idx('j',m); l=c.idx('l',n); c.ensure('dyad',o.new(i,k,j,l),a.old(i,k)*c.conj(a.old(j,l)))
@case('C14','addto.1',entry='h_addto1')
def _(c):
    n=c.extent('n'); a=c.carr('psi',n); o=c.carr('rho',n,n); w=c.real('w'); yield c.call(n,a,o,w)
    i=c.idx('i',n); j=c.idx('j',n); c.ensure('sum',o.new(i,j),o.old(i,j)+w*a.old(i)*c.conj(a.old(j)))
@case('C14','addto.2',entry='h_addto2')
def _(c):
    m=c.extent('m'); n=c.extent('n'); a=c.carr('psi',m,n); o=c.carr('rho',m,n,m,n); w=c.real('w'); yield c.call(m,n,a,o,w)
    i=c.idx('i',m); k=c.idx('k',n); j=c.idx('j',m); l=c.idx('l',n); c.ensure('sum',o.new(i,k,j,l),o.old(i,k,j,l)+w*a.old(i,k)*c.conj(a.old(j,l)))
@case('C14','assign.1',entry='h_assign1')
def _(c):
    n=c.extent('n'); a=c.carr('psi',n); o=c.carr('rho',n,n); yield c.call(n,a,o)
    i=c.idx('i',n); j=c.idx('j',n); c.ensure('dyad',o.new(i,j),a.old(i)*c.conj(a.old(j)))
@case('C14','assign.2',entry='h_assign2')
def _(c):
    m=c.extent('m'); n=c.extent('n'); a=c.carr('psi',m,n); o=c.carr('rho',m,n,m,n); yield c.call(m,n,a,o)
    i=c.idx('i',m); k=c.idx('k',n); j=c.idx('j',m); l=c.idx('l',n); c.ensure('dyad',o.new(i,k,j,l),a.old(i,k)*c.conj(a.old(j,l)))
@case('C14','densop.sv1',entry='h_densop_sv',bound=4)
def _(c):
    """the density operator made of a lazy one has its elements"""
    n=c.extent('n'); a=c.carr('psi',n); o=c.carr('out',n,n); yield c.call(n,a,o)
    i=c.idx('i',n); j=c.idx('j',n); c.ensure('dyad',o.new(i,j),a.old(i)*c.conj(a.old(j)))
@case('C14','braket.1',entry='h_braket1')
def _(c):
    n=c.extent('n'); a=c.carr('a',n); b=c.carr('b',n); o=c.carr('out',1); yield c.call(n,a,b,o)
    c.ensure('braket',o.new(0),c.sum(0,n,lambda i:c.conj(a.old(i))*b.old(i)))
@case('C14','braket.2',entry='h_braket2')
def _(c):
    m=c.extent('m'); n=c.extent('n'); a=c.carr('a',m,n); b=c.carr('b',m,n); o=c.carr('out',1); yield c.call(m,n,a,b,o)
    c.ensure('braket',o.new(0),c.sum(0,m,lambda i:c.sum(0,n,lambda j:c.conj(a.old(i,j))*b.old(i,j))))
@case('C14','product.11',entry='h_svprod11')
def _(c):
    m=c.extent('m'); n=c.extent('n'); a=c.carr('a',m); b=c.carr('b',n); o=c.carr('out',m,n); yield c.call(m,n,a,b,o)
    i=c.idx('i',m); j=c.idx('j',n); c.ensure('product',o.new(i,j),a.old(i)*b.old(j))
@case('C14','product.12',entry='h_svprod12')
def _(c):
    l=c.extent('l'); m=c.extent('m'); n=c.extent('n'); a=c.carr('a',l); b=c.carr('b',m,n); o=c.carr('out',l,m,n); yield c.call(l,m,n,a,b,o)
    i=c.idx('i',l); j=c.idx('j',m); k=c.idx('k',n); c.ensure('product',o.new(i,j,k),a.old(i)*b.old(j,k))
@case('C14','diagslice',entry='h_diagslice')
def _(c):
    """a slice of a density operator is diagonal in the dummy index"""
    m=c.extent('m'); n=c.extent('n'); k=ix(c,'k',n); i=ix(c,'i',m); j=ix(c,'j',m); r=c.carr('rho',m,n,m,n); o=c.carr('out',1); yield c.call(m,n,k,i,j,r,o)
    c.ensure('element',o.new(0),r.old(i,k,j,k))
# ---- partial traces
@case('C14','ptrace.sv2',entry='h_ptrace_sv2',ret='d',bound=3,timeout=170)
def _(c):
    """accumulating a function over the slices sums it over all values of the dummy index"""
    m=c.extent('m'); n=c.extent('n'); i=ix(c,'i',m); p=c.carr('psi',m,n); yield c.call(m,n,i,p)
    c.ensure('sum',c.ret,c.sum(0,n,lambda k:c.abs2(p.old(i,k))))
@case('C14','ptrace.do2',entry='h_ptrace_do2',ret='d',bound=2,timeout=170)
def _(c):
    m=c.extent('m'); n=c.extent('n'); i=ix(c,'i',n); p=c.carr('rho',m,n,m,n); yield c.call(m,n,i,p)
    c.ensure('sum',c.ret,c.sum(0,m,lambda k:c.re(p.old(k,i,k,i))))
def red(name,R,V,sv):
    D=[k for k in range(R) if k not in V]
    @case('C14','reduce.%s%d_%s'%('sv' if sv else 'do',R,''.join(map(str,V))),entry='h_%s%d_red%s'%('sv' if sv else 'do',R,''.join(map(str,V))),maxext=3,
          bound=3 if R==2 else 2,proof='thorough')
    def _(c):
        """the reduced operator is the partial trace over the other subsystems"""
        e=[c.extent('e%d'%k) for k in range(R)]
        a=c.carr('psi',*e) if sv else c.carr('rho',*e,*e)
        o=c.carr('out',*([e[k] for k in V]*2)); yield c.call(*e,a,o)
        i=[c.idx('i%d'%k,e[k]) for k in V]; j=[c.idx('j%d'%k,e[k]) for k in V]
        def at(x,d):
            r=[None]*R
            for k,v in zip(V,x): r[k]=v
            for k,v in zip(D,d): r[k]=v
            return r
        def el(d):
            if sv: return a.old(*at(i,d))*c.conj(a.old(*at(j,d)))
            return a.old(*at(i,d),*at(j,d))
        def tot(d):
            if len(d)==len(D): return el(d)
            return c.sum(0,e[D[len(d)]],lambda x:tot(d+[x]))
        c.ensure('partial trace',o.new(*i,*j),tot([]))
red('',2,[0],1); red('',2,[1],1); red('',3,[0],1); red('',3,[1],1); red('',3,[2],1)
red('',2,[0],0); red('',2,[1],0); red('',3,[1],0); red('',3,[0,2],0); red('',3,[1,0],0)
