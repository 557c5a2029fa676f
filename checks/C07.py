from vcgen.spec import *
from vcgen.build import RT,UTILS
from tools.genslice import CFG,name
NATIVE=['slice.cc']; IR=RT+NATIVE
def full(R,V,D,d,r):
    ix=[None]*R
    for k,v in zip(V,r): ix[k]=v
    for k,v in zip(D,d): ix[k]=v
    return ix
def make(R,V):
    D=[k for k in range(R) if k not in V]
    @case('C07','element.'+name(R,V),entry='h_slice_'+name(R,V),maxext=4)
    def _(c):
        """at any combination d of dummy indices, element r of the slice is the array element with r at the retained and d at the other positions: reading gives it, writing changes it and nothing else"""
        e=[c.extent('e%d'%k) for k in range(R)]; d=[c.int('d%d'%k,lo=0,hi=e[k]-1) for k in D]; r=[c.int('r%d'%i,lo=0,hi=e[k]-1) for i,k in enumerate(V)]
        a=c.carr('a',*e); o=c.carr('out',1); x=c.cplx('x')
        yield c.call(*e,*d,*r,a,o,x)
        ix=full(R,V,D,d,r)
        c.ensure('read',o.new(0),a.old(*ix)); c.ensure('written',a.new(*ix),x)
        j=[c.idx('j%d'%k,e[k]) for k in range(R)]
        same=all(c.eq(p,q) for p,q in zip(ix,j)) if c.native else None
        if c.native: c.ensure('others unchanged',a.new(*j),x if same else a.old(*j))
        else: c.ensure('others unchanged',a.new(*j),c.ite(allof(c,ix,j),x,a.old(*j)))
    @case('C07','range.'+name(R,V),entry='h_slicebounds_'+name(R,V),maxext=4)
    def _(c):
        """the sequence of slices starts at the first and ends after the last combination of the dummy indices (the increment is that of C01)"""
        e=[c.extent('e%d'%k) for k in range(R)]; a=c.carr('a',*e); n=len(D); o=c.iarr('out',2*n+2)
        yield c.call(*e,a,o)
        for i,k in enumerate(D):
            c.ensure('begin',o.new(i),0); c.ensure('end',o.new(n+i),e[k] if i==0 else 0)
        c.ensure('begin is not end',o.new(2*n),0); c.ensure('the end is reached',o.new(2*n+1),1)
def allof(c,ix,j):
    b=None
    for p,q in zip(ix,j): x=c.eq(p,q); b=x if b is None else c.both(b,x)
    return b
for R,V in CFG: make(R,V)
