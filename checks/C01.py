from vcgen.spec import *
from vcgen.build import RT,UTILS
NATIVE=['mii.cc']; IR=RT+NATIVE
class Box:
    """bounds lb, lb+w and the position lb+w-o"""
    def __init__(s,c,R):
        s.lb=c.iarr('lb',R,lo=-3,hi=3); s.w=c.iarr('w',R,lo=0,hi=3); s.o=c.iarr('o',R,lo=0,hi=1)
        for k in range(R): c.assume(s.w.old(k)>=0); c.assume(s.o.old(k)>=0); c.assume(s.o.old(k)<=s.w.old(k))
        s.args=s.lb,s.w,s.o
def successor(R,x):
    """the next combination, last index fastest; past the last one: first index beyond its upper bound, the others at their lower bounds"""
    p=R-1
    while p>0 and not x.o.old(p)>0: p-=1
    at=lambda k:x.lb.old(k)+x.w.old(k)-x.o.old(k)
    return [at(k) if k<p else at(k)+1 if k==p else x.lb.old(k) for k in range(R)]
def make(R):
    @case('C01','step%d'%R,entry='h_mii_step%d'%R,trials=200)
    def _(c):
        """++ moves from any combination to the next one in row-major order, from the last one to the end position"""
        x=Box(c,R); o=c.iarr('out',R)
        yield c.call(*x.args,o)
        s=successor(R,x)
        for k in range(R): c.ensure('index %d'%k,o.new(k),s[k])
    @case('C01','ends%d'%R,entry='h_mii_ends%d'%R,trials=200)
    def _(c):
        """all ways of obtaining begin give the lower bounds; all ways of obtaining end give the successor of the last combination"""
        how=c.choice('how',list(range(8))); x=Box(c,R)
        if how in(1,5):
            for k in range(R): c.assume(c.eq(x.lb.old(k),0))
        o=c.iarr('out',2*R)
        yield c.call(how,*x.args,o)
        for k in range(R):
            c.ensure('index %d'%k,o.new(k),(x.lb.old(0)+x.w.old(0)+1 if k==0 else x.lb.old(k)) if how>=4 else x.lb.old(k))
    @case('C01','equal%d'%R,entry='h_mii_equal%d'%R,ret='i',trials=200)
    def _(c):
        """== compares the positions index by index, != is its negation"""
        lb=c.iarr('lb',R,lo=-3,hi=3); w=c.iarr('w',R,lo=0,hi=3); x=c.iarr('a',R,lo=-3,hi=3); d=c.iarr('d',R,lo=0,hi=1); m=R
        for k in range(R-1,-1,-1):
            if c.no(c.eq(d.old(k),0)): m=k
        yield c.call(lb,w,x,d)
        c.ensure('comparison',c.ret,1 if m==R else 2)
for R in range(1,6): make(R)
