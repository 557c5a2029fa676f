from vcgen.spec import *
from checks._el import *
BIN=['CPPQEDcore/composites/BinarySystem.cc']
NATIVE=['binary.cc','composite.cc']+UTILS+CORE+BIN
IR=RT+NATIVE; JT=True
KINDS=[(4,4,4),(4,0,4),(0,4,4),(0,0,4),(4,4,0),(0,4,0),(4,0,0)]
def subs(c,kinds):
    k=c.choice('kinds',kinds); N=[c.extent('n'+x,1) if q else 0 for x,q in zip('abi',k)]; m=c.extent('m'); n=c.extent('n')
    return k,N,m,n
def local(c,k,N,i):
    """conditions for channel i to belong to each constituent, and the local index there"""
    r=[]; lo=0
    for q,x in zip(k,N):
        if q: r.append((c.both(i>=lo,i<lo+x),i-lo))
        else: r.append(None)
        lo=lo+x
    return r
def jump(pre,ent,rev,kinds):
  @case('C05',pre+'.jump',entry=ent,ret='i')
  def _(c):
    """jump of channel i of a binary system: the channels of the first, second free and of the interaction in this order, on their own degrees of freedom only"""
    k,N,m,n=subs(c,kinds); tot=N[0]+N[1]+N[2]; i=c.int('i',lo=0,hi=tot-1); t=c.real('t'); psi=c.carr('psi',m,n)
    ja=c.rarr('ja',N[0] or 1,m); jb=c.rarr('jb',N[1] or 1,n); ji=c.rarr('ji',N[2] or 1,*((n,m) if rev else (m,n)))
    yield c.call(*k,*N,m,n,ja,jb,ji,i,t,psi)
    x=c.idx('x',m); y=c.idx('y',n); L=local(c,k,N,i); f=0
    if L[0]: f=f+c.ite(L[0][0],t+ja.old(L[0][1],x),0)
    if L[1]: f=f+c.ite(L[1][0],t+jb.old(L[1][1],y),0)
    if L[2]: f=f+c.ite(L[2][0],t+ji.old(L[2][1],*((y,x) if rev else (x,y))),0)
    c.ensure('J psi',psi.new(x,y),f*psi.old(x,y)); c.ensure('number of channels',c.ret,tot)
jump('binary','h_bin_jump',0,KINDS); jump('composite2','h_comp_jump',1,KINDS)
def superop(pre,ent,rev,kinds):
  @case('C05',pre+'.super.%d%d%d'%kinds,entry=ent,ret='i',bound=2,proof=False)
  def _(c):
    """superoperator of channel i of a binary system: the same constituent and local channel as the jump"""
    k=kinds; N=[x if q else 0 for x,q in zip((2,1,2),k)]; m=c.extent('m'); n=c.extent('n'); tot=sum(N); i=c.choice('i',list(range(tot))); t=c.real('t'); rho=c.carr('rho',m,n,m,n); d=c.carr('d',m,n,m,n)
    ja=c.rarr('ja',N[0] or 1,m); jb=c.rarr('jb',N[1] or 1,n); ji=c.rarr('ji',N[2] or 1,*((n,m) if rev else (m,n)))
    yield c.call(*k,*N,m,n,ja,jb,ji,i,t,rho,d)
    x=c.idx('x',m); y=c.idx('y',n); z=c.idx('z',m); w=c.idx('w',n)
    if i<N[0]: f=(t+ja.old(i,x))*ja.old(i,z)
    elif i<N[0]+N[1]: f=(t+jb.old(i-N[0],y))*jb.old(i-N[0],w)
    else: l=i-N[0]-N[1]; f=(t+ji.old(l,*((y,x) if rev else (x,y))))*ji.old(l,*((w,z) if rev else (z,w)))
    # channels of a free act on its own indices: the other free's indices are not summed but kept
    c.ensure('J rho J^dagger',d.new(x,y,z,w),d.old(x,y,z,w)+f*rho.old(x,y,z,w)); c.ensure('number of channels',c.ret,tot)
for k in KINDS: superop('binary','h_bin_super',0,k)
for k in((4,4,4),(0,4,4),(4,0,4)): superop('composite2','h_comp_super',1,k)
def rates(name,entry,k,N,proc):
    @case('C05',name+'.%d%d%d'%k,entry=entry,ret='i')
    def _(c):
        """rates / averages of a binary system: those of the first free, the second free (each summed over the slices of the other index) and the interaction, in this order"""
        m=c.extent('m'); n=c.extent('n'); t=c.real('t'); psi=c.carr('psi',m,n)
        wa=c.rarr('wa',N[0] or 1,m); wb=c.rarr('wb',N[1] or 1,n); wi=c.rarr('wi',N[2] or 1); tot=sum(N); o=c.rarr('out',tot*(2 if proc else 1)+1)
        yield c.call(*k,*N,m,n,wa,wb,wi,t,psi,o)
        c.ensure('number',c.ret,tot); e=[]; p=[]
        for i in range(N[0]): e.append(c.sum(0,n,lambda y,i=i:c.sum(0,m,lambda x:(t+wa.old(i,x))*c.abs2(psi.old(x,y))))); p.append(wa.old(i,0))
        for i in range(N[1]): e.append(c.sum(0,m,lambda x,i=i:c.sum(0,n,lambda y:(t+wb.old(i,y))*c.abs2(psi.old(x,y))))); p.append(wb.old(i,0))
        for i in range(N[2]): e.append(t+wi.old(i)); p.append(wi.old(i))
        for i,x in enumerate(e):
            c.ensure('value %d'%i,o.new(i),x)
            if proc: c.ensure('processed %d'%i,o.new(tot+i),x+p[i])
for k,N in [((4,4,4),(2,1,1)),((0,4,4),(0,2,2)),((4,0,4),(1,0,1)),((4,4,0),(1,2,0))]: rates('binary.rates','h_bin_rates',k,N,0)
for k,N in [((8,8,8),(1,2,1)),((0,8,8),(0,1,2)),((8,0,8),(2,0,1)),((8,8,0),(1,1,0))]: rates('binary.averages','h_bin_averages',k,N,1)
for k,N in [((4,4,4),(2,1,1)),((0,4,4),(0,2,2))]: rates('composite2.rates','h_comp_rates',k,N,0)
for k,N in [((8,8,8),(1,2,1)),((8,0,8),(2,0,1))]: rates('composite2.averages','h_comp_averages',k,N,1)
@case('C05','composite3.jump',entry='h_comp3_jump',ret='i',bound=2,proof=False)
def _(c):
    """jump channels of three frees with interactions between 0-1 and 2-0: frees first, then interactions"""
    k,i=c.choice('ki',[((4,4,4,4,4),i) for i in range(7)]+[((0,4,0,0,4),i) for i in range(3)]+[((4,0,0,4,0),i) for i in range(3)])
    N=[x if q else 0 for x,q in zip((1,2,1,2,1),k)]; l=c.extent('l'); m=c.extent('m'); n=c.extent('n'); t=c.real('t'); psi=c.carr('psi',l,m,n)
    J=[c.rarr('ja',N[0] or 1,l),c.rarr('jb',N[1] or 1,m),c.rarr('jc',N[2] or 1,n),c.rarr('j01',N[3] or 1,l,m),c.rarr('j20',N[4] or 1,n,l)]
    yield c.call(*k,*N,l,m,n,*J,i,t,psi)
    x=c.idx('x',l); y=c.idx('y',m); z=c.idx('z',n); lo=0
    for q,a,ix in zip(N,J,((x,),(y,),(z,),(x,y),(z,x))):
        if lo<=i<lo+q: f=t+a.old(i-lo,*ix)
        lo+=q
    c.ensure('J psi',psi.new(x,y,z),f*psi.old(x,y,z)); c.ensure('number of channels',c.ret,sum(N))
