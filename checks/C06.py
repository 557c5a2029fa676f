from vcgen.spec import *
from checks._el import *
BIN=['CPPQEDcore/composites/BinarySystem.cc']
NATIVE=['binary.cc','composite.cc']+UTILS+CORE+BIN
IR=RT+NATIVE; JT=True
def ham(pre,ent,rev,kinds):
  @case('C06',pre+'.ham',entry=ent,ret='i')
  def _(c):
    """Hamiltonian of a two-part composite: sum of the constituents' contributions, whichever have one; each on its own index"""
    ka,kb,ki=c.choice('kinds',kinds); m=c.extent('m'); n=c.extent('n'); ha=c.rarr('ha',m); hb=c.rarr('hb',n); hi=c.rarr('hi',*((n,m) if rev else (m,n))); t=c.real('t'); t0=c.real('t0'); psi=c.carr('psi',m,n); d=c.carr('d',m,n)
    yield c.call(ka,kb,ki,m,n,ha,hb,hi,t,t0,psi,d)
    i=c.idx('i',m); j=c.idx('j',n); f=0
    if ka&2: f=f+t*ha.old(i)+t0
    if kb&2: f=f+t*hb.old(j)+t0
    if ki&2: f=f+t*(hi.old(j,i) if rev else hi.old(i,j))+t0
    c.ensure('H psi',d.new(i,j),d.old(i,j)+f*psi.old(i,j)); c.ensure('psi unchanged',psi.new(i,j),psi.old(i,j))
    c.ensure('has a Hamiltonian, dimension',c.ret,(1 if (ka|kb|ki)&2 else 0)+2*m*n)
ham('binary','h_bin_ham',0,[(2,2,2),(2,0,0),(0,2,0),(0,0,2),(0,2,2),(1,2,0),(3,1,2),(0,0,0)])
ham('composite2','h_comp_ham',1,[(2,2,2),(0,2,0),(0,0,2),(3,1,2),(0,0,0)])
def U(pre,ent,rev,kinds):
  @case('C06',pre+'.U',entry=ent,ret='i')
  def _(c):
    """exact propagator of a two-part composite: product of the constituents' propagators; applicable in the Master equation if all of them are"""
    ka,kb,ki=c.choice('kinds',kinds); m=c.extent('m'); n=c.extent('n'); ua=c.rarr('ua',m); ub=c.rarr('ub',n); ui=c.rarr('ui',*((n,m) if rev else (m,n))); t=c.real('t'); t0=c.real('t0'); psi=c.carr('psi',m,n)
    yield c.call(ka,kb,ki,m,n,ua,ub,ui,t,t0,psi)
    i=c.idx('i',m); j=c.idx('j',n); f=1
    ok=[]
    if ka&1: f=f*(t*ua.old(i)+t0); ok.append(ua.old(0)>0)
    if kb&1: f=f*(t*ub.old(j)+t0); ok.append(ub.old(0)>0)
    if ki&1: f=f*(t*(ui.old(j,i) if rev else ui.old(i,j))+t0); ok.append(ui.old(0,0)>0)
    c.ensure('U psi',psi.new(i,j),f*psi.old(i,j))
    g=2
    for x in ok: g=c.ite(x,g,0)
    c.ensure('has an exact part, applicable in Master',c.ret,(1 if (ka|kb|ki)&1 else 0)+g)
U('binary','h_bin_U',0,[(1,1,1),(1,0,0),(0,1,0),(0,0,1),(0,1,1),(3,2,1),(0,0,0)])
U('composite2','h_comp_U',1,[(1,1,1),(1,0,0),(0,0,1),(3,2,1),(0,0,0)])
K3=[(2,2,2,2,2),(2,0,0,0,0),(0,2,0,0,0),(0,0,2,0,0),(0,0,0,2,0),(0,0,0,0,2)]
@case('C06','composite3.ham',entry='h_comp3_ham',ret='i',bound=2,proof=False)
def _(c):
    """Hamiltonian of three frees with interactions between 0-1 and 2-0"""
    k=c.choice('kinds',K3); l=c.extent('l'); m=c.extent('m'); n=c.extent('n'); h=[c.rarr('ha',l),c.rarr('hb',m),c.rarr('hc',n),c.rarr('h01',l,m),c.rarr('h20',n,l)]; t=c.real('t'); t0=c.real('t0'); psi=c.carr('psi',l,m,n); d=c.carr('d',l,m,n)
    yield c.call(*k,l,m,n,*h,t,t0,psi,d)
    x=c.idx('x',l); y=c.idx('y',m); z=c.idx('z',n); f=0
    for q,a,ix in zip(k,h,((x,),(y,),(z,),(x,y),(z,x))):
        if q&2: f=f+t*a.old(*ix)+t0
    c.ensure('H psi',d.new(x,y,z),d.old(x,y,z)+f*psi.old(x,y,z)); c.ensure('dimension',c.ret,1+2*l*m*n)
@case('C06','composite3.U',entry='h_comp3_U',ret='i',bound=2,proof=False)
def _(c):
    """exact propagator of three frees with interactions between 0-1 and 2-0"""
    k=tuple(x//2 for x in c.choice('kinds',K3)); l=c.extent('l'); m=c.extent('m'); n=c.extent('n'); h=[c.rarr('ua',l),c.rarr('ub',m),c.rarr('uc',n),c.rarr('u01',l,m),c.rarr('u20',n,l)]; t=c.real('t'); t0=c.real('t0'); psi=c.carr('psi',l,m,n)
    yield c.call(*k,l,m,n,*h,t,t0,psi)
    x=c.idx('x',l); y=c.idx('y',m); z=c.idx('z',n); f=1
    for q,a,ix in zip(k,h,((x,),(y,),(z,),(x,y),(z,x))):
        if q&1: f=f*(t*a.old(*ix)+t0)
    c.ensure('U psi',psi.new(x,y,z),f*psi.old(x,y,z)); c.ensure('has an exact part',c.ret,1)
