from vcgen.spec import *
from checks._el import *
NATIVE=['mode.cc','qbit.cc','spin.cc']+FREES+UTILS+CORE
IR=RT+NATIVE
def lossy(c,extra=()):
    """a lossy mode in any picture, zero or finite temperature, pumped or not"""
    pic=c.choice('pic',[0,1,2]); n=c.extent('n'); kappa=c.real('kappa',pos=True); nTh=c.real('nTh',pos=True) if c.choice('T',[0,1]) else 0
    return pic,n,kappa,nTh,(c.real('delta'),c.cplx('eta'),c.real('t'))
def J(c,kappa,nTh,m,n,f,i):
    """the channel's operator: m=0 sqrt(2 kappa (nTh+1)) a ; m=1 sqrt(2 kappa nTh) a^dagger, on the function f"""
    if m==0: return c.sqrt(2*kappa*(nTh+1)*(i+1))*f(i+1) if i+1<n else c.cx(0,0)
    return c.sqrt(2*kappa*nTh*i)*f(i-1) if i>0 else c.cx(0,0)
@case('C10','mode.nchan',entry='h_mode_nchan',ret='i')
def _(c):
    """number of decay channels: 2 at finite temperature, 1 at zero temperature, 0 without loss"""
    pic=c.choice('pic',[0,1,2]); n=c.extent('n'); kappa=c.real('kappa',pos=True) if c.choice('L',[0,1]) else 0; nTh=c.real('nTh',pos=True) if c.choice('T',[0,1]) else 0
    yield c.call(pic,n,c.real('delta'),kappa,nTh,c.cplx('eta'))
    c.ensure('channels',c.ret,0 if isinstance(kappa,int) else 1 if isinstance(nTh,int) else 2)
@case('C10','mode.jump',entry='h_mode_jump',ret='i')
def _(c):
    """photon loss / absorption jump: psi'(i)=sqrt(2 kappa (nTh+1)(i+1)) psi(i+1); psi'(i)=sqrt(2 kappa nTh i) psi(i-1)"""
    pic,n,kappa,nTh,(delta,eta,t)=lossy(c); m=c.choice('m',[0,1] if not isinstance(nTh,int) else [0]); psi=c.carr('psi',n)
    yield c.call(pic,n,delta,kappa,nTh,eta,m,t,psi)
    i=c.idx('i',n)
    c.ensure('amplitude',psi.new(i),J(c,kappa,nTh,m,n,psi.old,i))
@case('C10','mode.super',entry='h_mode_super',ret='i')
def _(c):
    """superoperator adds J rho J^dagger: drho'(i,j)=drho(i,j)+J_(i,i') rho(i',j') conj J_(j,j')"""
    pic,n,kappa,nTh,(delta,eta,t)=lossy(c); m=c.choice('m',[0,1] if not isinstance(nTh,int) else [0]); rho=c.carr('rho',n,n); d=c.carr('drho',n,n)
    yield c.call(pic,n,delta,kappa,nTh,eta,m,t,rho,d)
    i=c.idx('i',n); j=c.idx('j',n)
    if m==0: v=2*kappa*(nTh+1)*c.sqrt((i+1)*(j+1))*rho.old(i+1,j+1) if i+1<n and j+1<n else 0
    else: v=2*kappa*nTh*c.sqrt(i*j)*rho.old(i-1,j-1) if i>0 and j>0 else 0
    c.ensure('J rho J^dagger',d.new(i,j),d.old(i,j)+v)
    c.ensure('rho unchanged',rho.new(i,j),rho.old(i,j))
@case('C10','mode.rates',entry='h_mode_rates',ret='i')
def _(c):
    """rates: 2 kappa (nTh+1) <n>, 2 kappa nTh (<n>+<1>) (= ||J psi||^2 below the cutoff)"""
    pic,n,kappa,nTh,(delta,eta,t)=lossy(c); psi=c.carr('psi',n); r=c.rarr('rates',2)
    yield c.call(pic,n,delta,kappa,nTh,eta,t,psi,r)
    num=c.sum(0,n,lambda i:i*c.abs2(psi.old(i))); nrm=c.sum(0,n,lambda i:c.abs2(psi.old(i)))
    c.ensure('count',c.ret,1 if isinstance(nTh,int) else 2)
    c.ensure('loss rate',r.new(0),2*kappa*(nTh+1)*num)
    if not isinstance(nTh,int): c.ensure('absorption rate',r.new(1),2*kappa*nTh*(num+nrm))
    i=c.idx('i',n); c.ensure('state unchanged',psi.new(i),psi.old(i))

def qb(c):
    pic=c.choice('pic',[0,1,2]); g=c.real('gamma',pos=True); gp=c.real('gpar',pos=True) if c.choice('N',[0,1]) else 0
    return pic,c.real('delta'),g,gp,c.cplx('eta')
@case('C10','qbit.jump',entry='h_qbit_jump',ret='i')
def _(c):
    """qbit jumps: 0: sqrt(2 gamma) sigma, 1: sqrt(2 gamma_parallel) sigma_z"""
    pic,d,g,gp,eta=qb(c); N=not isinstance(gp,int); m=c.choice('m',[0,1] if N else [0]); psi=c.carr('psi',2)
    yield c.call(pic,d,g,gp,eta,m,c.real('t'),psi)
    c.ensure('channels',c.ret,2 if N else 1)
    if m==0: c.ensure('0',psi.new(0),c.sqrt(2*g)*psi.old(1)); c.ensure('1',psi.new(1),c.cx(0,0))
    else: c.ensure('0',psi.new(0),c.sqrt(2*gp)*psi.old(0)); c.ensure('1',psi.new(1),-c.sqrt(2*gp)*psi.old(1))
@case('C10','qbit.super',entry='h_qbit_super',ret='i')
def _(c):
    """decay superoperator of the qbit: drho(0,0)+=2 gamma rho(1,1)"""
    pic=c.choice('pic',[0,1,2]); g=c.real('gamma',pos=True); rho=c.carr('rho',2,2); d=c.carr('drho',2,2)
    yield c.call(pic,c.real('delta'),g,c.cplx('eta'),0,c.real('t'),rho,d)
    for i in(0,1):
        for j in(0,1): c.ensure('drho',d.new(i,j),d.old(i,j)+(2*g*rho.old(1,1) if i==j==0 else 0))
@case('C10','qbit.rates',entry='h_qbit_rates',ret='i')
def _(c):
    """decay rate of the qbit is ||J psi||^2 where it is given (negative: to be computed from the jump)"""
    pic,d,g,gp,eta=qb(c); N=not isinstance(gp,int); psi=c.carr('psi',2); r=c.rarr('r',2)
    yield c.call(pic,d,g,gp,eta,c.real('t'),psi,r)
    c.ensure('channels',c.ret,2 if N else 1)
    if N: c.require('computed from the jump',r.new(0)<0); c.require('computed from the jump',r.new(1)<0)
    else: c.ensure('rate',r.new(0),2*g*c.abs2(psi.old(1)))
@case('C10','spin.jump',entry='h_spin_jump',ret='i')
def _(c):
    """spin decay: J=sqrt(2 gamma) S^-, on the full or truncated space"""
    twoS,dim,n=spindims(c); pic=c.choice('pic',[0,1]); g=c.real('gamma',pos=True); psi=c.carr('psi',n)
    yield c.call(pic,twoS,dim,n,c.real('omega'),g,c.real('t'),psi)
    i=c.idx('i',n)
    c.ensure('dimension',c.ret,n)
    c.ensure('amplitude',psi.new(i),c.sqrt(2*g*(i+1)*(twoS-i))*psi.old(i+1) if i+1<n else c.cx(0,0))
@case('C10','spin.rate',entry='h_spin_rates',ret='i')
def _(c):
    """spin decay rate = ||J psi||^2 = sum 2 gamma n (twoS-n+1) |psi_n|^2"""
    twoS,dim,n=spindims(c); pic=c.choice('pic',[0,1]); g=c.real('gamma',pos=True); psi=c.carr('psi',n); r=c.rarr('r',1)
    yield c.call(pic,twoS,dim,n,c.real('omega'),g,c.real('t'),psi,r)
    c.ensure('count',c.ret,1)
    c.ensure('rate',r.new(0),c.sum(0,n,lambda k:2*g*k*(twoS-k+1)*c.abs2(psi.old(k))))
