from vcgen.spec import *
from checks._el import *
NATIVE=['mode.cc','qbit.cc','spin.cc']+FREES+UTILS+CORE
IR=RT+NATIVE
@case('C12','mode.U',entry='h_mode_U')
def _(c):
    """exact propagation of a mode over t-t0: psi'(n)=exp(-(z n + i wK n(n-1))(t-t0)) psi(n), whatever was propagated before"""
    pic=c.choice('pic',[0,1,2]); n=c.extent('n'); L=c.choice('L',[0,1]); T=c.choice('T',[0,1]) if L else 0; Pu=c.choice('P',[0,1])
    kappa=c.real('kappa',pos=True) if L else 0; nTh=c.real('nTh',pos=True) if T else 0
    eta=c.cplx('eta') if Pu else c.cx(0,0)
    if Pu: c.assume(c.no(c.eq(eta,c.cx(0,0))))
    delta=c.real('delta'); K=c.real('kerr'); ta,t0a,t,t0=[c.real(x) for x in('ta','t0a','t','t0')]
    pa=c.carr('psia',n); psi=c.carr('psi',n)
    yield c.call(pic,n,delta,kappa,nTh,eta,K,ta,t0a,t,t0,pa,psi)
    zI=[c.cx(kappa*(2*nTh+1),-delta),c.cx(0,-delta),0][pic]
    i=c.idx('i',n)
    for arr,tau in((pa,ta-t0a),(psi,t-t0)):
        c.ensure('U psi',arr.new(i),arr.old(i)*(1 if pic==2 else c.cexp(-(zI*i+c.cx(0,1)*(K*i*(i-1)))*tau)))

@case('C12','qbit.U',entry='h_qbit_U')
def _(c):
    """exact propagation of a qbit: psi(1) gets exp(-z(t-t0)), psi(0) unchanged, whatever was propagated before"""
    pic=c.choice('pic',[0,1,2]); L=c.choice('L',[0,1]); N=c.choice('N',[0,1]); Pu=c.choice('P',[0,1])
    g=c.real('gamma',pos=True) if L else 0; gp=c.real('gpar',pos=True) if N else 0; eta=c.cplx('eta') if Pu else c.cx(0,0)
    if Pu: c.assume(c.no(c.eq(eta,c.cx(0,0))))
    delta=c.real('delta'); ta,t0a,t,t0=[c.real(x) for x in('ta','t0a','t','t0')]
    pa=c.carr('psia',2); psi=c.carr('psi',2)
    yield c.call(pic,delta,g,gp,eta,ta,t0a,t,t0,pa,psi)
    if N and pic==2: pic=0
    zI=[c.cx(g,-delta),c.cx(0,-delta),c.cx(0,0)][pic]
    for arr,tau in((pa,ta-t0a),(psi,t-t0)):
        c.ensure('psi(0)',arr.new(0),arr.old(0)); c.ensure('psi(1)',arr.new(1),arr.old(1)*c.cexp(-zI*tau))
@case('C12','spin.U',entry='h_spin_U',ret='i')
def _(c):
    """exact propagation of a spin: psi(n) gets exp(-n(gamma+i omega)(t-t0)), whatever was propagated before"""
    twoS,dim,n=spindims(c); lossy=c.choice('lossy',[0,1]); g=c.real('gamma',nonneg=True); om=c.real('omega'); ta,t0a,t,t0=[c.real(x) for x in('ta','t0a','t','t0')]
    pa=c.carr('psia',n); psi=c.carr('psi',n)
    yield c.call(lossy,twoS,dim,n,om,g,ta,t0a,t,t0,pa,psi)
    i=c.idx('i',n); c.ensure('dimension',c.ret,n)
    for arr,tau in((pa,ta-t0a),(psi,t-t0)): c.ensure('U psi',arr.new(i),arr.old(i)*c.cexp(-c.cx(g,om)*i*tau))
