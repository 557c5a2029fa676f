from vcgen.spec import *
from checks._el import *
NATIVE=['mode.cc','qbit.cc','spin.cc','inter.cc']+FREES+INTER+UTILS+CORE
IR=RT+NATIVE
@case('C11','mode.ham',entry='h_mode_ham',ret='i')
def _(c):
    """H/i of a mode: -(z n + i wK n(n-1)) + eta a^dagger - eta^* a, split between exact and Hamiltonian part as the picture says"""
    pic=c.choice('pic',[0,1,2]); n=c.extent('n'); L=c.choice('L',[0,1]); T=c.choice('T',[0,1]) if L else 0; Pu=c.choice('P',[0,1])
    kappa=c.real('kappa',pos=True) if L else 0; nTh=c.real('nTh',pos=True) if T else 0
    eta=c.cplx('eta') if Pu else c.cx(0,0)
    if Pu: c.assume(c.no(c.eq(eta,c.cx(0,0))))
    delta=c.real('delta'); K=c.real('kerr'); ta,t0a,t,t0=[c.real(x) for x in('ta','t0a','t','t0')]
    psi=c.carr('psi',n); da=c.carr('da',n); d=c.carr('d',n)
    yield c.call(pic,n,delta,kappa,nTh,eta,K,0,ta,t0a,t,t0,psi,da,d)
    dec=kappa*(2*nTh+1); zero=c.cx(0,0)
    zI,zS=[(c.cx(dec,-delta),zero),(c.cx(0,-delta),c.cx(dec,0)),(zero,c.cx(dec,-delta))][pic]
    i=c.idx('i',n)
    for arr,tau in((da,ta-t0a),(d,t-t0)):
        v=-zS*i*psi.old(i)
        if pic==2: v=v+c.cx(0,-1)*(K*i*(i-1))*psi.old(i); Kx=0
        else: Kx=K
        w=lambda k: zI*k+c.cx(0,1)*(Kx*k*(k-1))   # exact part: U=exp(-w(n) tau)
        if i>0: v=v+c.sqrt(i)*eta*c.cexp((w(i)-w(i-1))*tau)*psi.old(i-1)
        if i+1<n: v=v-c.sqrt(i+1)*c.conj(eta)*c.cexp((w(i)-w(i+1))*tau)*psi.old(i+1)
        c.ensure('dpsi',arr.new(i),arr.old(i)+v)
    c.ensure('psi unchanged',psi.new(i),psi.old(i))

@case('C11','qbit.ham',entry='h_qbit_ham',ret='i')
def _(c):
    """H/i of a qbit: -z sigma^dagger sigma - eta sigma^dagger + eta^* sigma, split between exact and Hamiltonian part as the picture says"""
    pic=c.choice('pic',[0,1,2]); L=c.choice('L',[0,1]); N=c.choice('N',[0,1]); Pu=c.choice('P',[0,1])
    g=c.real('gamma',pos=True) if L else 0; gp=c.real('gpar',pos=True) if N else 0; eta=c.cplx('eta') if Pu else c.cx(0,0)
    if Pu: c.assume(c.no(c.eq(eta,c.cx(0,0))))
    delta=c.real('delta'); ta,t0a,t,t0=[c.real(x) for x in('ta','t0a','t','t0')]
    psi=c.carr('psi',2); da=c.carr('da',2); d=c.carr('d',2)
    yield c.call(pic,delta,g,gp,eta,ta,t0a,t,t0,psi,da,d)
    if N and pic==2: pic=0       # the phase-noise qbit has no Schroedinger-picture variant: interaction picture instead
    zI,zS=[(c.cx(g,-delta),c.cx(0,0)),(c.cx(0,-delta),c.cx(g,0)),(c.cx(0,0),c.cx(g,-delta))][pic]
    for arr,tau in((da,ta-t0a),(d,t-t0)):
        c.ensure('dpsi(0)',arr.new(0),arr.old(0)+c.conj(eta)*c.cexp(-zI*tau)*psi.old(1))
        c.ensure('dpsi(1)',arr.new(1),arr.old(1)-zS*psi.old(1)-eta*c.cexp(zI*tau)*psi.old(0))
    for i in(0,1): c.ensure('psi unchanged',psi.new(i),psi.old(i))
@case('C11','spin.ham',entry='h_spin_ham',ret='i')
def _(c):
    """H/i of a spin in the Schroedinger picture: -(gamma+i omega) (S.n), n=(sin th cos ph, sin th sin ph, cos th)"""
    twoS,dim,n=spindims(c); lossy=c.choice('lossy',[0,1]); g=c.real('gamma',nonneg=True); om=c.real('omega'); th=c.real('theta'); ph=c.real('phi')
    psi=c.carr('psi',n); d=c.carr('d',n)
    yield c.call(lossy,twoS,dim,n,om,g,th,ph,c.real('t'),c.real('t0'),psi,d)
    i=c.idx('i',n); z=c.cx(g,om)
    v=c.cos(th)*(i-twoS/2)*psi.old(i)
    if i>0: v=v+c.sin(th)/2*c.cx(c.cos(ph),-c.sin(ph))*c.sqrt((twoS-i+1)*i)*psi.old(i-1)      # S+ e^{-i phi}/2
    if i+1<n: v=v+c.sin(th)/2*c.cx(c.cos(ph),c.sin(ph))*c.sqrt((twoS-i)*(i+1))*psi.old(i+1)
    c.ensure('dpsi',d.new(i),d.old(i)-z*v)
    c.ensure('psi unchanged',psi.new(i),psi.old(i))

def zI(c,pic,decay,delta):
    """exponent of the exact part of a mode/qbit in the given picture"""
    return [c.cx(decay,-delta),c.cx(0,-delta),c.cx(0,0)][pic]
def times(c): return [c.real(x) for x in('ta','t0a','t','t0')]
@case('C11','jc.qbit',bound=3,entry='h_jc_qbit')
def _(c):
    """Jaynes-Cummings coupling of qbit and mode: H/i = g^* sigma a^dagger - g sigma^dagger a in the pictures of the constituents"""
    qp=c.choice('qpic',[0,1,2]); mp=c.choice('mpic',[0,1,2]); n=c.extent('n'); dA=c.real('deltaA'); ga=c.real('gamma',pos=True); d=c.real('delta'); k=c.real('kappa',pos=True)
    g=c.cplx('g') if c.choice('G',[0,1]) else c.cx(0,0); ta,t0a,t,t0=times(c); psi=c.carr('psi',2,n); da=c.carr('da',2,n); dd=c.carr('d',2,n)
    yield c.call(qp,mp,n,dA,ga,d,k,g,ta,t0a,t,t0,psi,da,dd)
    zq=zI(c,qp,ga,dA); zm=zI(c,mp,k,d); i=c.idx('i',n)
    for arr,tau in((da,ta-t0a),(dd,t-t0)):
        e=c.cexp((zq-zm)*tau); ei=c.cexp((zm-zq)*tau)
        c.ensure('lower',arr.new(0,i),arr.old(0,i)+(c.sqrt(i)*c.conj(g)*ei*psi.old(1,i-1) if i>0 else 0))
        c.ensure('upper',arr.new(1,i),arr.old(1,i)-(c.sqrt(i+1)*g*e*psi.old(0,i+1) if i+1<n else 0))
@case('C11','jc.spin',bound=3,entry='h_jc_spin',proof='thorough')
def _(c):
    """Jaynes-Cummings coupling of spin and mode: H/i = g^* S^- a^dagger - g S^+ a"""
    sp=c.choice('spic',[0,1]); mp=c.choice('mpic',[0,1,2]); m=c.extent('m'); c.assume(m>=2); twoS=m-1; n=c.extent('n'); om=c.real('omega'); ga=c.real('gamma',pos=True); d=c.real('delta'); k=c.real('kappa',pos=True)
    g=c.cplx('g'); c.assume(c.no(c.eq(g,c.cx(0,0)))); ta,t0a,t,t0=times(c); psi=c.carr('psi',m,n); da=c.carr('da',m,n); dd=c.carr('d',m,n)
    yield c.call(sp,mp,twoS,n,om,ga,d,k,g,ta,t0a,t,t0,psi,da,dd)
    zs=c.cx(ga,om) if sp==0 else c.cx(0,0); zm=zI(c,mp,k,d); s=c.idx('s',m); i=c.idx('i',n)
    for arr,tau in((da,ta-t0a),(dd,t-t0)):
        v=c.cx(0,0)
        if s+1<m and i>0: v=v+c.conj(g)*c.sqrt((twoS-s)*(s+1)*i)*c.cexp((zm-zs)*tau)*psi.old(s+1,i-1)
        if s>0 and i+1<n: v=v-g*c.sqrt((twoS-s+1)*s*(i+1))*c.cexp((zs-zm)*tau)*psi.old(s-1,i+1)
        c.ensure('dpsi',arr.new(s,i),arr.old(s,i)+v)
def xterm(c,z,tau,n,i,f):
    """(a+a^dagger)/sqrt2 in the interaction picture applied to f"""
    v=c.cx(0,0)
    if i>0: v=v+c.sqrt(i)/c.sqrt(2)*c.cexp(z*tau)*f(i-1)
    if i+1<n: v=v+c.sqrt(i+1)/c.sqrt(2)*c.cexp(-z*tau)*f(i+1)
    return v
@case('C11','coupledmodes',bound=3,entry='h_coupledmodes',proof='thorough')
def _(c):
    """coupled modes: H/i = u n1 x2/i, u x1 x2/i, u^* a1 a2^dagger - h.c."""
    K=c.choice('kind',[0,1,2]); p1=c.choice('pic1',[0,2]); p2=c.choice('pic2',[0,1]); n1=c.extent('n1'); n2=c.extent('n2'); d1=c.real('d1'); k1=c.real('k1',pos=True); d2=c.real('d2'); k2=c.real('k2',pos=True)
    u=c.cplx('u'); c.assume(c.no(c.eq(u,c.cx(0,0)))); ta,t0a,t,t0=times(c); psi=c.carr('psi',n1,n2); da=c.carr('da',n1,n2); dd=c.carr('d',n1,n2)
    yield c.call(K,p1,p2,n1,n2,d1,k1,d2,k2,u,ta,t0a,t,t0,psi,da,dd)
    z1=zI(c,p1,k1,d1); z2=zI(c,p2,k2,d2); i=c.idx('i',n1); j=c.idx('j',n2)
    for arr,tau in((da,ta-t0a),(dd,t-t0)):
        if K==0: v=c.cx(0,-1)*c.re(u)*i*xterm(c,z2,tau,n2,j,lambda q:psi.old(i,q))
        elif K==1: v=c.cx(0,-1)*c.re(u)*xterm(c,z1,tau,n1,i,lambda p:xterm(c,z2,tau,n2,j,lambda q:psi.old(p,q)))
        else:
            v=c.cx(0,0)
            if i+1<n1 and j>0: v=v+c.conj(u)*c.sqrt((i+1)*j)*c.cexp((z2-z1)*tau)*psi.old(i+1,j-1)
            if i>0 and j+1<n2: v=v-u*c.sqrt(i*(j+1))*c.cexp((z1-z2)*tau)*psi.old(i-1,j+1)
        c.ensure('dpsi',arr.new(i,j),arr.old(i,j)+v)
@case('C11','dicke',bound=3,entry='h_dicke',proof='thorough')
def _(c):
    """general Dicke interaction: H/i = (u n (Sz+s) + y (a+a^dagger) Sx)/i"""
    mp=c.choice('mpic',[0,2]); sp=c.choice('spic',[0,1]); n=c.extent('n'); m=c.extent('m'); c.assume(m>=2); twoS=m-1; d=c.real('delta'); k=c.real('kappa',pos=True); om=c.real('omega'); ga=c.real('gamma',pos=True)
    u=c.cplx('u'); y=c.cplx('y'); ta,t0a,t,t0=times(c); psi=c.carr('psi',n,m); da=c.carr('da',n,m); dd=c.carr('d',n,m)
    yield c.call(mp,sp,n,twoS,d,k,om,ga,u,y,ta,t0a,t,t0,psi,da,dd)
    zs=c.cx(ga,om) if sp==0 else c.cx(0,0); zm=zI(c,mp,k,d); i=c.idx('i',n); s=c.idx('s',m)
    for arr,tau in((da,ta-t0a),(dd,t-t0)):
        def sx(f):
            v=c.cx(0,0)
            if s>0: v=v+c.sqrt((twoS-s+1)*s)/2*c.cexp(zs*tau)*f(s-1)
            if s+1<m: v=v+c.sqrt((twoS-s)*(s+1))/2*c.cexp(-zs*tau)*f(s+1)
            return v
        def ax(f):
            v=c.cx(0,0)
            if i>0: v=v+c.sqrt(i)*c.cexp(zm*tau)*f(i-1)
            if i+1<n: v=v+c.sqrt(i+1)*c.cexp(-zm*tau)*f(i+1)
            return v
        c.ensure('dpsi',arr.new(i,s),arr.old(i,s)+c.cx(0,-1)*(u*i*s*psi.old(i,s)+y*ax(lambda p:sx(lambda q:psi.old(p,q)))))
