from vcgen.spec import *
from checks._el import *
import math
from fractions import Fraction
NATIVE=['maths.cc','CPPQEDutils/DrivenDampedHarmonicOscillator.cc']+UTILS
IR=RT+NATIVE; FLAGS=['-DVERIF_EIGEN']
ASSUME=['coherentElement: n of the given ones (0 to 169), alpha arbitrary; beyond 169 (Stirling formula) not covered','combinations with repetition: 1 to 5 sites, 0 to 4 particles; factorials, binomial coefficients: given arguments (bounded)','GSL: factorials and binomial coefficients','Eigen: fullPivLu().solve() (contract: any solution of the recorded linear system)']
@case('C17','sign',entry='h_sign',ret='i')
def _(c):
    """sign: 1 for nonnegative, -1 for negative numbers"""
    x=c.real('x'); yield c.call(x); c.ensure('sign',c.ret,c.ite(x>=0,1,-1))
@case('C17','sqr',entry='h_sqr',ret='d')
def _(c):
    """square"""
    x=c.real('x'); yield c.call(x); c.ensure('square',c.ret,x*x)
@case('C17','sqrAbs',entry='h_sqrabs',ret='d')
def _(c):
    """square of the absolute value"""
    x=c.real('x'); y=c.real('y'); yield c.call(x,y); c.ensure('square of absolute value',c.ret,x*x+y*y)
@case('C17','round',entry='h_round',ret='i')
def _(c):
    """rounding: the nearest integer, halves away from zero"""
    x=c.real('x')
    if c.native: x=x*10
    yield c.call(x); r=c.ret
    c.require('within a half',c.abs(r-x)*2<=1); c.require('halves away from zero',c.either(c.abs(r-x)*2<1,c.abs(r)>=c.abs(x)))
@case('C17','parity',entry='h_parity',ret='i')
def _(c):
    """parity: whether odd"""
    n=c.int('n',lo=0); o=c.choice('odd',[0,1]); yield c.call(2*n+o); c.ensure('odd',c.ret,o)
@case('C17','minusOneToThePowerOf',entry='h_m1',ret='i')
def _(c):
    """(-1)^n"""
    n=c.int('n',lo=0); o=c.choice('odd',[0,1]); yield c.call(2*n+o); c.ensure('power',c.ret,-1 if o else 1)
@case('C17','relativeDeviation',entry='h_reldev',ret='d')
def _(c):
    """|a-b|/(|a|+|b|)"""
    a=c.real('a',nonzero=True); b=c.real('b'); yield c.call(a,b); c.ensure('deviation',c.ret*(c.abs(a)+c.abs(b)),c.abs(a-b))
for crit in(0,1,2):
  @case('C17','ddho.'+('over','critical','under')[crit],entry='h_ddho',tol=1e-4,trials=40)
  def _(c,crit=crit):
    """driven damped oscillator: y''+2*gamma*y'+y=exp(i*omega*t), initial conditions, ampDeriv=y'"""
    g=c.real('gamma'); w=c.real('omega'); init=c.carr('init',2); t0=c.real('tInit'); t=c.real('t'); sysm=c.carr('sys',6); a=c.carr('a',2); out=c.carr('out',6)
    if crit==1: g=1
    elif crit==0:
        if c.native: g=1.1+abs(g)%2
        c.assume(g>1)
    else:
        if c.native: g=abs(g)%.9
        c.assume(g>=0); c.assume(g<1)
    if c.native: t,t0=math.remainder(t,2),math.remainder(t0,2); h=1e-4
    else: h=0
    c.assume(c.either((1-w*w)*(1-w*w)+4*g*g*w*w>0,False))
    if c.native: c.assume((1-w*w)**2+4*g*g*w*w>.05)
    yield c.call(g,w,init,t0,t,h,sysm,a,out)
    if c.native:
        c.ensure('initial amplitude',out.new(0),init.old(0)); c.ensure('initial derivative',out.new(1),init.old(1))
        d1=(out.new(4)-out.new(5))/(2*h); d2=(out.new(4)+out.new(5)-2*out.new(2))/h**2
        c.ensure('derivative',out.new(3),d1); c.ensure('equation of motion',(d2+2*g*out.new(3)+out.new(2))*1e-2,c.cexp(1j*w*t)*1e-2)
    else:
        M=lambda i,j:sysm.new(2*i+j); b=lambda i:sysm.new(4+i)
        for i in range(2): c.ensure(('initial amplitude','initial derivative')[i],out.new(i)-init.old(i),M(i,0)*a.old(0)+M(i,1)*a.old(1)-b(i))
        y=out.new(2); y1=c.diff(y,t); y2=c.diff(y1,t)
        c.ensure('derivative',out.new(3),y1); c.ensure('equation of motion',y2+2*g*y1+y,c.cexp(c.cx(0,1)*w*t))

@case('C17','fact',entry='h_fact',ret='d',proof=False)
def _(c):
    """factorials are handed out up to 170!, beyond that an exception is raised"""
    n=c.choice('n',[0,1,2,3,7,20,170,171,172,1000]); th=c.iarr('thrown',1)
    yield c.call(n,th)
    c.ensure('thrown',th.new(0),1 if n>170 else 0)
    if n<=170: c.ensure('factorial',c.ret,math.factorial(n))
@case('C17','choose',entry='h_choose',ret='d',proof=False)
def _(c):
    """binomial coefficients"""
    n=c.choice('n',[0,1,4,9,30]); m=c.choice('m',[0,1,3,9]); c.assume(m<=n); yield c.call(n,m); c.ensure('binomial coefficient',c.ret,math.comb(n,m))
for n in(0,1,2,3,5,12,40,60,169):
  @case('C17','coherent.%d'%n,entry='h_coherent')
  def _(c,n=n):
    """coherent-state amplitudes alpha^n/sqrt(n!), alpha=exp(l+i*phi) not a positive real"""
    l=c.real('l'); f=c.real('phi'); out=c.rarr('out',2); r=c.exp(l); re=r*c.cos(f); im=r*c.sin(f); c.assume(c.no(c.eq(im,0)))
    yield c.call(n,re,im,out); N=Fraction(float(math.factorial(n)))
    g=c.exp(n*l)/c.sqrt(N)
    c.ensure('real part',out.new(0),g*c.cos(n*f)); c.ensure('imaginary part',out.new(1),g*c.sin(n*f))
  if n>64: continue
  @case('C17','coherent.real.%d'%n,entry='h_coherent')
  def _(c,n=n):
    """coherent-state amplitudes for positive real alpha"""
    x=c.real('x',pos=True); out=c.rarr('out',2); yield c.call(n,x,0,out)
    g=x**n if c.native else c.pow(x,n)
    c.ensure('real part',out.new(0),g/c.sqrt(Fraction(float(math.factorial(n))))); c.ensure('imaginary part',out.new(1),0)
for N in(1,2,3,4,5):
  for k in range(5):
    @case('C17','cwr.%d.%d'%(N,k),entry='h_cwr',proof=False)
    def _(c,N=N,k=k):
        """combinations with repetition: all, each once, each with the right total, found by their own index; others rejected"""
        M=math.comb(N+k-1,k); n=c.larr('n',1); conf=c.larr('conf',M*N+8); found=c.larr('found',M+2); mis=c.larr('missing',1)
        yield c.call(N,k,n,conf,found,mis)
        c.ensure('number of combinations',n.new(0),M); c.ensure('combination not in the list',mis.new(0),1)
        L=[tuple(conf.new(i*N+j) for j in range(N)) for i in range(M)]
        for i in range(M):
            c.ensure('total of combination %d'%i,sum(L[i]),k); c.ensure('index of combination %d'%i,found.new(i),i)
        c.require('each once',len(set(map(str,L)))==M)
        c.require('nonnegative',all(int(x)>=0 for l in L for x in l))
