from vcgen.spec import *
from fractions import Fraction
from checks._el import *
NATIVE=['ode.cc']+UTILS
IR=RT+NATIVE
def first(c,dtTry,dtDid,deltaT):
    """the step first attempted: the previous trial step (or backwards, if the direction changed), cut to deltaT"""
    sg=lambda x:c.ite(x>0,1,c.ite(x<0,-1,0))
    b=c.ite(c.eq(sg(deltaT),sg(dtTry)),dtTry,-dtDid)
    return c.ite(c.abs(b)>c.abs(deltaT),deltaT,b)
@case('C02','step',entry='h_step')
def _(c):
    """ODE engine step over an arbitrary stepper: time accounting, truncation, remembered trial step, counters, for any number of failed attempts"""
    io=c.choice('inout',[0,1]); dtTry=c.real('dtTry',nonzero=True); dtDid=c.real('dtDid'); D=c.real('deltaT',nonzero=True); t=c.real('t'); x=c.real('x'); nd=c.extent('nd'); F=c.int('nfail',lo=0); 
    dts=c.rarr('dts',F+1); nx=c.real('next'); out=c.rarr('out',6); cnt=c.larr('counts',3)
    c.assume(dtTry*dtDid>=0)   # every history leaves the two with the same direction
    yield c.call(io,dtTry,dtDid,D,t,x,nd,F,dts,nx,out,cnt)
    d0=first(c,dtTry,dtDid,D); d=c.ite(c.eq(F,0),d0,dts.old(F-1))
    c.require('first attempt does not overstep',c.abs(d0)<=c.abs(D)); c.require('first attempt in the direction asked',d0*D>=0)
    c.ensure('time',out.new(0),t+d); c.ensure('state',out.new(1),x+d*x*t)
    tiny=c.both(c.abs(D)*10<c.abs(dtTry),c.no(c.eq(dtTry,0)))
    for k in(2,4): c.ensure('step done',out.new(k),d)
    for k in(3,5): c.ensure('next trial step',out.new(k),c.ite(tiny,dtTry,nx))
    c.ensure('derivative calls',cnt.new(0),nd*(F+1)); c.ensure('steps',cnt.new(1),1); c.ensure('failed',cnt.new(2),F)
@case('C02','gsl.try',entry='h_gsl_try',ret='i')
def _(c):
    """one attempt of the GSL-based stepper, for a state of any size: on success the time, state and trial step advance; on failure the time and state stay and the trial step halves; a user error is reported"""
    n=c.extent('n'); y=c.carr('y',n); t=c.real('t'); dt=c.real('dt'); st=c.choice('status',[0,-1,3,9]); nx=c.real('next'); out=c.rarr('out',2)
    yield c.call(n,y,t,dt,st,nx,out)
    c.ensure('outcome',c.ret,{0:1,-1:0,3:2,9:2}[st])
    c.ensure('time',out.new(0),t+dt if st==0 else t)
    if st in(0,-1): c.ensure('trial step',out.new(1),nx if st==0 else dt/2)
    i=c.idx('i',n); c.ensure('state',y.new(i),y.old(i)+dt*(t*y.old(i)+c.cx(1,2)) if st==0 else y.old(i))
@case('C02','gsl.step',entry='h_gsl_step')
def _(c):
    """a whole step of the GSL engine: failed attempts are repeated with half the step, and counted"""
    n=c.extent('n'); F=c.choice('nfail',[0,1,2]); y=c.carr('y',n); t=c.real('t'); dtTry=c.real('dtTry',nonzero=True); dtDid=c.real('dtDid'); D=c.real('deltaT',nonzero=True); nx=c.real('next'); out=c.rarr('out',3); cnt=c.larr('counts',3)
    c.assume(dtTry*dtDid>=0)
    yield c.call(n,F,y,t,dtTry,dtDid,D,nx,out,cnt)
    d=first(c,dtTry,dtDid,D)*Fraction(1,2**F)
    c.ensure('time',out.new(0),t+d); c.ensure('step done',out.new(1),d)
    c.ensure('next trial step',out.new(2),c.ite(c.both(c.abs(D)*10<c.abs(dtTry),c.no(c.eq(dtTry,0))),dtTry,nx))
    c.ensure('derivative calls',cnt.new(0),F+1); c.ensure('steps',cnt.new(1),1); c.ensure('failed',cnt.new(2),F)
    i=c.idx('i',n); c.ensure('state',y.new(i),y.old(i)*(1+d*t))
