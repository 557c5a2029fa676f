from vcgen.spec import *
from checks._el import *
from fractions import Fraction
NATIVE=['ode.cc']+UTILS
IR=RT+NATIVE
ASSUME=['Boost.Odeint itself is part of the verified text (headers); GSL functions are stand-ins recording what they are given']
@case('C03','gsl.roles',entry='h_gsl_eps')
def _(c):
    """GSL-based stepper: the absolute and the relative tolerance reach the corresponding arguments of GSL's step controller, however specified, and are reported as such"""
    w=c.choice('way',[0,1,2,3]); er=c.real('epsRel'); ea=c.real('epsAbs'); out=c.rarr('out',6)
    yield c.call(w,er,ea,out)
    c.ensure('absolute tolerance used',out.new(0),ea); c.ensure('relative tolerance used',out.new(1),er)
@case('C03','gsl.unaltered',entry='h_gsl_eps')
def _(c):
    """GSL-based stepper: GSL's step controller is given the two tolerances as specified by the user (in whichever order), with unit weights of state and derivative; and they are reported as they are"""
    w=c.choice('way',[0,1,2,3]); er=c.real('epsRel'); ea=c.real('epsAbs'); out=c.rarr('out',6)
    yield c.call(w,er,ea,out)
    a=out.new(0); r=out.new(1)
    c.require('the two tolerances',c.either(c.both(c.eq(a,ea),c.eq(r,er)),c.both(c.eq(a,er),c.eq(r,ea))))
    c.ensure('weight of state',out.new(2),1); c.ensure('weight of derivative',out.new(3),1)
    c.ensure('relative reported',out.new(4),er); c.ensure('absolute reported',out.new(5),ea)
@case('C03','gsl.ctor',entry='h_gsl_ctor')
def _(c):
    """GSL stepper constructed directly: absolute tolerance first"""
    ea=c.real('epsAbs'); er=c.real('epsRel'); out=c.rarr('out',4)
    yield c.call(ea,er,out)
    c.ensure('absolute tolerance used',out.new(0),ea); c.ensure('relative tolerance used',out.new(1),er); c.ensure('weight of state',out.new(2),1); c.ensure('weight of derivative',out.new(3),1)
@case('C03','defaults',entry='h_eps_default')
def _(c):
    """documented defaults"""
    out=c.rarr('out',2)
    yield c.call(out)
    c.ensure('epsRel',out.new(0),Fraction(10**-6)); c.ensure('epsAbs',out.new(1),Fraction(10**-12))
def boost(name,same): # with equal tolerances it does not matter which one is which: independent of the exchange known as a finding
  @case('C03',name,entry='h_boost_try',ret='i')
  def _(c):
    """Boost-based stepper: a trial step is accepted exactly when the embedded error estimate is within absolute tolerance + relative tolerance * (|x|+|dt x'|)"""
    w=c.choice('way',[0,1]); er=c.real('epsRel',pos=True); ea=er if same else c.real('epsAbs',pos=True); x=c.real('x'); t=c.real('t'); dt=c.real('dt',nonzero=True); k=c.rarr('k',6); out=c.rarr('out',3)
    yield c.call(w,er,ea,x,t,dt,k,out)
    f=Fraction; dc=[f(v) for v in(37/378-2825/27648,0,250/621-18575/48384,125/594-13525/55296,-277/14336,512/1771-1/4)]   # as the machine represents them
    err=c.abs(dt*sum((dc[i]*k.old(i) for i in range(6)),0)); tol=ea+er*(c.abs(x)+c.abs(dt*k.old(0)))
    ok=c.eq(c.ret,1)
    if not c.decide(ok): c.require('rejected: error too big',err>tol); c.ensure('time unchanged',out.new(0),0)
    else: c.require('accepted: error within tolerance',err<=tol); c.ensure('time advanced',out.new(0),dt)
    c.ensure('relative reported',out.new(1),er); c.ensure('absolute reported',out.new(2),ea)
boost('boost.roles',False); boost('boost.equal',True)
