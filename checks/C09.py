from vcgen.spec import *
from checks._el import *
NATIVE=['master.cc','arrays.cc']+UTILS+CORE
ASSUME=['blitz::Array<complex,2>::copy: assumed contract (same extents and elements in storage of its own)','linalg::calculateTwoTimesRealPartOfSelf: used through its contract M:=M+M^dagger, which is proved of its body in the case tworeal']
IR=RT+NATIVE; TIMEOUT=150; JT=True
TWOREAL={'_ZN6linalg31calculateTwoTimesRealPartOfSelfERN5blitz5ArrayISt7complexIdELi2EEE':'contract_tworeal',
 '_ZNK5blitz5ArrayISt7complexIdELi2EE4copyEv':'contract_copy2'}
def mk(kind,nli,nsup):
  @case('C09','step.%d%s'%(kind,'.%d.%d'%(nli,nsup) if kind&4 else ''),entry='h_master',contracts=TWOREAL,peel=True)
  def _(c):
    """derivative and final transformation of a Master-equation step, any dimension; kind: 1 exact, 2 Hamiltonian, 4 Liouvillean; number of channels and how many of them have an explicit superoperator"""
    n=c.extent('n'); h=c.carr('h',n); u=c.carr('u',n); j=c.carr('j',max(nli,1),n); g=c.carr('g',n,n); s=c.carr('s',n,n); d=c.carr('d',n,n); rho0=c.carr('rho0',n,n); rho=c.carr('rho',n,n)
    tD=c.real('tDer'); t1=c.real('t1'); t2=c.real('t2'); out=c.rarr('out',2)
    if kind&1: U=lambda a:(t2-2*t1)*u.old(a)
    else: U=lambda a:1
    y=lambda a,b:U(a)*s.old(a,b)*c.conj(U(b))
    c.assume(c.no(c.eq(c.sum(0,n,lambda k:c.re(y(k,k))),0)))
    yield c.call(kind,n,nli,nsup,h,u,j,g,s,d,rho0,rho,tD,t1,t2,out)
    a=c.idx('a',n); b=c.idx('b',n)
    R=lambda a,b:g.old(a,b)+c.conj(g.old(b,a))
    e=c.cx(0)
    if kind&2: e=e+(tD*h.old(a)+t1)*R(a,b)+c.conj((tD*h.old(b)+t1)*R(b,a))
    for i in range(nli):
        e=e+(tD*j.old(i,a)*R(a,b) if i<nsup else tD*tD*j.old(i,a)*R(a,b)*c.conj(j.old(i,b)))
    c.ensure('derivative',d.new(a,b),e)
    tr=c.sum(0,n,lambda k:2*c.re(y(k,k)))
    c.ensure('state after the step, times the trace',rho.new(a,b)*tr,y(a,b)+c.conj(y(b,a)))
    c.ensure('time',out.new(0),t2); c.ensure('dtDid',out.new(1),2)
for k in range(8):
    for nl in((0,1,2) if k&4 else(0,)):
        for ns in range(nl+1): mk(k,nl,ns)
@case('C09','tworeal',entry='h_tworeal')
def _(c):
    """the contract used in place of linalg::calculateTwoTimesRealPartOfSelf: M := M + M^dagger"""
    n=c.extent('n'); M=c.carr('M',n,n)
    yield c.call(n,M)
    i=c.idx('i',n); j=c.idx('j',n)
    c.ensure('M+M^dagger',M.new(i,j),M.old(i,j)+c.conj(M.old(j,i)))
