from vcgen.spec import *
from checks._el import *
NATIVE=['saveio.cc','CPPQEDcore/quantumtrajectory/MCWF_TrajectoryLogger.cc']+UTILS+CORE
IR=RT+NATIVE; FLAGS=['-DVERIF_ARCHIVE']; TIMEOUT=150; JT=True
ASSUME=['Boost binary archives and the serialisation of strings, complex numbers, standard lists and blitz arrays: what is loaded, in the order and of the kinds saved, is what was saved (shim-ir/boost/archive; the native runs use the real archives)','opening state files and compression are not covered; writeViaSStream/readViaSStream run in the native executions only']
K=100
def tapes(c,*n):
    T=[]
    for k in'12': T+=[c.larr('i'+k,K),c.rarr('d'+k,K),c.carr('a'+k,*n)]
    return T
def pos(c,A,n):
    if c.native and c.vals is None:
        for i in range(n): A.poke(abs(A.old(i))+.01,i)
    for i in range(n): c.assume(A.old(i)>0)
def setup(c,*n):
    m=2 if len(n)>1 else 4; P=c.carr('P',m,*n); D=c.carr('D',m,*n); inn=c.carr('in',m,*n); dn=c.rarr('dn',4); rec=c.rarr('rec',4,2); er=c.rarr('er',5,2); td=c.real('td'); ra=c.carr('ra',*n); rb=c.carr('rb',*n); dta=c.real('dta',pos=True); dtb=c.real('dtb',pos=True); Dt=c.rarr('Dt',2); out=c.rarr('out',17)
    pos(c,dn,4); pos(c,Dt,2)
    if c.native: Dt.poke(dta+1,0); Dt.poke(dn.old(1)+dn.old(0)+1,1)
    c.assume(Dt.old(0)>dta); c.assume(Dt.old(1)>dn.old(1))
    return P,D,inn,dn,rec,er,td,ra,rb,dta,dtb,Dt,out
def same(c,T,out,rec,D,er,idx,ni,nd,only=False):
    """the restored trajectory is saved as the same, and continues as the same"""
    c.ensure('saved and loaded in step',out.new(10),1)
    c.ensure('time restored',out.new(0),out.new(2)); c.ensure('last step restored',out.new(1),out.new(3))
    if not c.native:
        for k,l,n in((4,7,ni),(5,8,nd)):
            c.ensure('same amount saved again',out.new(k),out.new(l)); c.require('everything documented is saved',out.new(k)>=n)
        for k in range(ni): c.ensure('integer %d saved again'%k,T[3].new(k),T[0].new(k))
        for k in range(nd): c.ensure('number %d saved again'%k,T[4].new(k),T[1].new(k))
        c.ensure('state saved again',T[5].new(*idx),c.cx(1)*T[2].new(*idx))
    if only: return
    for k in range(2): c.ensure(('time','trial step')[k]+' at the next step',rec.new(3,k),rec.new(2,k))
    c.ensure('derivative at the next step',D.new(3,*idx),c.cx(1)*D.new(2,*idx))
    if er is not None:
        for k in range(2): c.ensure('times of the exact propagation in the next step',er.new(4,k),er.new(3,k))
    c.ensure('time after the next step',out.new(11),0); c.ensure('step after the next step',out.new(12),out.new(3) if 0 else rec.new(2,1))
@case('C19','simulated',entry='h_sim_io')
def _(c):
    """a simulated trajectory, saved after a step, is restored and continues as the same"""
    h=c.carr('h',2); P,D,inn,dn,rec,er,td,ra,rb,dta,dtb,Dt,out=setup(c,2); T=tapes(c,2)
    yield c.call(h,P,D,inn,dn,rec,td,ra,rb,dta,dtb,Dt,*T,out)
    c.ensure('time',out.new(2),dta/2)
    for i in range(2): same(c,T,out,rec,D,None,(i,),2+3+1,3)
for ex in(0,1):
  @case('C19','master%s'%('.exact' if ex else ''),entry='h_master_io',proof=False)
  def _(c,ex=ex):
    """a Master-equation trajectory of any dimension, saved after a step, is restored and continues as the same"""
    n=c.extent('n'); h=c.carr('h',n); P,D,inn,dn,rec,er,td,ra,rb,dta,dtb,Dt,out=setup(c,n,n); T=tapes(c,n,n)
    
    for k in range(2): c.assume(c.sum(0,n,lambda i:c.re(P.old(k,i,i)))>0)
    c.assume(Dt.old(1)>dn.old(0))
    yield c.call(ex,n,h,P,D,inn,dn,rec,er,td,ra,rb,dta,dtb,Dt,*T,out)
    c.ensure('time',out.new(2),dta)
    i,j=c.idx('i',n),c.idx('j',n)
    same(c,T,out,rec,D,er if ex else None,(i,j),2+3+2,3,True)
    d=dn.old(0)
    c.ensure('time at the next step',rec.new(1,0),dta); c.ensure('trial step at the next step',rec.new(1,1),d)
    e=lambda i,j:(td*h.old(i)+(dta if ex else 0))*inn.new(1,i,j)
    c.ensure('derivative at the next step',D.new(1,i,j),e(i,j)+c.conj(e(j,i)))
    if not c.native: c.ensure('state at the next step',inn.new(1,i,j),c.cx(1)*T[2].new(i,j))
    if ex: c.ensure('time of the exact propagation',er.new(2,0),dta+d); c.ensure('its start',er.new(2,1),dta)
    c.ensure('time after the next step',out.new(11),dta+d); c.ensure('step done',out.new(12),d)
def mk(kind,jump=0,over=0):
  ex,li=kind&1,kind&2
  @case('C19','mcwf.%d'%kind+('.jump' if jump else '')+('.overshot' if over else ''),entry='h_mcwf_io')
  def _(c):
    """a Monte Carlo wave-function trajectory of any dimension, saved after a step, is restored, with its history of jumps and its random engine, and continues as the same"""
    n=c.extent('n'); h=c.carr('h',n); J=c.carr('J',n); R=c.real('R',pos=True); rnd=c.rarr('rnd',2); seed=c.int('seed',lo=0,hi=1000); dp=c.real('dp',pos=True)
    P,D,inn,dn,rec,er,td,ra,rb,dta,dtb,Dt,out=setup(c,n); T=tapes(c,n)
    norm2=lambda k:c.sum(0,n,lambda i:c.abs2(P.old(k,i)))
    for k in(1,2,3): c.assume(norm2(k)>0)
    if li:
        if c.native and c.vals is None: dp=2*R*max(dta,dtb)*1.5+.01; dn.poke(dp/(2*R)*(1.3 if over else .7),1); c.inputs['dp']=dp
        if c.native: Dt.poke(max(dp/(2*R),dn.old(1))+1,1)
        c.assume(2*R*dta<dp); c.assume(2*R*dtb<dp); c.assume(Dt.old(1)*2*R>dp); d1=dta/2
        if over: c.assume(2*R*dn.old(1)>dp); d2=dp/(2*R)
        else: c.assume(2*R*dn.old(1)<dp); d2=dn.old(1)
        if c.native: rnd.poke(d1*R*(1.5 if jump else 3),0); rnd.poke(d2*R*3,1)
        x=rnd.old(0)/d1
        if jump: c.assume(x>R); c.assume(x<2*R)
        else: c.assume(x>2*R)
        c.assume(rnd.old(1)/d2>2*R); c.assume(rnd.old(0)>0); c.assume(rnd.old(1)>0)
    yield c.call(kind,n,h,P,D,inn,dn,rec,er,td,J,R,rnd,seed,dp,ra,rb,dta,dtb,Dt,*T,out)
    c.ensure('time',out.new(2),dta/2)
    i=c.idx('i',n)
    same(c,T,out,rec,D,er if ex else None,(i,),2+3+1+2+3+1,6)
    c.ensure('number of jumps restored',out.new(14),1 if jump else 0)
    if jump: c.ensure('time of the jump',out.new(15),dta/2); c.ensure('channel of the jump',out.new(16),1)
mk(0); mk(1); mk(2); mk(3,1); mk(2,1,1)
@case('C19','random',entry='h_rand_io')
def _(c):
    """the state of the random engine is restored"""
    s=c.larr('s',4); i1=c.larr('i1',8); o=c.larr('o',4)
    yield c.call(s,i1,o)
    for k in range(4): c.ensure('word %d'%k,o.new(k),s.old(k))
@case('C19','metadata',entry='h_meta',ret='i')
def _(c):
    """a saved state is accepted by a trajectory of the same type, identity and rank only; an array alone is accepted as such"""
    t1,t2=c.choice('t1',[0,3]),c.choice('t2',[0,3]); i1,i2=c.choice('i1',[1,2,3,4]),c.choice('i2',[1,3,4]); r1,r2=c.int('r1',lo=0,hi=11),c.int('r2',lo=0,hi=11)
    ti=c.larr('ti',K); out=c.rarr('out',10)
    yield c.call(t1,i1,r1,t2,i2,r2,ti,out)
    c.ensure('what is read',c.ret,1 if i1==2 else (c.ite(c.eq(r1,r2),2,0) if (t1,i1)==(t2,i2) else 0))
for i,e in enumerate((1,1,1,1,2,1,4,2,1)):
  @case('C19','metadata.real%d'%i,entry='h_meta_real',ret='i')
  def _(c,i=i,e=e):
    """the trajectories declare different kinds of states, with their ranks"""
    yield c.call(i)
    c.ensure('declared',c.ret,e)
