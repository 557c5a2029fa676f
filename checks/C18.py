from vcgen.spec import *
from checks._el import *
NATIVE=['mcwf.cc','CPPQEDcore/quantumtrajectory/MCWF_TrajectoryLogger.cc']+UTILS+CORE
IR=RT+NATIVE; TIMEOUT=150; JT=True
ASSUME=['std::generate_canonical: draws a number given by the caller','mcwf::Logger::processNorm: modifies nothing but the logger','number of step-backs in a step: the given ones (0, 1, 2); numbers of channels: 1 to 3']
def mk(kind,nli,special,F,J):
  ex,ha,li=kind&1,kind&2,kind&4
  @case('C18','step.%d'%kind+('.%d%s'%(nli,'s%d'%special if special else '') if li else '')+('.back%d'%F if F else '')+('.jump%d'%J if J is not None else ''),entry='h_mcwf',contracts={'_ZN17quantumtrajectory4mcwf6Logger11processNormEd':'contract_processnorm'},trials=30)
  def _(c):
    """Monte Carlo wave-function steps of any system (kind: 1 exact, 2 Hamiltonian, 4 Liouvillean; states after exact propagation and jumps are arbitrary), any dimension, with given numbers of step-backs and given jump in the last step"""
    ns=2 if ha and not special else 1; na=ns+F if ha else 1; nc=ns+1+F if li else 1; ne=ns+F if ex else 1
    sp=[i for i in range(nli) if special>>i&1]; nj=max(1,nc*len(sp)+1)
    n=c.extent('n'); h=c.carr('h',n); psi0=c.carr('psi0',n); P=c.carr('P',na,n); D=c.carr('D',na,n); inn=c.carr('in',na,n)
    R=c.rarr('R',nc,max(nli,1)); rr=c.rarr('rr',nc,n+1); E=c.carr('E',ne,n); Ein=c.carr('Ein',ne,n); er=c.rarr('er',ne,2); Jr=c.carr('Jr',nj,n); Jin=c.carr('Jin',nj,n); jr=c.rarr('jr',nj,2)
    dd=c.rarr('dd',na); dn=c.rarr('dn',na); rec=c.rarr('rec',na,4); td=c.real('td'); dt0=c.real('dt0',pos=True); Dt=c.rarr('Dt',2); rnd=c.rarr('rnd',2)
    dp=c.real('dp',pos=True); tol=c.real('tol',pos=True); psi=c.carr('psi',n); out=c.rarr('out',10)
    def mn(a,T):
        b=a*T<dp
        return (a if c.decide(b) else dp/T) if special else c.ite(b,a,dp/T)
    norm2=lambda y:c.sum(0,n,lambda k:c.abs2(y(k)))
    if c.native:
        for A in(R,Dt,dn,dd):
            for i in range(len(A.o)): A.o[i]=A.o[i] if c.vals is not None else abs(A.o[i])+.01
            if c.vals is None: A.buf[:]=A.o; c.inputs['@'+A.name]=list(map(float,A.o))
    for k in range(nc):
      for i in range(nli): c.assume(R.old(k,i)>0)
    for k in range(2): c.assume(Dt.old(k)>0)
    if ha:
      for k in range(na): c.assume(dd.old(k)>0); c.assume(dn.old(k)>0)
    cnt=dict(att=0,ex=0,j=0); odes=[]; exs=[]; js=[]; rs=[]
    def rates(y,t):
        k=len(rs); rs.append((y,t)); r=[]; sj={}
        for i in range(nli):
            if i in sp:
                m=cnt['j']; cnt['j']+=1; js.append((y,t,i)); sj[i]=m; N=norm2(lambda a:Jr.old(m,a)); c.assume(N>0); r.append(N)
            else: r.append(R.old(k,i))
        return r,sj
    tot=lambda r:sum(r[1:],r[0])
    def aim(want,f,k,r): # native sampling: make the total rate match
        if not c.native: return r
        for i in range(nli):
            if i not in sp: R.poke(max(1e-3,(want*f-sum(r[q] for q in sp))/max(1,nli-len(sp))),k,i)
        return [r[i] if i in sp else R.old(k,i) for i in range(nli)]
    dtTry=dt0; t=0; t0=0; dtDid=0; y=lambda a:psi0.old(a)
    if li: # on construction
        r,_s=rates(y,0); s=dp/tot(r); dtTry=mn(dt0,tot(r)) if ha else s
    def coherent(y,t,t0,dtTry,dtDid,Dt_):
        if ha:
            k=cnt['att']; cnt['att']+=1; odes.append((y,t,t0,dtTry,dtDid,Dt_)); z=lambda a:P.old(k,a); d=dd.old(k); dtTry=dn.old(k)
        else: z=y; d=(dtTry if c.decide(dtTry<Dt_) else Dt_) if li else Dt_
        t=t+d
        if ex: m=cnt['ex']; cnt['ex']+=1; exs.append((z,t,t0)); z=lambda a:E.old(m,a); t0=t
        N=norm2(z); c.assume(N>0); q=c.sqrt(N)
        return (lambda a:z(a)/q),t,t0,dtTry,d
    for s_ in range(ns):
        y0,tt,tt0,dd0=y,t,t0,dtDid; FF=F if s_==ns-1 else 0
        for f in range(FF+1):
            y,t,t0,dtTry,dtDid=coherent(y0,tt,tt0,dtTry,dd0,Dt.old(s_))
            if not li: break
            r,sj=rates(y,t); r=aim(tol*dp/dtDid,2 if f<FF else .5,len(rs)-1,r); T=tot(r); s=dp/T
            if f<FF: c.assume(T*dtDid>tol*dp); dtTry=s
            else: c.assume(T*dtDid<=tol*dp); dtTry=mn(dtTry,T) if ha else s
        if li:
            S=0; jj=J if s_==ns-1 else None
            if c.native: rnd.poke(dtDid*(sum(r)*1.5 if jj is None else sum(r[:jj])+r[jj]/3),s_)
            x=rnd.old(s_)/dtDid; c.assume(rnd.old(s_)>0)
            for i in range(nli):
                if jj==i:
                    if i: c.assume(x>S)
                    c.assume(x<S+r[i]); break
                S=S+r[i]
                if jj is None and i==nli-1 or jj is not None: c.assume(x>S)
    jumped=li and J is not None
    if jumped and J not in sp: js.append((y,t,J)); sj[J]=cnt['j']
    yield c.call(kind,n,nli,special,ns,h,psi0,P,D,inn,R,rr,E,Ein,er,Jr,Jin,jr,dd,dn,rec,td,dt0,Dt,rnd,dp,tol,psi,out)
    a=c.idx('a',n)
    c.ensure('number of coherent steps',out.new(4),len(odes))
    for k,(ey,et,et0,etry,edid,eDt) in enumerate(odes):
        c.ensure('state at the start of attempt %d'%k,inn.new(k,a),c.cx(1)*ey(a))
        c.ensure('derivative in attempt %d'%k,D.new(k,a),(td*h.old(a)+et0)*ey(a))
        c.ensure('time at the start of attempt %d'%k,rec.new(k,0),et); c.ensure('time asked for',rec.new(k,1),eDt); c.ensure('trial step of attempt %d'%k,rec.new(k,2),etry); c.ensure('last step before attempt %d'%k,rec.new(k,3),edid)
    c.ensure('number of exact propagations',out.new(5),len(exs))
    for k,(ey,et,et0) in enumerate(exs):
        c.ensure('state exact propagation %d acts on'%k,Ein.new(k,a),c.cx(1)*ey(a)); c.ensure('time of exact propagation %d'%k,er.new(k,0),et); c.ensure('start time of exact propagation %d'%k,er.new(k,1),et0)
    c.ensure('number of times rates are calculated',out.new(3),len(rs))
    for k,(ey,et) in enumerate(rs):
        c.ensure('rates %d for the current state'%k,rr.new(k,a),c.abs2(ey(a))); c.ensure('rates %d at the current time'%k,rr.new(k,n),et)
    c.ensure('number of applications of jump operators',out.new(6),len(js))
    for k,(ey,et,i) in enumerate(js):
        c.ensure('state jump operator %d acts on'%k,Jin.new(k,a),c.cx(1)*ey(a)); c.ensure('time of jump operator %d'%k,jr.new(k,0),et); c.ensure('channel of jump operator %d'%k,jr.new(k,1),i)
    e=y(a)
    if jumped:
        e=Jr.old(sj[J],a)/c.sqrt(r[J])
        c.ensure('jump time',out.new(8),t); c.ensure('channel',out.new(9),J)
    c.ensure('number of jumps',out.new(7),1 if jumped else 0)
    c.ensure('final state',psi.new(a),c.cx(1)*e)
    c.ensure('time',out.new(0),t); c.ensure('dtDid',out.new(1),dtDid); c.ensure('dtTry',out.new(2),dtTry)
for k in range(4): mk(k,0,0,0,None)
for a in[(4,2,0,0,None),(4,2,0,0,1),(5,1,0,0,0),(5,2,0,0,None),(6,1,0,0,None),(6,1,0,0,0),(6,2,0,0,0),(6,2,0,0,1),(7,1,0,0,0),(7,3,0,0,None),(7,3,0,0,1),
  (4,2,0,1,1),(5,2,0,1,None),(6,2,0,2,None),(7,2,0,1,1),   # step-backs
  (6,2,2,0,1),(6,2,2,0,0),(7,2,1,0,1),(6,2,1,0,None)]: mk(*a)   # special jumps
