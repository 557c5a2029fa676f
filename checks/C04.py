from vcgen.spec import *
from checks._el import *
NATIVE=['traj.cc']+UTILS
IR=RT+NATIVE
ASSUME=['runs: the numbers of displays, steps and steps per display are the given ones (1 to 7); times, intervals and histories of step sizes are arbitrary; advancing: any number of steps','writeViaSStream: serialises the trajectory once (contract_write)','CommentingStream and the formatting of numbers: output only','output goes to the standard output; files and continuing from a file are not covered']
for to in(0,1):
  @case('C04','advance'+('To' if to else ''),entry='h_advance_to' if to else 'h_advance',tol=1e-6)
  def _(c,to=to):
    """advancing by stepping, for any number m of steps and any history of remainders: every step is asked for exactly what remains, and the target is reached"""
    t0=c.real('t0'); sg=c.choice('direction',[1,-1]); m=c.int('m',lo=1,hi=6) if c.native else c.extent('m'); s=c.rarr('s',m); asked=c.rarr('asked',m); out=c.rarr('out',2)
    target=c.real('target')
    if c.native: t0,target=[round(x*16)/16 for x in(t0,target)]
    c.assume((target-t0)*sg>0)
    yield c.call(t0,target,sg,m,s,asked,out)
    k=c.idx('k',m)
    c.ensure('time reached',out.new(0),target); c.ensure('number of steps',out.new(1),m)
    c.ensure('asked for what remains',asked.new(k),c.ite(c.eq(k,0),target-t0,sg*c.exp(s.old(k-1))))
@case('C04','advance.nothing',entry='h_advance')
def _(c):
    """advancing by nothing makes no step"""
    t0=c.real('t0'); s=c.rarr('s',1); asked=c.rarr('asked',1); out=c.rarr('out',2)
    yield c.call(t0,t0,1,1,s,asked,out)
    c.ensure('time',out.new(0),t0); c.ensure('number of steps',out.new(1),0)
@case('C04','advance.whole',entry='h_advance_whole')
def _(c):
    """trajectories that advance as a whole are asked once, for the interval"""
    to=c.choice('to',[0,1]); t0=c.real('t0'); d=c.real('d'); asked=c.rarr('asked',1); out=c.rarr('out',2)
    yield c.call(to,t0,d,asked,out)
    c.ensure('asked',asked.new(0),d-t0 if to else d); c.ensure('time',out.new(0),d if to else t0+d); c.ensure('once',out.new(1),1)
W={'_ZN11cppqedutils10trajectory15writeViaSStreamI3RunEEvRT_St10shared_ptrISoE':'contract_write'}
def mk(mode,N,sdf,first,dc=1,q=None):
  """mode T: up to time T in intervals of Dt, N: N intervals of Dt, dc: up to time T displaying every dc-th step, N steps altogether"""
  @case('C04','run.%s.%d'%(mode,N)+('.dc%d'%dc if mode=='dc' else '')+('.sdf%d%s'%(sdf,'f' if first else '') if sdf else '')+('.stop%d'%q if q is not None else ''),entry={'T':'h_run_T_Dt','N':'h_run_N_Dt','dc':'h_run_T_dc'}[mode],contracts=W,tol=1e-6)
  def _(c):
    """running a trajectory: every step is asked for the right interval, displays and state saves happen at exactly the right times, the end time is reached exactly"""
    t0=c.real('t0'); Dt=c.real('Dt',pos=True); T=c.real('T'); s=c.rarr('s',N); asked=c.rarr('asked',N+2); shown=c.rarr('shown',N+4); saved=c.rarr('saved',N+5); out=c.rarr('out',5)
    if c.native: t0,Dt,T=[abs(round(x*16)/16) for x in(t0,Dt,T)]; Dt+=1/16; T=t0+(N-1+(T*16%16+1)/16)*Dt   # exactly represented, as the contract is about real numbers
    if mode=='T': c.assume(T-t0>(N-1)*Dt); c.assume(T-t0<=N*Dt); c.assume(c.either(T>0,T<0)); times=[t0+i*Dt for i in range(N)]+[T]
    elif mode=='N': times=[t0+i*Dt for i in range(N+1)]; c.assume(t0+N*Dt>t0); c.assume(c.no(c.eq(t0+N*Dt,0)))
    else:
        c.assume(T>t0); c.assume(c.either(T>0,T<0)); times=[t0]+[T-c.exp(s.old(k)) for k in range(N-1)]+[T]
    stop=0
    disp=[i for i in range(N+1) if mode!='dc' or i%dc==0]
    if q is not None:
        stop=c.real('stop',pos=True)
        if c.native: stop=(times[disp[q]]+times[disp[q-1]])/2
        c.assume(times[disp[q]]>stop)
        for i in disp[:q]: c.assume(times[i]<=stop)
        last=disp[q]; disp=disp[:q+1]
    else: last=N
    show=0 if c.native else 1
    yield c.call(t0,T,{'T':T,'N':N,'dc':T}[mode],dc if mode=='dc' else Dt,sdf,first,stop,show,N if mode=='dc' else 0,s,asked,shown,saved,out)
    c.ensure('number of steps',out.new(1),last)
    for k in range(last): c.ensure('asked for in step %d'%k,asked.new(k),(T if mode!='N' else times[k+1])-times[k] if mode!='T' else times[k+1]-times[k])
    sh=[times[i] for i in disp]
    if disp[-1]!=last: sh.append(times[last])
    c.ensure('number of displays',out.new(2),len(sh))
    for k,x in enumerate(sh): c.ensure('time of display %d'%k,shown.new(k),x)
    sv=[d for j,d in enumerate(disp) if sdf and j%sdf==0 and (j or first)]
    if not sv or sv[-1]!=last: sv.append(last)
    c.ensure('number of states saved',out.new(3),len(sv))
    for k,d in enumerate(sv): c.ensure('time of save %d'%k,saved.new(k),times[d])
    c.ensure('time reached',out.new(0),times[last]); c.ensure('log on end',out.new(4),1)
for N in(1,2,3): mk('T',N,0,1); mk('N',N,0,1); mk('dc',N,0,1)
mk('T',3,2,1); mk('T',3,1,0); mk('N',3,3,1); mk('N',3,2,0); mk('dc',3,1,1,2); mk('dc',4,0,1,2); mk('dc',3,2,0,1); mk('T',3,0,1,q=1); mk('dc',3,0,1,2,q=1); mk('N',2,0,1,q=2)
mk('T',5,2,1); mk('N',6,0,1); mk('dc',7,0,1,3); mk('dc',5,2,1,2); mk('dc',2,0,1,5)
for mode in('T','dc'):
  @case('C04','run.%s.past'%mode,entry='h_run_T_Dt' if mode=='T' else 'h_run_T_dc',contracts=W)
  def _(c,mode=mode):
    """a trajectory already at or beyond the end time is left alone"""
    t0=c.real('t0'); T=c.real('T',nonzero=True); Dt=c.real('Dt',pos=True); c.assume(T<=t0); s=c.rarr('s',1); A=[c.rarr(n,2) for n in('asked','shown','saved')]; out=c.rarr('out',5)
    yield c.call(t0,T,T,Dt if mode=='T' else 2,1,1,0,0 if c.native else 1,0,s,*A,out)
    c.ensure('time',out.new(0),t0)
    for k in range(1,5): c.ensure('nothing happens',out.new(k),0)
