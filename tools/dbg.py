#!/usr/bin/env python3-vt
"""developer aid: run one case in this process. dbg.py PROP CASE [k=v ...]  (NOBUILD=1 reuses /tmp/vdbg)"""
import sys,os,importlib,time
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.setrecursionlimit(20000)
from vcgen import build,spec,engine
os.makedirs('/tmp/vdbg',exist_ok=True); build._tmp='/tmp/vdbg'
prop,name=sys.argv[1:3]; mod=importlib.import_module('checks.'+prop)
import hashlib
if os.environ.get('NOBUILD'): bcs=['/tmp/vdbg/'+hashlib.md5((p+str(tuple(getattr(mod,'FLAGS',())))).encode()).hexdigest()[:10]+'_'+os.path.basename(p)+'.bc' for p in mod.IR]; 
else: bcs=build.compile_ir(mod.IR,tuple(getattr(mod,'FLAGS',())),jt=getattr(mod,'JT',False))
from vcgen.llvmc import Module
t=time.time(); mods=[Module(b) for b in bcs]; print('load',time.time()-t)
a={k:int(v) for k,v in (x.split('=') for x in sys.argv[3:])} or None
cs=spec.CASES[prop][name]
E=engine.Engine
oi=E.__init__
def init(self,*x,**k): oi(self,*x,**k); init.last=self; self.forks={}
E.__init__=init
if os.environ.get('PROF'):
    import cProfile; pr=cProfile.Profile(); pr.enable()
r=spec.run_symbolic(cs,mods,a,int(os.environ.get('TMO','120')))
if os.environ.get('PROF'):
    pr.disable(); import pstats; pstats.Stats(pr).sort_stats('cumtime').print_stats(35)
print(r, 'paths',r.paths,'loops',r.loops,'unrolled',init.last.loops_unrolled,'bounds',r.bounds,'steps',r.steps,'%.1fs'%r.time)
for o in [o for o in r.obl if o[1]!='discharged'][:int(os.environ.get('N','5'))]: print(o)
print('detail',r.detail)
e=init.last
print('summary_fail',{k:str(v)[:300] for k,v in list(getattr(e,'summary_fail',{}).items())[:12]} if isinstance(getattr(e,'summary_fail',{}),dict) else [x for x in dict.fromkeys(map(str,e.summary_fail))][:int(os.environ.get('SF','12'))])
if r.status=='unsupported': print(getattr(e,'where',''))
for k,v in sorted(e.forks.items(),key=lambda t:-t[1])[:int(os.environ.get('FORKS','0'))]: print('FORK',v,k)
print('ctor_fail',e.ctor_fail[:3])
print('assumed',sorted(r.assumed))
