"""Native replay worker:  python3-vt -m vcgen.native PROP SO OUT.json SEED TRIALS case...   (or --replay FILE)
Runs in its own process: a crash of the code under test is itself a failing input (the input is on disk before the call)."""
import sys, json, random, ctypes, importlib, os
from . import spec
def main(a):
    prop,so,out,seed,trials=a[0],a[1],a[2],int(a[3]),int(a[4]); names=a[5:]
    importlib.import_module('checks.'+prop)
    lib=ctypes.CDLL(so)
    res={}; cex=json.load(open(os.environ['VERIF_CEX'])) if os.environ.get('VERIF_CEX') else {}
    for n in names:
        cs=spec.CASES[prop][n]; rng=random.Random('%s/%s/%d'%(prop,n,seed)); done=0; nontriv=0; checks=0; seen=set(); r=dict(done=0,checks=0)
        res[n]=r
        cx=list(cex.get(n,[]))
        for t in range(trials*3+len(cx)):
            if done>=trials: break
            def before(inp): 
                with open(out+'.cur','w') as f: json.dump(dict(case=n,inputs=inp),f)
            x=spec.run_native(cs,lib,rng,cx[t] if t<len(cx) else None,before)
            if x is None: continue
            fails,inp,k=x; done+=1; checks+=k; seen.add(json.dumps(inp,sort_keys=True))
            r['done']=done; r['checks']=checks; r['distinct']=len(seen); r.setdefault('sample',inp)
            if fails:
                r['fail']=dict(inputs=inp,failures=fails[:5]); break
        with open(out,'w') as f: json.dump(res,f)
    with open(out,'w') as f: json.dump(res,f)
def replay(prop,so,case,inputs):
    importlib.import_module('checks.'+prop)
    lib=ctypes.CDLL(so); cs=spec.CASES[prop][case]
    return spec.run_native(cs,lib,random.Random(0),inputs)
if __name__=='__main__': main(sys.argv[1:])
