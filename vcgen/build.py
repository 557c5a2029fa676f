"""Compiles /repo's current sources: LLVM bitcode for the verifier (clang), a native shared object for replay (g++)."""
import os, subprocess, tempfile, shutil, atexit, concurrent.futures as cf, hashlib
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VERIF_REPO','/repo')
SHIM=VERIF+'/shim'
def incs(r=None):
    r=r or REPO
    return ['-I'+r+'/'+d for d in ('CPPQEDutils','CPPQEDcore/quantumdata','CPPQEDcore/quantumoperator','CPPQEDcore/quantumtrajectory','CPPQEDcore/structure','CPPQEDcore/composites','CPPQEDcore/high','CPPQEDelements/frees','CPPQEDelements/interactions','CPPQEDelements/utils')]
COMMON=['-std=c++20','-DBZ_HAVE_BOOST_SERIALIZATION','-DCPPQED_HAS_GSL','-w','-include','boost/preprocessor/iteration/iterate.hpp','-I/usr/include/eigen3']
IRFL=['-DNDEBUG','-D_GLIBCXX_EXTERN_TEMPLATE=0','-O1','-fno-builtin','-fno-vectorize','-fno-slp-vectorize','-fno-unroll-loops','-fno-math-errno','-ffp-contract=off','-emit-llvm','-c']
RT=['rt.cc']
UTILS=['CPPQEDutils/%s.cc'%f for f in 'ComplexArrayExtensions CMatrix MathExtensions FormDouble FuzzyDouble KeyPrinter Pars BooleanNegatedProxy Trajectory'.split()]
CORE=['CPPQEDcore/high/QM_Picture.cc','CPPQEDcore/quantumoperator/Tridiagonal.cc','CPPQEDcore/structure/DynamicsBase.cc','CPPQEDcore/structure/ElementAveraged.cc']
_tmp=None
def scratch():
    global _tmp
    if _tmp is None:
        _tmp=tempfile.mkdtemp(prefix='vcgen-'); 
        if not os.environ.get('VERIF_KEEP'): atexit.register(shutil.rmtree,_tmp,True)
    return _tmp
def src(p): return p if os.path.isabs(p) else (VERIF+'/harness/'+p if os.path.exists(VERIF+'/harness/'+p) else REPO+'/'+p)
class BuildError(Exception): pass
def _run(cmd,what):
    p=subprocess.run(cmd,capture_output=True,text=True)
    if p.returncode: raise BuildError('%s: %s\n%s'%(what,' '.join(cmd),(p.stderr or '')[-4000:]))
def ir_cmd(p,out,extra=()):
    return ['clang++-18','-I'+VERIF+'/shim-ir','-I'+SHIM]+COMMON+['-isystem',REPO+'/blitz']+IRFL+incs()+list(extra)+[src(p),'-o',out]
def native_cmd(p,out,extra=()):
    return ['g++','-O1','-fPIC','-fno-math-errno','-c','-I'+SHIM]+COMMON+['-isystem',REPO+'/blitz']+incs()+list(extra)+[src(p),'-o',out]
def _runs(cmds,what):
    for c in cmds: _run(c,what)
def opt_cmd(out): # merged headers of nested loops are taken apart
    return ['/usr/lib/llvm-18/bin/opt','-passes=function(jump-threading,simplifycfg)','-jump-threading-across-loop-headers',out,'-o',out]
def compile_ir(paths,extra=(),jobs=8,jt=False):
    d=scratch(); outs=[]
    with cf.ThreadPoolExecutor(jobs) as ex:
        fs=[]
        for p in paths:
            out=d+'/'+hashlib.md5((p+str(extra)).encode()).hexdigest()[:10]+'_'+os.path.basename(p)+'.bc'
            outs.append(out); fs.append(ex.submit(_runs,[ir_cmd(p,out,extra)]+([opt_cmd(out)] if jt else []),p))
        for f in fs: f.result()
    return outs
def compile_native(paths,name,extra=(),libs=(),jobs=8):
    d=scratch(); objs=[]
    with cf.ThreadPoolExecutor(jobs) as ex:
        fs=[]
        for p in paths:
            out=d+'/n'+hashlib.md5((p+str(extra)).encode()).hexdigest()[:10]+'_'+os.path.basename(p)+'.o'
            objs.append(out); fs.append(ex.submit(_run,native_cmd(p,out,extra),p))
        for f in fs: f.result()
    so=d+'/'+name+'.so'
    _run(['g++','-shared','-o',so]+objs+['-Wl,-z,muldefs','-Wl,--defsym=_Z13versionHelperB5cxx11v=0','-lboost_serialization','-lboost_iostreams','-lgsl','-lgslcblas','-lblitz']+list(libs),'link '+name)
    return so
