"""Contracts assumed on the platform: allocation, libm, exception ABI, iostreams (no observable effect)."""
from .terms import *
from . import terms as T
from .engine import *

def install(E):
    S=E.stubs
    def new(e,st,a,ins):
        n=a[0]; e.assumed.add('operator new/malloc: returns fresh storage, never fails')
        o=e.new_obj(st,'heap%d'%(e.nid+1),n); return Ptr(o.id,0)
    for n in('_Znwm','_Znam','malloc','_ZnwmRKSt9nothrow_t','_ZnamRKSt9nothrow_t','_ZnwmSt11align_val_t','_ZnamSt11align_val_t'): S[n]=new
    def calloc(e,st,a,ins):
        o=e.new_obj(st,'heap%d'%(e.nid+1),mul(a[0],a[1])); p=Ptr(o.id,0); e.memset(st,p,0,o.size); return p
    S['calloc']=calloc
    def free(e,st,a,ins):
        p=a[0]
        if isinstance(p,Ptr) and p.o is not None and not isinstance(p.o,tuple):
            o=st.wobj(p.o)
            if o.freed: raise Violated('double-free',o.name)
            o.freed=True
        return None
    for n in('_ZdlPv','_ZdaPv','_ZdlPvm','_ZdaPvm','free','_ZdlPvSt11align_val_t','_ZdaPvSt11align_val_t','_ZdlPvmSt11align_val_t'): S[n]=free
    S['llvm.memset.p0.i64']=lambda e,st,a,i:e.memset(st,a[0],a[1],a[2])
    S['memset']=lambda e,st,a,i:(e.memset(st,a[0],a[1],a[2]),a[0])[1]
    for n in('llvm.memcpy.p0.p0.i64','llvm.memmove.p0.p0.i64'): S[n]=lambda e,st,a,i:e.memcpy(st,a[0],a[1],a[2])
    for n in('memcpy','memmove'): S[n]=lambda e,st,a,i:(e.memcpy(st,a[0],a[1],a[2]),a[0])[1]
    def strlen(e,st,a,i):
        p=a[0]; n=0
        while True:
            v=e.load(st,Ptr(p.o,add(p.off,n)),I8)
            if v==0: return n
            n+=1
    S['strlen']=strlen
    def memcmp(e,st,a,i):
        p,q,n=a
        if not isnum(n): raise Unsupported('memcmp')
        for j in range(n):
            x=e.load(st,Ptr(p.o,add(p.off,j)),I8); y=e.load(st,Ptr(q.o,add(q.off,j)),I8)
            if not (isinstance(x,int) and isinstance(y,int)): raise Unsupported('memcmp symbolic')
            if x!=y: return -1 if (x&255)<(y&255) else 1
        return 0
    S['memcmp']=memcmp; S['bcmp']=memcmp
    # ---- libm
    def m1(f): return lambda e,st,a,i:(e.assumed.add('libm: '+f.__name__.strip('_')+' is the real function'),tuple(f(x) for x in a[0]) if isinstance(a[0],tuple) else f(a[0]))[1]
    for n in('sqrt','llvm.sqrt.f64','sqrtf64'): S[n]=m1(sqrt_)
    for n in('exp','llvm.exp.f64'): S[n]=m1(exp_)
    for n in('sin','llvm.sin.f64'): S[n]=m1(sin_)
    for n in('cos','llvm.cos.f64'): S[n]=m1(cos_)
    for n in('fabs','llvm.fabs.f64'): S[n]=m1(abs_)
    def pw(k):
        def h(e,st,a,i):
            e.assumed.add('GSL: gsl_pow_%d is the power'%k); r=1
            for _ in range(k): r=mul(r,a[0])
            return r
        return h
    for k in range(2,10): S['gsl_pow_%d'%k]=pw(k)
    def un(name,nonneg=False,sort='R'):
        def h(e,st,a,i):
            e.assumed.add('libm: '+name+' (uninterpreted)')
            return app(name,a,sort,nonneg)
        return h
    for n in('log','log2','log10','tan','atan','atan2','sinh','cosh','tanh','expm1','log1p','acos','asin','cbrt'): S[n]=un(n); S['llvm.%s.f64'%n]=un(n)
    def floor(e,st,a,i):
        x=a[0]
        if isnum(x): import math; return math.floor(x)
        if sort_of(x)=='I': return x
        return app('floor',(x,),'I')
    S['floor']=S['llvm.floor.f64']=S['llvm.floor.f80']=S['floorl']=floor
    def ceil(e,st,a,i):
        x=a[0]
        if isnum(x): import math; return math.ceil(x)
        if sort_of(x)=='I': return x
        return neg(app('floor',(neg(x),),'I'))
    S['ceil']=S['llvm.ceil.f64']=S['llvm.ceil.f80']=S['ceill']=ceil
    def csqrt(e,st,a,i):
        """principal root of a real number"""
        x,y=(a[0],a[1]) if len(a)>1 else (a[0].re,a[0].im)
        if not (isnum(y) and y==0): raise Unsupported('csqrt of a complex number')
        e.assumed.add('libm: csqrt is the principal root')
        if not isnum(x):
            d=solver.decide(st.pc,P(x)>=0)
            if d is None: raise NeedFork(P(x)>=0)
        else: d=x>=0
        return (sqrt_(x),0) if d else (0,sqrt_(neg(x)))
    def cexp(e,st,a,i):
        e.assumed.add('libm: cexp(x+iy)=exp(x)(cos y+i sin y)')
        r=exp_(a[0]); return (mul(r,cos_(a[1])),mul(r,sin_(a[1])))
    S['cexp']=cexp
    S['csqrt']=csqrt
    def clog(e,st,a,i):
        """logarithm of exp(u)(cos v+i sin v): u+iv, up to a multiple of 2 pi i"""
        if isinstance(a[0],Poly) and len(a[0].d)==1:
            (m,c),=a[0].d.items(); ex=[x for x,n in m if x.kind=='app' and x.name=='exp']; co=[x for x,n in m if x.kind=='app' and x.name=='cos']
            if len(m)==2 and len(ex)==len(co)==1:
                u,v=ex[0].args[0],co[0].args[0]
                if P(sub(a[0],mul(exp_(u),cos_(v)))).d=={} and P(sub(a[1],mul(exp_(u),sin_(v)))).d=={}:
                    e.assumed.add('libm: clog(exp(u+iv))=u+iv up to a multiple of 2 pi i'); return (u,v)
        raise Unsupported('clog')
    S['clog']=clog
    def sffact(e,st,a,i):
        import math
        if not isnum(a[0]): raise Unsupported('factorial of a symbol')
        e.assumed.add('GSL: gsl_sf_fact is the factorial'); return math.factorial(int(a[0]))
    S['gsl_sf_fact']=sffact
    def sfchoose(e,st,a,i):
        import math
        if not isnum(a[0]) or not isnum(a[1]): raise Unsupported('binomial coefficient of symbols')
        e.assumed.add('GSL: gsl_sf_choose is the binomial coefficient'); return math.comb(int(a[0]),int(a[1]))
    S['gsl_sf_choose']=sfchoose
    S['_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE15_M_replace_coldEPcmPKcmm']=lambda e,st,a,i:None   # text of messages is not modelled
    def muldc3(e,st,a,i):
        return (sub(mul(a[0],a[2]),mul(a[1],a[3])),add(mul(a[0],a[3]),mul(a[1],a[2])))
    S['__muldc3']=muldc3
    def divdc3(e,st,a,i):
        n=add(mul(a[2],a[2]),mul(a[3],a[3]))
        return (div(add(mul(a[0],a[2]),mul(a[1],a[3])),n),div(sub(mul(a[1],a[2]),mul(a[0],a[3])),n))
    S['__divdc3']=divdc3
    def hypot(e,st,a,i): 
        return sqrt_(add(mul(a[0],a[0]),mul(a[1],a[1])))
    S['hypot']=hypot; S['cabs']=hypot
    def pw(e,st,a,i):
        x,y=a
        if isnum(y):
            if y==int(y) and abs(y)<=64: return power(x,int(y))
            if y==Fr(1,2): return sqrt_(x)
        if isnum(x) and isnum(y): return cn(Fr(float(x)**float(y)))
        return app('pow',a)
    S['pow']=S['llvm.pow.f64']=pw
    def powi(e,st,a,i):
        if isnum(a[1]): return power(a[0],a[1])
        return app('powi',a)
    S['llvm.powi.f64.i32']=powi; S['__powidf2']=powi
    def fmin(e,st,a,i): return a[0] if e.decide(st,T.P(a[0])<=a[1]) else a[1]
    def fmax(e,st,a,i): return a[0] if e.decide(st,T.P(a[0])>=a[1]) else a[1]
    for n in('fmin','llvm.minnum.f64','llvm.smin.i32','llvm.smin.i64','llvm.minimum.f64'): S[n]=fmin
    for n in('fmax','llvm.maxnum.f64','llvm.smax.i32','llvm.smax.i64','llvm.maximum.f64'): S[n]=fmax
    def umm(mx,w):
        def h(e,st,a,i):
            x=e.unsigned(st,a[0],w); y=e.unsigned(st,a[1],w); c=e.decide(st,T.P(x)>=y); return (a[0] if c else a[1]) if mx else (a[1] if c else a[0])
        return h
    for w in(32,64): S['llvm.umax.i%d'%w]=umm(True,w); S['llvm.umin.i%d'%w]=umm(False,w)
    def iabs(e,st,a,i):
        x=a[0]
        if isnum(x): return abs(x)
        return x if e.decide(st,x>=0) else neg(x)
    S['llvm.abs.i32']=S['llvm.abs.i64']=S['abs']=iabs
    S['llvm.fmuladd.f64']=S['llvm.fma.f64']=S['fma']=lambda e,st,a,i:add(mul(a[0],a[1]),a[2])
    S['llvm.copysign.f64']=S['copysign']=lambda e,st,a,i: abs_(a[0]) if e.decide(st,T.P(a[1])>=0) else neg(abs_(a[0]))
    S['llvm.expect.i1']=lambda e,st,a,i:a[0]; S['llvm.expect.i64']=lambda e,st,a,i:a[0]
    S['llvm.umul.with.overflow.i64']=lambda e,st,a,i:(mul(a[0],a[1]),FALSE)
    S['llvm.uadd.with.overflow.i64']=lambda e,st,a,i:(add(a[0],a[1]),FALSE)
    def usubov(e,st,a,i):
        x=e.unsigned(st,a[0],64); y=e.unsigned(st,a[1],64); return (sub(a[0],a[1]),T.P(x)<y if not (isnum(x) and isnum(y)) else bconst(x<y))
    S['llvm.usub.with.overflow.i64']=usubov
    def usubsat(e,st,a,i):
        x=e.unsigned(st,a[0],64); y=e.unsigned(st,a[1],64); return sub(x,y) if e.decide(st,T.P(x)>=y) else 0
    S['llvm.usub.sat.i64']=S['llvm.usub.sat.i32']=usubsat
    def is_const(e,st,a,i): return FALSE
    for n in('llvm.is.constant.i64','llvm.is.constant.i1','llvm.is.constant.i32','llvm.is.constant.i8'): S[n]=is_const
    S['llvm.stacksave.p0']=S['llvm.stacksave']=lambda e,st,a,i:NULLP
    S['llvm.stackrestore.p0']=S['llvm.stackrestore']=lambda e,st,a,i:None
    S['llvm.prefetch.p0']=lambda e,st,a,i:None
    def thr(e,st,a,i): raise PathEnd()
    # ---- exceptions
    def aexc(e,st,a,i): o=e.new_obj(st,'exception',a[0]); return Ptr(o.id,0)
    S['__cxa_allocate_exception']=aexc
    S['__cxa_free_exception']=lambda e,st,a,i:None
    def cthrow(e,st,a,i):
        ti=a[1].o[1] if isinstance(a[1].o,tuple) else str(a[1].o)
        raise Thrown(a[0],ti)
    S['__cxa_throw']=cthrow
    S['__cxa_begin_catch']=lambda e,st,a,i:a[0]
    S['__cxa_end_catch']=lambda e,st,a,i:None
    S['__cxa_get_exception_ptr']=lambda e,st,a,i:a[0]
    def rethrow(e,st,a,i): raise Thrown(*st.exc)
    S['__cxa_rethrow']=rethrow
    S['llvm.eh.typeid.for']=S['llvm.eh.typeid.for.p0']=lambda e,st,a,i:e.ti_id(a[0].o[1])
    def libthrow(ti):
        def h(e,st,a,i): raise Thrown(NULLP,ti)
        return h
    for n,ti in (('_ZSt19__throw_logic_errorPKc','_ZTISt11logic_error'),('_ZSt20__throw_length_errorPKc','_ZTISt12length_error'),('_ZSt20__throw_out_of_rangePKc','_ZTISt12out_of_range'),('_ZSt24__throw_out_of_range_fmtPKcz','_ZTISt12out_of_range'),('_ZSt17__throw_bad_allocv','_ZTISt9bad_alloc'),('_ZSt28__throw_bad_array_new_lengthv','_ZTISt20bad_array_new_length'),('_ZSt16__throw_bad_castv','_ZTISt8bad_cast'),('__cxa_throw_bad_array_new_length','_ZTISt20bad_array_new_length'),('_ZSt25__throw_bad_function_callv','_ZTISt17bad_function_call'),('_ZSt21__throw_runtime_errorPKc','_ZTISt13runtime_error'),('__cxa_bad_cast','_ZTISt8bad_cast')): S[n]=libthrow(ti)
    def term(e,st,a,i): raise Violated('terminate','std::terminate / abort / pure virtual call reached')
    for n in('_ZSt9terminatev','abort','__cxa_pure_virtual','__clang_call_terminate','llvm.trap'): S[n]=term
    S['__cxa_guard_acquire']=lambda e,st,a,i:1
    S['__cxa_guard_release']=lambda e,st,a,i:None
    S['__cxa_guard_abort']=lambda e,st,a,i:None
    S['__cxa_atexit']=lambda e,st,a,i:0
    # exception objects: constructors store nothing observable
    E.prefix_stubs.append(('_ZNSt13runtime_errorC',lambda e,st,a,i:None))
    for c in('13runtime_error','11logic_error','16invalid_argument','14overflow_error','12out_of_range','12length_error','12domain_error','11range_error'):
        for k in('C','D'): E.prefix_stubs.append(('_ZNSt%s%s'%(c,k),lambda e,st,a,i:None))
    E.prefix_stubs.append(('_ZNSt9exceptionD',lambda e,st,a,i:None))
    # shared_ptr reference counting helpers are executed for real
    def dyncast(e,st,a,i):
        p,src,dst,hint=a
        e.assumed.add('__dynamic_cast: Itanium ABI')
        if p.o is None: return NULLP
        vptr=e.load(st,p,PTY); 
        top=e.load(st,Ptr(vptr.o,sub(vptr.off,16)),I64); ti=e.load(st,Ptr(vptr.o,sub(vptr.off,8)),PTY)
        full=Ptr(p.o,add(p.off,top))
        res=find_base(e,st,full,ti.o[1],dst.o[1])
        return NULLP if not res else res[0]
    S['__dynamic_cast']=dyncast
    # ---- iostreams: no effect on the verified state
    def io(e,st,a,i):
        e.assumed.add('iostream output has no effect on the verified state')
        return a[0] if a and i.ty.kind!=0 else None
    # stream objects are constructed, used and destroyed without effect on the verified state (their text is not modelled)
    STR=('13basic_ostreamIcSt11char_traitsIcEE','13basic_istreamIcSt11char_traitsIcEE','14basic_iostreamIcSt11char_traitsIcEE','19basic_ostringstreamIcSt11char_traitsIcESaIcEE','18basic_stringstreamIcSt11char_traitsIcESaIcEE','19basic_istringstreamIcSt11char_traitsIcESaIcEE','15basic_stringbufIcSt11char_traitsIcESaIcEE','15basic_streambufIcSt11char_traitsIcEE','9basic_iosIcSt11char_traitsIcEE','14basic_ofstreamIcSt11char_traitsIcEE','14basic_ifstreamIcSt11char_traitsIcEE')
    for s in STR:
        vb=112 if 'ostringstream' in s else 128 if 'basic_stringstream' in s else 120 if 'istringstream' in s else None
        def ctor(e,st,a,i,vb=vb):
            if vb is not None:
                sb={112:80,128:96,120:88}[vb]; q=lambda k:Ptr(a[0].o,add(a[0].off,k))
                e.store(st,q(sb),q(sb+16),PTY); e.store(st,q(sb+8),0,I64); e.store(st,q(sb+16),0,I8)
                e.store(st,a[0],e.fake_vt(st,vb),PTY); e.store(st,Ptr(a[0].o,add(a[0].off,vb+240)),e.fake_ctype(st),PTY)
        for k in('C',): E.over_stubs.append(('_ZNSt'+s+k,ctor)); E.over_stubs.append(('_ZNSt7__cxx11'+s+k,ctor))
        for k in('D',): E.over_stubs.append(('_ZNSt'+s+k,lambda e,st,a,i:None)); E.over_stubs.append(('_ZNSt7__cxx11'+s+k,lambda e,st,a,i:None))
        for k in('l','5flush','3put','5write','9_M_insert','4fill','5clear','4init','5width'): E.over_stubs.append(('_ZNSt'+s+k,io))
    E.over_stubs.append(('_ZN14IO_Manipulator1_I',io)); E.over_stubs.append(('_ZN10formdoublelsI',io))
    E.over_stubs.append(('_ZNSt23_Sp_counted_ptr_inplaceISt14basic_ofstreamIcSt11char_traitsIcEESaIvELN9__gnu_cxx12_Lock_policyE2EE10_M_disposeEv',lambda e,st,a,i:None))
    for p in('_ZNSoC','_ZNSoD','_ZNSdC','_ZNSdD'): E.over_stubs.append((p,lambda e,st,a,i:None))
    for p in('_ZNSols','_ZNSo9_M_insert','_ZNSo5','_ZNSo3','_ZStlsI','_ZStlsB','_ZSt16__ostream_insert','_ZSt4endl','_ZSt5flush'): E.over_stubs.append((p,io))
    for p in('_ZNSo','_ZStlsI','_ZSt16__ostream_insert','_ZSt4endl','_ZSt5flush','_ZNSt8ios_base','_ZNSt6localeD','_ZNSt6localeC','_ZNSt9basic_iosIcSt11char_traitsIcEE','_ZNKSt9basic_iosIcSt11char_traitsIcEE'): E.prefix_stubs.append((p,io))
def find_base(e,st,p,ti,want):
    """subobjects of type want in object p of dynamic type ti"""
    if ti==want: return [p]
    out=[]
    for b,off in e.ti_bases(st,ti):
        if isinstance(off,tuple):
            # virtual base: vbase offset in vtable at (negative) offset
            vptr=e.load(st,p,PTY); o=e.load(st,Ptr(vptr.o,add(vptr.off,off[1] if off[1]<(1<<55) else off[1]-(1<<56))),I64)
            q=Ptr(p.o,add(p.off,o))
        else: q=Ptr(p.o,add(p.off,off if off<(1<<55) else off-(1<<56)))
        for r in find_base(e,st,q,b,want):
            if not any(sameptr(r,x) for x in out): out.append(r)
    return out
class _T: pass
I8=_T(); I8.kind=K_int; I8.w=8; I8.store=1; I8.size=1
I64=_T(); I64.kind=K_int; I64.w=64; I64.store=8; I64.size=8
I32=_T(); I32.kind=K_int; I32.w=32; I32.store=4; I32.size=4
PTY=_T(); PTY.kind=K_ptr; PTY.w=None; PTY.store=8; PTY.size=8
