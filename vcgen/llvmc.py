"""Reads LLVM bitcode through the C API of libLLVM (ctypes) into plain Python structures, lazily per function."""
import ctypes as C, struct, os
from fractions import Fraction as Fr
L=None
for n in ('libLLVM.so.18.1','/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1','libLLVM-18.so','/usr/lib/llvm-18/lib/libLLVM.so'):
    try: L=C.CDLL(n); break
    except OSError: pass
vp=C.c_void_p
def F(name,res,*args):
    f=getattr(L,name); f.restype=res; f.argtypes=list(args); return f
CtxCreate=F('LLVMContextCreate',vp)
MemBuf=F('LLVMCreateMemoryBufferWithContentsOfFile',C.c_int,C.c_char_p,C.POINTER(vp),C.POINTER(C.c_char_p))
ParseIR=F('LLVMParseIRInContext',C.c_int,vp,vp,C.POINTER(vp),C.POINTER(C.c_char_p))
FirstFn=F('LLVMGetFirstFunction',vp,vp); NextFn=F('LLVMGetNextFunction',vp,vp)
FirstGl=F('LLVMGetFirstGlobal',vp,vp); NextGl=F('LLVMGetNextGlobal',vp,vp)
FirstAl=F('LLVMGetFirstGlobalAlias',vp,vp); NextAl=F('LLVMGetNextGlobalAlias',vp,vp); Aliasee=F('LLVMAliasGetAliasee',vp,vp)
_name=F('LLVMGetValueName2',C.c_void_p,vp,C.POINTER(C.c_size_t))
CountBB=F('LLVMCountBasicBlocks',C.c_uint,vp)
FirstBB=F('LLVMGetFirstBasicBlock',vp,vp); NextBB=F('LLVMGetNextBasicBlock',vp,vp)
FirstI=F('LLVMGetFirstInstruction',vp,vp); NextI=F('LLVMGetNextInstruction',vp,vp)
Opcode=F('LLVMGetInstructionOpcode',C.c_int,vp)
NumOp=F('LLVMGetNumOperands',C.c_int,vp); Op=F('LLVMGetOperand',vp,vp,C.c_uint)
TypeOf=F('LLVMTypeOf',vp,vp); TypeKind=F('LLVMGetTypeKind',C.c_int,vp); IntW=F('LLVMGetIntTypeWidth',C.c_uint,vp)
ElemT=F('LLVMGetElementType',vp,vp); ArrLen=F('LLVMGetArrayLength2',C.c_uint64,vp); VecSz=F('LLVMGetVectorSize',C.c_uint,vp)
NStruct=F('LLVMCountStructElementTypes',C.c_uint,vp); StructAt=F('LLVMStructGetTypeAtIndex',vp,vp,C.c_uint)
ValKind=F('LLVMGetValueKind',C.c_int,vp)
SExt=F('LLVMConstIntGetSExtValue',C.c_longlong,vp); ZExt=F('LLVMConstIntGetZExtValue',C.c_ulonglong,vp)
RealD=F('LLVMConstRealGetDouble',C.c_double,vp,C.POINTER(C.c_int))
ICmp=F('LLVMGetICmpPredicate',C.c_int,vp); FCmp=F('LLVMGetFCmpPredicate',C.c_int,vp)
NInc=F('LLVMCountIncoming',C.c_uint,vp); IncV=F('LLVMGetIncomingValue',vp,vp,C.c_uint); IncB=F('LLVMGetIncomingBlock',vp,vp,C.c_uint)
Called=F('LLVMGetCalledValue',vp,vp); NArg=F('LLVMGetNumArgOperands',C.c_uint,vp)
NormD=F('LLVMGetNormalDest',vp,vp); UnwD=F('LLVMGetUnwindDest',vp,vp)
NumInd=F('LLVMGetNumIndices',C.c_uint,vp); Inds=F('LLVMGetIndices',C.POINTER(C.c_uint),vp)
NClause=F('LLVMGetNumClauses',C.c_uint,vp); Clause=F('LLVMGetClause',vp,vp,C.c_uint); IsCleanup=F('LLVMIsCleanup',C.c_int,vp)
GepSrc=F('LLVMGetGEPSourceElementType',vp,vp); AllocT=F('LLVMGetAllocatedType',vp,vp)
ParamN=F('LLVMCountParams',C.c_uint,vp); Param=F('LLVMGetParam',vp,vp,C.c_uint)
DLof=F('LLVMGetModuleDataLayout',vp,vp); ABISize=F('LLVMABISizeOfType',C.c_ulonglong,vp,vp); OffOf=F('LLVMOffsetOfElement',C.c_ulonglong,vp,vp,C.c_uint)
StoreSize=F('LLVMStoreSizeOfType',C.c_ulonglong,vp,vp)
GInit=F('LLVMGetInitializer',vp,vp); IsDecl=F('LLVMIsDeclaration',C.c_int,vp); GValT=F('LLVMGlobalGetValueType',vp,vp)
ConstOp=F('LLVMGetConstOpcode',C.c_int,vp)
IsNull=F('LLVMIsNull',C.c_int,vp); IsUndef=F('LLVMIsUndef',C.c_int,vp)
ElemC=F('LLVMGetAggregateElement',vp,vp,C.c_uint)
NSucc=F('LLVMGetNumSuccessors',C.c_uint,vp); Succ=F('LLVMGetSuccessor',vp,vp,C.c_uint)
IsCond=F('LLVMIsConditional',C.c_int,vp); Cond=F('LLVMGetCondition',vp,vp); Term=F('LLVMGetBasicBlockTerminator',vp,vp)
IntrID=F('LLVMGetIntrinsicID',C.c_uint,vp)
NNeg=F('LLVMGetNNeg',C.c_int,vp)
PrintV=F('LLVMPrintValueToString',C.c_char_p,vp)
BBasV=F('LLVMValueIsBasicBlock',C.c_int,vp); VasBB=F('LLVMValueAsBasicBlock',vp,vp)
MaskN=F('LLVMGetNumMaskElements',C.c_uint,vp); MaskV=F('LLVMGetMaskValue',C.c_int,vp,C.c_uint)
CallFT=F('LLVMGetCalledFunctionType',vp,vp)
RetT=F('LLVMGetReturnType',vp,vp)
Linkage=F('LLVMGetLinkage',C.c_int,vp)
def name(v):
    n=C.c_size_t(); p=_name(v,C.byref(n)); return C.string_at(p,n.value).decode() if p and n.value else ''
OPC={1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',49:'va_arg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
ICMP={32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP=['false','oeq','ogt','oge','olt','ole','one','ord','uno','ueq','ugt','uge','ult','ule','une','true']
# type kinds
K_void,K_half,K_float,K_double,K_x86fp80,K_label,K_int,K_func,K_struct,K_array,K_ptr,K_vector=0,1,2,3,4,7,8,9,10,11,12,13

class Ty:
    __slots__=('kind','w','size','elems','offs','n','elem','store')
    def __repr__(self): return 'Ty(%d,%s,%d)'%(self.kind,self.w,self.size)

class FnRef:
    __slots__=('name',)
    def __init__(s,n): s.name=n
    def __repr__(s): return '@'+s.name
class GlRef:
    __slots__=('name','mod')
    def __init__(s,n,m): s.name=n; s.mod=m
    def __repr__(s): return '@'+s.name
class CGep:     # constant pointer: base + byte offset
    __slots__=('base','off')
    def __init__(s,b,o): s.base=b; s.off=o
class CP2I:
    __slots__=('p',)
    def __init__(s,p): s.p=p
class CBin:
    __slots__=('op','a','b')
    def __init__(s,op,a,b): s.op=op; s.a=a; s.b=b
class Undef:
    def __repr__(s): return 'undef'
UNDEF=Undef()
class Null:
    def __repr__(s): return 'null'
NULL=Null()
class Reg:
    __slots__=('i',)
    def __init__(s,i): s.i=i
    def __repr__(s): return '%%%d'%s.i
class NaNInf:
    def __init__(s,v): s.v=v
    def __repr__(s): return 'fp:%r'%s.v
class Instr:
    __slots__=('op','dest','ops','ty','x','cty')
    def __repr__(s): return '%s=%s %s %s'%(s.dest,s.op,s.ops,s.x)
class Block:
    __slots__=('i','phis','instrs','succs')
class Func:
    __slots__=('name','nparams','blocks','nregs','loops','paramtys','_preds','idom','retty')

class Module:
    def __init__(self,path):
        self.ctx=CtxCreate(); buf=vp(); msg=C.c_char_p()
        if MemBuf(path.encode(),C.byref(buf),C.byref(msg)): raise IOError(msg.value)
        m=vp()
        if ParseIR(self.ctx,buf,C.byref(m),C.byref(msg)): raise IOError(msg.value)
        self.m=m; self.dl=DLof(m); self.path=path
        self.fns={}; self.gls={}; self.als={}
        Module._n=getattr(Module,'_n',0)+1; self.mid=Module._n
        f=FirstFn(m)
        while f: self.fns[self.nm(f)]=f; f=NextFn(f)
        g=FirstGl(m)
        while g: self.gls[self.nm(g)]=g; g=NextGl(g)
        a=FirstAl(m)
        while a: self.als[self.nm(a)]=Aliasee(a); a=NextAl(a)
        self._ty={}; self._fc={}; self._addr={}
    def nm(self,v):
        """symbol name; internal and private symbols are made unique per module"""
        n=name(v)
        return '%s@@%d'%(n,self.mid) if Linkage(v) in (8,9) else n
    def ty(self,t):
        r=self._ty.get(t)
        if r is not None: return r
        r=Ty(); r.kind=TypeKind(t); r.w=None; r.elems=None; r.offs=None; r.n=None; r.elem=None; r.size=0; r.store=0
        self._ty[t]=r
        k=r.kind
        if k==K_int: r.w=IntW(t)
        if k not in (K_void,K_label,K_func,K_label,14,15,16,17,18):
            r.size=ABISize(self.dl,t); r.store=StoreSize(self.dl,t)
        if k==K_struct:
            n=NStruct(t); r.elems=[self.ty(StructAt(t,i)) for i in range(n)]; r.offs=[OffOf(self.dl,t,i) for i in range(n)]; r.n=n
        elif k==K_array: r.n=ArrLen(t); r.elem=self.ty(ElemT(t))
        elif k==K_vector: r.n=VecSz(t); r.elem=self.ty(ElemT(t))
        return r
    def const(self,v):
        k=ValKind(v)
        # LLVMValueKind: Argument0 BB1 MemoryUse.. Function 5, GlobalAlias 6, GlobalIFunc 7, GlobalVariable 8, BlockAddress 9, ConstantExpr 10, ConstantArray 11, ConstantStruct 12, ConstantVector 13, Undef 14, AggregateZero 15, DataArray 16, DataVector 17, ConstInt 18, ConstFP 19, NullPtr 20, TokenNone 21, Metadata 22, InlineAsm 23, Instruction 24, Poison 25
        if k==18:
            t=self.ty(TypeOf(v))
            if t.w<=64: return SExt(v)
            s=PrintV(v).decode(); return int(s.split()[-1])
        if k==19:
            li=C.c_int(); d=RealD(v,C.byref(li))
            if d!=d or d in(float('inf'),float('-inf')): return NaNInf(d)
            f=Fr(d); return f.numerator if f.denominator==1 else f
        if k==5: return FnRef(self.nm(v))
        if k==8: return GlRef(self.nm(v),self)
        if k==6: return self.const(Aliasee(v))
        if k in(14,25): return UNDEF
        if k==20: return NULL
        if k in(11,12,13,16,17):
            t=self.ty(TypeOf(v)); return tuple(self.const(ElemC(v,i)) for i in range(t.n))
        if k==15: return self.zero(self.ty(TypeOf(v)))
        if k==10:
            oc=OPC.get(ConstOp(v))
            if oc=='gep':
                b=self.const(Op(v,0)); off=self._gepconst(v)
                return CGep(b,off)
            if oc in('bitcast','addrspacecast','inttoptr'): return self.const(Op(v,0))
            if oc=='ptrtoint': return CP2I(self.const(Op(v,0)))
            if oc in('sub','add','trunc'): 
                if oc=='trunc': return self.const(Op(v,0))
                return CBin(oc,self.const(Op(v,0)),self.const(Op(v,1)))
        if k==22 or k==23: return None
        return ('unkconst',k)
    def zero(self,t):
        if t.kind in(K_struct,): return tuple(self.zero(e) for e in t.elems)
        if t.kind in(K_array,K_vector): return tuple(self.zero(t.elem) for _ in range(t.n))
        if t.kind==K_ptr: return NULL
        return 0
    def _gepconst(self,v):
        t=GepSrc(v); off=0
        n=NumOp(v)
        for i in range(1,n):
            idx=SExt(Op(v,i)) if ValKind(Op(v,i))==18 else None
            if i==1: off+=idx*ABISize(self.dl,t); continue
            k=TypeKind(t)
            if k==K_struct: off+=OffOf(self.dl,t,idx); t=StructAt(t,idx)
            else: t=ElemT(t); off+=idx*ABISize(self.dl,t)
        return off
    def func(self,nm):
        f=self._fc.get(nm)
        if f is None:
            f=self._load(nm); self._fc[nm]=f
        return f
    def _load(self,nm):
        fv=self.fns[nm]
        ids={}; 
        n=ParamN(fv)
        pt=[]
        for i in range(n):
            p=Param(fv,i); ids[p]=len(ids); pt.append(self.ty(TypeOf(p)))
        bbs=[]; b=FirstBB(fv)
        while b: bbs.append(b); b=NextBB(b)
        bid={b:i for i,b in enumerate(bbs)}
        ins=[]
        for b in bbs:
            l=[]; i=FirstI(b)
            while i:
                l.append(i); ids[i]=len(ids); i=NextI(i)
            ins.append(l)
        def opd(v):
            r=ids.get(v)
            if r is not None: return Reg(r)
            return self.const(v)
        fn=Func(); fn.name=nm; fn.nparams=n; fn.blocks=[]; fn.nregs=len(ids); fn.loops=None; fn.paramtys=pt; fn._preds=None; fn.retty=self.ty(RetT(GValT(fv)))
        for bi,(b,l) in enumerate(zip(bbs,ins)):
            B=Block(); B.i=bi; B.phis=[]; B.instrs=[]; B.succs=[]
            for iv in l:
                I=Instr(); oc=OPC.get(Opcode(iv),'op%d'%Opcode(iv)); I.op=oc; I.dest=ids[iv]; I.ty=self.ty(TypeOf(iv)); I.x=None; I.cty=None
                if oc=='phi':
                    I.x={bid[IncB(iv,i)]:opd(IncV(iv,i)) for i in range(NInc(iv))}; I.ops=[]; B.phis.append(I); continue
                if oc=='br':
                    if IsCond(iv): I.ops=[opd(Cond(iv))]; I.x=[bid[Succ(iv,0)],bid[Succ(iv,1)]]
                    else: I.ops=[]; I.x=[bid[Succ(iv,0)]]
                    B.succs=list(I.x)
                elif oc=='switch':
                    I.ops=[opd(Op(iv,0))]; cs=[]
                    for j in range(2,NumOp(iv),2): cs.append((self.const(Op(iv,j)),bid[VasBB(Op(iv,j+1))]))
                    I.x=(bid[VasBB(Op(iv,1))],cs); B.succs=[I.x[0]]+[c for _,c in cs]
                elif oc in('call','invoke'):
                    cv=Called(iv); I.ops=[opd(Op(iv,i)) for i in range(NArg(iv))]
                    cal=opd(cv)
                    if ValKind(cv)==23: cal='asm'
                    I.cty=[self.ty(TypeOf(Op(iv,i))) for i in range(NArg(iv))]
                    if oc=='invoke': I.x=(cal,bid[NormD(iv)],bid[UnwD(iv)]); B.succs=[I.x[1],I.x[2]]
                    else: I.x=(cal,None,None)
                elif oc=='gep':
                    t=GepSrc(iv); off=0; var=[]
                    for i in range(1,NumOp(iv)):
                        o=Op(iv,i); c=SExt(o) if ValKind(o)==18 else None
                        if i==1: s=ABISize(self.dl,t)
                        else:
                            k=TypeKind(t)
                            if k==K_struct: off+=OffOf(self.dl,t,c); t=StructAt(t,c); continue
                            t=ElemT(t); s=ABISize(self.dl,t)
                        if c is not None: off+=c*s
                        else: var.append((opd(o),s))
                    I.ops=[opd(Op(iv,0))]; I.x=(off,var)
                elif oc=='icmp': I.ops=[opd(Op(iv,0)),opd(Op(iv,1))]; I.x=ICMP[ICmp(iv)]; I.cty=self.ty(TypeOf(Op(iv,0)))
                elif oc=='fcmp': I.ops=[opd(Op(iv,0)),opd(Op(iv,1))]; I.x=FCMP[FCmp(iv)]
                elif oc=='alloca': I.ops=[opd(Op(iv,0))]; I.cty=self.ty(AllocT(iv))
                elif oc in('extractvalue','insertvalue'):
                    p=Inds(iv); I.x=[p[j] for j in range(NumInd(iv))]; I.ops=[opd(Op(iv,j)) for j in range(NumOp(iv))]
                elif oc=='landingpad':
                    I.ops=[]; I.x=(bool(IsCleanup(iv)),[self.const(Clause(iv,j)) for j in range(NClause(iv))])
                elif oc=='shufflevector':
                    I.ops=[opd(Op(iv,0)),opd(Op(iv,1))]; I.x=[MaskV(iv,j) for j in range(MaskN(iv))]
                elif oc=='store': I.ops=[opd(Op(iv,0)),opd(Op(iv,1))]; I.cty=self.ty(TypeOf(Op(iv,0)))
                elif oc in('zext',):
                    I.ops=[opd(Op(iv,0))]; I.cty=self.ty(TypeOf(Op(iv,0))); I.x=bool(NNeg(iv))
                elif oc in('atomicrmw',):
                    s=PrintV(iv).decode(); I.x=s.split('atomicrmw')[1].split()[0 if 'volatile' not in s else 1]; I.ops=[opd(Op(iv,0)),opd(Op(iv,1))]; I.cty=self.ty(TypeOf(Op(iv,1)))
                else:
                    I.ops=[opd(Op(iv,j)) for j in range(NumOp(iv))]
                    if I.ops and NumOp(iv): I.cty=self.ty(TypeOf(Op(iv,0)))
                B.instrs.append(I)
            fn.blocks.append(B)
        return fn

def find_loops(fn):
    """natural loops: header -> frozenset(blocks); merged per header"""
    if fn.loops is not None: return fn.loops
    n=len(fn.blocks)
    preds=[[] for _ in range(n)]
    for b in fn.blocks:
        for s in set(b.succs): preds[s].append(b.i)
    fn._preds=preds
    # reverse postorder
    seen=[False]*n; order=[]
    st=[(0,iter(fn.blocks[0].succs))]; seen[0]=True
    while st:
        v,it=st[-1]
        for s in it:
            if not seen[s]: seen[s]=True; st.append((s,iter(fn.blocks[s].succs))); break
        else: order.append(v); st.pop()
    rpo=order[::-1]; pos={b:i for i,b in enumerate(rpo)}
    idom={0:0}; ch=True
    while ch:
        ch=False
        for b in rpo[1:]:
            ps=[p for p in preds[b] if p in idom]
            if not ps: continue
            x=ps[0]
            for p in ps[1:]:
                a,c=x,p
                while a!=c:
                    while pos[a]>pos[c]: a=idom[a]
                    while pos[c]>pos[a]: c=idom[c]
                x=a
            if idom.get(b)!=x: idom[b]=x; ch=True
    def dom(a,b):
        while True:
            if a==b: return True
            if b==0: return False
            b=idom[b]
    loops={}
    for b in rpo:
        for s in fn.blocks[b].succs:
            if dom(s,b):
                body={s}; st=[b]
                while st:
                    x=st.pop()
                    if x in body: continue
                    body.add(x); st+= [p for p in preds[x] if p in pos]
                loops.setdefault(s,set()).update(body)
    fn.loops={h:frozenset(v) for h,v in loops.items()}
    return fn.loops
