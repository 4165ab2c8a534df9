"""Thin ctypes layer over the LLVM 18 C API: loads a module, runs passes, and
turns every function into plain Python objects (no text parsing)."""
import ctypes as C, os
_cands = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "libLLVM-18.so"]
for _c in _cands:
    try:
        L = C.CDLL(_c); break
    except OSError:
        continue
P = C.c_void_p
def _f(name, res, *args):
    fn = getattr(L, name); fn.restype = res; fn.argtypes = list(args); return fn
S = C.c_char_p; U = C.c_uint; I = C.c_int; B = C.c_int
ctxCreate=_f("LLVMContextCreate",P)
bufFile=_f("LLVMCreateMemoryBufferWithContentsOfFile",B,S,C.POINTER(P),C.POINTER(S))
parseIR=_f("LLVMParseIRInContext",B,P,P,C.POINTER(P),C.POINTER(S))
linkMods=_f("LLVMLinkModules2",B,P,P)
firstFn=_f("LLVMGetFirstFunction",P,P); nextFn=_f("LLVMGetNextFunction",P,P)
namedFn=_f("LLVMGetNamedFunction",P,P,S)
firstGl=_f("LLVMGetFirstGlobal",P,P); nextGl=_f("LLVMGetNextGlobal",P,P)
_vname=_f("LLVMGetValueName2",S,P,C.POINTER(C.c_size_t))
def vname(v):
    n=C.c_size_t(); s=_vname(v,C.byref(n)); return s[:n.value].decode() if s else ""
firstBB=_f("LLVMGetFirstBasicBlock",P,P); nextBB=_f("LLVMGetNextBasicBlock",P,P)
firstI=_f("LLVMGetFirstInstruction",P,P); nextI=_f("LLVMGetNextInstruction",P,P)
opcode=_f("LLVMGetInstructionOpcode",I,P)
numOps=_f("LLVMGetNumOperands",I,P); getOp=_f("LLVMGetOperand",P,P,U)
typeOf=_f("LLVMTypeOf",P,P); typeKind=_f("LLVMGetTypeKind",I,P)
intW=_f("LLVMGetIntTypeWidth",U,P)
icmpPred=_f("LLVMGetICmpPredicate",I,P)
nInc=_f("LLVMCountIncoming",U,P); incV=_f("LLVMGetIncomingValue",P,P,U); incB=_f("LLVMGetIncomingBlock",P,P,U)
nSucc=_f("LLVMGetNumSuccessors",U,P); succ=_f("LLVMGetSuccessor",P,P,U)
isCond=_f("LLVMIsConditional",B,P); cond=_f("LLVMGetCondition",P,P)
calledV=_f("LLVMGetCalledValue",P,P); nArgs=_f("LLVMGetNumArgOperands",U,P)
gepTy=_f("LLVMGetGEPSourceElementType",P,P)
nIdx=_f("LLVMGetNumIndices",U,P); idxs=_f("LLVMGetIndices",C.POINTER(U),P)
allocTy=_f("LLVMGetAllocatedType",P,P)
valKind=_f("LLVMGetValueKind",I,P)
constOpcode=_f("LLVMGetConstOpcode",I,P)
ciZ=_f("LLVMConstIntGetZExtValue",C.c_ulonglong,P)
ciNArb=None
isNull=_f("LLVMIsNull",B,P)
params=_f("LLVMCountParams",U,P); param=_f("LLVMGetParam",P,P,U)
glInit=_f("LLVMGetInitializer",P,P); glVT=_f("LLVMGlobalGetValueType",P,P); isGConst=_f("LLVMIsGlobalConstant",B,P)
isDecl=_f("LLVMIsDeclaration",B,P)
setLinkage=_f("LLVMSetLinkage",None,P,I); getLinkage=_f("LLVMGetLinkage",I,P)
td=_f("LLVMGetModuleDataLayout",P,P)
abiSize=_f("LLVMABISizeOfType",C.c_ulonglong,P,P); storeSize=_f("LLVMStoreSizeOfType",C.c_ulonglong,P,P)
offElem=_f("LLVMOffsetOfElement",C.c_ulonglong,P,P,U)
nStruct=_f("LLVMCountStructElementTypes",U,P); structTy=_f("LLVMStructGetTypeAtIndex",P,P,U)
elemTy=_f("LLVMGetElementType",P,P); arrLen=_f("LLVMGetArrayLength2",C.c_ulonglong,P)
vecLen=_f("LLVMGetVectorSize",U,P)
aggEl=_f("LLVMGetAggregateElement",P,P,U)
passOpts=_f("LLVMCreatePassBuilderOptions",P)
runPasses=_f("LLVMRunPasses",P,P,S,P,P)
errMsg=_f("LLVMGetErrorMessage",S,P)
rauw=_f("LLVMReplaceAllUsesWith",None,P,P)
printMod=_f("LLVMPrintModuleToFile",B,P,S,C.POINTER(S))
printVal=_f("LLVMPrintValueToString",P,P)
def pv(v):
    p=printVal(v); s=C.cast(p,S).value.decode(errors='replace'); return s
attrKind=_f("LLVMGetEnumAttributeKindForName",U,S,C.c_size_t)
mkAttr=_f("LLVMCreateEnumAttribute",P,P,U,C.c_ulonglong)
addAttr=_f("LLVMAddAttributeAtIndex",None,P,U,P)
rmAttr=_f("LLVMRemoveEnumAttributeAtIndex",None,P,U,U)
rmSAttr=_f("LLVMRemoveStringAttributeAtIndex",None,P,U,S,U)
delFn=_f("LLVMDeleteFunction",None,P)
glSetInit=_f("LLVMSetInitializer",None,P,P)
modCtx=_f("LLVMGetModuleContext",P,P)
setCC=_f("LLVMSetFunctionCallConv",None,P,U)
firstUse=_f("LLVMGetFirstUse",P,P); nextUse=_f("LLVMGetNextUse",P,P); useUser=_f("LLVMGetUser",P,P)
isInstr=_f("LLVMIsAInstruction",P,P)
instrParent=_f("LLVMGetInstructionParent",P,P); bbParent=_f("LLVMGetBasicBlockParent",P,P)
bbName=_f("LLVMGetBasicBlockName",S,P)
setComdat=_f("LLVMSetComdat",None,P,P)
setDll=_f("LLVMSetDLLStorageClass",None,P,I)
setVis=_f("LLVMSetVisibility",None,P,I)
setTriple=_f("LLVMSetTarget",None,P,S)
setDL=_f("LLVMSetDataLayout",None,P,S)
stripDI=_f("LLVMStripModuleDebugInfo",B,P)
fnTy=_f("LLVMGlobalGetValueType",P,P)
retTy=_f("LLVMGetReturnType",P,P)
isAlias=_f("LLVMIsAGlobalAlias",P,P); aliasee=_f("LLVMAliasGetAliasee",P,P)
getAlloc=_f("LLVMGetAlignment",U,P)
setAsm=_f("LLVMSetModuleInlineAsm2",None,P,S,C.c_size_t)
undef=_f("LLVMGetUndef",P,P)
dispMsg=_f("LLVMDisposeMessage",None,P)
cdataStr=_f("LLVMIsConstantString",B,P)

OPC={1:'ret',2:'br',3:'switch',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',49:'vaarg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',55:'fence',56:'cmpxchg',57:'atomicrmw',66:'fneg',68:'freeze',60:'addrspacecast'}
TK={0:'void',2:'float',3:'double',8:'int',9:'func',10:'struct',11:'array',12:'ptr',13:'vec',7:'label',14:'meta',16:'token',1:'half',4:'x86_fp80',5:'fp128'}
# LLVMTypeKind: Void0 Half1 Float2 Double3 X86_FP80 4 FP128 5 PPC 6 Label7 Integer8 Function9 Struct10 Array11 Pointer12 Vector13 Metadata14 X86_MMX15 Token16
PRED={32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
# LLVMValueKind
VK={0:'arg',1:'bb',2:'memuse',5:'function',6:'alias',7:'ifunc',8:'global',9:'blockaddr',10:'cexpr',11:'carray',12:'cstruct',13:'cvector',14:'undef',15:'zero',16:'cdataarray',17:'cdatavec',18:'cint',19:'cfp',20:'cnull',21:'ctoken',22:'meta',23:'asm',24:'instr',25:'poison'}

class Ty:
    __slots__=('k','w','elems','n','size','offs','p')
    def __repr__(s): return f"{s.k}{s.w or ''}"

class Module:
    def __init__(self, paths):
        self.ctx=ctxCreate(); self.m=None; self._ty={}
        for p in paths:
            mm=self._load(p)
            if self.m is None: self.m=mm
            else:
                if linkMods(self.m,mm): raise RuntimeError("link failed "+p)
        self.dl=td(self.m)
    def _load(self,path):
        b=P(); e=S()
        if bufFile(path.encode(),C.byref(b),C.byref(e)): raise RuntimeError(e.value)
        m=P(); e=S()
        if parseIR(self.ctx,b,C.byref(m),C.byref(e)): raise RuntimeError(e.value)
        return m
    def passes(self,s):
        o=passOpts(); e=runPasses(self.m,s.encode(),None,o)
        if e: raise RuntimeError(errMsg(e))
    def functions(self):
        f=firstFn(self.m)
        while f:
            nx=nextFn(f); yield f; f=nx
    def globals(self):
        f=firstGl(self.m)
        while f:
            nx=nextGl(f); yield f; f=nx
    def fn(self,name): return namedFn(self.m,name.encode())
    def dump(self,path):
        e=S(); printMod(self.m,path.encode(),C.byref(e))
    def attr(self,f,name,add=True):
        k=attrKind(name.encode(),len(name))
        if add: addAttr(f,0xffffffff,mkAttr(self.ctx,k,0))
        else: rmAttr(f,0xffffffff,k)
    def ty(self,t):
        r=self._ty.get(t)
        if r: return r
        r=Ty(); r.p=t; r.k=TK.get(typeKind(t),'other'); r.w=None; r.elems=None; r.n=None; r.offs=None; r.size=None
        self._ty[t]=r
        if r.k=='int': r.w=intW(t); r.size=abiSize(self.dl,t)
        elif r.k=='ptr': r.w=64; r.size=8
        elif r.k in('float','double','x86_fp80'): r.size=abiSize(self.dl,t); r.w=r.size*8
        elif r.k=='array': r.elems=[self.ty(elemTy(t))]; r.n=arrLen(t); r.size=abiSize(self.dl,t)
        elif r.k=='vec': r.elems=[self.ty(elemTy(t))]; r.n=vecLen(t); r.size=abiSize(self.dl,t); r.w=None
        elif r.k=='struct':
            n=nStruct(t); r.elems=[self.ty(structTy(t,i)) for i in range(n)]
            try: r.size=abiSize(self.dl,t)
            except Exception: r.size=0
            r.offs=[offElem(self.dl,t,i) for i in range(n)]
        return r
