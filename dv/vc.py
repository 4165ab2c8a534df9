import re
"""Verification-condition generator: symbolic execution of LLVM IR with path
merging, loops cut at their headers by invariants (candidates decided by
Houdini), recursive spec functions as uninterpreted functions unfolded on
demand.  No bound on loop iterations or sizes in 'prove' mode; 'bounded' mode
unrolls and is used only to get concrete counterexamples."""
import sys, itertools, time
import z3
from llvmc import *
import llvmc as ll
sys.setrecursionlimit(200000)
BV=z3.BitVecVal; TRUE=z3.BoolVal(True); FALSE=z3.BoolVal(False)
class Unsupported(Exception): pass
def bv64(x): return z3.BitVecVal(x,64)
def simp(t): return z3.simplify(t)
def isc(t): return z3.is_bv_value(t)
def cval(t): return t.as_long()
def And(*a):
    r=[]
    for x in a:
        if z3.is_true(x): continue
        if z3.is_false(x): return FALSE
        r.append(x)
    return TRUE if not r else r[0] if len(r)==1 else z3.And(*r)
def Or(*a):
    r=[];seen=set()
    for x in a:
        if z3.is_false(x): continue
        if z3.is_true(x): return TRUE
        i=x.get_id()
        if i in seen: continue
        seen.add(i); r.append(x)
    # a | !a
    ids={x.get_id() for x in r}
    for x in r:
        if z3.is_not(x) and x.arg(0).get_id() in ids: return TRUE
    return FALSE if not r else r[0] if len(r)==1 else z3.Or(*r)
def Not(x):
    if z3.is_true(x): return FALSE
    if z3.is_false(x): return TRUE
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def Ite(c,a,b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.get_id()==b.get_id(): return a
    return z3.If(c,a,b)
def same(a,b): return a.get_id()==b.get_id()
_cnt=itertools.count()
def fresh(name,w): return z3.BitVec(f"{name}!{next(_cnt)}",w)
def freshb(name): return z3.Bool(f"{name}!{next(_cnt)}")

# ---------------------------------------------------------------- memory
class Region:
    def __init__(s,name,size,const=False,heap=False):
        s.name=f"{name}@{next(_cnt)}"; s.size=size; s.const=const; s.segs=[]; s.heap=heap
        s.base=z3.BitVec(f"addr_{s.name}",64); s.fn=None; s.esize=1; s.user=None; s.ff=None
    def __repr__(s): return s.name
class Seg:
    def __init__(s,lo,hi,kind,e=1): s.lo=lo; s.hi=hi; s.kind=kind; s.e=e   # kind 'cells'|'arr'; hi None = region size
NULLR=Region('null',bv64(0))

class Node:      # array contents
    __slots__=('k','a','memo','id','w')
    _n=itertools.count()
    def __init__(s,k,w,*a): s.k=k; s.a=a; s.w=w; s.memo={}; s.id=next(Node._n)
def nread(n,i):
    key=i.get_id()
    r=n.memo.get(key)
    if r is not None: return r[1]
    k=n.k
    if k=='base': v=n.a[0](i)
    elif k=='store':
        p,j,x=n.a
        if same(i,j): v=x
        elif isc(i) and isc(j): v=x if cval(i)==cval(j) else nread(p,i)
        else:
            d=simp(i-j)
            if isc(d): v=x if cval(d)==0 else nread(p,i)
            else: v=Ite(i==j,x,nread(p,i))
    elif k=='copy':
        p,d,ln,src,s=n.a
        rel=simp(i-d); c=simp(z3.ULT(rel,ln))
        v=nread(p,i) if z3.is_false(c) else nread(src,simp(rel+s)) if z3.is_true(c) else Ite(c,nread(src,simp(rel+s)),nread(p,i))
    elif k=='set':
        p,d,ln,x=n.a
        c=simp(z3.ULT(simp(i-d),ln))
        v=x if z3.is_true(c) else nread(p,i) if z3.is_false(c) else Ite(c,x,nread(p,i))
    elif k=='ite':
        c,a,b=n.a
        v=Ite(c,nread(a,i),nread(b,i))
    elif k=='const': v=n.a[0]
    elif k=='table':
        tab,uf,facts=n.a
        if isc(i): v=BV(tab[cval(i)],n.w) if cval(i)<len(tab) else BV(0,n.w)
        elif len(tab)<=80:
            v=BV(tab[-1],n.w)
            for j in range(len(tab)-2,-1,-1): v=Ite(i==BV(j,i.size()),BV(tab[j],n.w),v)
        else:
            v=uf(i)
    elif k=='packed':   # view of a narrower/wider node
        raise Unsupported('packed')
    else: raise Unsupported(k)
    n.memo[key]=(i,v)
    return v
class Cells:
    """offset -> (nbytes,value) over a parent"""
    __slots__=('d','parent','id','_c')
    _n=itertools.count()
    def __init__(s,d,parent): s.d=d; s.parent=parent; s.id=next(Cells._n)
class CInit:
    __slots__=('name','id','zero')
    def __init__(s,name,zero=False): s.name=name; s.id=next(Cells._n); s.zero=zero
class CIte:
    __slots__=('c','a','b','id','memo')
    def __init__(s,c,a,b): s.c=c; s.a=a; s.b=b; s.id=next(Cells._n); s.memo={}

class Ptr:
    __slots__=('alts',)
    def __init__(s,alts): s.alts=alts     # dict Region -> (cond, off)
    @staticmethod
    def mk(r,off=None): return Ptr({r:(TRUE,bv64(0) if off is None else off)})
    def single(s):
        if len(s.alts)==1:
            (r,(c,o)),=s.alts.items(); return r,o
        return None
    def __repr__(s): return "Ptr("+",".join(f"{r}+{z3.simplify(o)}" for r,(c,o) in s.alts.items())+")"
NULL=Ptr.mk(NULLR)
class Agg:
    def __init__(s,elems): s.e=elems
class FnPtr: pass

def vite(c,a,b):
    if a is b: return a
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if isinstance(a,Ptr) or isinstance(b,Ptr):
        if not (isinstance(a,Ptr) and isinstance(b,Ptr)):
            a=toptr(a); b=toptr(b)
        alts={}
        for r,(ca,oa) in a.alts.items():
            if r in b.alts:
                cb,ob=b.alts[r]; alts[r]=(Ite(c,ca,cb),Ite(c,oa,ob))
            else: alts[r]=(And(c,ca),oa)
        for r,(cb,ob) in b.alts.items():
            if r not in a.alts: alts[r]=(And(Not(c),cb),ob)
        if len(alts)==1:
            r,(cc,o)=next(iter(alts.items())); alts={r:(TRUE,o)}
        return Ptr(alts)
    if isinstance(a,Agg): return Agg([vite(c,x,y) for x,y in zip(a.e,b.e)])
    if z3.is_bool(a)!=z3.is_bool(b):
        a=tobv(a,1); b=tobv(b,1)
    return Ite(c,a,b)
def toptr(v):
    if isinstance(v,Ptr): return v
    # integer -> pointer: recover provenance
    r=find_base(v)
    if r is not None:
        return Ptr.mk(r,simp(v-r.base))
    if isc(simp(v)) and cval(simp(v))==0: return NULL
    return Ptr({NULLR:(TRUE,v)})
_bases={}
def find_base(t):
    seen=set(); st=[t]; found=None
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.get_id() in _bases: return _bases[x.get_id()]
        if len(seen)>200: return None
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_BADD,z3.Z3_OP_BSUB): st.extend(x.children())
    return None
def regbase(r):
    if r is NULLR: return bv64(0)
    _bases[r.base.get_id()]=r
    return r.base
def ptrint(p):
    if not isinstance(p,Ptr): return p
    res=None
    for r,(c,o) in p.alts.items():
        v=simp(regbase(r)+o) if r is not NULLR else o
        res=v if res is None else Ite(c,v,res)
    return res
def tobv(v,w):
    if isinstance(v,Ptr): v=ptrint(v)
    if z3.is_bool(v): return z3.If(v,BV(1,w),BV(0,w)) if not (z3.is_true(v) or z3.is_false(v)) else BV(1 if z3.is_true(v) else 0,w)
    return v
def tob(v):
    if z3.is_bool(v): return v
    return simp(v!=BV(0,v.size()))
def veq(a,b):
    if isinstance(a,Ptr) or isinstance(b,Ptr):
        a=toptr(a); b=toptr(b)
        out=[]
        for r,(ca,oa) in a.alts.items():
            if r in b.alts:
                cb,ob=b.alts[r]; out.append(And(ca,cb,simp(oa==ob)))
        return Or(*out) if out else FALSE
    if z3.is_bool(a)!=z3.is_bool(b): a=tobv(a,1); b=tobv(b,1)
    return simp(a==b)
def vsame(a,b):
    if a is b: return True
    if isinstance(a,Ptr)!=isinstance(b,Ptr): return False
    if isinstance(a,Ptr):
        if a.alts.keys()!=b.alts.keys(): return False
        return all(same(a.alts[r][0],b.alts[r][0]) and same(a.alts[r][1],b.alts[r][1]) for r in a.alts)
    if isinstance(a,Agg): return all(vsame(x,y) for x,y in zip(a.e,b.e))
    return same(a,b)

# -------- cells
def cells_find(n,off,nb):
    """exact value at (off,nb) or None if it has to be assembled"""
    if isinstance(n,CInit): return None
    if isinstance(n,CIte):
        key=(off,nb)
        if key in n.memo: return n.memo[key]
        a=cells_read(n.a,off,nb); b=cells_read(n.b,off,nb)
        r=vite(n.c,a,b); n.memo[key]=r
        return r
    e=n.d.get(off)
    if e and e[0]==nb: return e[1]
    return None
def cells_read(n,off,nb):
    v=cells_find(n,off,nb)
    if v is not None: return v
    if isinstance(n,CInit):
        if n.zero: return NULL if False else BV(0,8*nb)
        bs=[z3.BitVec(f"{n.name}[{off+i}]",8) for i in range(nb)]
        return simp(z3.Concat(*reversed(bs))) if nb>1 else bs[0]
    # any overlap in d?
    ov=[(o,e) for o,e in n.d.items() if o<off+nb and off<o+e[0]]
    if not ov: return cells_read(n.parent,off,nb)
    if len(ov)==1 and ov[0][0]<=off and ov[0][0]+ov[0][1][0]>=off+nb:
        o,e=ov[0]; v=tobv(e[1],8*e[0]); s=(off-o)*8
        return simp(z3.Extract(s+8*nb-1,s,v))
    bs=[]
    i=0
    while i<nb:
        p=off+i
        hit=None
        for o,e in ov:
            if o<=p<o+e[0]: hit=(o,e)
        if hit:
            o,e=hit; v=tobv(e[1],8*e[0]); bs.append(z3.Extract((p-o)*8+7,(p-o)*8,v))
        else: bs.append(tobv(cells_read(n.parent,p,1),8))
        i+=1
    return simp(z3.Concat(*reversed(bs))) if nb>1 else simp(bs[0])
def cells_write(n,off,nb,v):
    base=n if isinstance(n,Cells) else Cells({},n)
    d=dict(base.d)
    for o,e in list(d.items()):
        if o<off+nb and off<o+e[0]:
            if o>=off and o+e[0]<=off+nb: del d[o]; continue
            vv=tobv(e[1],8*e[0]); del d[o]
            for p in range(o,o+e[0]):
                if not (off<=p<off+nb): d[p]=(1,simp(z3.Extract((p-o)*8+7,(p-o)*8,vv)))
    d[off]=(nb,v)
    return Cells(d,base.parent)
def cells_merge(c,a,b):
    if a is b: return a
    if isinstance(a,Cells) and isinstance(b,Cells) and a.parent is b.parent:
        d={}; ok=True
        keys=set(a.d)|set(b.d)
        # keep it simple: fall back to a lazy ite on mismatched granularity
        for k in keys:
            ea=a.d.get(k); eb=b.d.get(k)
            nb=(ea or eb)[0]
            if ea and eb and ea[0]!=eb[0]: ok=False; break
            for other,e in ((a,ea),(b,eb)):
                if e is None:
                    for o,x in other.d.items():
                        if o<k+nb and k<o+x[0]: ok=False
            if not ok: break
            va=ea[1] if ea else cells_read(a.parent,k,nb)
            vb=eb[1] if eb else cells_read(b.parent,k,nb)
            d[k]=(nb,va if vsame(va,vb) else vite(c,va,vb))
        if ok: return Cells(d,a.parent)
    return CIte(c,a,b)
def node_merge(c,a,b):
    if a is b: return a
    if isinstance(a,Node): return Node('ite',a.w,c,a,b)
    return cells_merge(c,a,b)
def log2(e): return {1:0,2:1,4:2,8:3}[e]

class Edge:
    __slots__=('g','mem','phi','src','dst')
class Obl:
    __slots__=('label','g','c','nf','kind','loc')
class Loop:
    def __init__(s,h): s.h=h; s.blocks={h}; s.parent=None; s.children=[]

class FnInfo:
    def __init__(s,mod,f):
        s.mod=mod; s.f=f; s.name=vname(f)
        s.blocks=[]; s.ins={}
        b=firstBB(f)
        while b:
            s.blocks.append(b); l=[]; i=firstI(b)
            while i: l.append(i); i=nextI(i)
            s.ins[b]=l; b=nextBB(b)
        s.entry=s.blocks[0]
        s.succs={b:[] for b in s.blocks}
        for b in s.blocks:
            t=s.ins[b][-1]
            for k in range(nSucc(t)):
                x=succ(t,k)
                if x not in s.succs[b]: s.succs[b].append(x)
        # rpo
        seen=set(); order=[]
        st=[(s.entry,iter(s.succs[s.entry]))]; seen.add(s.entry)
        while st:
            b,it=st[-1]
            for x in it:
                if x not in seen: seen.add(x); st.append((x,iter(s.succs[x]))); break
            else:
                order.append(b); st.pop()
        s.rpo=order[::-1]; s.idx={b:i for i,b in enumerate(s.rpo)}
        s.preds={b:[] for b in s.rpo}
        for b in s.rpo:
            for x in s.succs[b]: s.preds[x].append(b)
        # dominators
        idom={s.entry:s.entry}; ch=True
        while ch:
            ch=False
            for b in s.rpo[1:]:
                n=None
                for p in s.preds[b]:
                    if p in idom:
                        if n is None: n=p
                        else:
                            x,y=p,n
                            while x!=y:
                                while s.idx[x]>s.idx[y]: x=idom[x]
                                while s.idx[y]>s.idx[x]: y=idom[y]
                            n=x
                if idom.get(b)!=n: idom[b]=n; ch=True
        s.idom=idom
        def dom(a,b):
            while True:
                if a==b: return True
                if b==s.entry: return False
                b=idom[b]
        loops={}
        for b in s.rpo:
            for x in s.succs[b]:
                if s.idx[x]<=s.idx[b]:
                    if not dom(x,b): raise Unsupported('irreducible loop')
                    L=loops.setdefault(x,Loop(x)); st=[b]
                    while st:
                        y=st.pop()
                        if y in L.blocks: continue
                        L.blocks.add(y); st.extend(s.preds[y])
        s.loops=sorted(loops.values(),key=lambda L:len(L.blocks))
        s.inner={}
        for L in s.loops:
            for b in L.blocks:
                s.inner.setdefault(b,L)
        for i,L in enumerate(s.loops):
            for M in s.loops[i+1:]:
                if L.h in M.blocks and L is not M: L.parent=M; M.children.append(L); break
        for j,L in enumerate(sorted(s.loops,key=lambda L:s.idx[L.h])): L.no=j
        # rpo with loops contiguous
        s.phis={b:[i for i in s.ins[b] if opcode(i)==44] for b in s.rpo}

class Env:
    __slots__=('d','p')
    def __init__(s,p=None): s.d={}; s.p=p
    def get(s,k):
        e=s
        while e is not None:
            v=e.d.get(k)
            if v is not None: return v
            e=e.p
        return None

class Exec:
    def __init__(s,mod,cfg=None):
        s.mod=mod; s.cfg=cfg or {}; s.facts=[]; s.obls=[]; s.fi={}; s.globs={}
        s.dry=0; s.pure=0; s.inputs=[]; s.reach=[]; s.hs=[]; s.apps={}; s.watches=[]; s.recorded=[]; s.watchk=[]; s.strl=[]; s.trackidx=[]; s.prunememo={}
        s.mode=s.cfg.get('mode','prove'); s.K=s.cfg.get('K',6)
        s.nunroll=0; s.loopinfo=[]; s.tmo=s.cfg.get('qtimeout',10000); s.tables=[]
        s.specdepth=s.cfg.get('depth',2); s.specsig={}; s.unsupp=[]; s.usermark=[]
        s.globmem={}; s.terms=[]; s.monock=set(); s.lawck=set(); s.lawdone={}; s.bodyinfo={}
        s.solver=None; s.solver_n=0; s.loopdepth=0; s.stack=[]; s.cutnames=[]; s.truncated=0
    # ---------- facts and obligations
    def fact(s,g,c):
        if s.dry: return
        f=simp(c) if z3.is_true(g) else z3.Implies(g,c)
        if z3.is_true(f): return
        s.facts.append(f)
    def oblige(s,label,g,c,kind='assert',loc=None):
        if s.dry or s.pure or (s.ghost and kind=='safety'): return
        if z3.is_false(g): return
        c=simp(c)
        o=Obl(); o.label=label; o.g=g; o.c=c; o.nf=len(s.facts); o.kind=kind; o.loc=loc
        s.obls.append(o)
    def quick(s,*conds,timeout=3000):
        """satisfiability of facts+conds, short timeout"""
        sv=z3.SolverFor('QF_UFBV'); sv.set('timeout',timeout)
        for f in s.facts: sv.add(f)
        for c in conds: sv.add(c)
        return sv.check()
    def infeasible(s,g):
        if not s.cfg.get('prune') or s.pure or z3.is_true(g) or (s.cfg['prune']<2 and (s.dry or s.loopdepth)): return False
        if z3.is_false(g): return True
        k=g.get_id()
        if k not in s.prunememo: s.prunememo[k]=(s.quick(g,timeout=400)==z3.unsat,g)
        return s.prunememo[k][0]
    # ---------- regions
    def new_arr(s,name,size,e,content=None,const=False):
        r=Region(name,size,const); r.segs=[Seg(0,None,'arr',e)]; r.esize=e
        if content is None:
            content=s.basenode(r.name,e)
        return r,(content,)
    def mk_flag(s,r,mem,v=0):
        f=Region('free_'+r.name.split('@')[0],bv64(1)); f.segs=[Seg(0,1,'cells')]; r.ff=f
        mem[f]=(cells_write(CInit(f"U_{f.name}",True),0,1,v if not isinstance(v,int) else BV(v,8)),)
    def live(s,mem,r,g,loc=None):
        """obligation: the heap object has not been freed"""
        if r.ff is None or s.pure or s.dry: return
        c=mem.get(r.ff)
        if c is None: return
        v=cells_read(c[0],0,1)
        if isc(v) and cval(v)==0: return
        s.oblige(f"{r.name.split('@')[0]} used after free",g,simp(v!=BV(1,8)),'safety',loc)
    def free(s,p,g,mem,loc=None):
        p=toptr(p)
        for r,(c,o) in p.alts.items():
            if r is NULLR: continue
            gg=And(g,c)
            if z3.is_false(gg): continue
            if r.ff is None: s.oblige(f"free of {r.name.split('@')[0]}, which is not a heap object",gg,FALSE,'safety',loc); continue
            v=cells_read(mem[r.ff][0],0,1)
            s.oblige(f"free of {r.name.split('@')[0]}: owned, not freed before, start of the object",gg,And(simp(v==BV(0,8)),simp(o==bv64(0))),'safety',loc)
            nv=BV(1,8) if len(p.alts)==1 else vite(c,BV(1,8),v)
            mem[r.ff]=(cells_write(mem[r.ff][0],0,1,nv),)
    def basenode(s,name,e):
        sh=log2(e)
        uf=z3.Function(f"M_{name}!{next(_cnt)}",z3.BitVecSort(64-sh),z3.BitVecSort(8*e))
        return Node('base',8*e,uf)
    def layout(s,t,lo,segs):
        """split a type into segments: long int arrays get array contents"""
        if t.k=='array' and t.elems[0].k=='int' and t.n>s.cfg.get('cellmax',8) and t.elems[0].size in(1,2,4,8):
            segs.append(Seg(lo,lo+t.size,'arr',t.elems[0].size)); return
        if t.k=='array' and t.elems[0].k in('struct','array') and t.n>s.cfg.get('cellmax',8) and s.flatw(t.elems[0]):
            segs.append(Seg(lo,lo+t.size,'arr',s.flatw(t.elems[0]))); return
        if t.k=='struct' and t.n is None:
            for el,o in zip(t.elems,t.offs): s.layout(el,lo+o,segs)
            return
        if t.k=='array' and t.n<=s.cfg.get('cellmax',8):
            for i in range(t.n): s.layout(t.elems[0],lo+i*t.elems[0].size,segs)
            return
        if t.size: segs.append(Seg(lo,lo+t.size,'cells'))
    def flatw(s,t):
        """gcd int width of a pointer-free aggregate, else 0"""
        if t.k=='int': return t.size if t.size in(1,2,4,8) else 0
        if t.k in('float','double'): return t.size
        if t.k=='array': return s.flatw(t.elems[0]) if t.n else 8
        if t.k=='struct':
            w=8
            for e in t.elems:
                x=s.flatw(e)
                if not x: return 0
                w=min(w,x)
            return w
        return 0
    def mk_typed(s,name,t,zero=False,const=False):
        segs=[]
        s.layout(t,0,segs)
        out=[]
        pos=0
        for g in segs:
            if g.lo>pos:
                if out and out[-1].kind=='cells': out[-1].hi=g.lo
                else: out.append(Seg(pos,g.lo,'cells'))
            if out and out[-1].kind=='cells' and g.kind=='cells': out[-1].hi=g.hi
            else: out.append(g)
            pos=g.hi
        if pos<t.size:
            if out and out[-1].kind=='cells': out[-1].hi=t.size
            else: out.append(Seg(pos,t.size,'cells'))
        r=Region(name,bv64(t.size),const); r.segs=out
        cont=[]
        for g in out:
            if g.kind=='cells': cont.append(CInit(f"U_{r.name}",zero))
            else: cont.append(Node('const',8*g.e,BV(0,8*g.e)) if zero else s.basenode(r.name,g.e))
        return r,tuple(cont)
    def global_region(s,g):
        if g in s.globs: return s.globs[g]
        name=vname(g); t=s.mod.ty(glVT(g)); const=bool(isGConst(g))
        ext=isDecl(g)
        r,cont=s.mk_typed('G_'+name,t,zero=False,const=const)
        s.globs[g]=r
        if not ext:
            init=glInit(g)
            cont=list(cont)
            vals=[]
            s.flat_const(init,0,vals)
            vals.sort(key=lambda x:x[0])
            for i,sg in enumerate(r.segs):
                if sg.kind=='cells':
                    d={}
                    for (o,ty,v) in vals:
                        if sg.lo<=o<sg.hi:
                            d[o]=(ty.size,v)
                    cont[i]=Cells(d,CInit('Z',True))
                else:
                    e=sg.e; n=(sg.hi-sg.lo)//e; tab=bytearray(sg.hi-sg.lo)
                    for (o,ty,v) in vals:
                        if sg.lo<=o<sg.hi:
                            v=v if isinstance(v,Ptr) else simp(v)
                            if isinstance(v,Ptr): raise Unsupported('ptr in table')
                            tab[o-sg.lo:o-sg.lo+ty.size]=cval(tobv(v,8*ty.size)).to_bytes(ty.size,'little')
                    tb=[int.from_bytes(tab[j*e:(j+1)*e],'little') for j in range(n)]
                    sh=log2(e)
                    if len(tb)>80:
                        uf=z3.Function(f"T_{name}",z3.BitVecSort(64-sh),z3.BitVecSort(8*e))
                        fs=[uf(BV(sg.lo//e+j,64-sh))==BV(x,8*e) for j,x in enumerate(tb)]
                        if const: s.facts[0:0]=[]; s.tables.append(fs)
                        full=Node('table',8*e,[0]*(sg.lo//e)+tb,uf,fs)
                    else: full=Node('table',8*e,[0]*(sg.lo//e)+tb,None,None)
                    cont[i]=full
        if not const and s.cfg.get('globals_havoc',True) and not name.startswith('dv_g_'):
            # a mutable global has an arbitrary value at entry
            r2,c2=s.mk_typed('G_'+name,t)
            cont=list(c2)
            # pointers inside mutable globals cannot be arbitrary: keep their initializer
            if not ext:
                for i,sg in enumerate(r.segs):
                    if sg.kind=='cells':
                        for (o,ty,v) in vals:
                            if sg.lo<=o<sg.hi and ty.k=='ptr': cont[i]=cells_write(cont[i],o,8,v)
        s.globmem[r]=tuple(cont)
        return r
    def flat_const(s,c,off,out):
        k=VK[valKind(c)]; t=s.mod.ty(typeOf(c))
        if t.k=='array':
            if k in('zero',):
                return
            if k in ('undef','poison'): return
            es=t.elems[0].size
            for i in range(t.n):
                s.flat_const(aggEl(c,i),off+i*es,out)
        elif t.k=='struct':
            if k in('zero','undef','poison'):
                return
            for i in range(len(t.elems)): s.flat_const(aggEl(c,i),off+t.offs[i],out)
        elif t.k in('int','ptr'):
            if k in('undef','poison'): return
            v=s.const(c)
            if t.k=='int' and t.w==1: v=tobv(v,8)
            out.append((off,t,v))
        elif t.k in('float','double'):
            out.append((off,t,s.const(c)))
        else: raise Unsupported('const '+t.k)
    def const(s,c):
        k=VK.get(valKind(c)); t=s.mod.ty(typeOf(c))
        if k=='cint':
            if t.w==1: return TRUE if ciZ(c) else FALSE
            if t.w>64:
                import re
                m=re.search(r'(-?\d+)$',pv(c)); return BV(int(m.group(1)),t.w)
            return BV(ciZ(c),t.w)
        if k=='cnull': return NULL
        if k=='global': return Ptr.mk(s.global_region(c))
        if k=='function':
            if c not in s.globs:
                r=Region('F_'+vname(c),bv64(0)); r.fn=c; s.globs[c]=r
            return Ptr.mk(s.globs[c])
        if k in('undef','poison'): return s.havoc_ty(t,'undef')
        if k=='zero': return s.zero_ty(t)
        if k=='cfp':
            return BV(s.fpbits(c,t),t.w)
        if k=='cexpr':
            op=OPC.get(constOpcode(c))
            if op=='gep': return s.do_gep(c,lambda v:s.const(v))
            a=s.const(getOp(c,0))
            if op=='ptrtoint': return ptrint(a)
            if op=='inttoptr': return toptr(a)
            if op in('bitcast','addrspacecast'): return a
            if op=='trunc': return z3.simplify(z3.Extract(t.w-1,0,a))
            b=s.const(getOp(c,1))
            if op=='sub': return simp(a-b)
            if op=='add': return simp(a+b)
            if op=='icmp': return s.icmp(PRED[icmpPred(c)],a,b)
            raise Unsupported('cexpr '+str(op))
        if k=='carray' or k=='cstruct' or k=='cdataarray':
            n=len(t.elems) if t.k=='struct' else t.n
            return Agg([s.const(aggEl(c,i)) for i in range(n)])
        if k=='alias': return s.const(aliasee(c))
        raise Unsupported('const kind %s %s'%(k,pv(c)[:80]))
    def fpbits(s,c,t):
        import struct
        f=_constReal(c)
        return struct.unpack('<Q',struct.pack('<d',f))[0] if t.k=='double' else struct.unpack('<I',struct.pack('<f',f))[0]
    def havoc_ty(s,t,name='hv'):
        if t.k=='int': return freshb(name) if t.w==1 else fresh(name,t.w)
        if t.k in('float','double','x86_fp80'): return fresh(name,t.w)
        if t.k=='ptr': return Ptr({NULLR:(TRUE,fresh(name,64))})
        if t.k=='struct': return Agg([s.havoc_ty(e,name) for e in t.elems])
        if t.k=='array': return Agg([s.havoc_ty(t.elems[0],name) for _ in range(t.n)])
        raise Unsupported('havoc '+t.k)
    def zero_ty(s,t):
        if t.k=='int': return FALSE if t.w==1 else BV(0,t.w)
        if t.k in('float','double'): return BV(0,t.w)
        if t.k=='ptr': return NULL
        if t.k=='struct': return Agg([s.zero_ty(e) for e in t.elems])
        if t.k=='array': return Agg([s.zero_ty(t.elems[0]) for _ in range(t.n)])
        raise Unsupported('zero '+t.k)
    # ---------- memory access
    def mget(s,mem,r):
        c=mem.get(r)
        if c is None:
            c=s.globmem.get(r)
            if c is None: raise Unsupported(f'no memory for {r}')
        return c
    def pick_seg(s,r,off,nb,g):
        if len(r.segs)==1: return 0
        o=simp(off)
        if isc(o):
            c=cval(o)
            for i,sg in enumerate(r.segs):
                if sg.lo<=c<(sg.hi if sg.hi is not None else 1<<62): return i
            return None
        c=lin_const(o)
        order=[i for i,sg in enumerate(r.segs) if c is not None and sg.lo<=c<sg.hi]
        order+=[i for i,sg in enumerate(r.segs) if sg.kind=='arr' and i not in order]
        order+=[i for i in range(len(r.segs)) if i not in order]
        if len(order)>=1:
            key=(r,o.get_id(),nb)
            if key in s.segmemo: return s.segmemo[key][1]
            for i in order:
                sg=r.segs[i]
                if s.quick(g,Not(And(z3.ULE(bv64(sg.lo),o),z3.ULE(o,bv64(sg.hi-nb)))),timeout=2000)==z3.unsat:
                    s.segmemo[key]=(o,i); return i
            s.segmemo[key]=(o,order[0])
            return order[0]
    segmemo={}
    def access_ok(s,r,sg,off,nb,g,what,loc):
        if s.pure or s.dry: return
        hi=sg.hi
        if hi is not None:
            c=And(z3.ULE(bv64(sg.lo),off),z3.ULE(off,bv64(hi-nb))) if hi-nb>=0 else FALSE
        else:
            c=And(z3.ULE(off,r.size-bv64(nb)),z3.ULE(bv64(nb),r.size))
        s.oblige(f"{what} within {r.name.split('@')[0]}",g,c,'safety',loc)
        if sg.kind=='arr' and sg.e>1:
            low=simp(z3.Extract(log2(sg.e)-1,0,off))
            if not (isc(low) and cval(low)==0): s.oblige(f"{what} aligned in {r.name.split('@')[0]}",g,low==0,'safety',loc)
    def load1(s,mem,r,off,t,g,loc,what='read'):
        if s.loadhook: s.loadhook(r,off,t,g)
        nb=t.size
        if r is NULLR:
            s.oblige('null read',g,FALSE,'safety',loc); return s.havoc_ty(t,'nullrd')
        if r.fn is not None: raise Unsupported('load from function')
        if not r.segs:
            s.oblige('read from empty object',g,FALSE,'safety',loc); return s.havoc_ty(t,'emptyrd')
        off=simp(off)
        i=s.pick_seg(r,off,nb,g)
        if i is None:
            s.oblige(f'{what} within {r.name}',g,FALSE,'safety',loc); return s.havoc_ty(t,'oob')
        sg=r.segs[i]; cont=s.mget(mem,r)[i]
        s.access_ok(r,sg,off,nb,g,what,loc); s.live(mem,r,g,loc)
        if sg.kind=='cells':
            if isc(off): v=cells_read(cont,cval(off),nb)
            else:
                cand=s.cell_offs(sg,nb,off)
                v=None
                for o in reversed(cand):
                    x=s.asty(cells_read(cont,o,nb),t)
                    v=x if v is None else vite(simp(off==bv64(o)),x,v)
        else: v=s.arr_read(cont,sg.e,off,nb)
        return s.asty(v,t)
    def cell_offs(s,sg,nb,off):
        lim=s.cfg.get('celloffs',96)
        st=nb
        low=simp(z3.Extract(2,0,off))
        # stride: known alignment
        base=sg.lo+((-sg.lo)%st)
        c=[o for o in range(sg.lo,sg.hi-nb+1) if (o%st)==0]
        if len(c)>lim: raise Unsupported(f'symbolic offset into {sg.hi-sg.lo}-byte cells')
        return c
    def asty(s,v,t):
        if t.k=='ptr': return toptr(v) if not isinstance(v,Ptr) else v
        if isinstance(v,Ptr): v=ptrint(v)
        if t.k=='int' and t.w==1: return tob(z3.Extract(0,0,v)) if not z3.is_bool(v) else v
        if t.k=='int' and not z3.is_bool(v) and t.w<v.size(): return simp(z3.Extract(t.w-1,0,v))
        return v
    def arr_read(s,cont,e,off,nb):
        sh=log2(e)
        idx=simp(z3.Extract(63,sh,off)) if sh else off
        if nb==e: return nread(cont,idx)
        if nb>e:
            n=nb//e
            return simp(z3.Concat(*[nread(cont,simp(idx+k)) for k in reversed(range(n))]))
        el=nread(cont,idx); low=z3.Extract(sh-1,0,off)
        low=simp(z3.ZeroExt(8*e-sh,low))
        return simp(z3.Extract(8*nb-1,0,z3.LShR(el,low*8)))
    def arr_write(s,cont,e,off,nb,v):
        sh=log2(e)
        idx=simp(z3.Extract(63,sh,off)) if sh else off
        if nb==e: return Node('store',8*e,cont,idx,v)
        if nb>e:
            for k in range(nb//e): cont=Node('store',8*e,cont,simp(idx+k),simp(z3.Extract(8*e*(k+1)-1,8*e*k,v)))
            return cont
        el=nread(cont,idx); low=simp(z3.ZeroExt(8*e-sh,z3.Extract(sh-1,0,off)))*8
        m=BV((1<<(8*nb))-1,8*e)<<low
        nv=simp((el & ~m)|((z3.ZeroExt(8*e-8*nb,v)<<low)&m))
        return Node('store',8*e,cont,idx,nv)
    def load(s,mem,p,t,g,loc,what='read'):
        p=toptr(p); res=None
        if t.k=='struct' or t.k=='array': raise Unsupported('aggregate load')
        for r,(c,o) in p.alts.items():
            gg=And(g,c)
            if z3.is_false(gg): continue
            v=s.load1(mem,r,o,t,gg,loc,what)
            res=v if res is None else vite(c,v,res)
        return res
    def store(s,mem,p,v,t,g,loc):
        p=toptr(p); nb=t.size
        if t.k=='int' and z3.is_bool(v): v=tobv(v,8)
        elif t.k=='int' and v.__class__ is not Ptr and v.size()<8*nb: v=simp(z3.ZeroExt(8*nb-v.size(),v))
        one=len(p.alts)==1
        for r,(c,o) in p.alts.items():
            gg=And(g,c)
            if r is NULLR or r.const:
                s.oblige('null write' if r is NULLR else f'write to constant {r.name}',gg,FALSE,'safety',loc); continue
            o=simp(o)
            i=s.pick_seg(r,o,nb,gg)
            if i is None:
                s.oblige(f'write within {r.name}',gg,FALSE,'safety',loc); continue
            sg=r.segs[i]; cs=s.mget(mem,r); cont=cs[i]
            s.access_ok(r,sg,o,nb,gg,'write',loc); s.live(mem,r,gg,loc)
            if sg.kind=='cells':
                if isc(o):
                    nv=v if one else vite(c,v,s.asty(cells_read(cont,cval(o),nb),t if t.k=='ptr' else t))
                    nc=cells_write(cont,cval(o),nb,nv)
                else:
                    nc=cont
                    for oo in s.cell_offs(sg,nb,o):
                        old=s.asty(cells_read(cont,oo,nb),t)
                        nc=cells_write(nc,oo,nb,vite(And(c,simp(o==bv64(oo))),v,old))
            else:
                vv=tobv(v,8*nb)
                if not one:
                    nc=Node('ite',8*sg.e,c,s.arr_write(cont,sg.e,o,nb,vv),cont)
                else: nc=s.arr_write(cont,sg.e,o,nb,vv)
            mem[r]=cs[:i]+(nc,)+cs[i+1:]
    # ---------- GEP
    def do_gep(s,inst,ev):
        p=toptr(ev(getOp(inst,0))); t=s.mod.ty(gepTy(inst)); n=numOps(inst)
        off=bv64(0)
        for k in range(1,n):
            iv=ev(getOp(inst,k))
            iv=tobv(iv,64)
            if iv.size()<64: iv=z3.SignExt(64-iv.size(),iv)
            elif iv.size()>64: iv=z3.Extract(63,0,iv)
            if k==1: off=off+iv*bv64(t.size)
            elif t.k=='struct':
                j=cval(simp(iv)); off=off+bv64(t.offs[j]); t=t.elems[j]
            else:
                t=t.elems[0]; off=off+iv*bv64(t.size)
        off=simp(off)
        if isc(off) and cval(off)==0: return p
        return Ptr({r:(c,simp(o+off)) for r,(c,o) in p.alts.items()})
    def icmp(s,pred,a,b):
        pa=isinstance(a,Ptr); pb=isinstance(b,Ptr)
        if pa or pb:
            if pred in('eq','ne'):
                e=veq(a,b)
                # an int compared with a pointer, provenance-free
                return e if pred=='eq' else Not(e)
            a=toptr(a); b=toptr(b)
            sa=a.single(); sb=b.single()
            if sa and sb and sa[0] is sb[0]: a,b=sa[1],sb[1]   # same object: compare offsets (signed-safe for base-1)
            else:
                # per shared region compare offsets, otherwise unspecified
                res=freshb('ptrcmp')
                for r,(ca,oa) in a.alts.items():
                    if r in b.alts:
                        cb,ob=b.alts[r]; res=Ite(And(ca,cb),s.icmp2(s.ptrpred(pred),oa,ob),res)
                return res
            return s.icmp2(s.ptrpred(pred),a,b)
        if z3.is_bool(a) or z3.is_bool(b):
            a=tob(a); b=tob(b)
            if pred=='eq': return simp(a==b)
            if pred=='ne': return simp(z3.Xor(a,b))
            a=tobv(a,1); b=tobv(b,1)
        return s.icmp2(pred,a,b)
    def ptrpred(s,p): return {'ugt':'sgt','uge':'sge','ult':'slt','ule':'sle'}.get(p,p)
    def icmp2(s,pred,a,b):
        f={'eq':lambda:a==b,'ne':lambda:a!=b,'ugt':lambda:z3.UGT(a,b),'uge':lambda:z3.UGE(a,b),'ult':lambda:z3.ULT(a,b),'ule':lambda:z3.ULE(a,b),'sgt':lambda:a>b,'sge':lambda:a>=b,'slt':lambda:a<b,'sle':lambda:a<=b}[pred]
        return simp(f())
    # ---------- functions
    def info(s,f):
        if f not in s.fi: s.fi[f]=FnInfo(s.mod,f)
        return s.fi[f]
    def call_fn(s,f,args,g,mem,depth=0):
        """execute a defined function symbolically; returns (value, mem, returned_guard)"""
        fi=s.info(f); env=Env()
        for k in range(params(f)): env.d[param(f,k)]=args[k]
        e=Edge(); e.g=g; e.mem=mem; e.phi={}; e.src=None; e.dst=fi.entry
        rets=[]; allocas=[]
        ctx=dict(fi=fi,rets=rets,depth=depth)
        s.stack.append(fi.name)
        try: s.run_level(ctx,None,[e],env)
        finally: s.stack.pop()
        if not rets: return None,mem,FALSE
        g,mem,val=s.merge_rets(rets)
        return val,mem,g
    def merge_rets(s,rets):
        es=[]
        for (g,mem,v) in rets:
            e=Edge(); e.g=g; e.mem=mem; e.phi={'ret':v} if v is not None else {}; es.append(e)
        g,mem,phi=s.merge(es)
        return g,mem,phi.get('ret')
    def merge(s,edges):
        edges=[e for e in edges if not z3.is_false(e.g)]
        if not edges: return FALSE,{},{}
        if len(edges)==1: return edges[0].g,dict(edges[0].mem),edges[0].phi
        g=Or(*[e.g for e in edges])
        acc=edges[-1]; mem=acc.mem; phi=acc.phi
        mem=dict(mem); phi=dict(phi)
        for e in reversed(edges[:-1]):
            for k in phi: phi[k]=vite(e.g,e.phi[k],phi[k]) if not vsame(e.phi[k],phi[k]) else phi[k]
            for r,c in e.mem.items():
                o=mem.get(r)
                if o is None: mem[r]=c; continue
                if o is c: continue
                mem[r]=tuple(x if x is y else node_merge(e.g,x,y) for x,y in zip(c,o))
        return g,mem,phi
    def run_level(s,ctx,loop,in_edges,env):
        """run one level of the loop nest; returns (back_edges, exit_edges)"""
        fi=ctx['fi']
        pend={}
        start=loop.h if loop else fi.entry
        pend[start]=in_edges
        backs=[]; exits=[]
        blocks=loop.blocks if loop else None
        def dispatch(e):
            if loop and e.dst==loop.h: backs.append(e)
            elif blocks is not None and e.dst not in blocks: exits.append(e)
            else: pend.setdefault(e.dst,[]).append(e)
        first=True
        for b in fi.rpo:
            if blocks is not None and b not in blocks: continue
            il=fi.inner.get(b)
            if il is not loop:
                # in a child loop: process at its header if it is a direct child
                if il is not None and il.h==b:
                    top=il
                    if top.parent is loop:
                        es=pend.pop(b,[])
                        if es:
                            for e in s.do_loop(ctx,top,es,env): dispatch(e)
                continue
            es=pend.pop(b,[])
            if not es: continue
            g,mem,phi=s.merge(es)
            if z3.is_false(g): continue
            for k,v in phi.items(): env.d[k]=v
            s.run_block(ctx,b,g,mem,env,dispatch)
        return backs,exits
    def mkedges(s,fi,b,dst,g,mem,env,dispatch):
        if z3.is_false(g): return
        e=Edge(); e.g=g; e.mem=mem; e.src=b; e.dst=dst; e.phi={}
        for ph in fi.phis[dst]:
            for k in range(nInc(ph)):
                if incB(ph,k)==b: e.phi[ph]=s.val(incV(ph,k),env); break
        dispatch(e)
    def val(s,v,env):
        r=env.get(v)
        if r is not None: return r
        k=VK.get(valKind(v))
        if k in('instr','arg'): raise Unsupported('unbound value '+pv(v))
        return s.const(v)
    def run_block(s,ctx,b,g,mem,env,dispatch):
        fi=ctx['fi']
        for i in fi.ins[b]:
            op=opcode(i)
            if op==44: continue
            o=OPC.get(op,str(op))
            if o=='br':
                if isCond(i):
                    c=tob(s.val(cond(i),env))
                    t,f=succ(i,0),succ(i,1)
                    if t==f: s.mkedges(fi,b,t,g,mem,env,dispatch)
                    else:
                        g1=And(g,c); g2=And(g,Not(c))
                        if s.infeasible(g1): g1=FALSE; g2=g
                        elif s.infeasible(g2): g2=FALSE; g1=g
                        s.mkedges(fi,b,t,g1,dict(mem),env,dispatch)
                        s.mkedges(fi,b,f,g2,mem,env,dispatch)
                else: s.mkedges(fi,b,succ(i,0),g,mem,env,dispatch)
                return
            if o=='switch':
                v=s.val(getOp(i,0),env); n=numOps(i)//2
                default=succ(i,0); taken=[]; by={}
                for k in range(1,n):
                    cv=s.const(getOp(i,2*k)); d=succ(i,k)
                    c=simp(v==cv); taken.append(c); by.setdefault(d,[]).append(c)
                by.setdefault(default,[]).append(Not(Or(*taken)))
                for d,cs in by.items(): s.mkedges(fi,b,d,And(g,Or(*cs)),dict(mem),env,dispatch)
                return
            if o=='ret':
                v=s.val(getOp(i,0),env) if numOps(i) else None
                ctx['rets'].append((g,mem,v)); return
            if o=='unreachable':
                return
            try:
                r=s.inst(ctx,i,o,g,mem,env)
            except Unsupported as ex:
                if s.pure or s.cfg.get('strict_unsupported'): raise
                s.oblige('unsupported: '+str(ex),g,FALSE,'unsupported')
                t=s.mod.ty(typeOf(i))
                r=None if t.k=='void' else s.havoc_ty(t,'unsup')
            if isinstance(r,tuple) and len(r)==2 and r[0]=='guard':   # callee does not always return
                g=And(g,r[1][1]); r=r[1][0]
                if z3.is_false(g): return
            if r is not None: env.d[i]=r
    def inst(s,ctx,i,o,g,mem,env):
        V=lambda k: s.val(getOp(i,k),env)
        t=s.mod.ty(typeOf(i))
        if o in('add','sub','mul','and','or','xor','shl','lshr','ashr','udiv','sdiv','urem','srem'):
            a=V(0); b=V(1)
            if t.k=='vec': raise Unsupported('vector')
            if t.w==1:
                a=tob(a); b=tob(b)
                if o=='and': return simp(And(a,b))
                if o=='or': return simp(Or(a,b))
                if o in('xor','add','sub'): return simp(z3.Xor(a,b))
                if o=='mul': return simp(And(a,b))
                raise Unsupported('i1 '+o)
            a=tobv(a,t.w); b=tobv(b,t.w)
            f={'add':lambda:a+b,'sub':lambda:a-b,'mul':lambda:a*b,'and':lambda:a&b,'or':lambda:a|b,'xor':lambda:a^b,'shl':lambda:a<<b,'lshr':lambda:z3.LShR(a,b),'ashr':lambda:a>>b,'udiv':lambda:z3.UDiv(a,b),'sdiv':lambda:a/b,'urem':lambda:z3.URem(a,b),'srem':lambda:z3.SRem(a,b)}[o]
            if o in('udiv','sdiv','urem','srem'): s.oblige('division by zero',g,b!=0,'safety')
            return simp(f())
        if o=='icmp': return s.icmp(PRED[icmpPred(i)],V(0),V(1))
        if o=='gep': return s.do_gep(i,lambda v:s.val(v,env))
        if o=='load': return s.load(mem,V(0),t,g,i)
        if o=='store':
            vt=s.mod.ty(typeOf(getOp(i,0)))
            v=V(0)
            if isinstance(v,Agg): s.store_agg(mem,V(1),v,vt,g,i); return None
            s.store(mem,V(1),v,vt,g,i); return None
        if o in('zext','sext','trunc'):
            a=V(0)
            if z3.is_bool(a) if not isinstance(a,Ptr) else False:
                if o=='zext': return simp(z3.If(a,BV(1,t.w),BV(0,t.w)))
                if o=='sext': return simp(z3.If(a,BV(-1,t.w),BV(0,t.w)))
            a=tobv(a,64)
            if o=='zext': return simp(z3.ZeroExt(t.w-a.size(),a))
            if o=='sext': return simp(z3.SignExt(t.w-a.size(),a))
            r=simp(z3.Extract(t.w-1,0,a))
            return simp(r==BV(1,1)) if t.w==1 else r
        if o=='select':
            c=V(0)
            return vite(tob(c),V(1),V(2))
        if o=='ptrtoint':
            v=ptrint(V(0))
            return v if t.w==64 else simp(z3.Extract(t.w-1,0,v))
        if o=='inttoptr': return toptr(tobv(V(0),64))
        if o in('bitcast','freeze','addrspacecast'):
            return V(0)
        if o=='alloca':
            at=s.mod.ty(allocTy(i)); n=V(0)
            if not (isc(simp(n)) and cval(simp(n))==1): raise Unsupported('vla')
            r,c=s.mk_typed(f"L_{vname(i) or 'tmp'}",at)
            mem[r]=c
            return Ptr.mk(r)
        if o=='extractvalue':
            v=V(0)
            ix=idxs(i)
            for k in range(nIdx(i)): v=v.e[ix[k]]
            return v
        if o=='insertvalue':
            v=V(0); x=V(1); ix=idxs(i); path=[ix[k] for k in range(nIdx(i))]
            def upd(a,p):
                e=list(a.e)
                e[p[0]]=x if len(p)==1 else upd(e[p[0]],p[1:])
                return Agg(e)
            return upd(v,path)
        if o=='call': return s.call(ctx,i,g,mem,env,t)
        if o in('fadd','fsub','fmul','fdiv','fcmp','sitofp','uitofp','fptosi','fptoui','fpext','fptrunc','fneg'):
            a=[tobv(V(k),64) for k in range(numOps(i))]
            nm=o+('_%d'%llvm_fpred(i) if o=='fcmp' else '')
            w=1 if t.w==1 else t.w
            uf=z3.Function(f"FP_{nm}_{'_'.join(str(x.size()) for x in a)}_{w}",*[x.sort() for x in a],z3.BitVecSort(w))
            r=uf(*a)
            return simp(r==BV(1,1)) if t.w==1 else r
        if o=='fence': return None
        raise Unsupported('instruction '+o+' '+pv(i)[:100])
    def store_agg(s,mem,p,v,t,g,loc):
        for k,el in enumerate(t.elems if t.k=='struct' else t.elems*t.n):
            off=t.offs[k] if t.k=='struct' else k*t.elems[0].size
            pp=Ptr({r:(c,simp(o+off)) for r,(c,o) in toptr(p).alts.items()})
            if isinstance(v.e[k],Agg): s.store_agg(mem,pp,v.e[k],el,g,loc)
            else: s.store(mem,pp,v.e[k],el,g,loc)
    def cstr(s,p):
        r,o=toptr(p).single()
        c=s.mget({},r)
        out=b''; k=cval(simp(o))
        while True:
            sg=[i for i,x in enumerate(r.segs) if x.lo<=k<x.hi]
            if not sg: break
            x=r.segs[sg[0]]
            v=cells_read(c[sg[0]],k,1) if x.kind=='cells' else s.arr_read(c[sg[0]],x.e,bv64(k),1)
            v=cval(simp(v))
            if v==0: break
            out+=bytes([v]); k+=1
        return out.decode('utf8','replace')
    # ---------- calls
    def call(s,ctx,i,g,mem,env,t):
        n=nArgs(i)
        cv=calledV(i); A=lambda k: s.val(getOp(i,k),env)
        if VK.get(valKind(cv))=='asm': raise Unsupported('asm')
        if VK.get(valKind(cv))!='function':
            p=toptr(s.val(cv,env))
            alts=[(r,c) for r,(c,o) in p.alts.items()]
            fns=[(r.fn,c) for r,c in alts if r.fn is not None]
            bad=[c for r,c in alts if r.fn is None]
            for c in bad: s.oblige('unsupported: indirect call target',And(g,c),FALSE,'unsupported')
            if not fns: raise Unsupported('indirect call')
            if len(fns)==1: return s.call_named(ctx,i,fns[0][0],[A(k) for k in range(n)],And(g,fns[0][1]) if bad else g,mem,t)
            args=[A(k) for k in range(n)]
            edges=[]
            for f,c in fns:
                m=dict(mem); r=s.call_named(ctx,i,f,args,And(g,c),m,t); gg=And(g,c)
                if isinstance(r,tuple) and len(r)==2 and r[0]=='guard': gg=And(gg,r[1][1]); r=r[1][0]
                e=Edge(); e.g=gg; e.mem=m; e.phi={'r':r} if r is not None else {}; edges.append(e)
            gg,m,ph=s.merge(edges); mem.clear(); mem.update(m)
            return ('guard',(ph.get('r'),gg))
        return s.call_named(ctx,i,cv,[A(k) for k in range(n)],g,mem,t)
    def call_named(s,ctx,i,f,args,g,mem,t):
        nm=vname(f)
        if nm.startswith('llvm.'): return s.intrinsic(nm,args,g,mem,t,i)
        if nm.startswith('dv_'):
            r=s.builtin(nm,args,g,mem,t,i)
            if r is not NotImplemented: return r
        if nm.startswith('spec_'):
            return s.spec_call(f,args,g,mem,record=not s.pure)
        ct=s.cfg.get('contracts',{}).get(nm)
        if ct: return ct(s,args,g,mem,t,i)
        if nm in('strlen','wcslen') and isDecl(f): return s.strlen(args[0],1 if nm=='strlen' else 2,g,mem,t)
        if nm in('memcpy','memmove'): s.memcpy(args[0],args[1],args[2],g,mem,i); return args[0]
        if nm=='memset': s.memset(args[0],args[1],args[2],g,mem,i); return args[0]
        if nm in('malloc','_Znwy','_Znay','_Znwm','_Znam'):
            r,c=s.new_arr('heap',args[0],s.cfg.get('heap_esize',1)); r.heap=True; mem[r]=c
            s.freshaddr(r,g); s.mk_flag(r,mem)
            if nm=='malloc' and s.cfg.get('malloc_fails'):
                b=freshb('oom'); return vite(b,NULL,Ptr.mk(r))
            return Ptr.mk(r)
        if nm.startswith('ghost_'):
            # specification text run in place: reads are total, specification calls in it are recorded
            s.ghost+=1
            try: v,m,gr=s.call_fn(f,args,g,mem,ctx['depth']+1)
            finally: s.ghost-=1
            if t.k!='void' and v is None: v=s.havoc_ty(t)
            return ('guard',(v,gr))
        if nm=='free' or nm.startswith('_ZdlPv') or nm.startswith('_ZdaPv'): s.free(args[0],g,mem,i); return None
        if isDecl(f): raise Unsupported('external '+nm)
        dep=ctx['depth']
        rec=s.stack.count(nm)
        if rec>=1:
            if s.quick(g,timeout=4000)==z3.unsat: return ('guard',(None if t.k=='void' else s.havoc_ty(t),FALSE))
            if rec>s.cfg.get('recursion',3):
                s.oblige(f"recursion of {nm} bounded by {rec}",g,FALSE,'unwind')
                return ('guard',(None if t.k=='void' else s.havoc_ty(t),FALSE))
        if dep>40: raise Unsupported('call depth '+nm)
        v,m,gr=s.call_fn(f,args,g,mem,dep+1)
        mem.clear(); mem.update(m)
        if t.k!='void' and v is None: v=s.havoc_ty(t)
        return ('guard',(v,gr))
    def freshaddr(s,r,g):
        s.fact(TRUE,z3.And(regbase(r)!=0,z3.Extract(3,0,r.base)==0))
    def strlen(s,p,e,g,mem,t):
        """built-in contract of strlen/wcslen: smallest index of a zero element"""
        p=toptr(p); res=None
        for r,(c,o) in p.alts.items():
            gg=And(g,c)
            if r is NULLR: s.oblige('strlen(null)',gg,FALSE,'safety'); continue
            i=s.pick_seg(r,o,e,gg); sg=r.segs[i]; cont=s.mget(mem,r)[i]
            key=('strlen',r,i,cont.id,o.get_id(),e)
            if key in s.apps and (sg.kind=='cells' or z3.is_true(s.apps[key][2]) or same(s.apps[key][2],gg)): L=s.apps[key][0]
            elif sg.kind=='cells' and not isc(simp(o)): raise Unsupported('strlen in cells')
            elif sg.kind=='cells':
                L=None
                hi=sg.hi-sg.lo
                st=cval(simp(o))
                L=bv64((sg.hi-st)//e)
                for k in range((sg.hi-st)//e-1,-1,-1):
                    L=Ite(simp(cells_read(cont,st+k*e,e)==0),bv64(k),L)
                s.oblige('strlen terminator',gg,simp(L!=bv64((sg.hi-st)//e)),'safety')
                s.apps[key]=(L,o,TRUE,0)
            else:
                L=s.apps[key][0] if key in s.apps else fresh('strlen',64)
                rd=lambda k: s.arr_read(cont,sg.e,simp(o+k*e),e)
                # termination/bounds: some zero exists in bounds.  Witness: user marks or region end.
                hi=r.size if sg.hi is None else bv64(sg.hi)
                wit=[x for (rr,x) in s.usermark if rr is r]
                wits=[And(z3.ULE(o,x),z3.ULT(x,hi),simp(s.arr_read(cont,sg.e,x,e)==0)) for x in wit]
                last=simp(hi-e)
                wits.append(And(z3.ULE(o,last),simp(s.arr_read(cont,sg.e,last,e)==0)))
                for k in range(2): wits.append(And(z3.ULE(simp(o+k*e),last),simp(rd(bv64(k))==0)))
                s.oblige(f"strlen stays within {r.name.split('@')[0]}",gg,Or(*wits),'safety')
                s.fact(gg,And(z3.ULT(L,bv64(1<<62)),simp(rd(L)==0),z3.ULE(o+L*e,last)))
                s.apps[key]=(L,o,gg if not s.dry else FALSE,len(s.facts))
                s.fact(gg,z3.Implies(L!=bv64(0),simp(rd(bv64(0))!=0)))
                # two lengths in the same content: the one that starts inside the other ends where it ends
                for (rr,sg2,c2,o2,e2,L2,g2) in s.strl:
                    if rr is r and e2==e and c2.id==cont.id and not same(L,L2):
                        al=simp(z3.URem(o-o2,bv64(e))==0) if e>1 else TRUE
                        s.fact(And(gg,g2),z3.Implies(And(al,z3.ULE(o2,o),z3.ULE(o,o2+L2*e)),o+L*e==o2+L2*e))
                        s.fact(And(gg,g2),z3.Implies(And(al,z3.ULE(o,o2),z3.ULE(o2,o+L*e)),o+L*e==o2+L2*e))
                # two lengths over different contents of one object: neither text has a zero before its end
                for (rr,sg2,c2,o2,e2,L2,g2) in s.strl:
                    if rr is r and e2==e and c2.id!=cont.id and not same(L,L2):
                        x=simp(o+L*e); x2=simp(o2+L2*e)
                        s.fact(And(gg,g2),z3.Implies(And(z3.ULE(o2,x),z3.ULT(x,x2),simp(z3.URem(x-o2,bv64(e))==0) if e>1 else TRUE),simp(s.arr_read(c2,sg.e,x,e)!=0)))
                        s.fact(And(gg,g2),z3.Implies(And(z3.ULE(o,x2),z3.ULT(x2,x),simp(z3.URem(x2-o,bv64(e))==0) if e>1 else TRUE),simp(s.arr_read(cont,sg.e,x2,e)!=0)))
                s.strl.append((r,sg,cont,o,e,L,gg))
                # nothing before L is zero: instantiated at tracked indexes (marks and later reads)
                for x in wit+[y for (rr,y) in s.trackidx if rr is r]:
                    s.fact(gg,z3.Implies(And(z3.ULE(o,x),z3.ULT(x,simp(o+L*e))),simp(s.arr_read(cont,sg.e,x,e)!=0)))
            v=L if t.w==64 else z3.Extract(31,0,L)
            res=v if res is None else vite(c,v,res)
        return res if res is not None else fresh('strlen',64)
    def memcpy(s,d,sr,n,g,mem,loc):
        n=tobv(n,64)
        if n.size()<64: n=z3.ZeroExt(64-n.size(),n)
        n=simp(n); d=toptr(d); sr=toptr(sr)
        if isc(n) and cval(n)==0: return
        ds=d.single(); ss=sr.single()
        if ss is None or ds is None:
            # split on alternatives
            edges=[]
            for r1,(c1,o1) in d.alts.items():
                for r2,(c2,o2) in sr.alts.items():
                    gg=And(g,c1,c2)
                    if z3.is_false(gg): continue
                    m=dict(mem); s.memcpy(Ptr.mk(r1,o1),Ptr.mk(r2,o2),n,gg,m,loc)
                    e=Edge(); e.g=And(c1,c2); e.mem=m; e.phi={}; edges.append(e)
            _,m,_=s.merge(edges); mem.clear(); mem.update(m); return
        (rd,od),(rs,os)=ds,ss
        nz=simp(n!=0)
        if rd is NULLR or rs is NULLR:
            s.oblige('memcpy null',And(g,nz),FALSE,'safety',loc); return
        od=simp(od); os=simp(os)
        i=s.pick_seg(rd,od,1,g); j=s.pick_seg(rs,os,1,g)
        sd=rd.segs[i]; sg=rs.segs[j]; s.live(mem,rd,And(g,nz),loc); s.live(mem,rs,And(g,nz),loc)
        for (r,x,o,w) in((rd,sd,od,'write'),(rs,sg,os,'read')):
            hi=r.size if x.hi is None else bv64(x.hi)
            s.oblige(f"memcpy {w} within {r.name.split('@')[0]}",And(g,nz),And(z3.ULE(bv64(x.lo),o),z3.ULE(o,hi),z3.ULE(n,hi-o)),'safety',loc) if not(isc(n) and len(r.segs)>1) else None
        if rd.const: s.oblige('write to constant',g,FALSE,'safety',loc); return
        cd=s.mget(mem,rd); cs=s.mget(mem,rs)
        if isc(n) and isc(od) and isc(os) and (sd.kind=='cells' or sg.kind=='cells' ):
            # structural copy, by cells
            k=0; N=cval(n); src=cval(os); dst=cval(od)
            vals=[]
            while k<N:
                jj=s.pick_seg(rs,bv64(src+k),1,g); x=rs.segs[jj]; cont=cs[jj]
                if x.kind=='cells':
                    w=1; c=cont
                    v=None
                    for o_,nb_ in s.cell_extents(cont,src+k,N-k):
                        w=nb_; break
                    vals.append((k,w,cells_read(cont,src+k,w))); k+=w
                else:
                    w=x.e; vals.append((k,w,s.arr_read(cont,x.e,bv64(src+k),w))); k+=w
            for k,w,v in vals:
                ii=s.pick_seg(rd,bv64(dst+k),w,g); x=rd.segs[ii]; cd=s.mget(mem,rd)
                if x.kind=='cells': nc=cells_write(cd[ii],dst+k,w,v)
                else: nc=s.arr_write(cd[ii],x.e,bv64(dst+k),w,tobv(v,8*w))
                mem[rd]=cd[:ii]+(nc,)+cd[ii+1:]
            return
        if sd.kind=='arr' and sg.kind=='arr' and sd.e==sg.e:
            sh=log2(sd.e); X=lambda t: simp(z3.Extract(63,sh,t)) if sh else t
            if sh and not (isc(n)):
                low=simp(z3.Extract(sh-1,0,n))
                if not(isc(low) and cval(low)==0): s.oblige('memcpy length aligned',g,low==0,'safety',loc)
            nc=Node('copy',8*sd.e,cd[i],X(od),X(n),cs[j],X(os))
            mem[rd]=cd[:i]+(nc,)+cd[i+1:]
            return
        if isc(n) and cval(n)<=64:
            w=1
            for k in range(0,cval(n),w):
                v=s.load(mem if False else {**mem,rs:cs},Ptr.mk(rs,simp(os+k)),s.i8(),g,loc)
                s.store(mem,Ptr.mk(rd,simp(od+k)),v,s.i8(),g,loc)
            return
        raise Unsupported(f'memcpy {rd}.{sd.kind}{sd.e} <- {rs}.{sg.kind}{sg.e}')
    def cell_extents(s,cont,off,lim):
        while isinstance(cont,CIte): cont=cont.a
        if isinstance(cont,Cells):
            e=cont.d.get(off)
            if e and e[0]<=lim: return [(off,e[0])]
            # inside another cell or gap: copy up to next known boundary
            nxt=min([o for o in cont.d if o>off]+[off+lim])
            inside=[o for o,e in cont.d.items() if o<off<o+e[0]]
            if inside: return [(off,1)]
            if isinstance(cont.parent,(Cells,CIte)):
                return [(off,1)]
            w=min(8,nxt-off)
            while off%w: w-=1
            return [(off,max(1,w))]
        return [(off,8 if off%8==0 and lim>=8 else 1)]
    _i8=None
    def i8(s):
        if s._i8 is None:
            t=Ty(); t.k='int'; t.w=8; t.size=1; t.elems=None; t.n=None; t.offs=None; t.p=None; s._i8=t
        return s._i8
    def ity(s,w):
        t=Ty(); t.k='int'; t.w=w; t.size=max(1,w//8); t.elems=None; t.n=None; t.offs=None; t.p=None; return t
    def memset(s,d,v,n,g,mem,loc):
        n=tobv(n,64)
        if n.size()<64: n=z3.ZeroExt(64-n.size(),n)
        n=simp(n); d=toptr(d)
        if isc(n) and cval(n)==0: return
        v=simp(z3.Extract(7,0,tobv(v,8)))
        ds=d.single()
        if ds is None:
            edges=[]
            for r,(c,o) in d.alts.items():
                m=dict(mem); s.memset(Ptr.mk(r,o),v,n,And(g,c),m,loc)
                e=Edge(); e.g=c; e.mem=m; e.phi={}; edges.append(e)
            _,m,_=s.merge(edges); mem.clear(); mem.update(m); return
        r,o=ds; o=simp(o)
        if r is NULLR: s.oblige('memset null',And(g,n!=0),FALSE,'safety',loc); return
        if isc(n) and isc(o):
            k=cval(o); end=k+cval(n)
            while k<end:
                i=s.pick_seg(r,bv64(k),1,g)
                if i is None: s.oblige('memset bounds',g,FALSE,'safety',loc); return
                sg=r.segs[i]; c=s.mget(mem,r)
                if sg.kind=='cells':
                    w=8 if k%8==0 and k+8<=min(end,sg.hi) else 4 if k%4==0 and k+4<=min(end,sg.hi) else 1
                    nc=cells_write(c[i],k,w,simp(z3.Concat(*[v]*w)) if w>1 else v); k2=k+w
                else:
                    hi=min(end,sg.hi if sg.hi is not None else end)
                    if sg.hi is None: s.oblige('memset bounds',g,z3.ULE(bv64(end),r.size),'safety',loc)
                    sh=log2(sg.e)
                    nc=Node('set',8*sg.e,c[i],BV(k>>sh,64-sh),BV((hi-k)>>sh,64-sh),simp(z3.Concat(*[v]*sg.e)) if sg.e>1 else v); k2=hi
                mem[r]=c[:i]+(nc,)+c[i+1:]; k=k2
            return
        i=s.pick_seg(r,o,1,g); sg=r.segs[i]; c=s.mget(mem,r)
        if sg.kind!='arr': raise Unsupported('memset cells')
        hi=r.size if sg.hi is None else bv64(sg.hi)
        s.oblige('memset bounds',And(g,n!=0),And(z3.ULE(o,hi),z3.ULE(n,hi-o)),'safety',loc)
        sh=log2(sg.e); X=lambda t: simp(z3.Extract(63,sh,t)) if sh else t
        nc=Node('set',8*sg.e,c[i],X(o),X(n),simp(z3.Concat(*[v]*sg.e)) if sg.e>1 else v)
        mem[r]=c[:i]+(nc,)+c[i+1:]
    def intrinsic(s,nm,a,g,mem,t,i):
        b=nm.split('.')[1]
        if b in('lifetime','dbg','experimental','invariant','prefetch','donothing','va_start','va_end','sideeffect'): return None
        if b=='assume': return None
        if b in('memcpy','memmove'): s.memcpy(a[0],a[1],a[2],g,mem,i); return None
        if b=='memset': s.memset(a[0],a[1],a[2],g,mem,i); return None
        if b in('expect','threadlocal','launder','strip'): return a[0]
        if b in('umin','umax','smin','smax'):
            x,y=a; f={'umin':z3.ULE,'umax':z3.UGE,'smin':lambda p,q:p<=q,'smax':lambda p,q:p>=q}[b]
            return simp(Ite(f(x,y),x,y))
        if b=='abs': return simp(Ite(a[0]<0,-a[0],a[0]))
        if b in('uadd','usub','umul','sadd','ssub','smul'):
            x,y=a[0],a[1]; w=x.size(); sgn=b[0]=='s'
            ext=(lambda q:z3.SignExt(w,q)) if sgn else (lambda q:z3.ZeroExt(w,q))
            op={'add':lambda p,q:p+q,'sub':lambda p,q:p-q,'mul':lambda p,q:p*q}[b[1:]]
            res=op(x,y); wide=op(ext(x),ext(y)); ov=simp(wide!=ext(res))
            if nm.split('.')[2]=='with': return Agg([simp(res),ov])
            if nm.split('.')[2]=='sat':
                if b=='uadd': return simp(Ite(ov,BV(-1,w),res))
                if b=='usub': return simp(Ite(ov,BV(0,w),res))
        if b in('fshl','fshr'):
            x,y,z=a; w=x.size(); c=z3.Concat(x,y); z=z3.URem(z,BV(w,w)); zz=z3.ZeroExt(w,z)
            return simp(z3.Extract(2*w-1,w,c<<zz)) if b=='fshl' else simp(z3.Extract(w-1,0,z3.LShR(c,zz)))
        if b=='bswap':
            x=a[0]; n=x.size()//8; return simp(z3.Concat(*[z3.Extract(8*k+7,8*k,x) for k in range(n)]))
        if b=='ctpop':
            x=a[0]; w=x.size(); r=BV(0,w)
            for k in range(w): r=r+z3.ZeroExt(w-1,z3.Extract(k,k,x))
            return simp(r)
        if b in('ctlz','cttz'):
            x=a[0]; w=x.size(); r=BV(w,w)
            rng=range(w) if b=='ctlz' else range(w-1,-1,-1)
            for k in rng: r=Ite(simp(z3.Extract(k,k,x)==1),BV(w-1-k if b=='ctlz' else k,w),r)
            return simp(r)
        if b=='trap': s.oblige('trap',g,FALSE,'safety'); return None
        if b=='objectsize': return BV(-1,t.w)
        if b=='is': return FALSE
        if b in('stacksave','stackrestore'): return NULL if t.k=='ptr' else None
        raise Unsupported('intrinsic '+nm)
    def builtin(s,nm,a,g,mem,t,i):
        if nm=='dv_scalar':      # (name, lo, hi) -> u64
            name=s.cstr(a[0]); v=z3.BitVec(f"in_{name}!{next(_cnt)}",64); lo,hi=a[1],a[2]
            if not s.dry: s.inputs.append(('scalar',name,v,g))
            s.fact(TRUE,And(z3.ULE(lo,v),z3.ULE(v,hi)))
            s.terms.append(v)
            return v
        if nm=='dv_region':      # (name, count, esize)
            name=s.cstr(a[0]); n=a[1]; e=cval(simp(a[2])) & 0xff; stride=cval(simp(a[2]))>>8 or e
            size=simp(n*bv64(stride))
            r,c=s.new_arr(name,size,e); mem[r]=c; r.user=name
            s.freshaddr(r,g)
            if not s.dry: s.inputs.append(('region',name,(r,c[0],e,size),g))
            s.terms.append(size)
            return Ptr.mk(r)
        if nm=='dv_assume':
            c=a[0]; c=tob(c) if not z3.is_bool(c) else c
            s.fact(g,c); return None
        if nm=='dv_assert':
            s.oblige(s.cstr(a[1]),g,tob(a[0]),'assert',i); return None
        if nm=='dv_reach':
            if not s.dry: s.reach.append((s.cstr(a[0]),g,len(s.facts)))
            return None
        if nm=='dv_mark':       # tell strlen that a zero sits here
            r,o=toptr(a[0]).single(); s.usermark.append((r,o)); return None
        if nm=='dv_track':      # index of interest for strlen instantiation
            r,o=toptr(a[0]).single(); s.trackidx.append((r,o))
            for (rr,sg,cont,o0,e,L,gg) in s.strl:
                if rr is r: s.fact(gg,z3.Implies(And(z3.ULE(o0,o),z3.ULT(o,simp(o0+L*e))),simp(s.arr_read(cont,sg.e,o,e)!=0)))
            return None
        if nm=='dv_watch':
            p=toptr(a[0]).single(); s.watches.append((p[0],p[1],cval(simp(a[1])))); return None
        if nm=='dv_alphabet': return None
        if nm=='dv_havoc8': return fresh('hv',8)
        if nm=='dv_havoc64': return fresh('hv',64)
        if nm=='dv_obj_size':
            r,o=toptr(a[0]).single(); return simp(r.size-o)
        if nm=='dv_same_object':
            x=toptr(a[0]); y=toptr(a[1])
            out=[And(x.alts[r][0],y.alts[r][0]) for r in x.alts if r in y.alts]
            return Or(*out) if out else FALSE
        if nm=='dv_cut': s.fact(g,FALSE); return None
        if nm=='dv_heap_region':      # (name, count, esize, owned)
            name=s.cstr(a[0]); n=a[1]; e=cval(simp(a[2])); size=simp(n*bv64(e))
            r,c=s.new_arr(name,size,e); mem[r]=c; r.user=name; s.freshaddr(r,g)
            s.mk_flag(r,mem,vite(tob(a[3]),BV(0,8),BV(2,8)))
            if not s.dry: s.inputs.append(('region',name,(r,c[0],e,size),g))
            s.terms.append(size)
            return Ptr.mk(r)
        if nm=='dv_term': s.terms.append(simp(a[0])); return None
        if nm=='dv_invariant':
            f0=a[0].single()[0].fn; ua=[]
            for k,x in enumerate(a[1:]):      # variadic arguments were promoted
                pt=s.mod.ty(typeOf(param(f0,k)))
                ua.append(x if isinstance(x,Ptr) or z3.is_bool(x) else simp(z3.Extract(pt.w-1,0,x)) if x.size()>pt.w else x)
            s.userinv.append((f0,ua)); return None
        if nm=='dv_watchk': s.watchk.append(a[0]); return None
        if nm=='dv_undef_region':
            name=s.cstr(a[0]); n=a[1]; e=cval(simp(a[2]))
            r,c=s.new_arr(name,simp(n*bv64(e)),e); mem[r]=c; s.freshaddr(r,g)
            return Ptr.mk(r)
        if nm=='dv_prove_mode': return BV(1,32)
        return NotImplemented
    # ---------- spec functions
    def spec_sig(s,f):
        """which parameters vary through recursion"""
        if f in s.specsig: return s.specsig[f]
        n=params(f); var=[False]*n; fi=s.info(f); rec=False
        for b in fi.rpo:
            for i in fi.ins[b]:
                if opcode(i)==45 and calledV(i)==f:
                    rec=True
                    for k in range(n):
                        if getOp(i,k)!=param(f,k): var[k]=True
        if not rec:
            # not recursive: a parameter is fixed if it is only handed on to fixed positions
            for b in fi.rpo:
                for i in fi.ins[b]:
                    sub=s.spec_sig(calledV(i)) if opcode(i)==45 and vname(calledV(i)).startswith('spec_') else None
                    for j in range(numOps(i)):
                        o=getOp(i,j)
                        for k in range(n):
                            if o==param(f,k) and not (sub is not None and j<len(sub) and not sub[j]): var[k]=True
        s.specsig[f]=var
        return var
    def spec_call(s,f,args,g,mem,record=False,depth=None,raw=False):
        args=list(args)
        # split pointer alternatives
        for k,a in enumerate(args):
            if isinstance(a,Ptr) and len(a.alts)>1:
                res=None
                for r,(c,o) in a.alts.items():
                    aa=list(args); aa[k]=Ptr.mk(r,o)
                    v=s.spec_call(f,aa,g,mem,record=False,depth=depth)
                    res=v if res is None else vite(c,v,res)
                return res
        regs=[]; sc=[]
        for a in args:
            if isinstance(a,Ptr):
                r,o=a.single(); regs.append(r); sc.append(simp(o))
            else: sc.append(simp(tobv(a,1)) if z3.is_bool(a) else simp(a))
        mk=[]
        for r in regs:
            if r is NULLR or r.fn is not None: mk.append(('x',r.name)); continue
            mk.append((r.name,)+tuple(c.id for c in s.mget(mem,r)))
        key=(vname(f),tuple(mk))
        ent=s.specuf.get(key)
        t=s.mod.ty(retTy(fnTy(f)))
        w=1 if t.w==1 else t.w
        if ent is None:
            uf=z3.Function(f"{vname(f)}#{len(s.specuf)}",*[x.sort() for x in sc],z3.BitVecSort(w)) if sc else None
            s.specuf[key]=ent=(uf,dict(mem))
        uf,m0=ent
        r=uf(*sc) if sc else z3.BitVec(f"{vname(f)}#{len(s.specuf)}",w)
        rk=r.get_id()
        ent=s.apps.get(rk)
        if ent is None:
            s.apps[rk]=ent=[r,f,[Ptr.mk(x,o) if False else a for x,a,o in zip([None]*len(args),args,sc)],m0,0]
        if not s.dry and rk not in s.lawdone:
            s.lawdone[rk]=len(s.facts)
            if vname(f).startswith(('spec_m_','spec_d_')): s.monotone_check(f); s.frame_facts(f,args,m0,r)
            lw=s.mod.fn('law_'+vname(f)[5:])
            if lw: s.law_check(f,lw); s.facts.append(s.law_term(lw,args,r,t,m0))
        if depth is None: depth=s.specdepth
        if not s.dry: s.unfold(ent,depth)
        if record and not s.dry and not vname(f).startswith(s.cfg.get('norecord',('spec_o_','spec_u_','spec_strchr','spec_wcschr','spec_strrchr'))): s.recorded.append((f,args,r,t,dict(mem)))
        return r if raw else simp(r==BV(1,1)) if t.w==1 else r
    specuf={}
    def unfold(s,ent,d):
        r,f,args,m,done=ent[:5]
        if d<=done or vname(f).startswith('spec_u_') or (vname(f).startswith('spec_o_') and not (s.cfg.get('open') is True or vname(f) in (s.cfg.get('open') or ()))): return
        ent[4]=d
        if done>0:
            for ch in ent[5]: s.unfold(ch,d-1)
            return
        s.pure+=1
        sub0=s.subapps; s.subapps=[]
        v,_,gr=s.call_fn_spec(f,args,m)
        sub=s.subapps; s.subapps=sub0
        s.pure-=1
        ent.append(sub)
        v=tobv(v,1) if z3.is_bool(v) else v
        s.facts.append(r==v)
        for ch in sub: s.unfold(ch,d-1)
    subapps=[]; ghost=0; loadhook=None
    def monotone_check(s,f):
        """spec_m_f(s, i, ..) reads s only at or behind index i: checked once per function"""
        if f in s.monock: return
        s.monock.add(f); nm=vname(f); desc=nm.startswith('spec_d_'); ps=[s.mod.ty(typeOf(param(f,k))) for k in range(params(f))]
        e=s.mono_esize(f); B=bv64(1<<40); obs=[]; regs=[]; args=[]
        for k,t in enumerate(ps):
            if t.k=='ptr':
                r,c=s.new_arr(f'mono{k}',B*16,e if k==0 else 1); regs.append((r,c)); args.append(Ptr.mk(r))
            else: args.append(z3.BitVec(f'mono_{nm}_{k}',t.w) if t.w>1 else z3.Bool(f'mono_{nm}_{k}'))
        todo=[]; r0=regs[0][0]; i=args[1]; pre=z3.ULT(i,B)
        def hook(r,off,t,g):
            if r is r0: obs.append(And(pre,g,z3.Not(z3.And(z3.UGE(off,i*e),z3.ULT(off,B*8)) if not desc else z3.ULT(off,i*e))))
        def cn(ctx,ii,ff,a,g,mem,t):
            if vname(ff).startswith(nm[:7]) and isinstance(a[0],Ptr) and r0 in a[0].alts:
                if ff!=f: todo.append(ff)
                p=a[0].single()
                ok=z3.And(p[1]==0,z3.UGE(a[1],i) if not desc else z3.ULE(a[1],i),z3.ULT(a[1],B+64)) if p and p[0] is r0 else FALSE
                obs.append(And(pre,g,z3.Not(ok)))
                tt=s.mod.ty(retTy(fnTy(ff))); v=z3.BitVec(f'mono_r{next(_cnt)}',max(tt.w,1)); return v==BV(1,1) if tt.w==1 else v
            if any(isinstance(x,Ptr) and r0 in x.alts for x in a): obs.append(g)
            return old(ctx,ii,ff,a,g,mem,t)
        old=s.call_named; s.call_named=cn; s.loadhook=hook; s.pure+=1
        try:
            fi=s.info(f); env=Env()
            for k in range(len(ps)): env.d[param(f,k)]=args[k]
            ed=Edge(); ed.g=TRUE; ed.mem={r:c for r,c in regs}; ed.phi={}; ed.src=None; ed.dst=fi.entry; rets=[]
            s.run_level(dict(fi=fi,rets=rets,depth=0),None,[ed],env)
        finally: s.call_named=old; s.loadhook=None; s.pure-=1
        o=Obl(); o.label=f'frame: {nm} reads only '+('below its index' if desc else 'from its index on'); o.g=TRUE; o.c=Not(Or(*obs)) if obs else TRUE; o.nf=0; o.kind='assert'; o.loc=None
        s.obls.append(o)
        for ff in todo: s.monotone_check(ff)
    def law_term(s,lw,args,r,t,mem):
        """law_f(args of spec_f, its value): a consequence of the definition, by induction on the recursion"""
        fi=s.info(lw); env=Env(); a=list(args)+[simp(r==BV(1,1)) if t.w==1 and not z3.is_bool(r) else r]
        for k in range(params(lw)): env.d[param(lw,k)]=a[k]
        ed=Edge(); ed.g=TRUE; ed.mem=dict(mem); ed.phi={}; ed.src=None; ed.dst=fi.entry; rets=[]
        s.pure+=1
        try: s.run_level(dict(fi=fi,rets=rets,depth=0),None,[ed],env)
        finally: s.pure-=1
        g,m,v=s.merge_rets(rets)
        return tob(v)
    def law_check(s,f,lw):
        if f in s.lawck: return
        s.lawck.add(f); nm=vname(f); ps=[s.mod.ty(typeOf(param(f,k))) for k in range(params(f))]
        B=bv64(1<<44); regs=[]; args=[]; hyp=[]
        for k,t in enumerate(ps):
            if t.k=='ptr':
                e=s.mono_esize2(f,k); r,c=s.new_arr(f'law{k}',B,e); regs.append((r,c)); args.append(Ptr.mk(r,fresh('lawoff',64) if False else bv64(0)))
            else: args.append(z3.BitVec(f'law_{nm}_{k}',t.w) if t.w>1 else z3.Bool(f'law_{nm}_{k}'))
        mem={r:c for r,c in regs}
        def cn(ctx,ii,ff,a,g,m,t):
            if vname(ff).startswith('spec_'):
                tt=s.mod.ty(retTy(fnTy(ff))); v=z3.BitVec(f'law_r{next(_cnt)}',max(tt.w,1)); x=v==BV(1,1) if tt.w==1 else v
                l2=s.mod.fn('law_'+vname(ff)[5:])
                if l2:
                    s.call_named=old
                    try: hyp.append(z3.Implies(g,s.law_term(l2,a,x,tt,mem)))
                    finally: s.call_named=cn
                    if ff!=f: todo.append((ff,l2))
                return x
            return old(ctx,ii,ff,a,g,m,t)
        old=s.call_named; todo=[]; s.call_named=cn; s.pure+=1
        try:
            fi=s.info(f); env=Env()
            for k in range(len(ps)): env.d[param(f,k)]=args[k]
            ed=Edge(); ed.g=TRUE; ed.mem=dict(mem); ed.phi={}; ed.src=None; ed.dst=fi.entry; rets=[]
            s.run_level(dict(fi=fi,rets=rets,depth=0),None,[ed],env)
        finally: s.call_named=old; s.pure-=1
        g,m,v=s.merge_rets(rets)
        c=s.law_term(lw,args,v,s.mod.ty(retTy(fnTy(f))),mem)
        o=Obl(); o.label=f'lemma: law of {nm} by induction'; o.g=TRUE; o.c=z3.Implies(And(*hyp),c); o.nf=0; o.kind='assert'; o.loc=None
        s.obls.append(o)
        for ff,l2 in todo: s.law_check(ff,l2)
    def mono_esize2(s,f,k):
        z=1
        for b in s.info(f).rpo:
            for i in s.info(f).ins[b]:
                if opcode(i)==29 and getOp(i,0)==param(f,k): z=max(z,s.mod.ty(gepTy(i)).size)
        return z
    def mono_esize(s,f):
        z=1
        for b in s.info(f).rpo:
            for i in s.info(f).ins[b]:
                if opcode(i)==29 and getOp(i,0)==param(f,0): z=max(z,s.mod.ty(gepTy(i)).size)
        return z
    def frame_facts(s,f,args,mem,r,depth=0):
        """how an application over written memory relates to one over the memory before the writes"""
        if depth>12: return
        p=args[0]
        if not isinstance(p,Ptr) or not p.single(): return
        reg,o=p.single()
        if reg is NULLR or len(reg.segs)!=1 or reg.segs[0].kind!='arr' or reg.segs[0].e!=s.mono_esize(f): return
        n=s.mget(mem,reg)[0]; i=args[1]; B=bv64(1<<40); sh=log2(reg.segs[0].e); oi=simp(z3.LShR(o,sh)) if sh else o
        lim=oi+i; ok=z3.And(z3.ULT(i,B),z3.ULT(oi,B))
        desc=vname(f).startswith('spec_d_')
        w64=lambda x:x if x.size()==64 else z3.ZeroExt(64-x.size(),x)
        if n.k=='store': outs=[(n.a[0],z3.And(ok,z3.UGE(w64(n.a[1]),lim) if desc else z3.ULT(w64(n.a[1]),lim)))]
        elif n.k in('copy','set'): outs=[(n.a[0],z3.And(ok,z3.ULT(w64(n.a[1]),B),z3.ULT(w64(n.a[2]),B),z3.UGE(w64(n.a[1]),lim) if desc else z3.ULE(w64(n.a[1])+w64(n.a[2]),lim)))]
        elif n.k=='ite': outs=[(n.a[1],n.a[0]),(n.a[2],Not(n.a[0]))]
        else: return
        for pn,c in outs:
            m=dict(mem); m[reg]=(pn,)
            r2=s.spec_call(f,args,TRUE,m,depth=1,raw=True)
            if not s.dry: s.facts.append(z3.Implies(c,r==r2))
    def call_fn_spec(s,f,args,m):
        fi=s.info(f); env=Env()
        for k in range(params(f)): env.d[param(f,k)]=args[k]
        e=Edge(); e.g=TRUE; e.mem=dict(m); e.phi={}; e.src=None; e.dst=fi.entry
        rets=[]
        ctx=dict(fi=fi,rets=rets,depth=0)
        old=s.call_named
        def cn(ctx,i,ff,a,g,mem,t):
            nm=vname(ff)
            if nm.startswith('spec_'):
                x=s.spec_call(ff,a,g,mem,depth=0)
                rr=x
                # collect the child application
                for rk in s.find_apps(x): s.subapps.append(s.apps[rk])
                return x
            return old(ctx,i,ff,a,g,mem,t)
        s.call_named=cn
        try: s.run_level(ctx,None,[e],env)
        finally: s.call_named=old
        g,mem,val=s.merge_rets(rets)
        return val,mem,g
    def find_apps(s,t):
        st=[t]; seen=set(); out=[]
        while st:
            x=st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.get_id() in s.apps: out.append(x.get_id()); continue
            st.extend(x.children())
        return out
    # ---------- loops
    def do_loop(s,ctx,L,in_edges,env):
        g0,mem0,phi0=s.merge(in_edges)
        if z3.is_false(g0): return []
        fi=ctx['fi']
        for k in fi.phis[L.h]:
            if k not in phi0: raise Unsupported('phi without incoming')
        if s.mode=='bounded' and not s.pure: return s.unroll(ctx,L,g0,mem0,phi0,env,s.K,False)
        U=s.cfg.get('unroll_inner')
        if U and not s.pure and (L.parent is not None or ctx['depth']>0): return s.unroll(ctx,L,g0,mem0,phi0,env,U,'oblige')
        U=s.cfg.get('unroll',5)
        if s.pure: U=40
        if U and (s.pure or any(not isinstance(v,Ptr) and not z3.is_bool(v) and isc(simp(v)) for v in phi0.values()) or s.cfg.get('unroll_all')):
            snap=(len(s.facts),len(s.obls),len(s.reach),len(s.inputs),len(s.watches),len(s.recorded),len(s.hs),len(s.terms))
            r=s.unroll(ctx,L,g0,mem0,phi0,env,U,True)
            if r is not None: return r
            s.rollback(snap)
        if s.pure: raise Unsupported('loop in spec function')
        if s.cfg.get('peel') and L.parent is None:
            exits=[]; e=Edge(); e.g=g0; e.mem=mem0; e.phi=phi0; e.src=None; e.dst=L.h; cur=[e]
            for k in range(s.cfg['peel']):
                cur,ex=s.run_level(ctx,L,cur,Env(env)); exits+=ex
                cur=[x for x in cur if not z3.is_false(simp(x.g))]
                if not cur: return exits
            g0,mem0,phi0=s.merge(cur)
            return exits+s.cut(ctx,L,g0,mem0,phi0,env)
        return s.cut(ctx,L,g0,mem0,phi0,env)
    def rollback(s,snap):
        s.prunememo={}
        a,b,c,d,e,f,h,t=snap
        del s.facts[a:]; del s.obls[b:]; del s.reach[c:]; del s.inputs[d:]; del s.watches[e:]; del s.recorded[f:]; del s.hs[h:]; del s.terms[t:]
        s.lawdone={k:v for k,v in s.lawdone.items() if v<=a and v<len(s.facts)}
        # unfoldings recorded after the snapshot are gone
        for k,ent in list(s.apps.items()):
            if isinstance(ent,tuple) and ent[3]>a: s.apps[k]=ent[:2]+(FALSE,0)
            if isinstance(ent,list) and len(ent)>5: 
                ent[4]=0; del ent[5:]
        s.refold()
    def refold(s):
        s.unfolded_lost=True
    def unroll(s,ctx,L,g0,mem0,phi0,env,K,complete):
        edges=None; exits=[]
        e=Edge(); e.g=g0; e.mem=mem0; e.phi=phi0; e.src=None; e.dst=L.h
        cur=[e]
        for k in range(K):
            en=Env(env)
            backs,ex=s.run_level(ctx,L,cur,en)
            exits+=ex
            backs=[x for x in backs if not z3.is_false(simp(x.g))]
            if not backs: return exits
            if complete and k>=2 and s.dry and k+1<K and False: pass
            cur=backs
        if complete=='oblige':
            s.oblige(f"unwinding of an inner loop complete after {K} iterations",Or(*[x.g for x in cur]),FALSE,'unwind')
            return exits
        if not complete:
            s.truncated+=1
            return exits
        if s.pure: return None
        g=Or(*[x.g for x in cur])
        r=s.quick(g,timeout=s.cfg.get('unroll_timeout',4000))
        if r==z3.unsat: return exits
        return None
    # state variables of a loop
    def cell_diffs(s,a,b,lo,hi):
        """list of (off,nb) at which cells a and b differ"""
        if a is b: return []
        offs={}
        def collect(n):
            if isinstance(n,Cells):
                for o,e in n.d.items(): offs[o]=max(offs.get(o,0),e[0])
                collect(n.parent)
            elif isinstance(n,CIte): collect(n.a); collect(n.b)
        collect(a); collect(b)
        # resolve overlaps to the widest
        ks=sorted(offs); out=[]; end=-1
        for o in ks:
            if o<end: continue
            nb=offs[o]; out.append((o,nb)); end=o+nb
        res=[]
        for o,nb in out:
            if lo<=o<hi and not vsame(s.nrm(cells_read(a,o,nb)),s.nrm(cells_read(b,o,nb))): res.append((o,nb))
        return res
    def nrm(s,v): return v
    def cut(s,ctx,L,g0,mem0,phi0,env):
        fi=ctx['fi']
        # --- discover what the loop modifies
        regsets={}     # key -> set of regions a pointer variable can have
        for k,v in phi0.items():
            if isinstance(v,Ptr): regsets[k]=set(v.alts)
        cells={}       # (region,segindex,off,nb) -> 'ptr'|'int'
        arrs=set()     # (region,segindex)
        for it in range(12):
            gH,memH,phiH,_=s.havoc(mem0,phi0,regsets,cells,arrs,env)
            gH=g0
            e=Edge(); e.g=gH; e.mem=memH; e.phi=phiH; e.src=None; e.dst=L.h
            s.dry+=1
            try:
                en=Env(env); backs,exits=s.run_level(ctx,L,[e],en)
            finally: s.dry-=1
            ch=False
            for x in backs:
                for k,v in x.phi.items():
                    if isinstance(v,Ptr):
                        for r in v.alts:
                            if r not in regsets.setdefault(k,set()): regsets[k].add(r); ch=True
                for r,cs in x.mem.items():
                    old=memH.get(r) or s.globmem.get(r)
                    if r not in memH and r not in s.globmem: continue     # allocated inside the loop
                    if old is cs: continue
                    for j,(c,o) in enumerate(zip(cs,old)):
                        if c is o: continue
                        sg=r.segs[j]
                        if sg.kind=='arr':
                            if (r,j) not in arrs: arrs.add((r,j)); ch=True
                        else:
                            for (of,nb) in s.cell_diffs(c,o,sg.lo,sg.hi):
                                v=cells_read(c,of,nb); v0=cells_read(o,of,nb)
                                key=(r,j,of,nb)
                                isp=isinstance(v,Ptr) or isinstance(v0,Ptr)
                                if key not in cells:
                                    cells[key]='ptr' if isp else 'int'; ch=True
                                elif isp and cells[key]!='ptr': cells[key]='ptr'; ch=True
                                if isp:
                                    for q in (toptr(v),toptr(v0)):
                                        for rr in q.alts:
                                            if rr not in regsets.setdefault(key,set()): regsets[key].add(rr); ch=True
            if not ch: break
        else: raise Unsupported('loop modification analysis did not settle')
        # regions allocated inside must not escape
        for k,rs in regsets.items():
            for r in rs:
                if r is not NULLR and r.fn is None and r not in mem0 and r not in s.globmem: raise Unsupported('object allocated in a loop escapes its iteration')
        gH,memH,phiH,vars_=s.havoc(mem0,phi0,regsets,cells,arrs,env)
        gH=g0
        name=f"{fi.name}:loop{L.no}"
        if s.dry:
            e=Edge(); e.g=gH; e.mem=memH; e.phi=phiH; e.src=None; e.dst=L.h
            en=Env(env); backs,exits=s.run_level(ctx,L,[e],en)
            return exits
        info=dict(name=name,vars=vars_,cands=[],depth=s.loopdepth,ncand=0)
        s.loopinfo.append(info)
        cands=s.candidates(ctx,L,vars_,mem0,memH,phi0,phiH,env,g0,arrs)
        # names are unique inside a loop
        seen={}; named=[]
        for d,fn in cands:
            k=seen[d]=seen.get(d,0)+1
            named.append((d if k==1 else f"{d} ~{k}",fn))
        cands=named
        hint=s.cfg.get('hints')
        if hint is not None:
            # recorded invariants (candidates like any other: each is proved again below)
            base=lambda d:re.sub(r' ~\d+$','',d)
            bh={base(h) for h in hint}
            hs=s.cfg.get('hintspec')
            cands=[c for c in cands if f"{name}: {base(c[0])}" in bh or (hs and 'expected' in c[0])]
            if hs: cands=s.filter_entry(cands,g0,mem0,phi0,vars_,info)
        else:
            if s.cfg.get('cand'): cands=[c for c in cands if re.search(s.cfg['cand'],c[0])]
            cands=s.filter_entry(cands,g0,mem0,phi0,vars_,info)
        info['ncand']=len(cands)
        hl=[]; nf0=len(s.facts)
        for (d,fn) in cands:
            h=z3.Bool(f"h_{len(s.hs)}_{next(_cnt)}"); s.hs.append((h,f"{name}: {d}")); hl.append(h)
            cv=fn(lambda v:v.cur,memH,s.specdepth)
            s.facts.append(z3.Implies(z3.And(h,g0),cv))
            # entry obligation is kept: it is re-proved with the final set
            ce=fn(lambda v:v.entry,mem0,s.cfg.get('entrydepth',0))
            if not z3.is_true(simp(ce)):
                o=Obl(); o.label=f"{name}: entry: {d}"; o.g=g0; o.c=ce; o.nf=nf0; o.kind=('inv',h,'entry'); o.loc=None
                s.obls.append(o)
        e=Edge(); e.g=gH; e.mem=memH; e.phi=phiH; e.src=None; e.dst=L.h
        s.loopdepth+=1
        en=Env(env); backs,exits=s.run_level(ctx,L,[e],en)
        s.loopdepth-=1
        if backs:
            gb,memb,phib=s.merge(backs)
            get=lambda v:v.at(phib,memb,s)
            info['backs']=True
            for (d,fn),h in zip(cands,hl):
                cv=fn(get,memb,s.cfg.get('backdepth',0))
                o=Obl(); o.label=f"{name}: preserved: {d}"; o.g=gb; o.c=cv; o.nf=len(s.facts); o.kind=('inv',h,'back'); o.loc=None
                s.obls.append(o)
            # later unfoldings must be visible to these obligations
            for o in s.obls[-len(hl):] if hl else []: o.nf=len(s.facts)
        return exits
    def havoc(s,mem0,phi0,regsets,cells,arrs,env):
        phi={}; mem=dict(mem0); vars_=[]; nphi={}
        def hptr(name,rs,entry):
            rs=sorted(rs,key=lambda r:r.name)
            if len(rs)==1: return Ptr.mk(rs[0],fresh(name+'_off',64))
            alts={}; rest=TRUE
            for n,r in enumerate(rs):
                c=rest if n==len(rs)-1 else And(rest,freshb(name+'_is'))
                if n<len(rs)-1:
                    sel=freshb(name+'_sel'); c=And(rest,sel); rest=And(rest,Not(sel))
                alts[r]=(c,fresh(name+'_off',64))
            return Ptr(alts)
        for k,v in phi0.items():
            # named by kind and position, so that an edit elsewhere in the loop does not rename it
            ty='p' if isinstance(v,Ptr) else 'b' if z3.is_bool(v) else '' if isinstance(v,Agg) else f'i{v.size()}_'
            nphi[ty]=nphi.get(ty,-1)+1; nm=f'phi.{ty}{nphi[ty]}'
            if isinstance(v,Ptr): nv=hptr(nm,regsets[k],v)
            elif isinstance(v,Agg): raise Unsupported('aggregate phi')
            elif z3.is_bool(v): nv=freshb(nm)
            else: nv=fresh(nm,v.size())
            phi[k]=nv
            vars_.append(Var(nm,'phi',k,v,nv))
        for (r,j),_ in [(x,0) for x in sorted(arrs,key=lambda x:(x[0].name,x[1]))]:
            cs=mem.get(r) or s.globmem[r]
            mem[r]=cs[:j]+(s.basenode('hv_'+r.name,r.segs[j].e),)+cs[j+1:]
        for key in sorted(cells,key=lambda x:(x[0].name,x[2])):
            r,j,of,nb=key
            cs=mem.get(r) or s.globmem[r]
            old=cells_read((mem0.get(r) or s.globmem[r])[j],of,nb)
            nm=f"{r.name.split('@')[0]}.{of}"
            nv=hptr(nm,regsets[key],old) if cells[key]=='ptr' else fresh(nm,8*nb)
            if cells[key]=='ptr': old=toptr(old)
            mem[r]=cs[:j]+(cells_write(cs[j],of,nb,nv),)+cs[j+1:]
            vars_.append(Var(nm,'cell',key,old,nv))
        for (r,o,nb) in s.watches+[(r,simp(bv64(r.segs[j].lo)+k*r.segs[j].e),r.segs[j].e) for (r,j) in sorted(arrs,key=lambda x:(x[0].name,x[1])) for k in s.watchk]:
            c0=(mem0.get(r) or s.globmem.get(r)); c1=(mem.get(r) or s.globmem.get(r))
            if c0 is not None and c0 is not c1:
                t=s.ity(8*nb); s.pure+=1
                try: vars_.append(Var(f"*{r.name.split('@')[0]}",'watch',(r,o,nb),s.load1(mem0,r,o,t,TRUE,None),s.load1(mem,r,o,t,TRUE,None)))
                finally: s.pure-=1
        if s.watchk:
            for v in list(vars_):
                if isinstance(v.cur,Ptr):
                    e=aview(v)
                    if e and any((r,0) in arrs for r in v.cur.alts):
                        for k in s.watchk: vars_.append(Var(f"{v.name}->[k]",'watchp',(v,k,e),s.watchp(v.entry,k,e,mem0),s.watchp(v.cur,k,e,mem)))
        return None,mem,phi,vars_
    def watchp(s,p,k,e,mem):
        p=toptr(p); x=None; t=s.ity(8*e); s.pure+=1
        try:
            for r in sorted(p.alts,key=lambda r:r.name):
                if r is NULLR: continue
                c,o=p.alts[r]; v=s.load1(mem,r,simp(k*bv64(e)),t,TRUE,None)
                x=v if x is None else Ite(c,v,x)
        finally: s.pure-=1
        return BV(0,8*e) if x is None else simp(x)
    # ---------- invariant candidates
    def candidates(s,ctx,L,vars_,mem0,memH,phi0,phiH,env,g0,arrs):
        fi=ctx['fi']; out=[]
        ints=[]; ptrs=[]; bools=[]
        for v in vars_:
            if isinstance(v.cur,Ptr):
                ptrs.append(v)
                for r,(c,o) in v.cur.alts.items(): ints.append(View(v,r))
                ea=aview(v)
                if ea: ints.append(AView(v,ea))
            elif z3.is_bool(v.cur): bools.append(v)
            else: ints.append(v)
        if s.cfg.get('sums'):
            rx=re.compile(s.cfg['sums'])
            base=[x for x in ints if isinstance(x,View) and x.r is not NULLR and x.r is not None and x.r.user and x.v.kind=='cell']
            small=[x for x in ints if not isinstance(x,View) and x.cur.size()==32 and x.kind=='cell']
            for b_ in base:
                for p_ in small: ints.append(SumView(b_,p_,None,0))
                for p_,q_ in itertools.permutations(small,2):
                    ints.append(SumView(b_,p_,q_,-1))
                    if p_.name<q_.name: ints.append(SumView(b_,p_,q_,1))
            ints=[x for x in ints if not isinstance(x,SumView) or rx.search(x.name)]
        # loop invariant reference terms: operands of comparisons in the loop, inputs, sizes
        T={}
        def addT(t,nm):
            t=simp(t)
            T.setdefault((t.size(),t.get_id()),(t,nm))
        inl=set()
        for b in L.blocks:
            for i in fi.ins[b]: inl.add(i)
        for b in L.blocks:
            for i in fi.ins[b]:
                if opcode(i)==42:
                    for k in(0,1):
                        x=getOp(i,k)
                        if x in inl: continue
                        try: v=s.val(x,env)
                        except Unsupported: continue
                        if isinstance(v,Ptr):
                            for r,(c,o) in v.alts.items():
                                if r is not NULLR: addT(o,'cmp')
                        elif not z3.is_bool(v): addT(v,'cmp')
                elif opcode(i)==3:
                    pass
        for t in s.terms: addT(t,'in')
        for v in vars_:
            if isinstance(v.entry,Ptr):
                for r,(c,o) in v.entry.alts.items():
                    if r is not NULLR: addT(o,'entry '+v.name)
                    if r is not NULLR: addT(r.size,'size')
            elif not z3.is_bool(v.entry): addT(v.entry,'entry '+v.name)
        for u in list(T.values()):
            if u[1]=='in' and u[0].size()==64: addT(z3.Extract(31,0,u[0]),'in32'); addT(z3.Extract(15,0,u[0]),'in16')
        for w in (32,64): addT(BV(0,w),'0')
        lim=s.cfg.get('maxterms',14)
        Tl=list(T.values())
        def add(d,fn): out.append((d,fn))
        def R(v,get):
            return v.read(get) if isinstance(v,View) else get(v)
        for v in bools:
            add(f"{v.name}",lambda get,m,d,v=v:get(v)); add(f"!{v.name}",lambda get,m,d,v=v:Not(get(v)))
        for v in ptrs:
            for r in v.cur.alts:
                if len(v.cur.alts)>1:
                    add(f"{v.name} not in {r}",lambda get,m,d,v=v,r=r:Not(toptr(get(v)).alts.get(r,(FALSE,None))[0]))
                    # pointer in region r iff it was at entry
            if len(v.cur.alts)>1:
                add(f"{v.name} same object as at entry",lambda get,m,d,v=v:And(*[ (toptr(get(v)).alts.get(r,(FALSE,None))[0])==(toptr(v.entry).alts.get(r,(FALSE,None))[0]) for r in v.cur.alts]))
        for v in ints:
            w=R(v,lambda x:x.cur).size()
            en=R(v,lambda x:x.entry)
            if w<=8 and not s.cfg.get('bytevars',True): continue
            n=0
            for (t,nm) in Tl:
                if t.size()!=w: continue
                n+=1
                if n>lim and nm=='cmp': continue
                add(f"{v.name} == {nm}",lambda get,m,d,v=v,t=t:R(v,get)==t)
                add(f"{v.name} <=u {nm}",lambda get,m,d,v=v,t=t:z3.ULE(R(v,get),t))
                add(f"{v.name} >=u {nm}",lambda get,m,d,v=v,t=t:z3.UGE(R(v,get),t))
                add(f"{v.name} <=s {nm}",lambda get,m,d,v=v,t=t:R(v,get)<=t)
                add(f"{v.name} >=s {nm}",lambda get,m,d,v=v,t=t:R(v,get)>=t)
                if not (isc(t) and cval(t)==0) :
                    add(f"{v.name} <u {nm}",lambda get,m,d,v=v,t=t:z3.ULT(R(v,get),t))
                add(f"{v.name} != {nm}",lambda get,m,d,v=v,t=t:R(v,get)!=t)
                if nm in('cmp','0'):
                    st=v.esize() if isinstance(v,View) else 1
                    add(f"{v.name} >=s {nm}-1",lambda get,m,d,v=v,t=t,st=st:R(v,get)+st>=t)
                if isinstance(v,View) and v.esize()>1:
                    add(f"{v.name} <u {nm}-e",lambda get,m,d,v=v,t=t:z3.ULE(R(v,get),t-v.esize()))
            if isinstance(v,View) and v.esize()>1:
                sh=log2(v.esize())
                add(f"{v.name} aligned",lambda get,m,d,v=v,sh=sh:z3.Extract(sh-1,0,R(v,get))==0)
        for a,b in itertools.combinations([x for x in ints if not isinstance(x,SumView)],2):
            wa=R(a,lambda x:x.cur).size(); wb=R(b,lambda x:x.cur).size()
            same_w=wa==wb
            if same_w and wa>8:
                add(f"{a.name} == {b.name}",lambda get,m,d,a=a,b=b:R(a,get)==R(b,get))
                add(f"{a.name} <=u {b.name}",lambda get,m,d,a=a,b=b:z3.ULE(R(a,get),R(b,get)))
                add(f"{b.name} <=u {a.name}",lambda get,m,d,a=a,b=b:z3.ULE(R(b,get),R(a,get)))
                add(f"{a.name} <=s {b.name}",lambda get,m,d,a=a,b=b:R(a,get)<=R(b,get))
                add(f"{b.name} <=s {a.name}",lambda get,m,d,a=a,b=b:R(b,get)<=R(a,get))
            # lockstep with scales
            if wa>8 and wb>8:
                ea=R(a,lambda x:x.entry); eb=R(b,lambda x:x.entry)
                def ext(t,w): return t if t.size()==w else z3.SignExt(w-t.size(),t)
                W=max(wa,wb)
                sa=a.esize() if isinstance(a,View) else 1; sb=b.esize() if isinstance(b,View) else 1
                for (ka,kb) in {(sb,sa),(sb,-sa),(1,1),(1,-1)}:
                    add(f"{kb}*d{a.name} == {ka}*d{b.name}",lambda get,m,d,a=a,b=b,ea=ea,eb=eb,ka=ka,kb=kb,W=W:(ext(R(a,get)-ea,W))*ka==(ext(R(b,get)-eb,W))*kb)
        # equal unless a state variable has a given value
        for gw,cst in s.cfg.get('guards',[]):
            for v in ints:
                if isinstance(v,View) or R(v,lambda x:x.cur).size()!=gw: continue
                for a,b in itertools.combinations([x for x in ints if isinstance(x,View) and x.r is not NULLR],2):
                    if a.r is not b.r: continue
                    add(f"{v.name} == {cst} or {a.name} == {b.name}",lambda get,m,d,v=v,a=a,b=b,cst=cst:Or(R(v,get)==cst,R(a,get)==R(b,get)))
        # values that are live across this loop, computed earlier
        lives=s.live_across(ctx,L,env,vars_) if s.recorded else []
        lptrs=[v for v in lives if isinstance(v.cur,Ptr)]
        lints=[View(v,r) for v in lptrs for r in v.cur.alts if r is not NULLR]+[v for v in lives if not isinstance(v.cur,Ptr)]
        # spec continuations: f(.., state) == f(.., recorded)
        seen=set()
        for (f,args,r,t,mrec) in s.recorded:
            if r.get_id() in seen: continue
            seen.add(r.get_id())
            var=s.spec_sig(f); opts=[]; ok=True; lastp=None
            for k,a in enumerate(args):
                o=[('=',a)]; only=None
                if isinstance(a,Ptr): lastp,lasto=a.single() if not var[k] and a.single() else (None,None)
                elif var[k] and lastp is not None and not z3.is_bool(a) and a.size()==64:
                    only=lastp; only_o=lasto; lastp=None       # an index into the array argument before it
                if var[k]:
                    if isinstance(a,Ptr):
                        ra=a.single()[0]
                        for v in ptrs+lptrs:
                            if ra in v.cur.alts: o.append((v.name,v))
                    else:
                        w=1 if z3.is_bool(a) else a.size()
                        for v in ints+lints:
                            cw=R(v,lambda x:x.cur).size()
                            if isinstance(v,View):
                                e=v.esize()
                                if only is not None and v.r is not only and v.r is not NULLR and v.r is not None: continue
                                if w==64:
                                    o.append((v.name+'/e',Idx(v,e)))
                                    if v.r is not None and v.r is not NULLR and NULLR in v.v.cur.alts: o.append((v.name+'?/e',OptIdx(v,e)))
                                    if only is not None and v.r is only and not z3.is_true(simp(only_o==0)): o.append((v.name+'-base/e',Idx(v,e,64,only_o)))
                                    if v.r is NULLR and not s.cfg.get('nolo'): o.append((v.name+'/2',Idx(v,2)))
                                elif w==32 and not s.cfg.get('nolo'):
                                    o.append((v.name+'/e.lo',Idx(v,e,32)))
                                    if v.r is NULLR: o.append((v.name+'/2.lo',Idx(v,2,32)))
                            elif cw==w:
                                o.append((v.name,v))
                                if only is not None and not z3.is_true(simp(only_o==0)): o.append((v.name+'-base',Conv(v,w,'i',ish(only,only_o))))
                            elif s.cfg.get('nolo'): pass
                            elif cw>w: o.append((v.name+'.lo',Conv(v,w,'t')))
                            elif cw<w: 
                                o.append((v.name+'.z',Conv(v,w,'z')))
                                if only is not None and not z3.is_true(simp(only_o==0)): o.append((v.name+'.z-base',Conv(v,w,'z',ish(only,only_o))))
                                if w==64 or w==32: o.append((v.name+'.s',Conv(v,w,'s')))
                        for v in bools:
                            o.append((v.name+'.b',Conv(v,w,'b'))); o.append(('!'+v.name+'.b',Conv(v,w,'nb')))
                        for cst in s.cfg.get('spec_consts',[]):
                            if w>=8: o.append((str(cst),BV(cst,w)))
                opts.append(o)
            tot=1
            for o in opts: tot*=len(o)
            if tot>s.cfg.get('maxspec',6000):
                s.cutnames.append(f"{vname(f)}: {tot} bindings, truncated")
            chg=False
            for a in args:
                if isinstance(a,Ptr):
                    for ra in a.alts:
                        if ra in mrec and ra in memH and any(x is not y for x,y in zip(mrec[ra],memH[ra])): chg=True
            for combo,old in itertools.product(itertools.islice(itertools.product(*opts),s.cfg.get('maxspec',6000)),(False,True) if chg else (False,)):
                if all(c[0]=='=' for c in combo): continue
                def fn(get,m,d,combo=combo,f=f,r=r,t=t,mrec=mrec if old else None):
                    if mrec is not None: m=mrec
                    aa=[]
                    for nm,x in combo:
                        if isinstance(x,(View,Idx,OptIdx,Conv)): aa.append(x.read(get))
                        elif isinstance(x,Var): aa.append(x.cur if x.kind=='const' else get(x))
                        else: aa.append(x)
                    v=s.spec_call(f,aa,TRUE,m,depth=d)
                    rr=simp(r==BV(1,1)) if t.w==1 else r
                    return simp(v==rr)
                add(f"{vname(f)}{'@call' if old else ''}({','.join(c[0] for c in combo)}) == expected",fn)
        # f is the same here as where the loop was entered
        for (f,args,r,t,mrec) in s.recorded:
            k=s.cfg.get('entryspec',{}).get(vname(f))
            if k is None or ('entry',vname(f)) in seen: continue
            seen.add(('entry',vname(f))); rg=toptr(args[k-1]).single()
            for v in ints:
                if not isinstance(v,View) or isinstance(v,SumView) or rg is None or v.r is not rg[0]: continue
                ix=Idx(v,v.esize(),64,None if z3.is_true(simp(rg[1]==0)) else rg[1])
                def fn(get,m,d,f=f,args=args,k=k,ix=ix,t=t):
                    def call(x): 
                        v=s.spec_call(f,list(args[:k])+[x]+list(args[k+1:]),TRUE,m,depth=d); return v
                    return simp(call(ix.read(get))==call(ix.read(lambda x:x.entry)))
                add(f"{vname(f)}({ix.view.name}/e) as at entry",fn)
        # the element at a variable's index is a terminator
        if s.cfg.get('atzero'):
            for (r,j) in sorted(arrs,key=lambda x:(x[0].name,x[1])):
                e=r.segs[j].e
                for v in ints:
                    if isinstance(v,View):
                        if v.r is not r: continue
                        off=lambda get,v=v:v.read(get)
                    else:
                        w=v.cur.size()
                        if w<16: continue
                        off=lambda get,v=v,w=w,e=e:simp((get(v) if w==64 else z3.ZeroExt(64-w,get(v)))*e)
                    def fn(get,m,d,off=off,r=r,e=e):
                        s.pure+=1
                        try: return s.load1(m,r,off(get),s.ity(8*e),TRUE,None)==0
                        finally: s.pure-=1
                    add(f"{r.name}[{v.name}] == 0",fn)
        # predicates the contract names (dv_invariant), evaluated in the loop's memory
        for n,(f,ua) in enumerate(s.userinv):
            add(f"inv{n} {vname(f)}",lambda get,m,d,f=f,ua=ua: simp(s.spec_call(f,ua,TRUE,m,depth=d+1)))
        return out
    def live_across(s,ctx,L,env,vars_):
        fi=ctx['fi']
        if not hasattr(fi,'usepos'):
            fi.usepos={}
            for b in fi.rpo:
                for i in fi.ins[b]:
                    ph=opcode(i)==44
                    for k in range(nInc(i) if ph else numOps(i)):
                        x=incV(i,k) if ph else getOp(i,k); ub=incB(i,k) if ph else b
                        if ub in fi.idx: fi.usepos[x]=max(fi.usepos.get(x,-1),fi.idx[ub])
        known={(v.cur.single() or (None,None))[1].get_id() if isinstance(v.cur,Ptr) and v.cur.single() else None if isinstance(v.cur,Ptr) else v.cur.get_id() for v in vars_}
        known|={(v.entry.single() or (None,None))[1].get_id() if isinstance(v.entry,Ptr) and v.entry.single() else None if isinstance(v.entry,Ptr) else v.entry.get_id() for v in vars_}
        out=[]; e=env; seen=set(known); nlv={}
        while e is not None:
            for k,v in e.d.items():
                if fi.usepos.get(k,-1)<fi.idx[L.h]: continue
                if isinstance(v,Ptr):
                    sg=v.single()
                    if not sg or sg[0] is NULLR or sg[0].fn is not None or isc(sg[1]) or sg[0].name.startswith('L_'): continue
                    key=sg[1].get_id()
                elif isinstance(v,Agg) or z3.is_bool(v) or v.size()<16 or isc(v): continue
                else: key=v.get_id()
                if key in seen: continue
                ty='p' if isinstance(v,Ptr) else f'i{v.size()}_'; nlv[ty]=nlv.get(ty,-1)+1
                seen.add(key); out.append(Var(f'live.{ty}{nlv[ty]}','const',None,v,v))
            e=e.p
        n=s.cfg.get('maxlive',4)
        return [v for v in out if isinstance(v.cur,Ptr)][:n]+[v for v in out if not isinstance(v.cur,Ptr)][:s.cfg.get('maxliveint',0)]
    userinv=[]
    def filter_entry(s,cands,g0,mem0,phi0,vars_,info):
        """drop candidates refuted at loop entry (optimistically, assuming every earlier candidate)"""
        s.pure+=0
        terms=[]
        for (d,fn) in cands:
            try: terms.append(simp(fn(lambda v:v.entry,mem0,s.cfg.get('entrydepth',0))))
            except Unsupported: terms.append(FALSE)
        alive=[i for i,t in enumerate(terms) if not z3.is_false(t)]
        unk=[i for i in alive if not z3.is_true(terms[i])]
        sure=[i for i in alive if z3.is_true(terms[i])]
        if unk:
            sv=z3.SolverFor('QF_UFBV'); sv.set('timeout',s.tmo)
            for f in s.facts: sv.add(f)
            for h,_ in s.hs: sv.add(h)
            sv.add(g0)
            while unk:
                sv.push(); sv.add(z3.Or(*[z3.Not(terms[i]) for i in unk]))
                r=sv.check()
                if r==z3.sat:
                    m=sv.model(); before=len(unk)
                    unk=[i for i in unk if not z3.is_false(m.eval(terms[i],model_completion=True))]
                    sv.pop()
                    if len(unk)==before: unk=[]; break
                    continue
                sv.pop()
                if r==z3.unknown: info['entry_unknown']=True; s.entry_unknown=True
                break
        keep=sorted(sure+unk)
        return [cands[i] for i in keep]
class Var:
    def __init__(s,name,kind,key,entry,cur): s.name=name; s.kind=kind; s.key=key; s.entry=entry; s.cur=cur
    def at(s,phi,mem,ex):
        if s.kind=='phi': return phi[s.key]
        if s.kind=='const': return s.cur
        if s.kind=='cell':
            r,j,of,nb=s.key
            v=cells_read((mem.get(r) or ex.globmem[r])[j],of,nb)
            return toptr(v) if isinstance(s.cur,Ptr) else tobv(v,8*nb)
        if s.kind=='watchp': return ex.watchp(s.key[0].at(phi,mem,ex),s.key[1],s.key[2],mem)
        r,o,nb=s.key
        ex.pure+=1
        try: return ex.load1(mem,r,o,ex.ity(8*nb),TRUE,None)
        finally: ex.pure-=1
class View:
    """offset of a pointer variable inside one region"""
    def __init__(s,v,r): s.v=v; s.r=r; s.name=f"&{v.name}" + (f"[{r.name.split('@')[0]}]" if len(v.cur.alts)>1 else '')
    def read(s,get):
        p=toptr(s.v.cur if s.v.kind=='const' else get(s.v)); a=p.alts.get(s.r)
        return a[1] if a else bv64(0)
    def esize(s): return 1 if s.r is NULLR else s.r.segs[0].e if len(s.r.segs)==1 and s.r.segs[0].kind=='arr' else 1
class SumView(View):
    """a position computed from a pointer or counter and one or two lengths"""
    def __init__(s,b,p,q,sg):
        s.b=b; s.p=p; s.q=q; s.sg=sg; s.v=b.v if isinstance(b,View) else b; s.r=b.r if isinstance(b,View) else NULLR
        s.name=b.name+'+'+p.name+('' if q is None else ('+' if sg>0 else '-')+q.name)
    def read(s,get):
        x=(s.b.read(get) if isinstance(s.b,View) else get(s.b))+z3.ZeroExt(32,get(s.p))
        if s.q is not None: x=x+z3.ZeroExt(32,get(s.q)) if s.sg>0 else x-z3.ZeroExt(32,get(s.q))
        return simp(x)
    def esize(s): return 1
class AView(View):
    """offset of a pointer variable inside whichever object it points to"""
    def __init__(s,v,e): s.v=v; s.e=e; s.r=None; s.name=f"&{v.name}[*]"
    def read(s,get):
        p=toptr(get(s.v)); x=None
        for r in sorted(p.alts,key=lambda r:r.name):
            if r is NULLR: continue
            c,o=p.alts[r]; x=o if x is None else Ite(c,o,x)
        return bv64(0) if x is None else simp(x)
    def esize(s): return s.e
def aview(v):
    rs=[r for r in v.cur.alts if r is not NULLR]
    if len(rs)<2 or any(len(r.segs)!=1 or r.segs[0].kind!='arr' for r in rs): return None
    es={r.segs[0].e for r in rs}
    return es.pop() if len(es)==1 else None
class Idx:
    def __init__(s,view,e,w=64,sub=None): s.view=view; s.e=e; s.w=w; s.sub=sub
    def read(s,get):
        o=s.view.read(get)
        if s.sub is not None: o=simp(o-s.sub)
        o=o if s.e==1 else simp(z3.LShR(o,log2(s.e)))
        return o if s.w==64 else simp(z3.Extract(s.w-1,0,o))
class OptIdx:
    """index a pointer stands at, or ~0 when it is null"""
    def __init__(s,view,e): s.view=view; s.e=e
    def read(s,get):
        v=s.view.v; p=toptr(v.cur if v.kind=='const' else get(v)); a=p.alts.get(s.view.r)
        if a is None: return bv64(-1)
        return Ite(a[0],a[1] if s.e==1 else simp(z3.LShR(a[1],log2(s.e))),bv64(-1))
def ish(r,o):
    e=r.segs[0].e if r is not NULLR and len(r.segs)==1 and r.segs[0].kind=='arr' else 1
    return o if e==1 else simp(z3.LShR(o,log2(e)))
class Conv:
    def __init__(s,v,w,k,sub=None): s.v=v; s.w=w; s.k=k; s.sub=sub
    def read(s,get):
        x=s.read0(get)
        return x if s.sub is None else simp(x-s.sub)
    def read0(s,get):
        x=get(s.v) if s.v.kind!='const' else s.v.cur
        if s.k=='i': return x
        if s.k=='b': return tobv(x,s.w) 
        if s.k=='nb': return tobv(Not(x),s.w)
        if s.k=='t': return simp(z3.Extract(s.w-1,0,x))
        if s.k=='z': return simp(z3.ZeroExt(s.w-x.size(),x))
        return simp(z3.SignExt(s.w-x.size(),x))
_cr=ll.L.LLVMConstRealGetDouble; _cr.restype=C.c_double; _cr.argtypes=[P,C.POINTER(I)]
def _constReal(c):
    x=I(); return _cr(c,C.byref(x))
_fp=ll.L.LLVMGetFCmpPredicate; _fp.restype=I; _fp.argtypes=[P]
def llvm_fpred(i): return _fp(i)
def lin_const(t):
    """constant part of a sum"""
    if isc(t): return cval(t)
    if z3.is_app(t) and t.decl().kind()==z3.Z3_OP_BADD:
        c=0
        for x in t.children():
            if isc(x): c+=cval(x)
        if c>=1<<63: return None
        return c&((1<<64)-1)
    return 0
