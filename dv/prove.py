"""Driver: compile harness + real sources, generate VCs, run Houdini, discharge."""
import os, sys, subprocess, json, time, pickle, select, signal, hashlib, tempfile, shutil
import z3
import vc, llvmc as ll
from vc import *
CLANG='/usr/lib/llvm-18/bin/clang++'
if not os.path.exists(CLANG): CLANG='clang++-18'
def mingw():
    for v in('13-posix','13-win32'):
        d='/usr/lib/gcc/x86_64-w64-mingw32/'+v
        if os.path.isdir(d): return d
HERE=os.path.dirname(os.path.abspath(__file__))
def incs(repo):
    c=repo+'/clink'
    return ['-I'+x for x in [HERE,c+'/core/include/core',c+'/core/include',c+'/core/src',c+'/lib/include',c+'/lib/include/lib',c+'/terminal/include',c+'/terminal/include/terminal',c+'/process/include',c+'/process/include/process',c+'/lua/include',c+'/lua/include/lua',repo+'/lua/src',repo+'/readline',repo+'/readline/compat',repo+'/wildmatch',repo+'/getopt',repo+'/detours']]
DEFS=['-DHAVE_CONFIG_H','-DHANDLE_MULTIBYTE','-DCLINK_BUILD_ROOT="x"','-D__MSVCRT_VERSION__=0x0601','-D_WIN32_WINNT=0x0601','-DWINVER=0x0601','-D__USE_MINGW_ANSI_STDIO=0']
def gen_dir(repo,work):
    """case-insensitive header shims and generated headers, made fresh (nothing is taken from the build)"""
    g=os.path.join(work,'gen')
    if os.path.isdir(g): return g
    os.makedirs(g+'/shim')
    for d in ['/usr/x86_64-w64-mingw32/include']:
        names=set(os.listdir(d))
        want=set()
        import re
        for root,ds,fs in os.walk(repo):
            ds[:]=[x for x in ds if x not in('.git','.build','docs','installer')]
            for f in fs:
                if f.endswith(('.h','.cpp','.c','.hpp')):
                    try: t=open(os.path.join(root,f),errors='replace').read()
                    except OSError: continue
                    for m in re.finditer(r'#\s*include\s*<([^>]+)>',t): want.add(m.group(1))
        low={n.lower():n for n in names}
        for w in want:
            if w not in names and w.lower() in low:
                p=os.path.join(g,'shim',w)
                os.makedirs(os.path.dirname(p),exist_ok=True)
                if not os.path.exists(p): os.symlink(os.path.join(d,low[w.lower()]),p)
    open(g+'/clink_commit.h','w').write('#pragma once\n#define CLINK_COMMIT "000000"\n')
    return g
def compile_bc(repo,src,out,work,extra=(),lang=None,flags=()):
    gv=mingw(); G=gen_dir(repo,work)
    isc_=src.endswith('.c')
    cmd=[CLANG if not isc_ else CLANG.replace('clang++','clang'),'--target=x86_64-w64-mingw32']
    if not isc_: cmd+=['-std=c++17','-isystem',gv+'/include/c++','-isystem',gv+'/include/c++/x86_64-w64-mingw32','-fno-exceptions','-fno-rtti' if False else '-fno-exceptions']
    cmd+=['-isystem','/usr/x86_64-w64-mingw32/include','-idirafter',G+'/shim','-I'+G]+DEFS+list(extra)+incs(repo)
    cmd+=['-w','-fwrapv','-fno-strict-aliasing','-fno-delete-null-pointer-checks','-fno-threadsafe-statics','-O1','-Xclang','-disable-llvm-passes','-fno-builtin','-emit-llvm','-c',src,'-o',out,'-DREPO_ROOT="%s"'%repo]+list(flags)
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: raise RuntimeError('compile failed: '+src+'\n'+r.stderr[-3000:])
    return out
OPT='function(sroa,early-cse,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp>,instcombine<no-verify-fixpoint>,sroa,early-cse,simplifycfg<no-switch-to-lookup>,loop-simplify,lcssa,loop-unroll-full' if False else 'function(sroa,early-cse,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp>,instcombine<no-verify-fixpoint>,sroa,early-cse,simplifycfg<no-switch-to-lookup>,loop-simplify,lcssa,loop(loop-unroll-full),sroa,instcombine<no-verify-fixpoint>,simplifycfg<no-switch-to-lookup>,loop-simplify,lcssa)'
def prepare(bcs,harness,cfg):
    m=ll.Module(bcs)
    ll.stripDI(m.m)
    keep=cfg.get('noinline',[])
    # contract substitution: calls to the left function become calls to the right one
    for a,b in cfg.get('replace',{}).items():
        fa=m.fn(a); fb=m.fn(b)
        if not fb: raise RuntimeError('contract stub missing: '+b)
        if fa: ll.rauw(fa,fb)
        elif cfg.get('replace_strict',True): raise RuntimeError('function under contract not found: '+a)
    h=m.fn(harness)
    if not h: raise RuntimeError('harness not found '+harness)
    for f in m.functions():
        nm=ll.vname(f)
        if ll.isDecl(f): 
            continue
        for a in('noinline','optnone','sanitize_address','uwtable','mustprogress'): m.attr(f,a,False)
        if nm.startswith(('spec_','ghost_','law_')) or nm in keep or nm==harness:
            m.attr(f,'noinline'); 
            if nm.startswith(('spec_','ghost_','law_')): ll.setLinkage(f,0)
        else:
            m.attr(f,'alwaysinline'); ll.setLinkage(f,8); ll.setComdat(f,None)
        if nm!=harness and not nm.startswith(('spec_','ghost_','law_')): ll.setLinkage(f,8); ll.setComdat(f,None)
    ll.setLinkage(h,0)
    pre=cfg.get('pre','function(sroa,early-cse,simplifycfg),')
    m.passes(pre+'always-inline,globaldce,'+(cfg.get('passes') or OPT))
    return m
def base_solver(ex,nf,H,tmo):
    sv=z3.SolverFor('QF_UFBV'); sv.set('timeout',tmo)
    for t in ex.tables:
        for f in t: sv.add(f)
    for f in ex.facts[:nf]: sv.add(f)
    for h in H: sv.add(h)
    return sv
DBG=os.environ.get('DV_HDBG')
def houdini(ex,log,tmo=20000,deadline=None):
    H={h.get_id():(h,d) for h,d in ex.hs}
    groups={}
    for o in ex.obls:
        if isinstance(o.kind,tuple):
            h=o.kind[1]
            key=(o.nf,o.g.get_id(),o.kind[2]); groups.setdefault(key,[]).append(o)
    keys=list(groups); dirty=True; nq=0; passes=0
    while dirty:
        dirty=False; passes+=1
        for k in keys:
            while True:
                live=[o for o in groups[k] if o.kind[1].get_id() in H]
                if not live: break
                if deadline and time.time()>deadline: raise TimeoutError('houdini deadline')
                sv=base_solver(ex,live[0].nf,[h for h,_ in H.values()],tmo)
                sv.add(live[0].g); sv.add(z3.Or(*[z3.Not(o.c) for o in live])) 
                r=sv.check(); nq+=1
                if r==z3.unsat: break
                if r==z3.sat:
                    m=sv.model(); n=0
                    for o in live:
                        if z3.is_false(m.eval(o.c,model_completion=True)):
                            H.pop(o.kind[1].get_id(),None); n+=1
                            if DBG and DBG in o.label: log('dropped '+o.label)
                    if n==0: H.pop(live[0].kind[1].get_id())
                    dirty=True; continue
                # unknown: try one by one
                log(f"houdini: unknown on group of {len(live)} ({live[0].label})")
                drop=[]
                t1=min(tmo,4000) if ex.cfg.get('hints') is None else tmo
                for o in live:
                    sv=base_solver(ex,o.nf,[h for h,_ in H.values()],t1); sv.add(o.g); sv.add(z3.Not(o.c)); nq+=1
                    rr=sv.check()
                    if rr!=z3.unsat:
                        if DBG and DBG in o.label: log(f'dropped ({rr}) '+o.label)
                        drop.append(o)
                        H.pop(o.kind[1].get_id(),None)
                if drop: dirty=True
                break
    return [x for x in H.values()],nq,passes
def needed(ex,H,res,deadline):
    """a small set of invariants that still proves everything (from unsat cores)"""
    by={h.get_id():(h,d) for h,d in H}; need={}; hs=[h for h,_ in H]
    todo=[o for o,st,be,t in res if not z3.is_true(o.c)]
    invo={}
    for o in ex.obls:
        if isinstance(o.kind,tuple) and o.kind[1].get_id() in by: invo.setdefault(o.kind[1].get_id(),[]).append(o)
    done=set()
    def core(o):
        sv=z3.SolverFor('QF_UFBV'); sv.set('timeout',60000)
        for t in ex.tables:
            for f in t: sv.add(f)
        for f in ex.facts[:o.nf]: sv.add(f)
        sv.add(o.g); sv.add(z3.Not(o.c))
        # what is already needed is free
        for h,_ in need.values(): sv.add(h)
        if sv.check()==z3.unsat: return []
        r=sv.check(*[h for h in hs if h.get_id() not in need])
        if r!=z3.unsat: return None
        return [x.get_id() for x in sv.unsat_core()]
    while todo:
        if time.time()>deadline: return None
        o=todo.pop()
        c=core(o)
        if c is None: return None
        for k in c:
            if k not in need:
                need[k]=by[k]; todo+=invo.get(k,[])
    return [d for _,d in need.values()]
def run_workers(jobs,fn,nproc,deadline=None):
    """fork one worker per slice; results come back pickled"""
    res={}; procs=[]
    n=max(1,min(nproc,len(jobs)))
    for w in range(n):
        mine=list(range(w,len(jobs),n))
        rp,wp=os.pipe()
        pid=os.fork()
        if pid==0:
            os.close(rp)
            try:
                with os.fdopen(wp,'wb') as f:
                    for j in mine:
                        pickle.dump((j,fn(jobs[j])),f); f.flush()
            except BaseException as e:
                try: sys.stderr.write('worker: %r\n'%e)
                except Exception: pass
            os._exit(0)
        os.close(wp); procs.append((pid,rp))
    for pid,rp in procs:
        with os.fdopen(rp,'rb') as f:
            while True:
                try: j,v=pickle.load(f)
                except (EOFError,pickle.UnpicklingError): break
                res[j]=v
        os.waitpid(pid,0)
    return res
def smt2(ex,nf,H,extra):
    sv=z3.Solver()
    for t in ex.tables:
        for f in t: sv.add(f)
    for f in ex.facts[:nf]: sv.add(f)
    for h in H: sv.add(h)
    for e in extra: sv.add(e)
    return '(set-logic QF_UFBV)\n'+sv.to_smt2()
def cvc5_check(txt,tmo):
    with tempfile.NamedTemporaryFile('w',suffix='.smt2',delete=False) as f: f.write(txt); p=f.name
    try:
        r=subprocess.run(['cvc5','--tlimit=%d'%tmo,p],capture_output=True,text=True)
        o=r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
    finally: os.unlink(p)
    return o if o in('sat','unsat') else 'unknown'
def discharge(ex,H,cfg,log,nproc=8):
    Hs=[h for h,_ in H]
    jobs=[o for o in ex.obls if not isinstance(o.kind,tuple)]
    groups=[]
    cur={}
    for o in jobs:
        if o.kind in('safety','unsupported','unwind'): cur.setdefault((o.nf),[]).append(o)
        else: groups.append([o])
    for g in cur.values():
        for i in range(0,len(g),24): groups.append(g[i:i+24])
    tmo=cfg.get('timeout',60000)
    def one(os_,backend_first='z3'):
        t0=time.time()
        bad=z3.Or(*[z3.And(o.g,z3.Not(o.c)) for o in os_])
        if all(z3.is_true(o.c) for o in os_): return 'unsat','simplifier',0.0
        sv=base_solver(ex,max(o.nf for o in os_),Hs,tmo); sv.add(bad)
        r=str(sv.check()); be='z3'
        if r=='unknown':
            r=cvc5_check(smt2(ex,max(o.nf for o in os_),Hs,[bad]),tmo); be='cvc5'
        return r,be,time.time()-t0
    def work(grp):
        r,be,t=one(grp)
        if len(grp)==1 or r=='unsat': return [(r,be,t/len(grp))]*len(grp)
        out=[]
        for o in grp: out.append(one([o]))
        return out
    res=run_workers(groups,work,nproc)
    out=[]
    for k,g in enumerate(groups):
        rr=res.get(k) or [('unknown','worker-lost',0.0)]*len(g)
        for o,(r,be,t) in zip(g,rr): out.append((o,{'unsat':'proved','sat':'refuted'}.get(r,'unknown'),be,t))
    return out
def reach_check(ex,H,cfg,nproc=8):
    Hs=[h for h,_ in H]
    def work(r):
        lab,g,nf=r
        sv=base_solver(ex,nf,Hs,cfg.get('reach_timeout',20000)); sv.add(g)
        return str(sv.check())
    res=run_workers(ex.reach,work,nproc)
    return [(ex.reach[k][0],res.get(k,'unknown')) for k in range(len(ex.reach))]
def reset():
    Exec.specuf={}; Exec.strl=[]; Exec.trackidx=[]; Exec.segmemo={}; Exec.subapps=[]
def verify(m,harness,cfg,log=lambda s:None,nproc=8,deadline=None):
    reset()
    t0=time.time()
    ex=Exec(m,cfg)
    ex.specuf={}; ex.strl=[]; ex.trackidx=[]; ex.segmemo={}; ex.userinv=[]
    f=m.fn(harness)
    val,mem,g=ex.call_fn(f,[],TRUE,{})
    t1=time.time()
    log(f"vcgen {t1-t0:.1f}s facts={len(ex.facts)} obls={len(ex.obls)} cands={len(ex.hs)}")
    H,nq,ps=houdini(ex,log,cfg.get('houdini_timeout',20000),deadline)
    t2=time.time()
    log(f"houdini {t2-t1:.1f}s kept={len(H)} queries={nq} passes={ps}")
    res=discharge(ex,H,cfg,log,nproc)
    rc=reach_check(ex,H,cfg,nproc)
    t3=time.time()
    log(f"discharge {t3-t2:.1f}s")
    return dict(ex=ex,H=H,res=res,reach=rc,t_vcgen=t1-t0,t_houdini=t2-t1,t_discharge=t3-t2,houdini_queries=nq)
