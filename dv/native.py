"""Native execution of the same IR that is verified: retargeted, instrumented
with AddressSanitizer, driven by libFuzzer; also replays solver models."""
import os, subprocess, ctypes, glob, re
import llvmc as ll
CL='/usr/lib/llvm-18/bin/clang'
setName=ll._f("LLVMSetValueName2",None,ll.P,ll.S,ll.C.c_size_t)
delGlobal=ll._f("LLVMDeleteGlobal",None,ll.P)
RENAME={'wcslen':'dv_wcslen','free':'dv_free'}
def build(bcs,units,out,work,replace=None,ctors=False,extra=()):
    m=ll.Module(bcs); ll.stripDI(m.m)
    for a,b in (replace or {}).items():
        fa=m.fn(a); fb=m.fn(b)
        if fa and fb: ll.rauw(fa,fb)
    for g in list(m.globals()):
        n=ll.vname(g)
        if n=='llvm.global_ctors' and not ctors: delGlobal(g)
        elif n.startswith('llvm.'): 
            if n!='llvm.global_ctors': delGlobal(g)
        else: ll.setDll(g,0); ll.setComdat(g,None)
    for f in list(m.functions()):
        n=ll.vname(f); ll.setDll(f,0)
        if ll.isDecl(f):
            if n in RENAME: setName(f,RENAME[n].encode(),len(RENAME[n]))
            continue
        for a in('noinline','optnone','uwtable'): m.attr(f,a,False)
        m.attr(f,'sanitize_address')
        ll.setComdat(f,None)
        if n not in units: ll.setLinkage(f,8)
        else: ll.setLinkage(f,0)
    for g in m.globals():
        if not ll.isDecl(g): ll.setLinkage(g,8)
    m.passes('globaldce')
    ll.setTriple(m.m,b'x86_64-unknown-linux-gnu')
    ll.setDL(m.m,b'e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128')
    p=out+'.ll'; m.dump(p)
    t=open(p).read()
    t=re.sub(r'\bwin64cc\b|\bdllimport\b|\bdllexport\b','',t)
    t=re.sub(r'section "\.CRT[^"]*",?','',t)
    open(p,'w').write(t)
    tab=out+'_tab.c'
    have=[u for u in units if m.fn(u)]
    open(tab,'w').write(''.join(f'extern void {u}(void);\n' for u in have)+'struct {const char*n; void(*f)(void);} dv_units[]={'+''.join(f'{{"{u}",{u}}},' for u in have)+'{0,0}};\n')
    here=os.path.dirname(os.path.abspath(__file__))
    r=subprocess.run([CL,'-O1','-g0','-w','-fsanitize=address,fuzzer',p,tab,here+'/rt.c','-o',out,'-lstdc++','-lm','-Wl,--unresolved-symbols=ignore-all','-no-pie','-fno-pie']+list(extra),capture_output=True,text=True)
    if r.returncode: raise RuntimeError('native build: '+r.stderr[-2000:])
    return out
def fuzz(exe,unit,secs,work,seed=1,nproc=4,seeds=(),maxlen=256):
    """returns (failing_input_path|None, message, executions, reached)"""
    import time
    procs=[]; base=os.path.join(work,'fz_'+unit); os.makedirs(base,exist_ok=True)
    for k in range(nproc):
        d=f'{base}/{k}'; os.makedirs(d+'/c',exist_ok=True)
        for j,s in enumerate(seeds):
            open(f'{d}/c/seed{j}','wb').write(s)
        env=dict(os.environ,DV_UNIT=unit,DV_STATS=d+'/stats',ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:symbolize=0:handle_abort=1:allocator_may_return_null=1')
        env.pop('DV_VERBOSE',None)
        # different value-profile / length settings per worker
        args=[exe,d+'/c',f'-seed={seed*100+k+1}',f'-max_total_time={secs}',f'-artifact_prefix={d}/','-timeout=10','-rss_limit_mb=3000','-print_final_stats=1','-verbosity=0' if False else '-close_fd_mask=1',f'-use_value_profile={k%2}',f'-max_len={[24,maxlen,64,512][k%4]}','-reload=0']
        procs.append((k,d,subprocess.Popen(args,env=env,stdout=subprocess.DEVNULL,stderr=open(d+'/log','w'))))
    hit=None; t0=time.time()
    while True:
        run=[p for _,_,p in procs if p.poll() is None]
        done=[(k,d,p) for k,d,p in procs if p.poll() is not None and p.returncode!=0]
        if done or not run: break
        if time.time()-t0>secs+30: break
        time.sleep(0.1)
    for k,d,p in procs:
        if p.poll() is None: p.kill()
    for k,d,p in procs: p.wait()
    ex=0; rc=0
    for k,d,p in procs:
        log=open(d+'/log',errors='replace').read()
        m=re.findall(r'stat::number_of_executed_units:\s*(\d+)',log)
        if m: ex+=int(m[-1])
        else:
            m=re.findall(r'^#(\d+)',log,re.M)
            if m: ex+=int(m[-1])
        try: rc+=int(open(d+'/stats').read().split()[1])
        except Exception: pass
        cr=[x for x in glob.glob(d+'/crash-*')+glob.glob(d+'/timeout-*')]
        if cr and hit is None: hit=(cr[0],failmsg(log))
    if hit: return hit[0],hit[1],ex,rc
    return None,None,ex,rc
def failmsg(log):
    m=re.search(r'DV-FAILED: (.*)',log)
    if m: return m.group(1)
    m=re.search(r'ERROR: AddressSanitizer: (\S+)',log)
    if m: return 'memory error: '+m.group(1)
    m=re.search(r'ERROR: libFuzzer: (.*)',log)
    return m.group(1) if m else 'crash'
def minimize(exe,unit,path,work,msg,secs=10):
    """smaller input with the same failure, by simple deletion"""
    import time
    data=open(path,'rb').read(); t0=time.time()
    tmp=os.path.join(work,'min_'+unit)
    def bad(b):
        open(tmp,'wb').write(b)
        r=run1(exe,unit,tmp)
        return r[0] and r[1]==msg
    step=max(1,len(data)//2)
    while step>=1 and time.time()-t0<secs:
        i=0
        while i<len(data) and time.time()-t0<secs:
            c=data[:i]+data[i+step:]
            if c!=data and bad(c): data=c
            else: i+=step
        step//=2
    open(tmp,'wb').write(data)
    return tmp
def run1(exe,unit,inp,verbose=False):
    env=dict(os.environ,DV_UNIT=unit,ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:symbolize=0:handle_abort=1:allocator_may_return_null=1')
    env.pop('DV_STATS',None)
    if verbose: env['DV_VERBOSE']='1'
    try:
        r=subprocess.run([exe,inp,'-close_fd_mask=1','-timeout=10'],env=env,capture_output=True,timeout=60)
    except subprocess.TimeoutExpired: return True,'hang','hang'
    log=r.stderr.decode('utf8','replace')
    return r.returncode!=0,failmsg(log),log
