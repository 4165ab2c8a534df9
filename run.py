#!/opt/veriftools/pyvenv/bin/python3
"""run.py <property> [--tier quick|thorough] : prove every contract of the
property on /repo's current source; on failure look for a concrete failing
input and replay it on the real code."""
import os, sys, json, time, tempfile, shutil, pickle, signal, resource, traceback, argparse, subprocess
HERE=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,HERE+'/dv'); sys.path.insert(0,HERE+'/contracts')
REPO=os.environ.get('DV_REPO','/repo')
import prove, native, vc, llvmc as ll
from props import PROPS
RECORD=False; HINTS={}
def log(*a): print(*a,flush=True)
def prove_unit(bcs,u,cfgs,work,nproc,budget):
    """run strategies until one proves everything; returns a summary dict"""
    best=None; t_end=time.time()+budget; lines=[]
    for si,cfg in enumerate(cfgs):
        left=t_end-time.time()
        if left<5: break
        t0=time.time()
        try:
            m=prove.prepare(bcs,u['fn'],cfg)
            r=prove.verify(m,u['fn'],cfg,log=lambda s:lines.append(s),nproc=nproc,deadline=time.time()+left)
            soft=any('houdini: unknown' in l for l in lines) or getattr(r['ex'],'entry_unknown',False) or cfg.get('hints') is not None
        except (vc.Unsupported,TimeoutError,RuntimeError) as e:
            lines.append(f'strategy {si}: {type(e).__name__}: {e}')
            cur=dict(ok=False,err=f'{type(e).__name__}: {e}',obl=[],reach=[],strategy=si,inv=[],t=time.time()-t0)
            if best is None: best=cur
            continue
        ob=[(o.label,o.kind if isinstance(o.kind,str) else 'inv',st,be,t) for o,st,be,t in r['res']]
        ninv=len([o for o in r['ex'].obls if isinstance(o.kind,tuple) and any(h.get_id()==o.kind[1].get_id() for h,_ in r['H'])])
        bad=[x for x in ob if x[2]!='proved']
        reach=r['reach']
        vac=[x for x in reach if x[1]=='unsat']
        if not reach: vac=[('no reachability marker executed','unsat')]
        nas=len([x for x in ob if x[1]=='assert'])
        if nas==0: vac.append(('no assertion generated','unsat'))
        cur=dict(ok=not bad and not vac,err=None,obl=ob,ninv=ninv,inv=[d for _,d in r['H']],reach=reach,vac=vac,strategy=si,
                 t=time.time()-t0,th=r['t_houdini'],tv=r['t_vcgen'],td=r['t_discharge'],nq=r['houdini_queries'],nfacts=len(r['ex'].facts),soft=soft,hinted=cfg.get('hints') is not None,loops=[(l['name'],l['ncand']) for l in r['ex'].loopinfo])
        def score(c): return (c['ok'],c['err'] is None,not c.get('hinted'),-len([x for x in c['obl'] if x[2]!='proved']))
        if best is None or score(cur)>score(best): best=cur
        if cur['ok'] and RECORD:
            nd=prove.needed(r['ex'],r['H'],r['res'],time.time()+600) if cfg.get('hints') is None else None
            cur['hint']=None
            for small,inv,extra in ((True,nd,{}),(True,nd,dict(hintspec=True)),(False,cur['inv'],dict(hintspec=True))):
                # a reduced set has to prove everything on its own
                if inv is None: continue
                try:
                    c2=dict(cfg); c2.update(extra); c2['hints']=set(inv); t1=time.time()
                    m2=prove.prepare(bcs,u['fn'],c2); r2=prove.verify(m2,u['fn'],c2,nproc=nproc,deadline=time.time()+300)
                    if all(x[1]=='proved' for x in r2['res']): cur['hint']=dict(strategy=si,inv=sorted(inv),small=small,cfg=extra,t=round(time.time()-t1,1)); break
                except (vc.Unsupported,TimeoutError,RuntimeError): pass
        if cur['ok']: break
    best=best or dict(ok=False,err='no time',obl=[],reach=[],strategy=-1,inv=[],t=0)
    best['log']=lines
    return best
def spawn(fn,mem_gb):
    r,w=os.pipe(); pid=os.fork()
    if pid==0:
        os.close(r); os.setpgid(0,0)
        resource.setrlimit(resource.RLIMIT_AS,(int(mem_gb*2**30),)*2)
        try: res=fn()
        except BaseException as e: res=dict(ok=False,err=f'{type(e).__name__}: {e}',obl=[],reach=[],strategy=-1,inv=[],t=0,log=[traceback.format_exc()])
        with os.fdopen(w,'wb') as f: pickle.dump(res,f)
        os._exit(0)
    os.close(w); 
    try: os.setpgid(pid,pid)
    except OSError: pass
    return pid,r
def run_all(tasks,par,deadline):
    """tasks: list of (key,fn,mem); run at most par at once"""
    import select
    out={}; live={}; q=list(tasks)
    while q or live:
        while q and len(live)<par:
            k,fn,mem=q.pop(0); pid,r=spawn(fn,mem); live[r]=(k,pid,bytearray())
        rl,_,_=select.select(list(live),[],[],1.0)
        for r in rl:
            b=os.read(r,1<<16)
            k,pid,buf=live[r]
            if b: buf.extend(b); continue
            os.close(r); os.waitpid(pid,0); del live[r]
            try: out[k]=pickle.loads(bytes(buf))
            except Exception: out[k]=dict(ok=False,err='worker died',obl=[],reach=[],strategy=-1,inv=[],t=0,log=[])
        if time.time()>deadline:
            for r,(k,pid,buf) in live.items():
                try: os.killpg(pid,signal.SIGKILL)
                except OSError: pass
                os.waitpid(pid,0); os.close(r)
                out[k]=dict(ok=False,err='time limit',obl=[],reach=[],strategy=-1,inv=[],t=0,log=[])
            for k,_,_ in q: out[k]=dict(ok=False,err='time limit',obl=[],reach=[],strategy=-1,inv=[],t=0,log=[])
            break
    return out
def main():
    ap=argparse.ArgumentParser(); ap.add_argument('id'); ap.add_argument('--tier',default=os.environ.get('VERIF_TIER','quick')); ap.add_argument('--unit'); ap.add_argument('-v',action='store_true'); ap.add_argument('--nofuzz',action='store_true'); ap.add_argument('--replay')
    ap.add_argument('--record',action='store_true'); a=ap.parse_args()
    global RECORD,HINTS
    RECORD=a.record; hp=f'{HERE}/contracts/hints/{a.id}.json'
    HINTS=json.load(open(hp)) if os.path.exists(hp) else {}
    P=PROPS[a.id]; seed=int(os.environ.get('VERIF_SEED','1') or 1); T0=time.time()
    thorough=a.tier=='thorough'
    budget=float(os.environ.get('DV_BUDGET','0')) or (6000 if a.record else 2400 if thorough else 560)
    work=tempfile.mkdtemp(prefix=f'dv_{a.id}_'); rc=2
    try: rc=check(a,P,seed,T0,thorough,budget,work)
    except RuntimeError as e:
        log(f'ERROR property={a.id}: {e}'); rc=2
    finally: shutil.rmtree(work,ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)
def check(a,P,seed,T0,thorough,budget,work):
    units=[u for u in P['units'] if not a.unit or u['fn']==a.unit]
    files={}
    comp=[]
    for u in units:
        k=(u.get('src',P.get('src')),tuple(u.get('defs',P.get('defs',()))))
        files.setdefault(k,None)
        u['_k']=k
    prove.gen_dir(REPO,work)
    def compile_one(k,n):
        def f():
            src,defs=k
            os.makedirs(f'{work}/u{n}',exist_ok=True)
            out=[]
            srcs=[src] if isinstance(src,str) else list(src)
            for j,s in enumerate(srcs):
                p=HERE+'/contracts/'+s if not s.startswith('@') else REPO+'/'+s[1:]
                out.append(prove.compile_bc(REPO,p,f'{work}/u{n}/{j}.bc',work,extra=['-DNDEBUG','-I'+HERE+'/contracts','-I'+REPO]+list(defs)))
            fns=sorted({u['fn'] for u in units if u['_k']==k})
            nat=None; err=None
            try: nat=native.build(out,fns,f'{work}/u{n}/nat',work,replace=P.get('native_replace'))
            except Exception as e: err=str(e)
            return dict(ok=True,bcs=out,nat=nat,naterr=err,err=None)
        return f
    keys=list(files)
    cr=run_all([(k,compile_one(k,n),64) for n,k in enumerate(keys)],8,T0+300)
    for k in keys:
        if cr[k].get('err'): raise RuntimeError('extraction failed: '+str(cr[k]['err'])[-1500:])
        if cr[k].get('naterr'): log('note: native build failed: '+cr[k]['naterr'][-600:])
    if a.replay:
        rj=json.load(open(a.replay)); u=units[0]; inp=work+'/in'; open(inp,'wb').write(bytes.fromhex(rj['input_hex']))
        bad,msg,tr=native.run1(cr[u['_k']]['nat'],u['fn'],inp,verbose=True)
        log('\n'.join(l for l in tr.split('\n') if l.startswith('  ') and '=' in l or 'DV-FAILED' in l or 'ERROR' in l)); log('REPRODUCED: '+str(msg) if bad else 'not reproduced')
        return 1 if bad else 0
    par=max(1,min(len(units),8)); inner=max(1,8//par)
    pb=budget*0.6
    def mk(u):
        def f():
            cfgs=u.get('strategies',P.get('strategies',[{}]))
            base=dict(P.get('cfg',{})); base.update(u.get('cfg',{}))
            cs=[]
            for c in cfgs:
                d=dict(base); d.update(c); cs.append(d)
            h=HINTS.get(u['fn'])
            if h and not RECORD and h['strategy']<len(cs): d=dict(cs[h['strategy']]); d.update(h.get('cfg') or {}); d['hints']=set(h['inv']); cs=[d]+cs
            return prove_unit(cr[u['_k']]['bcs'],u,cs,work,inner,min(u.get('budget',pb),pb))
        return f
    res=run_all([(u['fn'],mk(u),12) for u in sorted(units,key=lambda u:-u.get('weight',1)) if not u.get('bounded')],par,T0+budget*0.7)
    bnd=[u for u in units if u.get('bounded')]
    for u in bnd: res[u['fn']]=dict(ok=False,err=None,obl=[],reach=[],strategy=-1,inv=[],t=0,log=[])
    proved=[u for u in units if res[u['fn']]['ok']]
    if RECORD:
        os.makedirs(f'{HERE}/contracts/hints',exist_ok=True)
        for u in units:
            h=res[u['fn']].get('hint')
            if h: HINTS[u['fn']]=h; log('recorded',u['fn'],len(h['inv']),'of',len(res[u['fn']]['inv']),'' if h['small'] else '(not reduced)',h['cfg'],h['t'])
            else: log('NOT recorded',u['fn'],res[u['fn']]['ok'])
        json.dump({k:HINTS[k] for k in sorted(HINTS)},open(f'{HERE}/contracts/hints/{a.id}.json','w'),indent=0)
        return 0
    failed=[u for u in units if not res[u['fn']]['ok'] and not u.get('bounded')]
    for u in units:
        if u in bnd: continue
        r=res[u['fn']]
        n=len(r['obl']); d=len([x for x in r['obl'] if x[2]=='proved'])
        log(f"{'PROVED ' if r['ok'] else 'NOT PROVED'} {u['fn']}: {d}/{n} obligations, {r.get('ninv',0)} invariant obligations, strategy {r['strategy']}, {r['t']:.1f}s" + (f" [{r['err']}]" if r['err'] else ''))
        if a.v:
            for l in r.get('log',[]): log('   ',l)
            for d in r['inv']: log('    inv',d)
        if a.v or not r['ok']:
            for x in r['obl']:
                if x[2]!='proved': log('    ',x[2],x[1],x[0])
            for x in r.get('vac') or []: log('     VACUOUS:',x)
    # ---- concrete search: always a short sanity run, long for what is not proved
    viol=[]; fz={}
    def hunt(u,secs,nproc):
        nat=cr[u['_k']]['nat']
        if not nat: return None
        hit,msg,ex,rch=native.fuzz(nat,u['fn'],secs,work,seed=seed,nproc=nproc,maxlen=u.get('maxlen',160))
        f=fz.setdefault(u['fn'],[0,0]); f[0]+=ex; f[1]+=rch
        if hit:
            ok,msg,_=native.run1(nat,u['fn'],hit)
            if not ok: return None
            mn=native.minimize(nat,u['fn'],hit,work,msg)
            _,msg2,tr=native.run1(nat,u['fn'],mn,verbose=True)
            return dict(unit=u['fn'],msg=msg,input=open(mn,'rb').read().hex(),trace='\n'.join(l for l in tr.split('\n') if l.startswith('  ') and '=' in l or 'DV-FAILED' in l or 'ERROR' in l)[:4000])
        return None
    if not a.nofuzz:
        order=failed+bnd
        left=budget-(time.time()-T0)
        for u in order:
            if u.get('nonative'): continue
            if u in failed: secs=min(u.get('hunt',90 if not thorough else 300),max(10,left/ max(1,len(failed))*0.8)); npc=8
            else: secs=u.get('bsecs',25) if not thorough else 600; npc=8
            h=hunt(u,int(secs),npc)
            if h: viol.append(h)
            if viol and u in failed: break
        from concurrent.futures import ThreadPoolExecutor
        sane=[u for u in proved if not u.get('nonative')] if not viol else []
        with ThreadPoolExecutor(1 if thorough else 4) as tp:
            viol+=[h for h in tp.map(lambda u: hunt(u,u.get('sanity',3) if not thorough else 40,2 if not thorough else 8),sane) if h]
    for k in known_findings(a.id):
        # the excluded input is replayed on the real code every run
        uk=[u for u in units if u['fn']==k['unit']]
        if not uk or k.get('status')!='open': continue
        inp=work+'/kf'; open(inp,'wb').write(bytes.fromhex(k['input_hex']))
        nat=cr[uk[0]['_k']]['nat']
        if nat and native.run1(nat,k['unit'],inp)[0]: log(f"KNOWN-FINDING: property={a.id} {k['what']}")
    rep=None; code=0; kind=None
    os.makedirs(HERE+'/evidence',exist_ok=True)
    if viol:
        v=viol[0]; u=[x for x in units if x['fn']==v['unit']][0]
        rep=f'{HERE}/evidence/replay_{a.id}.json'
        json.dump(dict(property=a.id,unit=v['unit'],failed=v['msg'],input_hex=v['input'],inputs=v['trace'],how=f"python3 {HERE}/replay.py {rep}",
            failed_obligations=[x[0] for x in res[v['unit']]['obl'] if x[2]!='proved']),open(rep,'w'),indent=1)
        log(v['trace']); log(f"failing input found on the real code: {v['unit']}: {v['msg']}")
        log(f'VIOLATION property={a.id} replay={rep}'); code=1; kind='input'
    else:
        # an obligation the solver refuted (not a timeout, not an unsupported construct)
        ref=[]
        for u in failed:
            r=res[u['fn']]
            for x in r['obl']:
                if x[2]=='refuted' and x[1] in('assert','safety'): ref.append((u['fn'],x))
        uns=[u for u in failed if res[u['fn']]['err'] or res[u['fn']].get('soft') or any(x[2]!='proved' and x[1] in('unsupported','unwind') for x in res[u['fn']]['obl']) or (res[u['fn']].get('vac'))]
        ref=[x for x in ref if x[0] not in [u['fn'] for u in uns]]
        if ref:
            rep=f'{HERE}/evidence/replay_{a.id}.json'
            json.dump(dict(property=a.id,unit=ref[0][0],failed_obligations=[f"{f}: {x[0]}" for f,x in ref],solver=[[f,x[0],x[2],x[3]] for f,x in ref],note='the verifier refuted this obligation from the loop invariants it could establish; concrete search found no failing input'),open(rep,'w'),indent=1)
            for f,x in ref: log(f'failed obligation {f}: {x[0]} ({x[3]}: {x[2]})')
            log(f'VIOLATION property={a.id} replay={rep} no-failing-input-found'); code=1; kind='obligation'
        elif failed:
            vac=[u for u in failed if res[u['fn']].get('vac')]
            nofz=[u for u in failed if fz.get(u['fn'],[0,0])[1]==0]
            if vac or nofz:
                log(f"ERROR property={a.id}: undecided: "+', '.join(u['fn'] for u in vac+nofz)); code=2
            else:
                for u in failed: log(f"BOUNDED {u['fn']}: proof not re-established ({res[u['fn']]['err'] or 'solver gave no answer'}); bounded search of the real code stands in: {fz[u['fn']][0]} executions, {fz[u['fn']][1]} reached the postcondition, no failure")
    for u in bnd:
        if fz.get(u['fn'],[0,0])[1]==0 and code==0 and not a.nofuzz: log(f"ERROR property={a.id}: bounded unit {u['fn']} never reached its postcondition"); code=2
        log(f"BOUNDED {u['fn']}: {u['bounded']}; {fz.get(u['fn'],[0,0])[0]} executions of the real code, {fz.get(u['fn'],[0,0])[1]} reached the postcondition")
    allob=[(u['fn'],)+tuple(x) for u in units for x in res[u['fn']]['obl']]
    ninv=sum(res[u['fn']].get('ninv',0) for u in units)
    nd=len([x for x in allob if x[3]=='proved'])+ninv
    by={}
    for x in allob:
        if x[3]=='proved': by[x[4]]=by.get(x[4],0)+1
    by['z3 (invariants)']=ninv
    if not (len(allob)>0): log('ERROR: no obligations'); code=code or 2
    ev=dict(property=a.id,tier=a.tier,seed=seed,level=P.get('level','proof') if not failed else ('proof' if code==1 else 'exploration'),
      coverage=dict(obligations=len(allob)+ninv,discharged=nd,checker_cmd=f'python3 {HERE}/run.py {a.id} --tier {a.tier}',
        functions_under_contract=P.get('functions',[]),discharged_by=by,
        solver_time_s=round(sum(x[5] for x in allob)+sum(res[u['fn']].get('th',0) for u in units),2),
        units=[dict(unit=u['fn'],what=u.get('what',''),proved=res[u['fn']]['ok'],obligations=len(res[u['fn']]['obl'])+res[u['fn']].get('ninv',0),
            discharged=len([x for x in res[u['fn']]['obl'] if x[2]=='proved'])+res[u['fn']].get('ninv',0),strategy=res[u['fn']]['strategy'],
            loops=res[u['fn']].get('loops'),reachability=[list(x) for x in res[u['fn']]['reach']],error=res[u['fn']]['err'],
            bounded_stand_in=u.get('bounded') or (not res[u['fn']]['ok'] and code==0),seconds=round(res[u['fn']]['t'],1)) for u in units],
        concrete_executions={k:dict(executions=v[0],reached_postcondition=v[1]) for k,v in fz.items()},
        trusted_base=['clang 18 front end and the LLVM passes sroa/early-cse/simplifycfg/instcombine/always-inline/loop-simplify/lcssa','the VC generator in /verif/dv (vc.py, prove.py)','z3 5.3.2, cvc5 1.1.2']+P.get('trusted',[])),
      assumptions=P.get('assumptions',[])+COMMON,wall_s=round(time.time()-T0,1),violations=1 if code==1 else 0)
    json.dump(ev,open(f'{HERE}/evidence/{a.id}.json','w'),indent=1)
    if code==0: log(f"OK property={a.id} {nd}/{len(allob)+ninv} obligations discharged, {len(proved)}/{len(units)-len(bnd)} units proved"+(f', {len(bnd)} bounded' if bnd else '')+f", {ev['wall_s']}s")
    return code
def known_findings(pid):
    p=HERE+'/known_findings.json'
    return [k for k in json.load(open(p))['findings'] if k['property']==pid] if os.path.exists(p) else []
COMMON=['signed overflow wraps (compiled with -fwrapv, as the -O0 build behaves)','distinct objects do not overlap; pointers are compared inside one object','assert() is compiled out (NDEBUG); its conditions are not assumed','termination of loops is not proved unless a unit says so']
main()
