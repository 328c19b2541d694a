"""Checks over symbolic source text: explore the real compiler on text with symbolic bytes,
decide a condition on every path with Z3, replay counterexamples on the native build."""
import core, z3, time, json, os, tempfile, shutil
import multiprocessing as mp
def B(name,i=0): return z3.BitVec('%s#%d'%(name,i),8)
def Bs(name,n): return [B(name,i) for i in range(n)]
def concretize(segs,model,choices):
    """segments -> bytes under a model {var: int} and choices"""
    out=b''
    for s in ([segs] if isinstance(segs,(str,dict)) else segs):
        if isinstance(s,str): out+=s.encode('utf-8','surrogateescape')
        elif 'hex' in s: out+=bytes.fromhex(s['hex'])
        elif 'sym' in s:
            for i in range(s.get('n',1)):
                v=model.get('%s#%d'%(s['sym'],i))
                if v is None: v=s['in'][0][0] if s.get('in') else 0
                out+=bytes([int(v)&255])
        elif 'choice' in s: out+=concretize(s['alts'][int(choices.get(s['choice'],0))],model,choices)
    return out
class Ob:
    """one obligation: segs (or (segs, choice alternatives)), bad(path, env)->z3 term or list, confirm(text, model)->str or None"""
BADKINDS=('crash','memory-error','abort','timeout','assert')
def _one(i):
    g,ps=WORK[i]
    return decide(g,ps)
def zmodel(m): return {str(d):m[d].as_long() for d in m.decls() if d.arity()==0 and z3.is_bv(m[d])}
def decide(g,paths):
    """g: dict with key, bad, assume(list) -> (findings, limits, queries, time, covered)"""
    found=[]; lim=[]; q=0; t0=time.time(); cov=0
    for p in paths:
        if p.kind=='infeasible': continue
        if p.kind in('engine-limit','budget'): lim.append('%s %s'%(p.kind,p.msg[:80])); continue
        try: pc=p.pc()
        except Exception as ex: lim.append(repr(ex)[:80]); continue
        s=z3.Solver(); s.set('timeout',g.get('timeout',20000)); s.add(*pc); s.add(*g.get('assume',[]))
        if p.kind in BADKINDS and not g.get('badkinds_ok'):
            q+=1; c=s.check()
            if c==z3.sat: found.append(('%s %s at %s'%(p.kind,p.msg,p.bt[:3]),zmodel(s.model()),p.choices))
            elif c!=z3.unsat: lim.append('solver gave up')
            continue
        try: bads=g['bad'](p)
        except core_limit() as ex: lim.append('%s'%ex); continue
        if not isinstance(bads,(list,tuple)): bads=[('',bads)]
        for lbl,b in bads:
            if b is False: continue
            b=z3.BoolVal(True) if b is True else z3.simplify(b)
            if z3.is_false(b): continue
            s.push(); s.add(b); q+=1; c=s.check()
            if c==z3.sat: found.append((lbl,zmodel(s.model()),p.choices))
            elif c!=z3.unsat: lim.append('solver gave up')
            s.pop()
        cov+=1
    return found,lim,q,time.time()-t0,cov
def core_limit():
    import rv
    return (rv.AsmError,rv.Limit)
def run(r,fam,groups,timeout=300,max_paths=400000,par=True,maxreplay=4,abshash=False):
    """groups: dicts key, segs, bad, confirm, assume, opts, files; those with equal opts/files run in one scenario"""
    global WORK
    WORK=[]; batches={}
    for g in groups: batches.setdefault((tuple(g.get('opts',())),json.dumps(g.get('files',{}),sort_keys=True),int(g.get('lits',0)),g.get('solo',0)),[]).append(g)
    for (opts,files,lits,_),gs in batches.items():
        for b in range(0,len(gs),100):
            part=gs[b:b+100]
            segs=[{'choice':'@','alts':[g['segs'] for g in part]}] if len(part)>1 else part[0]['segs']
            by=[[] for _ in part]
            t1=time.time()
            for p in core.cc1(segs,opts,files=json.loads(files),lits=lits,abshash=abshash,timeout=timeout,max_paths=max_paths,label=fam):
                i=int(p.choices.get('@',-1)) if len(part)>1 else 0
                if i>=0: by[i].append(p)
            if os.environ.get('SLOW'): print('explored %s: %d groups %d paths %.1fs'%(fam,len(part),sum(map(len,by)),time.time()-t1), sorted(((len(b),g['key']) for g,b in zip(part,by)),reverse=True)[:6],flush=True)
            WORK+=list(zip(part,by))
    res=core.pmap(_one,range(len(WORK)),lambda i:([],['worker out of memory or time'],0,0.0,0))
    if os.environ.get('SLOW'): print('decided',sorted(((round(x[3],1),g['key']) for (g,_),x in zip(WORK,res)),reverse=True)[:8],flush=True)
    n=ok=0
    for (g,ps),(found,lim,q,t,cov) in zip(WORK,res):
        n+=1; r.obl+=1; r.q+=q; r.solver+=t; r.paths+=len(ps); r.programs+=1; r.checked+=cov
        hit=False
        for lbl,m,ch in found[:3]:
            txt=concretize(g['segs'],m,ch); r.replays+=1
            try: c=g['confirm'](txt,m)
            except Exception as ex: c=None; lbl+=' [replay failed: %r]'%ex
            if c: r.violation('%s:%s'%(fam,g['key']),'%s\n%s\ninput: %r'%(lbl,c,txt),{'input.c':txt}); hit=True; break
            else: r.unconf.append((g['key'],lbl+' on %r'%txt[:200]))
        if found: continue
        if lim: r.inconc.append((g['key'],lim[0])); continue
        if not cov: r.inconc.append((g['key'],'no completed path')); continue
        ok+=1; r.disch+=1
        if n%53==1: r.sample({'family':fam,'input':json.dumps(g['segs'])[:300],'paths':len(ps)})
    r.family(fam,n,ok)
def native(txt,opts=(),timeout=20): return core.native_asm(txt,timeout=timeout,opts=opts)
def crashed(rc): return rc<0 or rc>128
