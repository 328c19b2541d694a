"""Translation validation of emitted code: toycc's output against gcc's for the same
program, both executed symbolically (rv.py); the solver decides equality of everything
observable for all inputs."""
import os, re, time, signal, json, traceback, multiprocessing as mp
import z3, rv, core
from rv import *

class Case:
    """name; src: C text (or dict {'A':..,'B':..} of two translation units);
    params: list of kinds; ret: kind; externs: {name:(argkinds,retkind[,havoc])};
    bufs: sizes of pointer-parameter buffers; outs: globals compared (all written ones are)"""
    def __init__(c, name, src, params=(), ret='i', externs=None, entry='f', assume=None, havoc=True, mix=None, max_paths=120, max_steps=20000, opts=(), oracle=None, alias=None, group='', ptrglobs=None, boolmem=False, max_cand=80, limit=150):
        c.limit=limit
        c.boolmem=boolmem; c.max_cand=max_cand
        c.name=name; c.src=src; c.params=list(params); c.ret=ret; c.externs=externs or {}; c.entry=entry
        c.assume=assume; c.havoc=havoc; c.mix=mix; c.max_paths=max_paths; c.max_steps=max_steps; c.opts=tuple(opts); c.oracle=oracle; c.alias=alias; c.group=group; c.ptrglobs=ptrglobs or {}
    def key(c): return c.name

IW={'i8':8,'u8':8,'i16':16,'u16':16,'i32':32,'u32':32,'i64':64,'u64':64,'bool':1}
def entry_regs(case):
    """-> (x, f, stackmem, bufs, inputs) symbolic argument registers per the lp64d ABI"""
    x={}; f={}; mem={}; bufs=[]; ins=[]
    xi=fi=0; so=0
    def putx(v):
        nonlocal xi,so
        if xi<8: x[A0+xi]=v; xi+=1
        else:
            for i in range(8): mem[SP0+so+i]=(v,i)
            so+=8
    nb=0
    for n,k in enumerate(case.params):
        nm='p%d'%n
        if k[0]=='=':           # =N: a concrete integer argument
            putx(int(k[1:])&M64)
        elif k in IW:
            w=IW[k]; v=z3.BitVec(nm,w); ins.append((nm,k,v))
            if w==64: e=v
            elif k in('u8','u16','bool'): e=z3.ZeroExt(64-w,v)
            else: e=z3.SignExt(64-w,v)     # i8,i16,i32 and, per the ABI, u32
            putx(e)
        elif k in('f','d'):
            w=32 if k=='f' else 64; v=z3.BitVec(nm,w); ins.append((nm,k,v))
            r=box(v) if w==32 else v
            if fi<8: f[FA0+fi]=r; fi+=1
            else: putx(z3.ZeroExt(32,v) if w==32 else v)
        elif k=='ld':
            a,b=z3.BitVec(nm,64),z3.BitVec(nm+'h',64); ins.append((nm,'i64',a)); ins.append((nm+'h','i64',b))
            putx(a); putx(b)
        elif k[0]=='p':         # pN: pointer to N symbolic bytes
            sz=int(k[1:]); a=BUF0+0x10000*nb; nb+=1
            if case.alias and n in case.alias: a=BUF0+0x10000*case.alias[n]
            bufs.append((a,sz)); putx(a)
        elif k[0]=='q':         # qN: pointer to the middle of N bytes
            sz=int(k[1:]); a=BUF0+0x10000*nb; nb+=1
            bufs.append((a,sz)); putx(a+sz//2)
        else: raise ValueError(k)
    return x,f,mem,bufs,ins

def ret_pairs(ret, A, B):
    if ret=='v': return []
    if ret=='f': return [('fa0',lo(A.f[FA0],32),lo(B.f[FA0],32))]
    if ret=='d': return [('fa0',A.f[FA0],B.f[FA0])]
    if ret=='ld' or ret=='i128': return [('a0',A.x[A0],B.x[A0]),('a1',A.x[A0+1],B.x[A0+1])]
    return [('a0',A.x[A0],B.x[A0])]

def byteval(b):
    if isinstance(b,tuple):
        v,k=b
        if isint(v): return (v>>(8*k))&255
        if v.size()==8 and k==0: return v
        return z3.Extract(8*k+7,8*k,v)
    return b

def mem_pairs(exA,A,exB,B,written=None):
    """pairs of the program-visible bytes either side wrote"""
    ws=sorted(written if written is not None else (A.written|B.written))
    out=[]; i=0
    while i<len(ws):
        n=1
        while n<8 and i+n<len(ws) and ws[i+n]==ws[i]+n: n+=1
        a=ws[i]
        if SP0<=a<SP0+0x200: i+=n; continue          # own incoming argument area may be reused
        out.append(('mem_%x'%a,exA.load_c(A,a,n),exB.load_c(B,a,n)))
        i+=n
    return out

class Diff(Exception):
    def __init__(d,what,model,sides=None): d.what=what; d.model=model; d.sides=sides

def priv(a):
    return isint(a) and (SP0-0x400000<=a<SP0 or PRV0<=a<PRV0+0x1000000)

def strength(va,vb):
    return eqv(va,vb)

def compare(case, imgA, imgB, stats, pre=(), exA_pre=()):
    """imgA: code under test, imgB: oracle.  Raises Diff on a solver-found difference;
    returns info dict when equal on all paths"""
    x,f,mem,bufs,ins=entry_regs(case)
    base=list(pre)
    if case.assume:
        env={n:v for n,_,v in ins}; env.update(z3=z3)
        base+=[eval(a,env) for a in case.assume]
    if case.boolmem:       # _Bool objects hold 0 or 1
        for a,n in bufs+[(0x20000000,16)]: base+=[z3.ULE(z3.BitVec('m_%x'%(a+i),8),1) for i in range(n)]
    exA=Exec(imgA,stats,case.externs,max_paths=case.max_paths,max_steps=case.max_steps,max_cand=case.max_cand,pre=base,bufs=bufs)
    doneA=exA.run(case.entry,x,f,premem=mem)
    info={'pathsA':len(doneA),'pathsB':0,'cmp':0,'reach':0}
    if exA.cut: info['cut']=True
    if exA.imms:
        for path,v,l,h,what in exA.imms:
            r,m=exA.check(path,z3.Or(bv(v)<l,bv(v)>h))
            if r==z3.sat: raise Diff('immediate out of range in `%s\''%what,m)
    for A in doneA:
        exB=Exec(imgB,stats,case.externs,max_paths=case.max_paths,max_steps=case.max_steps,max_cand=case.max_cand,pre=base+A.path,bufs=bufs)
        doneB=exB.run(case.entry,x,f,premem=mem)
        info['pathsB']+=len(doneB)
        if exB.cut: info['cut']=True
        for B in doneB:
            conds=[]; hard=[]
            def need(lbl,a,b):
                q=eqv(a,b)
                if q is True: return
                if q is False: hard.append(lbl); return
                conds.append((lbl,q))
            if B.kind=='steps' or A.kind=='steps':
                if A.kind!=B.kind: raise Limit('step bound reached on one side')
                info['bounded']=True; continue
            if B.kind=='fault': raise Limit('oracle side faults: '+B.msg)
            if A.kind!=B.kind: hard.append('%s (%s) instead of %s'%(A.kind,A.msg,B.kind))
            else:
                if len(A.events)!=len(B.events) or [e[0] for e in A.events]!=[e[0] for e in B.events]:
                    hard.append('external calls %s instead of %s'%([e[0] for e in A.events],[e[0] for e in B.events]))
                else:
                    for k,(ea,eb) in enumerate(zip(A.events,B.events)):
                        if ea[2] is False: hard.append('sp misaligned at call %d to %s'%(k,ea[0]))
                        for j,((ka,va),(kb,vb)) in enumerate(zip(ea[1],eb[1])):
                            if ka=='p' and priv(va) and priv(vb): continue
                            need('call %d %s arg %d'%(k,ea[0],j),va,vb)
                        for ad in sorted(set(ea[3])|set(eb[3])):
                            if SP0<=ad<SP0+0x200: continue
                            va=byteval(ea[3][ad]) if ad in ea[3] else exA.load_c(exA.init_state(0),ad,1)
                            vb=byteval(eb[3][ad]) if ad in eb[3] else exB.load_c(exB.init_state(0),ad,1)
                            need('memory %x at call %d'%(ad,k),va,vb)
                if A.kind=='ret':
                    for l,a,b in ret_pairs(case.ret,A,B): need(l,a,b)
                    for r in SAVED_X+[SP,3,TP]: need('saved '+XN[r],A.x[r],exA_init(r,'x'))
                    for r in SAVED_F: need('saved '+FN[r],A.f[r],exA_init(r,'f'))
                for l,a,b in mem_pairs(exA,A,exB,B):
                    ad=int(l[4:],16)
                    if isint(a) and isint(b) and priv(a) and priv(b): continue
                    need(l,a,b)
            info['cmp']+=1
            if hard:
                r,m=exB.check(B.path)
                if r==z3.sat: raise Diff('; '.join(hard[:3]),m,(A,B))
                if r==z3.unknown: raise Limit('solver unknown')
                continue
            if conds:
                r,m=exB.check(B.path,z3.Not(z3.And(*[q for _,q in conds])))
                if r==z3.sat:
                    bad=[l for l,q in conds if z3.is_false(m.eval(q,model_completion=True))]
                    raise Diff('differs: '+', '.join(bad[:4]),m,(A,B))
                if r==z3.unknown:
                    # try the obligations one by one
                    for l,q in conds:
                        r,m=exB.check(B.path,z3.Not(q))
                        if r==z3.sat: raise Diff('differs: '+l,m,(A,B))
                        if r==z3.unknown: raise Limit('solver unknown on '+l)
            info['reach']+=1
    if not info['cmp'] and not info.get('bounded'): raise Limit('vacuous: no comparable path')
    return info
def exA_init(r,k):
    if k=='x':
        if r==SP: return SP0
        if r==TP: return TPB
        return z3.BitVec('x%d_0'%r,64)
    return z3.BitVec('f%d_0'%r,64)

def model_dict(m):
    out={}
    for d in m.decls():
        if d.arity()==0:
            v=m[d]
            try: out[d.name()]=v.as_long()
            except Exception: pass
    return out

def modules(case, asmsA, asmsB):
    """link images: [(label, imgA, imgB)]"""
    return None

def run_case(case, asmA, asmB, exact=False, holes=None):
    """-> dict(status: ok|diff|asm|limit, ...)"""
    st=Stats(); t=time.time()
    FPMode.exact=exact; FPMode.used=False; FPMode.axioms=[]
    try:
        lay=Layout()
        # data symbols of the oracle first so that undefined data is recognised
        mb=[Module(a,tag='B') for a in asmB]
        ma=[Module(a,holes,tag='A') for a in asmA]
        for m in ma+mb:
            for n in list(m.labels)+list(m.comm):
                if m.labels.get(n,('d',))[0]=='d' and n in m.glob and n not in m.tls: lay.data(n)
                if n in m.comm and not m.comm[n][2]: lay.data(n)
        for n in case.ptrglobs: lay.data(n)
        imB=Image(mb,lay,'B',case.havoc)
        imA=Image(ma,lay,'A',case.havoc)
        info=compare(case,imA,imB,st)
        r=dict(status='ok',info=info)
    except AsmError as ex: r=dict(status='asm',what=str(ex))
    except Diff as d: r=dict(status='diff',what=d.what,model=model_dict(d.model),uf=FPMode.used)
    except Limit as ex: r=dict(status='limit',what=str(ex),uf=FPMode.used)
    except MemoryError: r=dict(status='limit',what='out of memory')
    except z3.Z3Exception as ex: r=dict(status='limit',what='z3: '+str(ex)[:200])
    except RecursionError as ex: r=dict(status='limit',what='recursion')
    try: r['layout']=dict(lay.g); r['sizes']={a:max(imA.size.get(a,0),imB.size.get(a,0)) for a in set(imA.size)|set(imB.size)}
    except Exception: r['layout']={}; r['sizes']={}
    r['stats']=(st.queries,st.solver_s,st.insts,st.paths,st.unknown); r['t']=time.time()-t
    return r
def _alarm(*a): raise Limit('time limit')
def _work(a):
    case,asmA,asmB=a
    signal.signal(signal.SIGALRM,_alarm); signal.setitimer(signal.ITIMER_REAL,case.limit)
    try:
        r=run_case(case,asmA,asmB)
        if (r['status']=='diff' or r['status']=='limit') and r.get('uf'):
            r2=run_case(case,asmA,asmB,exact=True)
            q=tuple(x+y for x,y in zip(r['stats'],r2['stats'])); r2['stats']=q
            if r2['status']=='limit' and r['status']=='diff': r2['model']=r['model']; r2['what']+=' (abstract: %s)'%r['what']; r2['abs']=True
            r=r2
        return r
    except Exception as ex:
        return dict(status='limit',what='internal: '+traceback.format_exc()[-600:],stats=(0,0,0,0,0),t=0)
    finally: signal.setitimer(signal.ITIMER_REAL,0)

def run_cases(cases, log=None):
    """compile everything, run all comparisons in parallel; -> list of result dicts in order"""
    srcsA=[]; idx=[]
    units=[]
    for c in cases:
        tus=c.src if isinstance(c.src,(list,tuple)) else [c.src]
        units.append(list(tus))
    # group by opts
    flat={}
    for ci,tus in enumerate(units):
        for ti,s in enumerate(tus): flat.setdefault(cases[ci].opts,[]).append((ci,ti,s))
    A={}; 
    for opts,L in flat.items():
        for (ci,ti,s),r in zip(L,core.compile_many([s for _,_,s in L],opts)): A[ci,ti]=r
    allB=[(ci,ti,s) for ci,tus in enumerate(units) for ti,s in enumerate(tus)]
    orc=[(cases[ci].oracle[ti] if cases[ci].oracle else s) for ci,ti,s in allB]
    B={}
    for (ci,ti,s),r in zip(allB,core.gcc_many(orc)): B[ci,ti]=r
    jobs=[]; res=[None]*len(cases); jidx=[]
    for ci,c in enumerate(cases):
        n=len(units[ci])
        bad=[B[ci,t] for t in range(n) if not B[ci,t].ok]
        if bad: res[ci]=[dict(status='limit',what='oracle rejects program: '+bad[0].err[:200],stats=(0,0,0,0,0),t=0,mix='A'*n)]; continue
        bad=[A[ci,t] for t in range(n) if not A[ci,t].ok]
        if bad: res[ci]=[dict(status='reject',what='%s: %s'%(bad[0].kind,bad[0].err[-300:]),stats=(0,0,0,0,0),t=0,mix='A'*n)]; continue
        mixes=c.mix or ['A'*n]
        res[ci]=[]
        for mx in mixes:
            aA=[(A if mx[t]=='A' else B)[ci,t].asm for t in range(n)]
            aB=[B[ci,t].asm for t in range(n)]
            jobs.append((c,aA,aB)); jidx.append((ci,mx))
    for (ci,mx),r in zip(jidx,core.pmap(_work,jobs,lambda j:dict(status='limit',what='worker out of memory',stats=(0,0,0,0,0),t=0))):
        r['mix']=mx; res[ci].append(r)
    return res
