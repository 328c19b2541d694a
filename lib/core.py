"""Shared infrastructure: builds from /repo's working tree, runs tcsym, writes evidence."""
import os, sys, re, json, time, subprocess, tempfile, shutil, atexit, hashlib
from concurrent.futures import ThreadPoolExecutor
import z3
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('TOYCC_REPO','/repo')
TIER=os.environ.get('VERIF_TIER','quick')
SEED=int(os.environ.get('VERIF_SEED','1') or 1)
JOBS=int(os.environ.get('VERIF_JOBS','8'))
T0=time.time()
THOROUGH = TIER=='thorough'
_scratch=None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch=tempfile.mkdtemp(prefix='tcv-')
        pid=os.getpid()
        def rm():
            if os.getpid()==pid: shutil.rmtree(_scratch,ignore_errors=True)
        atexit.register(rm)
    return _scratch
def sh(cmd, **kw):
    return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,**kw)

class BuildError(Exception): pass

# ---------------------------------------------------------------- engine + bitcode
def engine():
    d=os.path.join(VERIF,'build')
    exe=os.path.join(d,'tcsym')
    src=[os.path.join(VERIF,'engine',f) for f in sorted(os.listdir(os.path.join(VERIF,'engine'))) if f.endswith(('.cpp','.h'))]
    h=hashlib.sha256(b''.join(open(f,'rb').read() for f in src)).hexdigest()
    stamp=os.path.join(d,'stamp')
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read()==h):
        os.makedirs(d,exist_ok=True)
        r=sh(['bash',os.path.join(VERIF,'engine/build.sh'),d])
        if r.returncode: raise BuildError('engine build failed: '+r.stderr.decode()[-2000:])
        open(stamp,'w').write(h)
    return exe

def sources():
    """(file, flags) of every compiler source, from the project's own makefile"""
    out=[]
    r=sh(['make','-Bn','CC=gcc','output/toycc'],cwd=REPO)
    for l in r.stdout.decode(errors='replace').split('\n'):
        m=re.match(r'^\s*gcc\s.*-c\s+(\S+\.c)\b',l)
        if m:
            fl=[w for w in l.split() if re.match(r'^-[DI]',w)]
            out.append((m.group(1),fl))
    if not out:
        for d,_,fs in os.walk(REPO):
            rel=os.path.relpath(d,REPO)
            if rel.split('/')[0] in ('test','output','include','.git','thirdparty','qemu_script'): continue
            out+=[(os.path.normpath(os.path.join(rel,f)),['-DDEBUG','-I.','-Iparser','-Ipreprocessor']) for f in fs if f.endswith('.c')]
    return out
CF=['-w','-std=gnu2x','-O0','-Xclang','-disable-O0-optnone','-fno-builtin','-D__NO_CTYPE','-emit-llvm','-c']
_bc={}
import threading, functools, itertools
_lock=threading.RLock()
def locked(f):
    @functools.wraps(f)
    def g(*a,**k):
        with _lock: return f(*a,**k)
    return g
@locked
def bitcode(harness=None, tag=''):
    """whole real compiler + mini libc (+ optional harness C file) as one bitcode file"""
    key=(harness,tag)
    if key in _bc: return _bc[key]
    d=scratch()
    def comp(a):
        i,(f,fl)=a
        o=os.path.join(d,'s%d.bc'%i)
        if os.path.exists(o): return o
        r=sh(['clang-18']+CF+fl+[f,'-o',o],cwd=REPO)
        if r.returncode: raise BuildError('clang failed on %s: %s'%(f,r.stderr.decode()[-1500:]))
        return o
    with ThreadPoolExecutor(JOBS) as ex:
        objs=list(ex.map(comp,list(enumerate(sources()))))
    ml=os.path.join(d,'ml.bc')
    if not os.path.exists(ml):
        r=sh(['clang-18']+CF+[os.path.join(VERIF,'engine/minilibc.c'),'-o',ml])
        if r.returncode: raise BuildError('minilibc: '+r.stderr.decode()[-1500:])
    objs.append(ml)
    if harness:
        h=os.path.join(d,'h%s.bc'%hashlib.md5(harness.encode()).hexdigest()[:8])
        r=sh(['clang-18']+CF+['-DDEBUG','-I'+REPO,'-I'+REPO+'/parser','-I'+REPO+'/preprocessor',harness,'-o',h],cwd=REPO)
        if r.returncode: raise BuildError('harness: '+r.stderr.decode()[-1500:])
        objs.append(h)
    l=os.path.join(d,'l%d.bc'%len(_bc)); p=os.path.join(d,'prog%d.bc'%len(_bc))
    r=sh(['llvm-link-18']+objs+['-o',l])
    if r.returncode: raise BuildError('llvm-link: '+r.stderr.decode()[-1500:])
    r=sh(['opt-18','-passes=sroa,early-cse,simplifycfg',l,'-o',p])
    if r.returncode: raise BuildError('opt: '+r.stderr.decode()[-1500:])
    _bc[key]=p
    return p
_nat=None
@locked
def native():
    """natively built toycc (for replay); includes copied beside it"""
    global _nat
    if _nat: return _nat
    d=os.path.join(scratch(),'nat'); os.makedirs(d)
    objs=[]
    def comp(a):
        i,(f,fl)=a; o=os.path.join(d,'%d.o'%i)
        r=sh(['gcc','-w','-std=c2x','-g','-O0','-fno-common']+fl+['-c',f,'-o',o],cwd=REPO)
        if r.returncode: raise BuildError('gcc failed on %s: %s'%(f,r.stderr.decode()[-1500:]))
        return o
    with ThreadPoolExecutor(JOBS) as ex: objs=list(ex.map(comp,list(enumerate(sources()))))
    r=sh(['gcc','-o',d+'/toycc']+objs)
    if r.returncode: raise BuildError('link: '+r.stderr.decode()[-1500:])
    if os.path.isdir(REPO+'/include'): shutil.copytree(REPO+'/include',d+'/include')
    _nat=d+'/toycc'
    return _nat
def native_asm(src, timeout=20, opts=()):
    """-> (rc, asm, stderr) from the natively built compiler"""
    d=tempfile.mkdtemp(dir=scratch()); f=d+'/a.c'
    open(f,'wb').write(src if isinstance(src,bytes) else src.encode())
    try:
        r=sh([native(),'-S']+list(opts)+['-o',d+'/a.s',f],timeout=timeout)
        rc=r.returncode; asm=open(d+'/a.s','rb').read().decode('latin-1') if os.path.exists(d+'/a.s') else ''
        err=r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired: rc,asm,err=-99,'','timeout'
    shutil.rmtree(d,ignore_errors=True)
    return rc,asm,err

# ---------------------------------------------------------------- tcsym
class TStats:
    def __init__(s): s.queries=s.domain=s.paths=s.forks=0; s.solver_s=s.wall=0.0; s.unknown=0; s.functions=set(); s.killed=0; s.runs=0; s.incomplete=[]
TS=TStats()
_n=itertools.count(1)
def tcsym(scn, harness=None, timeout=300, jobs=None, max_paths=20000, bc=None, label=''):
    """run a scenario; -> list of Path"""
    d=scratch(); k='%d_%d'%(os.getpid(),next(_n))
    scn=dict(scn); scn.setdefault('entry','__sym_main'); scn['jobs']=jobs or JOBS
    scn.setdefault('timeout',max(5,min(timeout,left_s()))); scn.setdefault('max_paths',max_paths)
    sp=os.path.join(d,'scn%s.json'%k); op=os.path.join(d,'out%s.jsonl'%k)
    json.dump(scn,open(sp,'w'))
    try: r=sh([engine(),bc or bitcode(harness),sp,op],timeout=scn['timeout']+120)
    except subprocess.TimeoutExpired: TS.incomplete.append(label+': exploration timed out'); return []
    try: tot=json.loads(r.stdout.decode().strip().split('\n')[-1])
    except Exception: raise BuildError('tcsym: rc=%d %s %s'%(r.returncode,r.stdout.decode()[-300:],r.stderr.decode()[-600:]))
    TS.runs+=1; TS.queries+=tot['queries']; TS.domain+=tot.get('domain_queries',0); TS.paths+=tot['paths']; TS.forks+=tot['forks']
    TS.solver_s+=tot['solver_s']; TS.unknown+=tot['unknown']; TS.wall+=tot['wall_s']; TS.functions.update(tot.get('functions',[])); TS.killed+=tot.get('killed',0)
    paths=[]
    for l in open(op,'rb'):
        try: paths.append(Path(json.loads(l.decode('utf-8','surrogateescape'))))
        except json.JSONDecodeError: TS.incomplete.append(label+': unreadable path record')
    os.unlink(sp); os.unlink(op)
    if not tot.get('complete',True) or tot.get('killed',0): TS.incomplete.append('%s: exploration cut (killed=%s)'%(label,tot.get('killed')))
    return paths

OPS={}
class Path:
    def __init__(p,j):
        p.j=j; p.kind=j['kind']; p.msg=j.get('msg',''); p.status=j.get('status'); p.out=j.get('out',{}); p.choices=dict(j.get('choices',[])) if isinstance(j.get('choices'),list) else j.get('choices',{})
        p.events=j.get('events',[]); p.notes=j.get('notes',[]); p.bt=j.get('bt',[])
        p._t=None
    def terms(p):
        if p._t is None:
            p._t=dag2z3(p.j.get('dag',[]),p.j.get('vars',[]))
        return p._t
    def pc(p): 
        t=p.terms(); return [tobool(t[i]) for i in p.j.get('pc',[])]
    def model(p): return {v[0]:v[3] for v in p.j.get('vars',[])}
    def hole(p,k): return p.terms()[int(k)]
def tobool(t): return t if z3.is_bool(t) else t==z3.BitVecVal(1,t.size())
def dag2z3(dag, vars):
    t=[]
    B=lambda c: z3.If(c,z3.BitVecVal(1,1),z3.BitVecVal(0,1))
    for n in dag:
        op,w,c=n[0],n[1],int(n[2]); a=[t[i] for i in n[3:]]
        if op=='const': v=z3.BitVecVal(c,w)
        elif op=='var': v=z3.BitVec(vars[c][0],w)
        elif op=='add': v=a[0]+a[1]
        elif op=='sub': v=a[0]-a[1]
        elif op=='mul': v=a[0]*a[1]
        elif op=='udiv': v=z3.UDiv(a[0],a[1])
        elif op=='sdiv': v=a[0]/a[1]
        elif op=='urem': v=z3.URem(a[0],a[1])
        elif op=='srem': v=z3.SRem(a[0],a[1])
        elif op=='and': v=a[0]&a[1]
        elif op=='or': v=a[0]|a[1]
        elif op=='xor': v=a[0]^a[1]
        elif op=='shl': v=a[0]<<a[1]
        elif op=='lshr': v=z3.LShR(a[0],a[1])
        elif op=='ashr': v=a[0]>>a[1]
        elif op=='eq': v=B(a[0]==a[1])
        elif op=='ult': v=B(z3.ULT(a[0],a[1]))
        elif op=='ule': v=B(z3.ULE(a[0],a[1]))
        elif op=='slt': v=B(a[0]<a[1])
        elif op=='sle': v=B(a[0]<=a[1])
        elif op=='ite': v=z3.If(a[0]==z3.BitVecVal(1,1),a[1],a[2])
        elif op=='zext': v=z3.ZeroExt(w-a[0].size(),a[0])
        elif op=='sext': v=z3.SignExt(w-a[0].size(),a[0])
        elif op=='extract': v=z3.Extract(c+w-1,c,a[0])
        elif op=='concat': v=z3.Concat(a[0],a[1])
        else: raise ValueError(op)
        t.append(v)
    return t

CC1=['/toycc','-cc1','-cc1-input','/s/a.c','-cc1-output','/o/a.s','/s/a.c']
def cc1(segs, opts=(), files=None, lits=False, abshash=False, **kw):
    """scenario: run the real cc1 on the given source segments"""
    fs={'/s/a.c':segs}
    fs.update(files or {})
    return tcsym({'argv':CC1[:1]+list(opts)+CC1[1:],'lits':int(lits),'abshash':int(abshash),'files':fs,'realdirs':[['/include',REPO+'/include'],['//include',REPO+'/include']]},**kw)

class Compiled:
    """result of compiling one concrete program with the compiler under test"""
    def __init__(c,ok,asm,err,kind): c.ok=ok; c.asm=asm; c.err=err; c.kind=kind
def compile_many(srcs, opts=(), label='compile'):
    """compile concrete programs through the symbolic engine (memory-checked execution of
    the real compiler code); falls back to the native build where the engine stops"""
    res=[None]*len(srcs)
    # tcsym forks once per alternative: one scenario for all programs
    CH=400
    for base in range(0,len(srcs),CH):
        part=srcs[base:base+CH]
        segs=[{'choice':'P','alts':[s if s.endswith('\n') else s+'\n' for s in part]}] if len(part)>1 else [part[0]+'\n']
        for p in cc1(segs,opts,label=label):
            i=base+(int(p.choices['P']) if len(part)>1 else 0)
            if p.kind=='exit': res[i]=Compiled(p.status==0,p.out.get('/o/a.s',''),p.out.get('<stderr>','')+p.out.get('<stdout>',''),'exit')
            elif p.kind in('crash','memory-error','abort'):
                res[i]=Compiled(False,'',p.msg+' '+str(p.bt)[:300],p.kind)
    miss=[i for i,r in enumerate(res) if r is None]
    if miss:
        def nat(i):
            rc,asm,err=native_asm(srcs[i],opts=opts)
            return Compiled(rc==0,asm,err,'native')
        native()
        with ThreadPoolExecutor(JOBS) as ex:
            for i,c in zip(miss,ex.map(nat,miss)): res[i]=c
        TS.incomplete.append('%s: %d programs compiled natively'%(label,len(miss)))
    return res

GCC=['riscv64-linux-gnu-gcc','-w','-std=gnu2x','-O1','-fwrapv','-fno-strict-aliasing','-fno-pic','-fno-jump-tables','-mcmodel=medany','-mabi=lp64d','-march=rv64g',
     '-fno-asynchronous-unwind-tables','-fno-builtin','-fno-common','-fno-section-anchors','-ffp-contract=off','-msmall-data-limit=0','-fno-stack-protector','-fcf-protection=none','-fno-tree-vectorize','-fno-tree-slp-vectorize','-fno-store-merging','-mstrict-align','-fsigned-char']
GCC.remove('-fcf-protection=none')
def gcc_many(srcs, extra=()):
    d=tempfile.mkdtemp(dir=scratch())
    def one(a):
        i,s=a; f='%s/%d.c'%(d,i); open(f,'wb').write(s.encode() if isinstance(s,str) else s)
        r=sh(GCC+list(extra)+['-S','-o',f[:-1]+'s',f])
        if r.returncode: return Compiled(False,'',r.stderr.decode(errors='replace'),'gcc')
        return Compiled(True,open(f[:-1]+'s','rb').read().decode('latin-1'),'','gcc')
    with ThreadPoolExecutor(JOBS) as ex: out=list(ex.map(one,list(enumerate(srcs))))
    shutil.rmtree(d,ignore_errors=True)
    return out

T0=time.time()
def left_s():
    """seconds left of this check's time budget"""
    return T0+(40000 if THOROUGH else 760)-time.time()
def _guard():
    import resource
    resource.setrlimit(resource.RLIMIT_AS,(6<<30,6<<30))
    try: z3.set_param('memory_max_size',2500)
    except Exception: pass
def pmap(fn, jobs, lost):
    """fn over jobs in worker processes, results in order; lost(job) for a job whose worker died or ran out of memory"""
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor
    from concurrent.futures import TimeoutError as FTimeout
    from concurrent.futures.process import BrokenProcessPool
    ctx=mp.get_context('fork'); res={}; todo=list(range(len(jobs))); width=JOBS
    while todo:
        ex=ProcessPoolExecutor(width,mp_context=ctx,initializer=_guard); fs=[]
        try:
            for i in todo: fs.append((i,ex.submit(fn,jobs[i])))
        except BrokenProcessPool: pass
        broken=late=False
        for i,f in fs:
            try: res[i]=f.result(timeout=max(0.1,left_s()))
            except FTimeout: res[i]=lost(jobs[i]); late=True
            except BrokenProcessPool: broken=True
            except Exception as e:
                TS.incomplete.append('worker: '+repr(e)[:200]); res[i]=lost(jobs[i])
                if os.environ.get('SLOW'): import traceback; traceback.print_exception(e)
        if late:
            for q in list(ex._processes.values()): q.kill()
        ex.shutdown(wait=True,cancel_futures=True)
        left=[i for i in todo if i not in res]
        if broken and width==1 and left: res[left[0]]=lost(jobs[left[0]]); left=left[1:]
        elif broken: width=max(1,min(width//4,len(left)))
        todo=left
    return [res[i] for i in range(len(jobs))]
