from gen import *
from report import Report
import core, os, tempfile, random, re, z3, rv, tv, time, cspec
from cspec import *
import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
ALL=['bool','i8','u8','i16','u16','i32','u32','i64','u64']
OPS=['+','-','*','/','%','&','|','^','<<','>>','<','<=','>','>=','==','!=','&&','||',',']
class Holes:
    def __init__(h,p): h.p=p
    def __getitem__(h,k):
        kind,i=h.p.j['holes'][int(k[1:])]
        return h.p.terms()[i]
def read_sym(asm,holes,sym,size):
    """bytes of a static object as a 64-bit (size<=8) term, sign unspecified"""
    im=rv.Image([rv.Module(asm,holes,tag='A')],rv.Layout(),'A')
    a=im.addr(0,sym); bs=[]
    for i in range(size):
        b=im.init.get(a+i,0)
        if isinstance(b,tuple): b=tv.byteval(b)
        bs.append(rv.bv(b,8) if isinstance(b,int) else b)
    return z3.Concat(*reversed(bs)) if size>1 else bs[0]
def native_val(src,sym,size,g=None):
    if sym!='@case':
        rc,asm,err=core.native_asm(src)
        if rc: return ('rejected',rc)
        v=z3.simplify(read_sym(asm,None,sym,size)); return ('value',v.as_long())
    rc,asm,err=core.native_asm(src)
    if rc: return ('rejected',rc)
    d=tempfile.mkdtemp(dir=core.scratch()); open(d+'/f.s','w').write(asm)
    n=g[1] if g[0]=='value' else 0
    open(d+'/m.c','w').write('int f(long); int main(){ return f(%dUL)==1 ? 0 : 9; }'%n)
    if core.sh(['riscv64-linux-gnu-gcc','-static','-o',d+'/m',d+'/m.c',d+'/f.s']).returncode: return ('does not assemble',)
    rc=core.sh(['qemu-riscv64',d+'/m']).returncode
    return ('value',n) if rc==0 and g[0]=='value' else ('case label is not equal to',n)
def gcc_val(src,sym,size):
    if sym=='@case': src='long x = '+re.search(r'case (.*): return 1',src).group(1)+';'; sym='x'
    g=core.gcc_many([src])[0]
    if not g.ok: return ('rejected',1)
    v=z3.simplify(read_sym(g.asm,None,sym,size)); return ('value',v.as_long())
def bad_case(p,ob,pc):
    """disjunction over f's paths of: the label matches a value other than the one prescribed, or not that one"""
    im=rv.Image([rv.Module(p.out.get('/o/a.s',''),Holes(p),tag='A')],rv.Layout(),'A')
    st=rv.Stats(); v=z3.BitVec('v',64); ex=rv.Exec(im,st,{},pre=pc); r=[]
    for A in ex.run('f',{10:v},{}):
        if A.kind!='ret': r.append(z3.And(*A.path)); continue
        r.append(z3.And(*A.path,z3.Extract(31,0,rv.bv(A.x[10]))!=z3.If(v==ob['val'],z3.BitVecVal(1,32),z3.BitVecVal(0,32))))
    if ex.cut: raise rv.Limit('path bound')
    return z3.Or(*r)
def decide(ob,paths):
    """ob: dict(key, src, sym, size, val (term of size*8 bits), err (Bool), assume [Bool]) -> list of findings"""
    out=[]; q=0; t0=time.time()
    cover=[]
    for p in paths:
        pc=p.pc()+ob['assume']; s=z3.Solver(); s.set('timeout',20000); s.add(*pc); q+=1
        if p.kind!='exit':
            if p.kind in('crash','memory-error','abort','timeout'):
                if s.check()==z3.sat: out.append(('crash',p.kind+' '+p.msg,model(s)))
            elif p.kind!='infeasible': out.append(('limit',p.kind+' '+p.msg[:80],None))
            continue
        if p.status==0:
            try:
                if ob['sym']=='@case': bad=z3.Or(ob['err'],bad_case(p,ob,pc))
                else:
                    v=read_sym(p.out.get('/o/a.s',''),Holes(p),ob['sym'],ob['size']); bad=z3.Or(ob['err'],v!=ob['val'])
            except (rv.AsmError,rv.Limit) as e:
                out.append(('limit','unreadable output: %s'%e,None)); continue
        else: bad=z3.Not(ob['err'])
        bad=z3.simplify(bad)
        if z3.is_false(bad): continue
        s.add(bad); c=s.check()
        if c==z3.sat: out.append(('diff','rejected' if p.status else 'wrong value',model(s)))
        elif c!=z3.unsat: out.append(('limit','solver gave up',None))
    return ob['key'],out,q,time.time()-t0,len(paths)
def model(s):
    m=s.model(); return {str(d):m[d].as_long() for d in m.decls() if str(d).startswith('lit')}
def concretize(src,m): return re.sub(r'7777770(\d\d)',lambda k:str(m.get('lit%d'%int(k.group(1)),0)),src)
def _dec(i): return decide(*JOBS[i])
def run_obs(r,obs,fam):
    global JOBS
    n=ok=0; CH=300; work=[]
    for b in range(0,len(obs),CH):
        part=obs[b:b+CH]
        segs=[{'choice':'P','alts':[o['src']+'\n' for o in part]}] if len(part)>1 else [part[0]['src']+'\n']
        by=[[] for _ in part]
        for p in core.cc1(segs,lits=True,label=fam,timeout=400,max_paths=200000):
            i=int(p.choices.get('P',-1)) if len(part)>1 else 0; (by[i].append(p) if i>=0 else None)
        work+=list(zip(part,by))
    JOBS=work
    with mp.get_context('fork').Pool(core.JOBS) as pool: res=pool.map(_dec,range(len(work)),chunksize=8)
    for (ob,ps),(key,out,q,t,np) in zip(work,res):
        n+=1; r.obl+=1; r.q+=q; r.solver+=t; r.paths+=np; r.programs+=1; r.checked+=np
        if not ps: r.inconc.append((key,'no path')); continue
        if not out:
            ok+=1; r.disch+=1
            if n%97==1: r.sample({'family':fam,'source':ob['src'][:300],'paths':np})
            continue
        lim=[o for o in out if o[0]=='limit']; bad=[o for o in out if o[0]!='limit']
        if bad:
            k,what,m=bad[0]; src=concretize(ob['src'],m); r.replays+=1
            try: g=gcc_val(src,ob['sym'],ob['size']); a=native_val(src,ob['sym'],ob['size'],g)
            except Exception as ex: a=g=('error',repr(ex))
            if a!=g: r.violation('%s:%s'%(fam,key),'%s: toycc %s, gcc %s\nliterals: %s\n%s'%(what,a,g,m,src),{'prog.c':src+'\n'})
            else: r.unconf.append((key,what+' not reproduced: %s %s'%(a,src)))
        elif lim: r.inconc.append((key,lim[0][1]))
    r.family(fam,n,ok)
SIZE={'bool':1,'i8':1,'u8':1,'i16':2,'u16':2,'i32':4,'u32':4,'i64':8,'u64':8}
def stat(key,e,t='i64',assume=()):
    """the constant as a case label: f(v) is 1 exactly for v equal to the label"""
    return dict(key=key,src='int f(long v){ switch(v){ case %s: return 1; } return 0; }'%e.s,sym='@case',size=8,val=e.v,err=e.e,assume=list(assume))
def init(key,e,t):
    """static initializer of type t; emission treats printable bytes differently, so two masks cover all bits without reaching that distinction"""
    out=[]; k=SIZE[t]
    for nm,op,m in (('lo','&','9f'),('hi','|','80')):
        mv=int(m*k,16); x=bi(op,cast('u64',e) if k==8 else cast({1:'u8',2:'u16',4:'u32'}[k],e),num(mv,'UL'))
        if t=='bool': x=e
        v=z3.Extract(8*k-1,0,wrap(t,x.v))
        out.append(dict(key='%s %s'%(key,nm),src='%s x = %s;'%(CT[t],x.s),sym='x',size=k,val=v,err=x.e,assume=[]))
    return out
def run():
    r=Report('C08','bounded_symbolic','the real tokenizer, parser and constant evaluator (LLVM bitcode) run on constant expressions whose literals stand for every 64-bit value (the result of strtoul is a symbolic variable); the emitted object bytes are compared with an SMT term for the value C prescribes, for every literal value; every operator over every pair of types, casts, seeded random nests; every context that requires a constant expression; #if in 64-bit arithmetic')
    T=ALL if core.THOROUGH else ['i8','u16','i32','u32','i64','u64']
    obs=[]
    for op in OPS:
        for a in T:
            for b in T: obs.append(stat('%s %s %s'%(a,op,b),bi(op,lit(1,a),lit(2,b))))
    for t in ALL:
        for op in '-~!+': obs.append(stat('%s%s'%(op,t),un(op,lit(1,t))))
        for u in ALL:
            obs.append(stat('cast %s %s'%(t,u),cast(u,lit(1,t))))
            obs.append(stat('cond %s %s'%(t,u),cond(lit(3,'i32'),lit(1,t),lit(2,u))))
            obs+=init('init %s %s'%(t,u),lit(1,t),u)
    run_obs(r,obs,'operators')
    rnd=random.Random(core.SEED*31+8); obs=[]
    for i in range(1500 if core.THOROUGH else 220):
        g=cspec.Rand(rnd,ALL,3); e=g.gen(rnd.choice([2,3,3,4])); obs.append(stat('rand%d'%i,cast('i64',e)))
    run_obs(r,obs,'nested')
    # contexts
    obs=[]
    def ctx(key,src,v,size,e=F,assume=()): obs.append(dict(key=key,src=src,sym='x',size=size,val=z3.Extract(8*size-1,0,v),err=e,assume=list(assume)))
    L1=z3.BitVec('lit1',64); L2=z3.BitVec('lit2',64)
    for i in range(40 if not core.THOROUGH else 300):
        g=cspec.Rand(rnd,['i8','u8','i16','i32','u32'],2,ops=['+','-','&','|','^','<<','>>','<','==','&&','||','*']); e=g.gen(2)
        if e.t in('i64','u64'): e=cast('i32',e)
        ctx('enum%d'%i,'enum { A = (int)%s, B, C = A }; long x = A; long y[3]; '%e.s,wrap('i32',e.v),8)
        ctx('enum next%d'%i,'enum { A = (int)%s, B }; long x = B;'%e.s,wrap('i32',wrap('i32',e.v)+1),8,assume=[wrap('i32',e.v)!=0x7fffffff])
    for t in ['i32','u32','i64','u64','i8']:
        E=bi('+',bi('&',lit(1,t),num(15)),num(1))
        ctx('array %s'%t,'typedef char a[%s]; long x = sizeof(a);'%E.s,E.v,8)
        ctx('array2 %s'%t,'typedef int a[3][%s]; long x = sizeof(a);'%E.s,E.v*12,8)
        ctx('bitfield %s'%t,'struct { unsigned a:%s; unsigned b:1; } s = {-1}; unsigned x = 0;'%E.s,z3.BitVecVal(0,64),4)
        ctx('ternary addr %s'%t,'char a[2]; long x = %s ? 3 : 4;'%lit(1,t).s,z3.If(wrap(t,L1)!=0,z3.BitVecVal(3,64),z3.BitVecVal(4,64)),8)
    # index designators: every element observed
    k=wrap('i32',L1)&15
    obs.append(dict(key='designator index',src='signed char x[16] = { [((int)777777001UL)&15] = 7 };',sym='x',size=16,val=z3.Concat(*[z3.If(k==i,z3.BitVecVal(7,8),z3.BitVecVal(0,8)) for i in reversed(range(16))]),err=F,assume=[]))
    k4=wrap('i32',L1)&7; k5=wrap('i32',L2)&7
    obs.append(dict(key='designator range',src='signed char x[8] = { [((int)777777001UL)&7 ... ((int)777777002UL)&7] = 7 };',sym='x',size=8,val=z3.Concat(*[z3.If(z3.And(k4<=i,i<=k5),z3.BitVecVal(7,8),z3.BitVecVal(0,8)) for i in reversed(range(8))]),err=k4>k5,assume=[]))
    # lazily evaluated operands are not errors
    for nm,s in [('and','0 && 1/(int)777777001UL'),('or','1 || 1%(int)777777001UL'),('cond','1 ? 5 : 7/(int)777777001UL'),('cond2','0 ? 7/(int)777777001UL : 5')]:
        ctx('lazy '+nm,'long x = %s;'%s,z3.BitVecVal({'and':0,'or':1}.get(nm,5),64),8)
    # case labels: the emitted comparison constant
    run_obs(r,[o for o in obs if o],'contexts')
    # #if: 64-bit arithmetic
    obs=[]
    def ulit(k): return N('7777770%02du'%k,'u64',z3.BitVec('lit%d'%k,64))
    def slit(k): return N('7777770%02d'%k,'i64',z3.BitVec('lit%d'%k,64))
    def pnum(v,u): return N('%d%s'%(v,'u' if u else ''),'u64' if u else 'i64',z3.BitVecVal(v,64))
    def pbi(op,a,b):
        n=bi(op,a,b)
        if op in('<<','>>'): n.s='(%s %s (%s & 63))'%(a.s,op,b.s)
        if n.t in('i32',): n.t='i64'
        return n
    def pgen(d):
        q=rnd.random()
        if d==0 or q<.1:
            if rnd.random()<.35: return pnum(rnd.choice([0,1,2,5,31,40,255,65536,2147483647,2147483648,4294967295,4294967296]),rnd.random()<.3)
            return rnd.choice([slit,ulit])(rnd.randint(1,2))
        if q<.2:
            a=pgen(d-1); n=un(rnd.choice('-~!+'),a); n.t='i64' if n.t=='i32' else n.t; return n
        if q<.3:
            c,a,b=pgen(d-1),pgen(d-1),pgen(d-1); return cond(c,a,b)
        return pbi(rnd.choice(OPS[:-1]),pgen(d-1),pgen(d-1))
    lim=[L1>=0,L2>=0]      # unsuffixed decimal literals are representable
    for op in OPS[:-1]:
        for a in (slit(1),ulit(1)):
            for b in (slit(2),ulit(2)):
                e=pbi(op,a,b)
                obs.append(dict(key='#if %s %s %s'%(a.s[9:],op,b.s[9:]),src='#if %s\nint x=1;\n#else\nint x=2;\n#endif'%e.s,sym='x',size=4,val=z3.If(e.v!=0,z3.BitVecVal(1,32),z3.BitVecVal(2,32)),err=e.e,assume=lim))
    for i in range(60 if not core.THOROUGH else 500):
        e=pgen(rnd.choice([2,3]))
        kw='#if 0\nint x=3;\n#elif %s\nint x=1;\n#else\nint x=2;\n#endif' if i%3==0 else '#if %s\nint x=1;\n#else\nint x=2;\n#endif'
        obs.append(dict(key='#if rand%d'%i,src=kw%e.s,sym='x',size=4,val=z3.If(e.v!=0,z3.BitVecVal(1,32),z3.BitVecVal(2,32)),err=e.e,assume=lim))
    run_obs(r,obs,'directives')
    # case labels: switch over a symbolic operand with symbolic-literal-free labels, floating constants, address constants (translation validation)
    cs=[]
    FC=['0.1+0.2','0.1f+0.2f','1.0/3','1.0f/3','-0.0','1e308*10','(float)0.1','(double)0.1f','16777217','(float)16777217','0x1p-1074','1e-46f','(int)2.9','(int)-2.9','(unsigned char)300.5','3.5*2','(long)1e18','(unsigned long)1.5e19','1.5==1.5f','0.1==0.1f','0.5?3:4','!0.25','!0.0','0.5&&0','0.0||0.25','2.5<3','(_Bool)0.5','(_Bool)0.0','18446744073709551615ul','(float)18446744073709551615ul','(double)9007199254740993','9007199254740993.0','(float)9007199254740993','1?2:3.5','0?2:3.5','-5/2.0','(char)-129','5.0f-1u','-1.5','+1.5f','1e10f','0x1.8p3','(signed char)200','2147483647+1.0'] 
    for t in ['float','double','long','int','unsigned char','_Bool','unsigned long']:
        for i,c in enumerate(FC):
            if t in('long','int','unsigned char','unsigned long','_Bool') and c in('1e308*10','1e10f','18446744073709551615ul','(float)18446744073709551615ul','2147483647+1.0','0x1p-1074') : continue
            if t=='unsigned char' and c in('16777217','(float)16777217','(long)1e18','(unsigned long)1.5e19','9007199254740993.0','(float)9007199254740993','(double)9007199254740993','-5/2.0','-1.5','(int)-2.9','(char)-129','(signed char)200'): continue
            if t=='int' and c in('(long)1e18','(unsigned long)1.5e19','9007199254740993.0','(float)9007199254740993','(double)9007199254740993'): continue
            if t=='unsigned long' and c in('-1.5','-5/2.0'): continue
            if c=='(unsigned char)300.5': continue
            cs.append(Case('%s = %s'%(t,c),'%s x = %s; int f(unsigned i){ return ((unsigned char*)&x)[i%%sizeof x]; }'%(t,c),['u32'],'i32',havoc=False))
    r.tv(cs,'floating')
    cs=[]
    for i in range(30 if not core.THOROUGH else 200):
        vals=[rnd.choice(['%d'%rnd.randint(-200,200),'1<<%d'%rnd.randint(0,30),"'%s'"%rnd.choice('aZ0'),'-1','2147483647','(-2147483647-1)','0x80000000','4294967295u','sizeof(int)*%d'%rnd.randint(1,9),'(char)%d'%rnd.randint(128,255),'%dL'%rnd.randint(0,1<<40)]) for _ in range(rnd.randint(1,6))]
        t=rnd.choice(['i32','u32','i64','u64','i8','u16'])
        seen=set(); body=''
        import ctypes
        for j,v in enumerate(vals):
            try: n=eval(re.sub(r'sizeof\(int\)','4',re.sub(r"'(.)'",lambda m:str(ord(m.group(1))),re.sub(r'\(char\)(\d+)',lambda m:str(int(m.group(1))-256),re.sub(r'(\d)[uL]\b',r'\1',v)))))
            except Exception: continue
            pt=promote(t); k=n&((1<<width(pt))-1)
            if k in seen: continue
            seen.add(k); body+='case %s: return %d; '%(v,j+1)
        cs.append(Case('switch%d'%i,'int f(%s v){ switch(v){ %sdefault: return 0; } }'%(CT[t],body),[t],'i32'))
    r.tv(cs,'case labels')
    r.bounds=['literals: all 64-bit values','expression depth <=4, <=3 distinct literals']
    r.assume=['strtoul returns the literal\'s value (C09 checks the conversion)','the SMT rendering of C integer arithmetic in lib/cspec.py (counterexamples are confirmed with gcc before they are reported)','gcc for floating and address constants']
    return r.finish()
