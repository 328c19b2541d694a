"""Atomic read-modify-write under interference.

The emitted code is executed symbolically while another thread may rewrite the 8-byte
window around the shared object with arbitrary bytes before any access (at most K times),
and any sc may fail.  Obligation, for every operand, every interfering value and every
schedule within the bound: the code writes the window exactly once, in one indivisible
step, and the value written is the C result applied to the value the window held at that
moment; neighbouring bytes keep theirs; the expression's value is the one C prescribes."""
import os, re, subprocess, multiprocessing as mp, traceback, time
import z3, rv, tv, core
from rv import *
from gen import CT, width, SIGNED
WIN=BUF0; OLDP=BUF0+0x10000
K,FAILS=3,1
class AExec(Exec):
    def aux0(e,s):
        if s.aux is None: s.aux=(0,0,())
    def window(e,s): return bv(e.load_c(s,WIN,8),64)
    def interfere(e,s):
        e.aux0(s); k,f,w=s.aux
        if k<K:
            v=z3.BitVec('env%d'%k,64)
            for i in range(8): s.mem[WIN+i]=(v,i)
            s.aux=(k+1,f,w)
    def inwin(e,a,n): return isint(a) and a<WIN+8 and a+n>WIN
    def load(e,s,a,n):
        if not isint(a): a=simp(a)
        if e.inwin(a,n): e.interfere(s)
        return Exec.load(e,s,a,n)
    def commit(e,s,a,n,v,atomic):
        prev=e.window(s)
        if Exec.store(e,s,a,n,v) is None: return None
        k,f,w=s.aux; s.aux=(k,f,w+((prev,e.window(s),atomic),)); return True
    def store(e,s,a,n,v):
        if not isint(a): a=simp(a)
        if e.inwin(a,n):
            e.interfere(s); return e.commit(s,a,n,v,False)
        return Exec.store(e,s,a,n,v)
    def amogen(e,op):
        mt=re.match(r'^(lr|sc|amo\w+)\.(w|d)(\.\w+)?$',op)
        if not mt: return None
        o,w=mt.group(1),mt.group(2); n=4 if w=='w' else 8; R=e.reg
        def go(s,work,mi,m,a,raw):
            ad=s.x[R(re.match(r'^0?\((\w+)\)$',a[-1]).group(1))]
            if not isint(ad): ad=simp(ad)
            if not isint(ad): raise Limit('symbolic atomic address')
            if ad%n: e.fault(s,'misaligned atomic access'); return False
            e.aux0(s)
            if o=='sc':
                ok=s.reserved==(ad,n); s.reserved=None
                k,f,wr=s.aux
                if not ok or f<FAILS:
                    t=s.clone()
                    k2=k
                    if e.inwin(ad,n):
                        t.aux=(k,f+1,wr)
                        e.interfere(t)
                    e.setx(t,R(a[0]),1); 
                    if not ok:
                        s.x=t.x; s.aux=t.aux; s.mem=t.mem; return True
                    work.append(t)
                if e.inwin(ad,n):
                    if e.commit(s,ad,n,s.x[R(a[1])],True) is None: return False
                elif Exec.store(e,s,ad,n,s.x[R(a[1])]) is None: return False
                e.setx(s,R(a[0]),0); return True
            v=e.load(s,ad,n)
            if v is None: return False
            old=v if n==8 else sext(v,32)
            if o=='lr': s.reserved=(ad,n); e.setx(s,R(a[0]),old); return True
            y=s.x[R(a[1])]
            if o=='amoswap': nv=y
            else:
                A=bv(old); Y=bv(y)
                nv=simp({'amoadd':A+Y,'amoand':A&Y,'amoor':A|Y,'amoxor':A^Y}[o])
            if e.inwin(ad,n):
                if e.commit(s,ad,n,nv,True) is None: return False
            elif Exec.store(e,s,ad,n,nv) is None: return False
            e.setx(s,R(a[0]),old); return True
        return go

class AC:
    """kind: 'new' (value of the expression is the new value), 'old', 'cas'"""
    def __init__(c,name,src,t,b,kind,spec,off,pre=None,args='pb',glob=None):
        c.name=name; c.src=src; c.t=t; c.b=b; c.kind=kind; c.spec=spec; c.off=off; c.pre=pre; c.args=args; c.glob=glob
def fl(t): return t in('f','d')
WB={'f':32,'d':64}
def tw(t): return WB.get(t) or width(t)
def ext(t,v):
    w=tw(t)
    if w==64: return v
    return z3.SignExt(64-w,v) if t in SIGNED or t=='u32' else z3.ZeroExt(64-w,v)
def spec_fn(asm,t,b,st):
    lay=Layout(); im=Image([Module(asm,tag='B')],lay,'B')
    a=z3.BitVec('SPa',tw(t)); bb=z3.BitVec('b',tw(b))
    x,f={},{}
    if fl(t): f[FA0]=box(a) if t=='f' else a
    else: x[A0]=ext(t,a)
    if fl(b): f[FA0+(1 if fl(t) else 0)]=box(bb) if b=='f' else bb
    else: x[A0+(0 if fl(t) else 1)]=ext(b,bb)
    ex=Exec(im,st); d=ex.run('h',x,f)
    if len(d)!=1 or d[0].kind!='ret': raise Limit('specification not straight-line')
    r=d[0].f[FA0] if fl(t) else d[0].x[A0]
    return a, lo(bv(r),tw(t))
def one(arg):
    c,asm,gasm=arg
    st=Stats(); t0=time.time()
    FPMode.exact=False; FPMode.used=False; FPMode.axioms=[]
    try:
        r=decide(c,asm,gasm,st)
        if r[0]=='diff' and FPMode.used:
            FPMode.exact=True; FPMode.axioms=[]; r=decide(c,asm,gasm,st)
    except AsmError as ex: r=('asm',str(ex))
    except Limit as ex: r=('limit',str(ex))
    except Exception: r=('limit','internal '+traceback.format_exc()[-300:])
    return r,(st.queries,st.solver_s,st.insts,st.paths,st.unknown),time.time()-t0
def decide(c,asm,gasm,st):
    w=tw(c.t); sh=8*c.off
    lay=Layout()
    if c.glob: lay.g[c.glob]=WIN+c.off
    im=Image([Module(asm,tag='A')],lay,'A',True)
    b=z3.BitVec('b',tw(c.b)); x,f={},{}
    xi=0
    for k in c.args:
        if k=='p': x[A0+xi]=WIN+c.off; xi+=1
        elif k=='w': x[A0+xi]=WIN; xi+=1
        elif k=='o': x[A0+xi]=OLDP; xi+=1
        elif k=='b':
            if fl(c.b): f[FA0]=box(b) if c.b=='f' else b
            else: x[A0+xi]=ext(c.b,b); xi+=1
    pre=[]
    if c.pre: pre=[eval(c.pre,{'z3':z3,'b':b})]
    ex=AExec(im,st,pre=pre,bufs=[(WIN,8),(OLDP,8)],max_paths=400,max_steps=3000)
    prem={OLDP+i:(z3.BitVec('old',64),i) for i in range(8)}
    prem.update({WIN+i:(z3.BitVec('env',64),i) for i in range(8)})
    done=ex.run('f',x,f,premem=prem)
    if c.kind!='cas': A,S=spec_fn(gasm,c.t,c.b,st)
    n=0
    for s in done:
        if s.kind=='steps': raise Limit('step bound')
        bad=[]; conds=[]
        wr=(s.aux or (0,0,()))[2]
        rv_=s.f[FA0] if fl(c.t) and c.kind!='cas' else s.x[A0]
        rv_=bv(rv_)
        if s.kind!='ret': bad.append('%s: %s'%(s.kind,s.msg))
        else:
            for r in SAVED_X+[SP,3,TP]:
                q=eqv(s.x[r],tv.exA_init(r,'x'))
                if q is False: bad.append('clobbers '+XN[r])
                elif q is not True: conds.append(('saved '+XN[r],q))
            obj=lambda W: z3.Extract(sh+w-1,sh,W)
            def repl(W,v):
                m=((1<<w)-1)<<sh
                return (W&~z3.BitVecVal(m,64))|(z3.ZeroExt(64-w,v)<<sh if w<64 else v)
            if c.kind=='cas':
                if len(wr)>1: bad.append('%d stores to the shared object'%len(wr))
                exp=z3.Extract(w-1,0,z3.BitVec('old',64)); new=lo(b,w) if tw(c.b)>w else (b if tw(c.b)==w else None)
                nold=bv(ex.load_c(s,OLDP,8),64)
                if len(wr)==1:
                    p,nw,at=wr[0]
                    if not at: bad.append('plain store to the shared object')
                    conds+=[('stored value',nw==repl(p,new)),('compared value',obj(p)==exp),('result',rv_==1),('expected object',nold==z3.BitVec('old',64))]
                elif not wr:
                    conds+=[('result',rv_==0),('expected object',z3.Extract(w-1,0,nold)!=exp)]
                    if w<64: conds.append(('bytes beside the expected object',z3.Extract(63,w,nold)==z3.Extract(63,w,z3.BitVec('old',64))))
                    conds.append(('value read back',z3.Or(*[z3.Extract(w-1,0,nold)==obj(z3.BitVec('env'+q,64)) for q in ['']+[str(i) for i in range(K)]])))
            else:
                if len(wr)!=1: bad.append('%d stores to the shared object'%len(wr))
                for p,nw,at in wr[:1]:
                    sp=z3.substitute(S,(A,obj(p))) if c.kind!='exch' else lo(b,w)
                    conds.append(('stored value',nw==repl(p,sp)))
                    res=sp if c.kind=='new' else obj(p)
                    if fl(c.t): conds.append(('value of the expression',lo(rv_,w)==res))
                    else: conds.append(('value of the expression',rv_==ext(c.t,res)))
        n+=1
        def model(m):
            out=tv.model_dict(m)
            ev=lambda t: m.eval(bv(t),model_completion=True).as_long()
            out['_ret']=ev(rv_); out['_win']=ev(ex.window(s)); out['_oldp']=ev(bv(ex.load_c(s,OLDP,8),64)); out['_kind']=s.kind
            return out
        if bad:
            q,m=ex.check(s.path)
            if q==z3.sat: return ('diff','; '.join(bad),model(m))
            if q==z3.unknown: raise Limit('unknown')
            continue
        if not conds: continue
        q,m=ex.check(s.path,z3.Not(z3.And(*[k for _,k in conds])))
        if q==z3.sat:
            return ('diff','differs: '+', '.join(l for l,k in conds if z3.is_false(m.eval(k,model_completion=True))),model(m))
        if q==z3.unknown: raise Limit('solver unknown')
    if not n or ex.cut: raise Limit('path bound')
    return ('ok',n)
def cases(tier):
    out=[]
    for t in ['i8','u8','i16','u16','i32','u32','i64','u64','d','f']:
        A=CT[t]; sz=tw(t)//8
        offs=list(range(0,8,sz))
        few=offs if tier else ([offs[0],offs[-1]] if len(offs)>1 else offs)
        for b in (['i32','i64'] if not fl(t) else [t]) + (['u8'] if tier and not fl(t) else []):
            B=CT[b]
            for op in ['+=','-=','*=','/=','%=','&=','|=','^=','<<=','>>=']:
                if fl(t) and op not in('+=','-='): continue
                if (t in('i16','u16') and op in('*=','/=','%=') or op=='*=' and b=='i64' and tw(t)<64) and not tier: continue    # beyond the solver's time
                rr='b'; pre=None
                if op in('/=','%='): rr='((b&1023)+1)'
                if op in('<<=','>>='): rr='(b&7)'
                h='%s h(%s a,%s b){ a %s %s; return a; }'%(A,A,B,op,rr)
                for o in (offs if op=='+=' and b=='i32' else few if b=='i32' else few[:1]):
                    out.append(AC('%s %s %s @%d'%(t,op,b,o),'%s f(_Atomic %s *p,%s b){ return *p %s %s; }'%(A,A,B,op,rr),t,b,'new',h,o))
                if b=='i32' and op in('+=','&='):
                    out.append(AC('global %s %s %s'%(t,op,b),'_Atomic %s g; %s f(%s b){ return g %s %s; }'%(A,A,B,op,rr),t,b,'new',h,offs[-1],args='b',glob='g'))
                    out.append(AC('member %s %s %s'%(t,op,b),'struct S{ _Atomic %s m[%d]; }; %s f(struct S *p,%s b){ return p->m[%d] %s %s; }'%(A,8//sz,A,B,8//sz-1,op,rr),t,b,'new',h,offs[-1],args='wb'))
                    out.append(AC('struct %s %s %s'%(t,op,b),'struct S{ %s x; _Atomic %s m; }; %s f(struct S *p,%s b){ return p->m %s %s; }'%(A,A,A,B,op,rr) if sz<8 else 'struct S{ _Atomic %s m; }; %s f(struct S *p,%s b){ return p->m %s %s; }'%(A,A,B,op,rr),t,b,'new',h,sz if sz<8 else 0,args='wb'))
                    out.append(AC('nested %s %s %s'%(t,op,b),'int k(int n){ return n+1; } %s f(_Atomic %s *p,%s b){ return *(p+(k(3)-k(k(2)))) %s (%s)(%s+(k(0)-1)); }'%(A,A,B,op,B,rr),t,b,'new',h,offs[0]))
        for o in few:
            for nm,ex,kd in [('++x','++*p','new'),('--x','--*p','new'),('x++','(*p)++','old'),('x--','(*p)--','old')]:
                if fl(t): continue
                h='%s h(%s a,int b){ a%s; return a; }'%(A,A,nm.replace('x',''))
                out.append(AC('%s %s @%d'%(nm,t,o),'%s f(_Atomic %s *p,int b){ return %s; }'%(A,A,ex),t,'i32',kd,h,o))
            H='#include <stdatomic.h>\n'
            for fn,op in [('add','+'),('sub','-'),('or','|'),('xor','^'),('and','&')]:
                if fl(t): continue
                for sfx,arg in [('',''),('_explicit',',0')]:
                    if sfx and o!=few[0]: continue
                    out.append(AC('fetch_%s%s %s @%d'%(fn,sfx,t,o),H+'%s f(_Atomic %s *p,int b){ return atomic_fetch_%s%s(p,b%s); }'%(A,A,fn,sfx,arg),t,'i32','old','%s h(%s a,int b){ return a %s b; }'%(A,A,op),o))
            bt=t
            out.append(AC('exchange %s @%d'%(t,o),H+'%s f(_Atomic %s *p,%s b){ return atomic_exchange(p,b); }'%(A,A,A),t,bt,'exch','%s h(%s a,%s b){ return b; }'%(A,A,A),o))
            if not fl(t):
                for fn in ['strong','weak']:
                    out.append(AC('cas_%s %s @%d'%(fn,t,o),H+'int f(_Atomic %s *p,%s *q,%s b){ return atomic_compare_exchange_%s(p,q,b); }'%(A,A,A,fn),t,bt,'cas','int h;',o,args='pob'))
                out.append(AC('cas nested %s @%d'%(t,o),H+'int k(int n){ return n; } int f(_Atomic %s *p,%s *q,%s b){ return atomic_compare_exchange_strong(p+k(0),q+k(k(0)),(%s)(b+k(0))); }'%(A,A,A,A),t,bt,'cas','int h;',o,args='pob'))
    H='#include <stdatomic.h>\n'
    out.append(AC('flag test_and_set',H+'int f(_Atomic char *p,char b){ return atomic_exchange(p,1); }','u8','u8','exch1','unsigned char h(unsigned char a,unsigned char b){ return 1; }',3))
    return [c for c in out if c.kind!='exch1']
# ---- replay: the same schedule against the natively compiled program under qemu
HOOK='''	addi sp,sp,-512
	sd ra,0(sp)
'''+''.join('\tsd %s,%d(sp)\n'%(r,8+8*i) for i,r in enumerate(['t%d'%k for k in range(7)]+['a%d'%k for k in range(8)]))+''.join('\tfsd fa%d,%d(sp)\n\tfsd ft%d,%d(sp)\n'%(k,200+16*k,k,208+16*k) for k in range(8))+'''	addi a0,%s,%s
	li a1,%d
	call __hook
'''+''.join('\tfld fa%d,%d(sp)\n\tfld ft%d,%d(sp)\n'%(k,200+16*k,k,208+16*k) for k in range(8))+''.join('\tld %s,%d(sp)\n'%(r,8+8*i) for i,r in enumerate(['t%d'%k for k in range(7)]+['a%d'%k for k in range(8)]))+'''	ld ra,0(sp)
	addi sp,sp,512
'''
def instrument(asm):
    out=[]
    for l in asm.split('\n'):
        m=re.match(r'^\s+(\S+)\s+(.*)$',l)
        if m and (re.match(r'^(l[bhwd]u?|s[bhwd]|fl[wd]|fs[wd]|lr\.\S+|sc\.\S+|amo\S+)$',m.group(1))):
            mm=re.search(r'(-?\d*)\((\w+)\)\s*$',m.group(2))
            if mm and mm.group(2) not in('sp','s0','fp'):
                out.append(HOOK%(mm.group(2),mm.group(1) or '0',1 if m.group(1).startswith('sc') else 0))
        out.append(l)
    return '\n'.join(out)
def replay(c,m,d):
    os.makedirs(d,exist_ok=True)
    rc,asm,err=core.native_asm(c.src)
    if rc: return False,'native compile failed '+err[-200:]
    open(d+'/t.c','w').write(c.src)
    open(d+'/t.s','w').write(instrument(asm))
    w=tw(c.b); b=m.get('b',0)
    args=[]; proto=[]
    for k in c.args:
        if k in'pw': proto.append('void*'); args.append('(void*)%dUL'%(WIN+(c.off if k=='p' else 0)))
        elif k=='o': proto.append('void*'); args.append('(void*)%dUL'%OLDP)
        else: proto.append(CT[c.b]); args.append('B')
    rt=CT[c.t] if c.kind!='cas' else 'int'
    g='extern %s g;'%CT[c.t] if c.glob else ''
    # schedule: env0.. applied at successive accesses to the window, as in the encoding
    env=[m.get('env%d'%i) for i in range(K)]
    base='(void*)%dUL'%WIN if not c.glob else '((char*)&g-%d)'%c.off
    src='''#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
%s
%s f(%s);
static unsigned long env[]={%s}; static int have[]={%s}; static int k; static char *W;
void __hook(unsigned long a,int sc){ if((a&~7UL)!=(unsigned long)W) return; if(sc) return; if(k<%d){ if(have[k]) memcpy(W,&env[k],8); k++; } }
int main(void){ unsigned long bb=%dUL,iv=%dUL,ov=%dUL,r=0; %s B; memcpy(&B,&bb,sizeof B);
 mmap((void*)%dUL,0x20000,3,0x32,-1,0); W=%s; memcpy(W,&iv,8); memcpy((void*)%dUL,&ov,8);
 %s R=f(%s); memcpy(&r,&R,sizeof R); printf("%%lx %%lx %%lx\\n",r,*(unsigned long*)W,*(unsigned long*)%dUL); return 0; }
'''%(g,rt,','.join(proto) or 'void',','.join('%dUL'%(v or 0) for v in env),','.join('1' if v is not None else '0' for v in env),K,b,m.get('env',0),m.get('old',0),CT[c.b],WIN,base,OLDP,rt,','.join(args),OLDP)
    open(d+'/m.c','w').write(src)
    p=subprocess.run(['riscv64-linux-gnu-gcc','-static','-w','-o',d+'/m',d+'/m.c',d+'/t.s'],capture_output=True,text=True)
    if p.returncode: return (c.kind=='asm' or True), 'emitted assembly does not build: '+p.stderr[-300:]
    try: p=subprocess.run(['qemu-riscv64',d+'/m'],capture_output=True,text=True,timeout=20)
    except subprocess.TimeoutExpired: return True,'program does not terminate'
    os.unlink(d+'/m')
    if p.returncode: return True,'program died with status %d'%p.returncode
    r,W,O=[int(q,16) for q in p.stdout.split()]
    rw=32 if c.kind=='cas' else tw(c.t)
    same=(r&((1<<rw)-1))==(m['_ret']&((1<<rw)-1)) and W==m['_win'] and O==m['_oldp']
    return same,'native run: result %x, shared word %x, expected object %x (as the counterexample predicts: %s)'%(r,W,O,same)
def run(r):
    cs=cases(core.THOROUGH)
    res=core.compile_many([c.src for c in cs])
    gs=core.gcc_many([c.spec for c in cs])
    jobs=[];idx=[]; ok=0
    for c,a,g in zip(cs,res,gs):
        r.programs+=1; r.obl+=1
        key='atomic:'+c.name
        if not a.ok:
            rc,_,err=core.native_asm(c.src)
            if rc: r.violation(key,'well-formed program rejected: '+err[-200:],{'prog.c':c.src})
            else: r.unconf.append((key,a.err[-100:]))
            continue
        if not g.ok: r.inconc.append((key,'oracle rejects')); continue
        jobs.append((c,a.asm,g.asm)); idx.append(c)
    rep=0
    with mp.Pool(core.JOBS) as pool:
        for c,(v,stt,t) in zip(idx,pool.imap(one,jobs,chunksize=1)):
            key='atomic:'+c.name
            r.q+=stt[0]; r.solver+=stt[1]; r.insts+=stt[2]; r.paths+=stt[3]
            if v[0]=='ok': ok+=1; r.disch+=1; r.checked+=v[1]; continue
            if v[0]=='limit': r.inconc.append((key,v[1])); continue
            d=os.path.join(r.dir,re.sub(r'[^\w.-]','_',key.replace(' ','_'))[:80])
            if rep>=6 and r.viol: r.viol.append((key.replace(' ','_'),v[1]+' (not replayed: replay budget)',None)); continue
            rep+=1; r.replays+=1
            conf,txt=replay(c,v[2] if len(v)>2 else {'_ret':0,'_win':0,'_oldp':0},d)
            if conf: r.violation(key,'%s\ncounterexample (interfering stores env*, operand b): %s\n%s'%(v[1],{k:hex(x) if isinstance(x,int) else x for k,x in (v[2] if len(v)>2 else {}).items() if k[:3] in('env','b','old') or k[0]=='_'},txt))
            else: r.unconf.append((key,v[1][:160]+' | '+txt[:200]))
    r.family('atomic',len(cs),ok)
    r.sample({'family':'atomic','case':cs[0].name,'source':cs[0].src,'interference':'up to %d arbitrary rewrites of the surrounding 8 bytes, %d failing sc'%(K,FAILS)})
