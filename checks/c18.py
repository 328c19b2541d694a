from gen import *
from report import Report
import core, sx, rv, z3, re, functools
from c09 import Holes, sy
Case=functools.partial(Case,boolmem=True,max_steps=60000)
TY=[('signed char','i8'),('unsigned short','u16'),('int','i32'),('unsigned long','u64'),('_Bool','bool'),('float','f'),('double','d')]
def szs(): return [2024,2032,2039,2040,2047,2048,2056,4095,4104,32760,65544,1<<20] if core.THOROUGH else [2032,2040,2047,2048,4104,65544]
def cases_local():
    cs=[]
    for S in szs():
        for t,k in TY:
            cs.append(Case('%s after a[%d]'%(t,S),'void g(char*,%s*); %s f(%s x){ char a[%d]; %s b=x; g(a,&b); return b; }'%(t,t,t,S,t),[k],k,externs={'g':(['i64','i64'],'i32')}))
            cs.append(Case('%s before a[%d]'%(t,S),'long h(char*); %s f(%s x,%s y){ %s b=x; char a[%d]; a[%d]=y; b=b+y; h(a); return b+a[%d]; }'%(t,t,t,t,S,S-1,S-1),[k,k],k,externs={'h':(['i64'],'i64')}) if k!='bool' else Case('bool2 %d'%S,'_Bool f(_Bool x){ _Bool b; char a[%d]; a[%d]=x; b=!a[%d]; b^=x; return b; }'%(S,S-1,S-1),['bool'],'bool'))
        cs.append(Case('index a[%d]'%S,'int f(int x,int y){ char a[%d]; int b[4]; for(int i=0;i<4;i++) b[i]=x+i; a[0]=y; a[%d]=x; return b[3]*a[0]+a[%d]+b[y&3]; }'%(S,S-1,S-1),['i32','i32'],'i32'))
        cs.append(Case('zero init past a[%d]'%S,'int g(char*); int f(int x){ int z[5]={0,x}; char a[%d]; struct{char c; long l; short s[3];} w={x}; a[%d]=1; return g(a)+z[0]+z[1]+z[4]+w.c+w.l+w.s[2]; }'%(S,S-1),['i32'],'i32',externs={'g':(['i64'],'i32')}))
        cs.append(Case('struct init past a[%d]'%S,'struct S{char c; int i[3]; double d;}; double f(int x,double y){ char a[%d]; struct S s={x,{1,x},y},t; t=s; s.i[2]=t.i[1]; a[%d]=x; return x==5?t.d:s.c+s.i[2]+a[%d]; }'%(S,S-1,S-1),['i32','d'],'d',externs={}))
        cs.append(Case('bit-field past a[%d]'%S,'struct B{unsigned a:3; int b:17; unsigned long c:40;}; long g(char*); long f(int x,long y){ char a[%d]; struct B b; b.a=x; b.b=y; b.c=y; a[0]=x; a[%d]=x; b.b++; return b.a+b.b*3+(long)b.c*5+a[0]; }'%(S,S-1),['i32','i64'],'i64'))
        cs.append(Case('params past a[%d]'%S,'double f(char p1,short p2,float p3,int p4,float p5,double p6,long p7,int p8,long p9,long p10,int p11,long p12,int p13){ char a[%d]; a[%d]=p1; a[0]=p9; return p8==1?p3:p8==2?p5:p8==3?p6:p2+p4+p7+p8+p9+p10+p11+p12*2+p13+a[%d]; }'%(S,S-1,S-1),['i8','i16','f','i32','f','d','i64','i32','i64','i64','i32','i64','i32'],'d'))
        cs.append(Case('call with stack args past a[%d]'%S,'long g(long,long,long,long,long,long,long,long,long,long,int); long f(long x){ char a[%d]; long b=x; a[%d]=x; return g(x,b,3,4,5,6,7,8,x+9,a[%d],b)+b; }'%(S,S-1,S-1),['i64'],'i64',externs={'g':(['i64']*10+['i32'],'i64')}))
        cs.append(Case('hidden return buffer past a[%d]'%S,'struct Q{long a,b,c;}; struct Q g(long x){ struct Q q={x,x+1,x*2}; return q; } long f(long x){ char a[%d]; a[%d]=x; struct Q q=g(x); return q.a+q.c+g(q.b).b+a[%d]; }'%(S,S-1,S-1),['i64'],'i64'))
        cs.append(Case('small struct return past a[%d]'%S,'struct Q{int a; short b;}; struct R{float a; int b;}; struct Q g(int x){ struct Q q={x,x+1}; return q; } struct R h(int x){ char a[%d]; a[%d]=x; struct R q={x,x+a[%d]}; return q; } float f(int x){ char a[%d]; a[%d]=x; struct Q q=g(x); struct R r=h(x); return x==1?r.a:q.a+q.b+r.b+h(a[%d]).b; }'%((S,S-1,S-1)*2),['i32'],'f'))
        cs.append(Case('large frame recursion %d'%S,'int r(int n,int x){ char a[%d]; a[%d]=x; if(n==0) return x; return r(n-1,x+1)+a[%d]; } int f(int x){ return r(2,x); }'%(S,S-1,S-1),['i32'],'i32'))
        cs.append(Case('vla past a[%d]'%S,'long f(int n,long x){ char a[%d]; long v[n]; v[0]=x; v[n-1]=x+1; a[%d]=x; return v[0]+a[%d]+sizeof(v); }'%(S,S-1,S-1),['i32','i64'],'i64',assume=['p0==1']))
    return cs
def cases_member():
    cs=[]
    for S in szs():
        for t,k in TY:
            st='struct S{char p[%d]; %s m; %s n[3];};'%(S,t,t)
            rt,rk=('long','i64') if k not in('f','d') else (t,k)
            cs.append(Case('%s at offset %d'%(t,S),st+' struct S g; void f(%s x){ g.m=x; struct S *p=&g; p->n[1]=p->m; p->n[2]=g.n[1]; p->p[%d]=x; }'%(t,S-1),[k],'v'))
            cs.append(Case('%s op= at offset %d'%(t,S),st+' struct S g; %s f(%s x){ struct S *p=&g; p->m=x; p->m+=3; --p->n[0]; g.n[2]=p->m; return p->m--; }'%(rt,t),[k],rk) if k!='bool' else Case('bool op %d'%S,st+' struct S g; int f(_Bool x){ g.m=x; g.m^=1; g.n[2]=!g.m; return g.m; }',['bool'],'i32'))
            cs.append(Case('%s negative offset %d'%(t,S),st+' struct S g; %s f(%s x){ g.m=x; %s *q=&g.n[2]; q[-2]=x; char *c=(char*)&g.m; c[-%d]=1; *(c-1)=2; return ((struct S*)(c-%d))->m; }'%(t,t,t,S,(S+7)//8*8 if k in('u64','d') else (S+3)//4*4 if k in('i32','f') else (S+1)//2*2 if k=='u16' else S),[k],k))
        cs.append(Case('bit-field at offset %d'%S,'struct S{char p[%d]; unsigned a:3; int b:17; long c:50; _Bool d:1;} g; long f(long x){ struct S *p=&g; p->a=x; p->b=x>>3; g.c=x; p->d=x; p->b+=p->a; g.c--; return p->a+p->b+(long)p->c+p->d; }'%S,['i64'],'i64'))
        cs.append(Case('nested offset %d'%S,'struct I{char p[%d]; struct{int a; long b;} in; union{float f; int i;} u;}; struct S{long h; struct I i[2];} g; long f(int x){ struct S *p=&g; p->i[1].in.b=x; p->i[1].u.i=x; p->i[0].in=p->i[1].in; return g.i[0].in.b+g.i[1].u.i+(long)((char*)&p->i[1].u-(char*)p); }'%S,['i32'],'i64'))
        cs.append(Case('index constant %d'%S,'int a[%d]; long b[%d]; char c[%d]; long f(int x){ a[%d]=x; b[%d]=x; c[%d]=x; int *p=a+%d; return *p+p[-%d]+b[%d]+*(c+%d)+(&b[%d]-b); }'%(S+1,S+1,S+1,S,S,S,S,S,S,S,S),['i32'],'i64'))
        cs.append(Case('index variable scale %d'%S,'struct S{char p[%d];} g[4]; long f(unsigned i,char x){ i&=3; g[i].p[%d]=x; struct S *q=g+i; q->p[0]=x; return (char*)q-(char*)g; }'%(S,S-1),['u32','i8'],'i64'))
        cs.append(Case('offsetof %d'%S,'struct S{char p[%d]; long m;}; long f(void){ return (long)&((struct S*)0)->m+sizeof(struct S); }'%S,[],'i64'))
        cs.append(Case('address initialisers %d'%S,'struct S{char p[%d]; int m[4];} g; static int *q=&g.m[2]; static char *e=g.p+%d; static char *n=(char*)&g.m+-%d; long f(int x){ *q=x; e[-1]=x; n[0]=x; return g.m[2]; }'%(S,S,S),['i32'],'i64',havoc=False))
        cs.append(Case('static local %d'%S,'long f(int x){ static struct{char p[%d]; long m;} s={.m=5}; s.m+=x; s.p[%d]=x; return s.m; }'%(S,S-1),['i32'],'i64'))
    return cs
def cases_copy():
    cs=[]
    for S in ([33,2040,2047,2048,2056,4100] if core.THOROUGH else [33,2040,2056,2100]):
        st='struct S{char c[%d]; int m;};'%S
        cs.append(Case('assign %d'%S,st+' struct S g,h; void f(int x){ g.c[0]=x; g.c[%d]=x+1; g.m=x; h=g; }'%(S-1),['i32'],'v'))
        cs.append(Case('argument %d'%S,st+' struct S g; int k(struct S s){ return s.c[0]+s.c[%d]*3+s.m; } int f(int x){ g.c[0]=x; g.c[%d]=x+1; g.m=x*2; return k(g); }'%(S-1,S-1),['i32'],'i32'))
        cs.append(Case('return %d'%S,st+' struct S k(int x){ struct S s; s.c[0]=x; s.c[%d]=x+1; s.m=x*2; s.c[1]=0; return s; } int f(int x){ struct S s=k(x); return s.c[0]+s.c[%d]*3+s.m+k(1).m; }'%(S-1,S-1),['i32'],'i32'))
        cs.append(Case('zero %d'%S,st+' int f(int x,int i){ struct S s={x}; s.m++; return s.c[0]+s.c[%d]+s.c[%d]+s.m; }'%(S-1,S//2),['i32','i32'],'i32'))
        cs.append(Case('conditional %d'%S,st+' struct S g,h; int f(int x){ g.m=x; h.m=x+1; g.c[%d]=x; return (x?g:h).m+(x>3?g:h).c[%d]; }'%(S-1,S-1),['i32'],'i32'))
        cs.append(Case('comma assign %d'%S,st+' struct S g,h,k; int f(int x){ g.m=x; g.c[%d]=x; k=h=g; return (x,k).c[%d]+k.m; }'%(S-1,S-1),['i32'],'i32'))
    return cs
def cases_args():
    cs=[]
    for n in ((20,255,262,263,264,265,300) if core.THOROUGH else (20,262,264,266)):
        ps=','.join('long a%d'%i for i in range(n)); u='+'.join('a%d'%i for i in (0,7,8,9,n//2,n-2,n-1))
        cs.append(Case('%d arguments'%n,'long k(%s){ long z=5; return %s+z; } long f(long x){ return k(%s); }'%(ps,u,','.join('x+%d'%(i*i) for i in range(n))),['i64'],'i64'))
        ps=','.join(['char','short','double','float','int','_Bool'][i%6]+' a%d'%i for i in range(n))
        cs.append(Case('%d mixed arguments'%n,'double k(%s){ char z[40]; z[39]=a0; return z[39]==%s; } double f(int x){ return k(%s); }'%(ps,'||z[39]=='.join(u.split('+')),','.join('x' if i in(0,7,8,9,n//2,n-2,n-1) else str(i) for i in range(n))),['i32'],'d',max_paths=300))
        cs.append(Case('%d arguments to an unknown function'%n,'long k(%s); long f(long x){ return k(%s)+x; }'%(','.join(['long']*n),','.join('x+%d'%i for i in range(n))),['i64'],'i64',externs={'k':(['i64']*n,'i64')}))
    # struct by value beyond: on the stack
    for S in (2040,2056):
        cs.append(Case('stack struct after %d'%S,'struct B{char c[16]; long d[%d];}; struct P{long a,b;}; long k(struct P a,struct P b,struct P c,struct P d,struct P e,long x){ return a.a+d.b*2+e.a*3+e.b*5+x*7; } long f(long x){ char pad[%d]; pad[%d]=x; struct P p={x,x+1},q={x+2,pad[%d]}; return k(p,q,p,q,p,x); }'%(S//8,S,S-1,S-1),['i64'],'i64'))
    return cs
def cases_far():
    """bodies longer than a conditional branch reaches"""
    cs=[]
    body=' '.join('y+=%d;'%i for i in range(500 if not core.THOROUGH else 3000))
    cs.append(Case('if over a long body','int f(int x,int y){ if(x){ %s } else y=-y; return y; }'%body,['i32','i32'],'i32'))
    cs.append(Case('loop over a long body','int f(int x,int y){ for(int i=0;i<(x&1);i++){ %s } return y; }'%body,['i32','i32'],'i32'))
    cs.append(Case('switch over a long body','int f(int x,int y){ switch(x){ case 1: %s break; case 2: y=7; break; default: y=9; } return y; }'%body,['i32','i32'],'i32'))
    cs.append(Case('?: and && over long operands','int f(int x,int y){ return (x&&(%s))?1:(%s); }'%('|'.join(['y']*400),'&'.join(['y']*400)),['i32','i32'],'i32'))
    cs.append(Case('goto over a long body','int f(int x,int y){ if(x) goto e; %s e: return y; }'%body,['i32','i32'],'i32'))
    cs.append(Case('many cases','int f(int x){ switch(x){ %s default: return -1; } }'%' '.join('case %d: return %d;'%(i*37-2000,i) for i in range(110)),['i32'],'i32'))
    return cs
def groups():
    """array and member sizes are symbolic numbers: every immediate emitted is in its instruction's range"""
    gs=[]
    progs={
     'local':('int g(char*); int f(int x){ char a[','];int b=x; short c=x; double d=x; struct{int p,q[4]; long r;} s,t={x,{1,x}}; s=t; a[0]=x; return g(a)+b+c+d+s.q[2]+s.r; }'),
     'params':('int f(int x,char p1,float p2,double p3,long p4,short p5,int p6,long p7,int p8,int p9,int p10){ char a[','];a[0]=x; return p1+p2+p3+p4+p5+p6+p7+p8+p9+p10; }'),
     'member':('struct S{char a[','];int b; short c; double d; struct{int p,q[4];} s; unsigned e:3; int f:20; } g; int f(struct S*p,int x){ p->b=x; g.c=x; p->d=x; g.s=p->s; p->e=x; g.f+=x; return g.b+p->s.q[3]; }'),
     'calls':('struct Q{long a,b,c;}; struct R{int a; float b;}; struct Q q(void); struct R r(struct Q,struct R,...); int f(int x){ char a[','];struct Q u=q(); struct R v=r(u,r(q(),v)); a[0]=v.a; return u.b+v.b+q().a+r(u,v,1,2,3,4,5,6,7,8,9).b; }'),
     'variadic':('int f(int n,...){ char a[','];__builtin_va_list_x; return n; }'),
     'alloca':('void *alloca(unsigned long); int f(int n){ char a[','];int *p=alloca(n); int v[n]; p[0]=1; v[0]=n; a[0]=n; return p[0]+v[n-1]; }'),
    }
    progs.pop('variadic')
    for k,(a,b) in progs.items():
        for d in (1,2,3,4,5): gs.append((k,d,a,b))
    out=[]
    for k,d,a,b in gs:
        segs=[a,sy('n0',1,'1-9')]+([sy('n',d-1,'0-9')] if d>1 else [])+[b+'\n']
        def bad(p):
            if p.status!=0: return [('a valid program is rejected: '+p.out.get('<stderr>','')[-60:],True)]
            return ranges(p)
        def confirm(txt,m):
            rc,asm,err=core.native_asm(txt)
            if rc: return 'exit %d: %s'%(rc,err[-200:])
            e=assembles(asm)
            return e and 'the assembler rejects: '+e
        out.append(dict(key='%s %d digits'%(k,d),segs=segs,bad=bad,confirm=confirm,lits=1))
    return out
def assembles(asm):
    import tempfile,subprocess,os
    d=tempfile.mkdtemp(dir=core.scratch()); open(d+'/a.s','w').write(asm)
    q=subprocess.run(['riscv64-linux-gnu-as','-march=rv64gc','-o',d+'/a.o',d+'/a.s'],stdout=-1,stderr=-1)
    return q.stderr.decode()[:200] if q.returncode else None
SKIP={'li','la','j','call','tail','beq','bne','beqz','bnez','blt','bge','bltu','bgeu','ble','bgt','blez','bgez','bltz','bgtz'}
def ranges(p):
    """conditions under which an immediate of the emitted code does not fit its instruction"""
    h=Holes(p); mod=rv.Module(p.out.get('/o/a.s',''),h,tag='A'); o=[]; n=0
    for ins in mod.code:
        op,args=ins[0],ins[1]
        if op in SKIP: continue
        for a in args:
            t=a.split('(')[0].strip()
            if not t or not re.match(r'^[-+]?\d|^\x01',t): continue
            try: v=mod.num(t)
            except Exception: continue
            n+=1; lo,hi=(0,63) if op in('slli','srli','srai') else (0,31) if op in('slliw','srliw','sraiw') else (-2048,2047)
            if isinstance(v,int): b=not lo<=v<=hi
            else: b=z3.Or(v<lo,v>hi)
            if b is not False: o.append(('immediate out of range in "%s %s"'%(op,','.join(args)),b))
    if not n: raise core.BuildError('no immediates seen')
    return o
def run():
    r=Report('C18','translation_validation','functions whose frames, member offsets, copies, argument lists and bodies cross the encoding limits: every immediate the emitted code uses must be encodable and the code must compute what the reference computes, for all data values; array sizes as symbolic decimal numbers for encodability of every emitted immediate')
    r.tv(cases_local(),'frames'); r.tv(cases_member(),'members'); r.tv(cases_copy(),'copies'); r.tv(cases_args(),'arguments'); r.tv(cases_far(),'distances')
    sx.run(r,'symbolic sizes',groups())
    r.bounds=['object sizes and offsets at and around 2 KiB, 4 KiB, 32 KiB, 64 KiB (1 MiB thorough); up to 300 arguments; bodies of up to about 4000 instructions','symbolic array sizes of 1 to 5 digits (1..99999) before the locals, parameters, members, calls and alloca of five programs']
    r.assume=['gcc 13 -O1 -fwrapv as the reference semantics of C','RV64 instruction semantics and immediate ranges as encoded in lib/rv.py']
    return r.finish()
