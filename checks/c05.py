"""Calls: toycc and gcc code linked in both directions."""
import random
from gen import *
from report import Report
import core
# name -> (C type text, declaration, list of member paths, size, align)
ST={}
def S(nm,body,paths,size,al,kw='struct'): ST[nm]=('%s %s'%(kw,nm),'%s %s{%s};'%(kw,nm,body),paths,size,al)
S('A1','char a;',['.a'],1,1); S('A2','char a,b;',['.a','.b'],2,1); S('A3','char a[3];',['.a[0]','.a[1]','.a[2]'],3,1)
S('A4','short a; char b;',['.a','.b'],4,2); S('A5','char a[5];',['.a[0]','.a[4]'],5,1); S('A6','short a[3];',['.a[0]','.a[2]'],6,2)
S('A7','char a[7];',['.a[0]','.a[3]','.a[6]'],7,1); S('A8','int a; int b;',['.a','.b'],8,4); S('A9','char a[9];',['.a[0]','.a[7]','.a[8]'],9,1)
S('A10','long a; short b;',['.a','.b'],16,8); S('A11','char a[11];',['.a[0]','.a[8]','.a[10]'],11,1); S('A12','int a[3];',['.a[0]','.a[2]'],12,4)
S('A13','char a[13];',['.a[12]','.a[6]'],13,1); S('A14','short a[7];',['.a[0]','.a[6]'],14,2); S('A15','char a[15];',['.a[14]','.a[0]'],15,1); S('A16','long a,b;',['.a','.b'],16,8)
S('A17','char a[17];',['.a[0]','.a[16]'],17,1); S('A24','long a[3];',['.a[0]','.a[2]'],24,8); S('A33','char a[33];',['.a[0]','.a[32]'],33,1); S('A40','int a; long b[4];',['.a','.b[3]'],40,8)
S('F1','float a;',['.a'],4,4); S('F2','float a,b;',['.a','.b'],8,4); S('F3','float a,b,c;',['.a','.b','.c'],12,4); S('D1','double a;',['.a'],8,8); S('D2','double a,b;',['.a','.b'],16,8); S('D3','double a[3];',['.a[0]','.a[2]'],24,8)
S('FI','float a; int b;',['.a','.b'],8,4); S('IF','int a; float b;',['.a','.b'],8,4); S('DI','double a; char b;',['.a','.b'],16,8); S('CD','char a; double b;',['.a','.b'],16,8); S('FD','float a; double b;',['.a','.b'],16,8); S('LF','long a; float b;',['.a','.b'],16,8)
S('FII','float a; int b,c;',['.a','.b','.c'],12,4); S('NF','struct {float x;} a; struct {struct {float y;} z;} b;',['.a.x','.b.z.y'],8,4); S('FA','float a[2];',['.a[0]','.a[1]'],8,4); S('NA','struct {int x;} a[1]; double d;',['.a[0].x','.d'],16,8)
S('UF','float a; int b;',['.b'],4,4,'union'); S('UL','long a; char b[3];',['.a'],8,8,'union'); S('UB','char a[20]; int b;',['.a[0]','.a[19]'],20,4,'union'); S('SU','union {float f; int i;} u; float g;',['.u.i','.g'],8,4)
S('LD','long double a;',['.a'],16,16); S('P1','void *p; int n;',['.p','.n'],16,8); S('BF','int a:5; unsigned b:20; long c:40;',['.a','.b','.c'],16,8)
S('B1','_Bool a; short b; float c;',['.a','.b','.c'],8,4)
SC={'i8':('signed char',1),'u8':('unsigned char',1),'i16':('short',2),'u16':('unsigned short',2),'i32':('int',4),'u32':('unsigned int',4),'i64':('long',8),'u64':('unsigned long',8),'bool':('_Bool',1),'f':('float',4),'d':('double',8),'ld':('long double',16),'p':('char *',8)}
def ct(t): return ST[t][0] if t in ST else SC[t][0]
def size(t): return ST[t][3] if t in ST else SC[t][1]
def decls(ts): return ''.join(ST[t][1] for t in dict.fromkeys(ts) if t in ST)
def save(t,i,e):
    """statements storing every member of e into output globals"""
    if t in ST: return ''.join('o%d_%d=%s%s; '%(i,k,e,p) for k,p in enumerate(ST[t][2]))
    return 'o%d=%s; '%(i,e)
def outs(t,i,ext=''):
    if t in ST: return ''.join('%s__typeof__(((%s*)0)->%s) o%d_%d; '%(ext,ct(t),p[1:],i,k) for k,p in enumerate(ST[t][2])) if t!='BF' else ''.join('%slong o%d_%d; '%(ext,i,k) for k in range(3))
    return '%s%s o%d; '%(ext,ct(t),i)
def outdecl(t,i):
    # toycc has no __typeof__
    return outs(t,i).replace('__typeof__','typeof')
def layout(ts):
    off=0; o=[]
    for t in ts: off=(off+15)//16*16; o.append(off); off+=size(t)
    return o,max(off,1)
def boolassume(ts): 
    o,_=layout(ts); L=[]
    for t,k in zip(ts,o):
        if t=='bool': L.append('z3.ULE(z3.BitVec("m_%x",8),1)'%(0x30000000+k))
        if t=='B1': L.append('z3.ULE(z3.BitVec("m_%x",8),1)'%(0x30000000+k))
    return L
def sig(name,ts,ret='i32',variadic=None):
    o,n=layout(ts)
    dc=decls(ts+([ret] if ret in ST else []))
    va=variadic
    ps=', '.join('%s a%d'%(ct(t),i) for i,t in enumerate(ts if va is None else ts[:va])) or 'void'
    if va is not None: ps+=', ...'
    body=''
    if va is not None:
        body='va_list ap; va_start(ap,a%d); '%(va-1)
        for i in range(va,len(ts)): body+='%s a%d=va_arg(ap,%s); '%(ct(ts[i]),i,ct(ts[i]))
        body+='va_end(ap); '
    body+=''.join(save(t,i,'a%d'%i) for i,t in enumerate(ts))
    inc='#include <stdarg.h>\n' if va is not None else ''
    callee=inc+dc+''.join(outdecl(t,i) for i,t in enumerate(ts))+'%s g(%s){ %s return %s; }'%(ct(ret),ps,body,'a0' if ret in ts[:1] else '7')
    caller=dc+'%s g(%s); %s f(char *p){ %s g(%s); }'%(ct(ret),ps,'int' if ret=='i32' else 'void','return' if ret=='i32' else '',', '.join('*(%s*)(p+%d)'%(ct(t),k) for t,k in zip(ts,o)))
    return Case(name,[caller,callee],['p%d'%n],'i32' if ret=='i32' else 'v',mix=['AB','BA','AA'],assume=boolassume(ts) or None)
def retc(t):
    dc=decls([t])
    callee=dc+'%s g(int k,%s *q){ if(k) return q[1]; return q[0]; }'%(ct(t),ct(t))
    caller=dc+outdecl(t,0)+outdecl(t,1)+'%s g(int,%s *); void f(int k,char *p){ %s r=g(k,(%s*)p); %s %s}'%(ct(t),ct(t),ct(t),ct(t),save(t,0,'r'),save(t,1,'g(!k,(%s*)p)'%ct(t)) )
    kw={}
    if t in('bool','B1'): kw['assume']=['z3.ULE(z3.BitVec("m_%x",8),1)'%(0x30000000+k) for k in (0,size(t))]
    return Case('ret '+t,[caller,callee],['i32','p%d'%(2*size(t))],'v',mix=['AB','BA','AA'],**kw)
def run():
    r=Report('C05','translation_validation','generated signatures: every scalar and struct class alone and at every register position, seeded random mixes of up to 14 parameters, every result type, variadic calls; caller and callee compiled by toycc and by gcc in all pairings, both sides executed symbolically and compared with the all-gcc program for every argument value; callee-saved registers and stack pointer compared at return')
    rnd=random.Random(core.SEED); cs=[]
    allt=list(SC)+list(ST)
    for t in allt: cs.append(retc(t))
    # each type preceded by k ints / k doubles
    for t in allt:
        for k in ([0,5,6,7,8,9] if not core.THOROUGH else range(0,11)):
            cs.append(sig('pos %s after %d ints'%(t,k),['i64']*k+[t,'i32','d']))
        for k in ([6,7,8] if not core.THOROUGH else range(1,11)):
            cs.append(sig('pos %s after %d doubles'%(t,k),['d']*k+[t,'f','i16']))
        if t not in('A1',): cs.append(sig('pos %s full'%t,['i64']*7+['d']*7+[t,t,'i8','f']))
        cs.append(sig('ret %s through args'%t,[t,'i32',t,'d'],ret=t))
    pool=['i8','u8','i16','u16','i32','u32','i64','u64','bool','f','d','ld','p']
    for i in range(120 if not core.THOROUGH else 900):
        n=rnd.randint(1,14)
        ts=[rnd.choice(pool if rnd.random()<.6 else list(ST)) for _ in range(n)]
        cs.append(sig('mix %d'%i,ts))
    # variadic
    vp=['i32','u32','i64','u64','d','p','ld']
    vs=['A1','A3','A8','A9','A16','A24','D1','D2','FI','F2','F3','LD','UL','UB','A12','A17','DI','SU']
    for t in vp+vs:
        for k in ([1,2,7,8,9] if not core.THOROUGH else range(1,12)):
            for m in (0,1):
                cs.append(sig('va %s fixed %d pre %d'%(t,k,m),['i32']*k+['d']*m+[t,'i32',t],variadic=k))
    for i in range(60 if not core.THOROUGH else 500):
        k=rnd.randint(1,5); n=rnd.randint(1,9)
        ts=[rnd.choice(['i32','i64','d','p','f','A16','LD','A24','F2']) for _ in range(k)]+[rnd.choice(vp+vs) for _ in range(n)]
        cs.append(sig('va mix %d'%i,ts,variadic=k))
    r.tv(cs,'signatures')
    E={'h':('i','i32'),'e1':('ii','i32'),'e8':('iiiiiiii','i64'),'ed':('dd','d'),'ef':('f','f'),'v9':('iiiiiiiitt','i32')}
    fs=[('nested','int e1(int,int); int f(int a,int b){ return e1(e1(a,b),b); }',['i32','i32'],'i32'),
     ('nested deep','int e1(int,int); int f(int a){ int x=e1(a-1,e1(e1(a,1),2)); return e1(3+a,a+e1(e1(x,4),a)); }',['i32'],'i32'),
     ('temporaries live','int h(int); int f(int a,int b){ int x=(a*3+b)-(h(a)^(b-1)); return x-a-(b+(a&h(b))); }',['i32','i32'],'i32'),
     ('float temporaries','double ed(double,double); double f(double a,double b){ return (a-b)*ed(a,b)+a; }',['d','d'],'d'),
     ('float arg conv','float ef(float); float f(double a){ return ef(a)+1; }',['d'],'f'),
     ('arg conversions','int e1(int,int); int f(double d,long l){ return e1(l,l>>32); }',['d','i64'],'i32'),
     ('fn pointer','int h(int); int f(int a){ int (*p)(int)=h; int x=p(a); x+=(*p)(a+1); return x+(**p)(a+2); }',['i32'],'i32'),
     ('fn ptr table','int h(int); int k(int a){return a+1;} int f(int a,int i){ int (*t[2])(int)={h,k}; return t[i&1](a); }',['i32','i32'],'i32'),
     ('fn ptr arg','int ap(int (*g)(int),int v){ return g(v); } int h(int); int f(int a){ int x=ap(h,a); return x-ap(&h,a+1); }',['i32'],'i32'),
     ('recursion','int g(int n){ return n<=0?0:n+g(n-1); } int f(int n){ return g(n&3); }',['i32'],'i32'),
     ('mutual','int o(unsigned n); int e(unsigned n){ return n==0?1:o(n-1); } int o(unsigned n){ return n==0?0:e(n-1); } int f(unsigned n){ return e(n&3); }',['u32'],'i32'),
     ('stack args','long e8(long,long,long,long,long,long,long,long); long f(long a,long b){ return e8(a,b,a+b,a-b,a&b,a|b,a^b,~a); }',['i64','i64'],'i64'),
     ('ten args','int v9(int,int,int,int,int,int,int,int,int,int); int f(int a){ return v9(a,a+1,a+2,a+3,a+4,a+5,a+6,a+7,a+8,a+9); }',['i32'],'i32'),
     ('ten args nested','int v9(int,int,int,int,int,int,int,int,int,int); int h(int); int f(int a){ int x=a+v9(a,h(1),a+2,2,a+4,a+5,a+6,a+7,3,a+9); return x+v9(a,1,x,2,3,4,5,6,h(3),a+9); }',['i32'],'i32'),
     ('ten nested ten','int v9(int,int,int,int,int,int,int,int,int,int); int f(int a){ return v9(1,2,3,4,5,6,7,8,v9(a,a,a,a,a,a,a,a,a,1),a-3); }',['i32'],'i32'),
     ('char result','signed char c(int a){ return a; } int f(int a){ return c(a); }',['i32'],'i32'),
     ('uchar result','unsigned char c(int a){ return a; } int f(int a){ return c(a); }',['i32'],'i32'),
     ('bool result','_Bool c(int a){ return a; } int f(int a){ return c(a)+c(!a); }',['i32'],'i32'),
     ('void result','int g; void s(int a){ g=a; if(a) return; g=1; } int f(int a){ s(a); return g; }',['i32'],'i32'),
     ('modified param','int g(int a,int b){ a+=b; b=a^2; return a-b; } int f(int a,int b){ int r=g(a,b); return (r<<1)+a-b; }',['i32','i32'],'i32'),
     ('struct by value kept','struct S{int a[6];}; int g(struct S s){ s.a[0]=1; s.a[5]=2; return s.a[1]; } int f(struct S *p){ struct S t=*p; int r=g(t); return r^t.a[0]-t.a[5]; }',['p24'],'i32'),
     ('struct result member','struct S{int a[6];}; struct S g(int v){ struct S s={{v,2,3,4,5,v}}; return s; } int f(int v){ return g(v).a[5]+g(v+1).a[0]; }',['i32'],'i32'),
     ('struct result arg','struct S{int a[6];}; struct S g(int v){ struct S s={{v,2,3,4,5,v}}; return s; } int u(struct S a,int k,struct S b){ return a.a[0]*k-b.a[5]; } int f(int v){ return u(g(v),v,g(v*2)); }',['i32'],'i32'),
     ('struct result small arg','struct S{short a; char b;}; struct S g(int v){ struct S s={v,v>>8}; return s; } int u(struct S a,struct S b){ return a.a*b.b-b.a; } int f(int v){ return u(g(v),g(v*2)); }',['i32'],'i32'),
     ('struct assign result','struct S{long a,b;}; struct S g(long v){ struct S s={v,~v}; return s; } struct S x; long f(long v){ x=g(v); struct S y=g(x.b); return y.a-x.a; }',['i64'],'i64'),
     ('struct cond arg','struct S{char c[20];}; int g(struct S s){ return s.c[19]; } int f(int k,struct S *p){ return g(k?p[0]:p[1]); }',['i32','p40'],'i32'),
     ('big struct self','struct S{char c[20];}; struct S g(struct S s){ s.c[0]++; return s; } int f(struct S *p){ struct S t=g(g(*p)); return t.c[0]-p->c[0]; }',['p20'],'i32'),
     ('saved across','int h(int); int f(int a,int b,int c,int d){ int x=a*b,y=c-d; h(x); h(y); return x+y+(h(a)^b); }',['i32']*4,'i32'),
     ('double saved','double ed(double,double); double f(double a,double b){ double x=a*b; ed(x,b); return x+a; }',['d','d'],'d'),
     ('call in index','int h(int); int f(int *p){ int x=p[h(1)&1]; return x+p[h(2)&1]; }',['p8'],'i32'),
     ('comma call','int h(int); int f(int a){ return (h(a),h(a+1)); }',['i32'],'i32'),
     ('stmt expr call','int h(int); int f(int a){ return h(({ int t=h(a); t+1; })); }',['i32'],'i32'),
     ('old style fn type','int h(int); typedef int F(int); F *gp=h; int f(int a){ F *q=h; return q(a); }',['i32'],'i32'),
     ('ptr to fn ret ptr','int x; int *g(void){ return &x; } int f(int a){ *g()=a; return *g()+1; }',['i32'],'i32'),
     ('va sum','#include <stdarg.h>\nint s(int n,...){ va_list ap; va_start(ap,n); int t=0; for(int i=0;i<n;i++) t=(t<<1)+va_arg(ap,int); va_end(ap); return t; } int f(int a,int b){ int x=s(3,a,b,a-b); return x+s(10,1,2,3,4,5,6,a,b,9,a); }',['i32','i32'],'i32'),
     ('va copy','#include <stdarg.h>\nint s(int n,...){ va_list ap,aq; va_start(ap,n); va_copy(aq,ap); int t=va_arg(ap,int)<<3; t^=va_arg(ap,int); t+=va_arg(aq,int); va_end(ap); va_end(aq); return t; } int f(int a,int b){ return s(2,a,b); }',['i32','i32'],'i32'),
     ('va pass list','#include <stdarg.h>\nlong w(va_list ap){ long x=va_arg(ap,long); return x-va_arg(ap,int); } long s(int n,...){ va_list ap; va_start(ap,n); long t=w(ap); va_end(ap); return t; } long f(long a,int b){ return s(2,a,b); }',['i64','i32'],'i64'),
     ('va promo','#include <stdarg.h>\ndouble s(int n,...){ va_list ap; va_start(ap,n); int c=va_arg(ap,int); double d=va_arg(ap,double); int h=va_arg(ap,int); va_end(ap); return d+c+h; } double f(signed char c,float x,unsigned short h){ return s(3,c,x,h); }',['i8','f','u16'],'d')]
    r.tv([Case(n,s,k,t,externs={x:E[x] for x in E if x+'(' in s}) for n,s,k,t in fs],'forms')
    r.bounds=['signatures of up to 18 parameters drawn from 13 scalar and %d aggregate types'%len(ST),'all argument values','recursion depth 3']
    r.assume=['gcc 13 implements the LP64D ABI','RV64 model in lib/rv.py','padding bytes inside aggregates are not compared']
    return r.finish()
