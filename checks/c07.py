from gen import *
from report import Report
import core, random, functools
SC=['signed char','unsigned char','short','unsigned short','int','unsigned int','long','unsigned long','_Bool','float','double']
SZ={'signed char':1,'unsigned char':1,'short':2,'unsigned short':2,'int':4,'unsigned int':4,'long':8,'unsigned long':8,'_Bool':1,'float':4,'double':8,'long double':16,'char*':8}
class G:
    def __init__(g,seed,static): g.r=random.Random(seed); g.static=static; g.n=0
    def nm(g): g.n+=1; return 'm%d'%g.n
    # types: ('s',ctype) ('b',ctype,width) ('a',T,n) ('str',ctype,n) ('S'|'U',[(name|None,T)])
    def type(g,d):
        r=g.r; k=r.random()
        if d==0 or k<0.2:
            if g.static and r.random()<0.1: return ('s','long double')
            return ('s',r.choice(SC))
        if k<0.28: return ('str',r.choice(['char','char','signed char','unsigned char','int','unsigned short']),r.randint(1,7))
        if k<0.55: return ('a',g.type(d-1),r.randint(1,4))
        if k<0.9 or not g.static:
            if k>0.9 and not g.static:
                t=r.choice([['int','unsigned int'],['long','unsigned long'],['short','unsigned short'],['float','float'],['double','double']])
                return ('U',[(g.nm(),('s',x)) for x in r.sample(t,2)])
            ms=[]
            for _ in range(r.randint(1,4)):
                if r.random()<0.2:
                    t=r.choice(['int','unsigned int','short','long','signed char','_Bool'])
                    if r.random()<0.2: ms.append(('',('b','int',r.choice([0,3,9])))); continue
                    ms.append((g.nm(),('b',t,1 if t=='_Bool' else r.randint(1,8*SZ[t]))))
                else:
                    T=g.type(d-1)
                    ms.append((None if T[0] in 'SU' and r.random()<0.4 else g.nm(),T))
            if not any(m[0]!='' for m in ms): ms.append((g.nm(),('s','int')))
            return ('S',ms)
        ms=[(g.nm(),g.type(d-1)) for _ in range(r.randint(1,3))]
        return ('U',ms)
    def decl(g,T,n):
        if T[0]=='s': return '%s %s'%(T[1],n)
        if T[0]=='b': return '%s %s:%d'%(T[1],n,T[2])
        if T[0] in('a','str'):
            dims=''; t=T
            while t[0] in('a','str'):
                dims+='[%s]'%t[2]; t=t[1] if t[0]=='a' else ('s',t[1])
            return g.decl(t,n+dims)
        return '%s { %s } %s'%('struct' if T[0]=='S' else 'union',' '.join(g.decl(t,m or '')+';' for m,t in T[1]),n)
    def leaves(g,T,p):
        if T[0] in('s','b'): return [(p,T)]
        if T[0]=='a': return [x for i in range(T[2]) for x in g.leaves(T[1],'%s[%d]'%(p,i))]
        if T[0]=='str': return [('%s[%d]'%(p,i),('s',T[1])) for i in range(T[2])]
        return [x for m,t in T[1] if m!='' for x in g.leaves(t,p if m is None else p+'.'+m)]
    def leaf(g,T):
        r=g.r; t=T[1]
        if t in('float','double','long double'): v=r.choice(['1.5','-2.25','0.0','3','-7','1e10','100u','0.5f','2.5L'])
        elif t=='char*': v=r.choice(['"ab"','0','&gc','gc2+3'])
        else: v=r.choice(['1','-1','2','127','200','40000','-32769','0x7fffffff','0x80000000','1234567890123','-3L','0xffffffffffffffff','0','3.75',"'x'",'1+2*3','sizeof(int)','(char)300','5&&0','3?-4:9'])
        if not g.static and r.random()<0.6: v=r.choice('abcd') if r.random()<.8 else r.choice(['a+b','c*2','(char)d','-a'])
        return v
    def string(g,T):
        L=g.r.randint(0,T[2]+1); s=''.join(g.r.choice('abcXYZ09 ') for _ in range(L))
        return ({'int':'L','unsigned short':'u'}.get(T[1],''))+'"%s"'%s
    def flat(g,T):
        """brace-elided initializer: list of items"""
        if T[0] in('s','b'): return [g.leaf(T)]
        if T[0]=='str':
            if g.r.random()<0.5: return [g.string(T)]
            return [g.leaf(('s',T[1])) for _ in range(T[2])]
        if T[0]=='a': return [x for _ in range(T[2]) for x in g.item(T[1])]
        if T[0]=='S': return [x for m,t in T[1] if m!='' for x in g.item(t)]
        return g.item(T[1][0][1])
    def item(g,T):
        if T[0] in 'sb' and T[0]!='str': return [g.leaf(T) if g.r.random()<.95 else '{%s}'%g.leaf(T)]
        return [g.braced(T)] if g.r.random()<0.55 else g.flat(T)
    def names(g,T):
        """designatable members, through anonymous ones"""
        out=[]
        for m,t in T[1]:
            if m is None: out+=g.names(t)
            elif m!='': out.append((m,t))
        return out
    def desig(g,T):
        r=g.r
        if T[0]=='a':
            i=r.randrange(T[2])
            if r.random()<0.15 and i<T[2]-1: d='[%d ... %d]'%(i,r.randint(i+1,T[2]-1))
            else: d='[%d]'%i
            t=T[1]
        elif T[0]=='str': i=r.randrange(T[2]); return '[%d]'%i,('s',T[1])
        else:
            m,t=r.choice(g.names(T)); d='.'+m
        if t[0] in('a','S','U','str') and r.random()<0.4:
            if t[0] in 'SU' and t[0]!='str' and not g.names(t): return d,t
            d2,t=g.desig(t); return d+d2,t
        return d,t
    def braced(g,T):
        r=g.r
        if T[0] in('s','b'): return '{%s}'%g.leaf(T)
        if T[0]=='str' and r.random()<0.6:
            s=g.string(T); return s if r.random()<.8 else '{%s}'%s
        if r.random()<0.05: return '{}'
        its=[]; ms=[t for m,t in T[1] if m!=''] if T[0] in 'SU' and T[0]!='str' else None
        pos=0; n=1 if T[0]=='U' else len(ms) if ms is not None else T[2]
        k=r.randint(1,n)
        desi=r.random()<0.45
        used=set(); frozen=set()
        def root(d):
            m=re.match(r'\[(\d+)(?: \.\.\. (\d+))?\]',d)
            if m: return set(range(int(m.group(1)),int(m.group(2) or m.group(1))+1)),bool(m.group(2))
            x=re.match(r'\.(\w+)',d).group(1)
            def has(t): return t[0] in 'SU' and t[0]!='str' and any(n==x for n,_ in g.names(t))
            for i,(n,t) in enumerate(T[1]):
                if n==x or (n is None and has(t)): return {i if T[0]!='U' else 0},False
        for _ in range(k+ (1 if desi else 0)):
            if desi and r.random()<0.5 and (T[0]!='S' or g.names(T)) :
                for _try in range(8):
                    d,t=g.desig(T); rt,rng=root(d)
                    if rt&frozen or (rng and rt&used) or (rt&used and (T[0]=='U' or t[0] not in('s','b') or '...' in d)): continue
                    break
                else: continue
                used|=rt
                if '...' in d or T[0]=='U': frozen|=rt
                v=g.braced(t) if t[0] not in 'sb' or t[0]=='str' else g.leaf(t)
                its.append('%s = %s'%(d,v)); pos=None; continue
            if pos is None:
                # continue positionally after a designator with a scalar only
                nx=max(used)+1
                if T[0]!='U' and not(frozen) and nx<n and len(used)==1 and r.random()<0.5:
                    t=ms[nx] if ms is not None else (T[1] if T[0]=='a' else ('s',T[1]))
                    its+=g.item(t) if (its[-1].split(' = ')[0].count('[')+its[-1].split(' = ')[0].count('.')==1) else [g.leaf(('s','int'))]
                break
            if pos>=n: break
            t=ms[pos] if ms is not None else (T[1] if T[0]=='a' else ('s',T[1])); used.add(pos); pos+=1
            it=g.item(t); its+=it
        return '{%s%s}'%(', '.join(its),',' if r.random()<0.1 else '')
PRE='char gc; int gc2[9];\n'
def auto(i):
    g=G(core.SEED*5000+i,False)
    while 1:
        T=g.type(3 if i%3 else 2)
        if T[0] in('a','S','U','str') and 1<=len(g.leaves(T,'t'))<=40: break
    init=g.braced(T); L=g.leaves(T,'t')
    body=' '.join(('*(double*)&o[%d]=%s;' if t[1] in('float','double') else 'o[%d]=%s;')%(k,p) for k,(p,t) in enumerate(L))
    src=PRE+'void f(long *o,int a,int b,int c,int d){ long x=a,y=b; %s = %s; long z=c; %s o[%d]=x; o[%d]=y; o[%d]=z; }'%(g.decl(T,'t'),init,body,len(L),len(L)+1,len(L)+2)
    return Case('auto%d'%i,src,['p512','i32','i32','i32','i32'],'v')
def static(i):
    g=G(core.SEED*9000+i,True)
    while 1:
        T=g.type(3 if i%3 else 2)
        if len(g.leaves(T,'t'))<=60: break
    init=g.braced(T) if T[0]!='s' else g.leaf(T)
    st=['','static ','_Thread_local ','L'][i%4] if T[0]!='z' else ''
    D=g.decl(T,'t')
    if T[0] in('a','str') and i%5==0:   # length from the initializer
        D=re.sub(r't\[\d+\]','t[]',D,1)
    if st=='L': src=PRE+'int f(unsigned i){ static %s = %s; if(i>=sizeof(t)) return -(int)sizeof(t); return ((unsigned char*)&t)[i]; }'%(D,init)
    else: src=PRE+'long before=-1; %s%s = %s; long after=-1; int f(unsigned i){ if(i>=sizeof(t)) return -(int)sizeof(t); return ((unsigned char*)&t)[i]; }'%(st,D,init)
    return Case('static%d'%i,src,['u32'],'i32',havoc=False,max_cand=1500)
import re
A=[ # automatic, hand-written
 ('scalar braces','void f(long *o,int a){ int x={a}; long y={a+1,}; o[0]=x; o[1]=y; }'),
 ('copy struct','typedef struct{int a; char b[5];} S; void f(S *o,S *q){ S t=*q; S u=t; *o=u; }'),
 ('union copy','typedef union{int a; char b[5];} S; void f(S *o,S *q){ S t=*q; S u=t; *o=u; }'),
 ('struct in struct','typedef struct{int a,b;} S; void f(long *o,S *q){ struct { int x; S s; int y; } t={1,*q,2}; o[0]=t.x; o[1]=t.s.a; o[2]=t.s.b; o[3]=t.y; }'),
 ('struct in array','typedef struct{int a,b;} S; void f(long *o,S *q){ S t[3]={*q,{7},*q}; for(int i=0;i<3;i++){ o[i*2]=t[i].a; o[i*2+1]=t[i].b; } }'),
 ('designated struct','typedef struct{int a,b;} S; void f(long *o,S *q){ struct { S s; int y; } t={.y=3,.s=*q}; o[0]=t.s.a; o[1]=t.s.b; o[2]=t.y; }'),
 ('override member','typedef struct{int a,b;} S; void f(long *o,S *q){ struct { S s; int y; } t={{1,2},3,.s.b=9}; o[0]=t.s.a; o[1]=t.s.b; o[2]=t.y; }'),
 ('self ref','void f(long *o,long *q){ long x=q[0], y=x+1, *p=&y, z=*p; o[0]=x+y+z; }'),
 ('order of decls','void f(long *o,long *q){ int i=1; int t[3]={i++}; int u=i; o[0]=t[0]; o[1]=t[1]; o[2]=t[2]; o[3]=u; }'),
 ('compound literal','typedef struct{int a,b;} S; void f(long *o,long *q){ S *p=&(S){.b=q[0]}; int *r=(int[]){1,q[1],3}; o[0]=p->a; o[1]=p->b; o[2]=r[1]; o[3]=r[2]; o[4]=(S){4,5}.b; o[5]=((int[4]){7})[3]; }'),
 ('compound literal loop','typedef struct{int a,b;} S; void f(long *o,long *q){ for(int i=0;i<3;i++){ S s=(S){i}; s.b+=i; o[i]=s.b*10+s.a; } }'),
 ('loop reinit','void f(long *o,long *q){ for(int i=0;i<3;i++){ int t[4]={i,1}; o[i]=t[0]+t[1]*10+t[2]*100+t[3]*1000; t[2]=7; t[3]=q[0]; } }'),
 ('goto reinit','void f(long *o,long *q){ int n=0; again:; struct{int a,b,c;} t={n}; o[n]=t.a+t.b*10+t.c*100; t.b=t.c=5; if(++n<3) goto again; }'),
 ('string local','void f(long *o,long *q){ char s[]="abc\\0d"; char t[3]="xyz"; char u[8]="hi"; for(int i=0;i<6;i++) o[i]=s[i]; for(int i=0;i<3;i++) o[6+i]=t[i]; for(int i=0;i<8;i++) o[9+i]=u[i]; o[17]=sizeof s; }'),
 ('string ptr','void f(long *o,long *q){ const char *s="abc", *t[]={"de","f"}; o[0]=s[0]+s[1]*256+s[3]*7; o[1]=t[0][1]; o[2]=t[1][0]; o[3]=t[1][1]; o[4]=sizeof t; }'),
 ('wide local','void f(long *o,long *q){ int s[]=L"a\\u03b1"; unsigned short u[]=u"\\U0001F600b"; o[0]=s[1]; o[1]=sizeof s; o[2]=u[0]; o[3]=u[1]; o[4]=u[2]; o[5]=sizeof u; }'),
 ('flexible inferred','void f(long *o,long *q){ int t[]={1,[5]=2,3}; o[0]=sizeof t; o[1]=t[0]; o[2]=t[4]; o[3]=t[5]; o[4]=t[6]; }'),
 ('range','void f(long *o,long *q){ int t[8]={[1 ... 3]=q[0],[6]=2}; for(int i=0;i<8;i++) o[i]=t[i]; }'),
 ('nested elide','void f(long *o,long *q){ int t[2][3]={1,2,3,4}; int u[2][2][2]={{1,2},{{3},{4,5}}}; for(int i=0;i<6;i++) o[i]=t[i/3][i%3]; for(int i=0;i<8;i++) o[6+i]=u[i/4][i/2%2][i%2]; }'),
 ('bool init','void f(long *o,long *q){ _Bool b=q[0]; _Bool t[3]={0.5,2,q[1]}; struct{_Bool x:1; _Bool y;} s={q[0],7}; o[0]=b; o[1]=t[0]; o[2]=t[1]; o[3]=t[2]; o[4]=s.x; o[5]=s.y; }'),
 ('bitfields','void f(long *o,long *q){ struct{int a:3; unsigned b:5; long c:40; int :4; int d:9;} s={q[0],q[1],q[2],q[3]}; o[0]=s.a; o[1]=s.b; o[2]=s.c; o[3]=s.d; }'),
 ('bitfields partial','void f(long *o,long *q){ struct{int a:3; unsigned b:5; long c:40; int d:9;} s={.c=q[0]}; o[0]=s.a; o[1]=s.b; o[2]=s.c; o[3]=s.d; }'),
 ('empty init','void f(long *o,long *q){ struct{int a; long b; char c[7];} s={}; int t[5]={}; o[0]=s.a; o[1]=s.b; for(int i=0;i<7;i++) o[2+i]=s.c[i]; for(int i=0;i<5;i++) o[9+i]=t[i]; int z={}; o[14]=z; }'),
 ('big zero fill','void f(long *o,long *q){ char t[200]={1}; long s=0; for(int i=0;i<200;i++) s+=t[i]; o[0]=s; o[1]=t[199]; }'),
 ('anon','void f(long *o,long *q){ struct{int a; union{int b; unsigned c;}; struct{int d,e;}; int g;} s={1,{2},3,4,5}, t={.c=9,.e=8,7}; o[0]=s.a; o[1]=s.b; o[2]=s.d; o[3]=s.e; o[4]=s.g; o[5]=t.a; o[6]=t.b; o[7]=t.d; o[8]=t.e; o[9]=t.g; }'),
 ('static local','void f(long *o,long *q){ static int t[3]={1,2}; static struct{char a; long b;} s={.b=4}; o[0]=t[0]+t[1]*10+t[2]*100; o[1]=s.a+s.b*10; t[2]++; s.b+=q[0]; o[2]=t[2]; o[3]=s.b; }'),
]
P=[ # address constants: read through symbolic indices
 ('addr','int x[9]={1,2,3,4,5,6,7,8,9}; int *p=&x[3], *q=x+5, *r=&x[7]-2, *s=(int*)((char*)x+4); long f(int i){ switch(i&3){ case 0: return *p; case 1: return *q; case 2: return *r; } return *s; }'),
 ('addr cmp','int x[9]; int *p=&x[3]; int *t[4]={x,x+1,&x[2],&*(x+8)}; long f(int i){ if(i<0) return p-x; return t[i&3]-x; }'),
 ('member addr','struct S{char a; struct{int b[4]; long c;} d; } s; int *p=&s.d.b[2]; long *q=&s.d.c; char *r=&s.a+1; void *v=&s.d; long f(int i){ switch(i&3){ case 0: return (char*)p-(char*)&s; case 1: return (char*)q-(char*)&s; case 2: return r-(char*)&s; } return (char*)v-(char*)&s; }'),
 ('fn table','int h1(int x){return x+1;} int h2(int x){return x*2;} int (*t[])(int)={h1,&h2,h1}; struct{int (*a)(int); int n;} u={h2,5}; int f(int i,int x){ if(i<0) return u.a(x)+u.n; return t[i%3u](x); }'),
 ('strings','char *t[]={"abc","","de\\0f"}; int f(unsigned i,unsigned j){ return t[i%3][j%(i%3==0?4:i%3==1?1:5)]; }'),
 ('string struct','struct{char a[4]; char *p; char b[];} s={"abc","xyz","tail"}; int f(unsigned i){ return i<4?s.a[i]:i<8?s.p[i-4]:s.b[(i-8)%5]; }'),
 ('flex ints','struct{int n; int v[];} s={3,{1,2,3}}, z={1}; int f(unsigned i){ return i<3?s.v[i]:i==3?s.n:z.n; }'),
 ('ptr to compound','int *p=(int[]){1,2,3}; struct P{int x,y;} *q=&(struct P){4,5}; int f(unsigned i){ return i<3?p[i]:i==3?q->x:q->y; }'),
 ('ptr chain','int x=5; int *p=&x; int **pp=&p; int ***ppp=&pp; int f(int i){ return ***ppp+**pp+*p; }'),
 ('ptr int mix','struct{char c; void *p; short s; void *q;} t={1,&t,2,(char*)&t+3}; int f(int i){ switch(i&3){case 0: return t.c; case 1: return t.s; case 2: return (char*)t.p-(char*)&t;} return (char*)t.q-(char*)&t; }'),
 ('null ptr','void *t[3]={0,(void*)0,(void*)(1-1)}; int f(unsigned i){ return t[i%3]==0; }'),
 ('int to ptr','char *p=(char*)0x12345678; long f(int i){ return (long)p; }'),
 ('extern addr','extern int e[]; int *p=e+2; int e[5]; long f(int i){ return p-e; }'),
 ('array of array ptr','int x[2][3]={{1,2,3},{4,5,6}}; int (*p)[3]=x+1; int *q=x[1]; int *r=*x+2; int f(unsigned i){ return i<3?p[0][i]:i==3?q[0]:*r; }'),
 ('cond addr','int a=1,b=2; int *p=1?&a:&b; int *q=0?&a:&b; int f(int i){ return i?*p:*q; }'),
 ('tls','_Thread_local int t[4]={1,2,3}; static _Thread_local long u=-5; _Thread_local char z[3]; long f(unsigned i){ return i<4?t[i]:i==4?u:z[i%3]; }'),
 ('tentative','int x; int x=5; int x; static int y; static int y=7; int z[3]; int f(int i){ return i==0?x:i==1?y:z[i&1]; }'),
 ('long double','long double a=1.5L,b=-0.0L,c=1e10L,d=3,e=-2.5f; int f(unsigned i){ long double *p=i&1?&a:i&2?&b:i&4?&c:i&8?&d:&e; return ((unsigned char*)p)[(i>>4)&15]; }'),
 ('union first','union{char c; long l; float f;} a={5}, b={.l=-1}, c={.f=1.5}; int f(unsigned i){ return ((unsigned char*)(i&8?&a:i&16?&b:&c))[i&7]; }'),
 ('union arr','union{struct{char a,b;} s; int i[2];} t[3]={{{1,2}},{.i={3,4}},{.s.b=5}}; int f(unsigned i){ return i<sizeof t?((unsigned char*)t)[i]:-(int)sizeof t; }'),
 ('bits static','struct{int a:3; unsigned b:5; long c:40; int :4; int d:9; _Bool e:1;} t[2]={{-1,31,-5,100,1},{.d=-7,1}}; int f(unsigned i){ return i<sizeof t?((unsigned char*)t)[i]:-(int)sizeof t; }'),
 ('infer nested','struct{int a; char b[3];} t[]={1,"ab",2,{"c"},{3},[4]={.b="xyz"}}; int f(unsigned i){ return i<sizeof t?((unsigned char*)t)[i]:-(int)sizeof t; }'),
 ('infer 2d','short t[][3]={{1},2,3,4,{5,6}}; int f(unsigned i){ return i<sizeof t?((unsigned char*)t)[i]:-(int)sizeof t; }'),
 ('infer string rows','char t[][4]={"a","bcd",{"ef"},{103,104}}; int f(unsigned i){ return i<sizeof t?((unsigned char*)t)[i]:-(int)sizeof t; }'),
 ('excess','int t[2]={1,2,3,4}; char s[3]="abcdef"; struct{int a;} u={1,2}; int f(unsigned i){ return i<2?t[i]:i<5?s[i-2]:u.a; }'),
 ('override static','struct{int a[3]; struct{char x,y;} s;} t={{1,2,3},{4,5},.a[1]=9,.s.y=8}; int f(unsigned i){ return i<sizeof t?((unsigned char*)&t)[i]:-(int)sizeof t; }'),
 ('designator back','int t[6]={[4]=1,2,[0]=3,4,[1]=5}; int f(unsigned i){ return i<6?t[i]:-(int)sizeof t; }'),
 ('nested designators','struct{struct{int a[2]; char c;} s[3]; int z;} t={.s[1].a[1]=5,6,{{7,8},9},.z=1}; int f(unsigned i){ return i<sizeof t?((unsigned char*)&t)[i]:-(int)sizeof t; }'),
 ('designator continue','struct{int a,b; int c[3]; int d;} t={.c[1]=1,2,3,.a=4,5,6}; int f(unsigned i){ return i<sizeof t?((unsigned char*)&t)[i]:-(int)sizeof t; }'),
]
def run():
    r=Report('C07','translation_validation','hand-written and seeded random initializers over seeded random types (arrays, structs, unions, anonymous members, bit-fields, strings; braces, elision, designators, ranges, inferred lengths). Automatic objects: all leaf values symbolic, every member read back and compared with gcc for all values. Static objects: the emitted image is read through a symbolic index and compared with gcc byte for byte for every index')
    cs=[]
    for n,s in A:
        k2='i32' if 'int a)' in s else 'p64'
        cs.append(Case(n,s,['p256',k2],'v',havoc=False))
    r.tv(cs,'automatic')
    cs=[]
    for n,s in P:
        sig=s[s.rindex(' f('):]; a=sig[3:sig.index(')')]
        ks=['u32' if x.startswith('unsigned') else 'i32' for x in a.split(',')]
        cs.append(Case(n,s,ks,'i64' if 'long f(' in s else 'i32',havoc=False,max_paths=400))
    r.tv(cs,'static')
    N=1500 if core.THOROUGH else 260
    def gcc_ok(cs):   # keep well-formed programs only
        def ok(c):
            p=core.sh([core.GCC[0],'-std=gnu2x','-fsyntax-only','-x','c','-'],input=c.src.encode())
            return p.returncode==0 and not re.search(rb'excess elements|braces around scalar|too long|unterminated',p.stderr)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex: return [c for c,k in zip(cs,ex.map(ok,cs)) if k]
    r.tv(gcc_ok([auto(i) for i in range(N)]),'random automatic')
    r.tv(gcc_ok([static(i) for i in range(N)]),'random static')
    r.bounds=['%d+%d random initializers, nesting depth <=3, <=60 leaves'%(N,N),'all values of the leaf expressions (automatic), all byte indices (static)']
    r.assume=['gcc 13 implements the initialization rules of C','RV64 model in lib/rv.py']
    return r.finish()
