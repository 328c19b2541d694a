from gen import *
from report import Report
import core
ELEMS=[('char',1),('short',2),('int',4),('long',8),('float',4),('double',8),('long double',16),('char*',8),('struct{char c[3];}',3),('struct{int a,b,c;}',12),('struct{long a[7];}',56),('char[5]',5),('int[3][7]',84),('struct{char c[5000];}',5000)]
def decl(t,n):
    """declaration of pointer n to element type t"""
    i=t.find('[') if not t.startswith('struct') else -1
    return '%s (*%s)%s'%(t[:i],n,t[i:]) if i>0 else '%s *%s'%(t,n)
def run():
    r=Report('C16','translation_validation','every element type x every pointer operator (addition, subtraction, difference, comparison, subscripting in either order, address-of/dereference) with symbolic pointers and indices of every integer type; multi-dimensional arrays, VLAs and alloca with symbolic indices over bounded sizes')
    cs=[]
    for t,sz in ELEMS:
        D=decl('E','p').replace('E','E')
        i=t.find('[') if not t.startswith('struct') else -1
        td=('typedef %s E%s;'%(t[:i],t[i:]) if i>0 else 'typedef %s E;'%t)+'\n'
        for it in (INTS if sz in(1,4,12) else ['i8','u8','i32','u32','i64','u64']):
            I=CT[it]
            nm='%s %s'%(t,it)
            cs.append(Case('add '+nm,td+'E *f(E *p,%s i){ return p+i; }'%I,['u64',it],'i64'))
            cs.append(Case('radd '+nm,td+'E *f(E *p,%s i){ return i+p; }'%I,['u64',it],'i64'))
            cs.append(Case('sub '+nm,td+'E *f(E *p,%s i){ return p-i; }'%I,['u64',it],'i64'))
            cs.append(Case('idx '+nm,td+'E *f(E *p,%s i){ return &p[i]; }'%I,['u64',it],'i64'))
            cs.append(Case('ridx '+nm,td+'E *f(E *p,%s i){ return &i[p]; }'%I,['u64',it],'i64'))
            cs.append(Case('addeq '+nm,td+'E *f(E *p,%s i){ p+=i; return p; }'%I,['u64',it],'i64'))
            cs.append(Case('subeq '+nm,td+'E *f(E *p,%s i){ p-=i; return p; }'%I,['u64',it],'i64'))
        for op in ['p++','p--','++p','--p']:
            cs.append(Case('%s %s'%(op,t),td+'E *g; E *f(E *p){ g=%s; return p; }'%op,['u64'],'i64'))
            cs.append(Case('val %s %s'%(op,t),td+'E *f(E *p){ return %s; }'%op,['u64'],'i64'))
        # difference of two pointers into the same array: q = p + k elements
        cs.append(Case('diff '+t,td+'long f(E *p,long k){ E *q=(E*)((char*)p+k*sizeof(E)); return q-p; }',['u64','i64'],'i64',assume=['p1<1000','p1>-1000']))
        cs.append(Case('diffc '+t,td+'E a[9]; long f(void){ return ((a+7)-(a+2))*100 + ((a+1)-(a+8)) + (a-(a+3)); }',[],'i64'))
        for op in ['<','<=','>','>=','==','!=']:
            cs.append(Case('cmp %s %s'%(op,t),td+'int f(E *p,E *q){ return p %s q; }'%op,['u64','u64'],'i32'))
        cs.append(Case('null '+t,td+'int f(E *p){ return (p==0) + (p!=(void*)0)*2 + !p*4 + (p?8:16); }',['u64'],'i32'))
        cs.append(Case('globalidx '+t,td+'E a[5]; E *f(long i){ return a+i; }',['i64'],'i64',assume=['p0>=-3','p0<=5']))
        cs.append(Case('constidx '+t,td+'E *f(E *p){ return &p[3]; }',['u64'],'i64'))
        cs.append(Case('negidx '+t,td+'E *f(E *p){ return &p[-3]; }',['u64'],'i64'))
        cs.append(Case('chain '+t,td+'E *f(E *p,short i,short j){ return p+i-j+1; }',['u64','i16','i16'],'i64'))
        cs.append(Case('mixcast '+t,td+'long f(E *p,int i){ return (char*)(p+i)-(char*)p; }',['u64','i32'],'i64'))
    for t,k in [('signed char','i8'),('unsigned char','u8'),('short','i16'),('unsigned short','u16'),('int','i32'),('unsigned','u32'),('long','i64'),('float','f'),('double','d'),('char*','u64')]:
        cs.append(Case('ld '+t,'%s f(%s *p,int i){ return p[i&3]; }'%(t,t),['p32','i32'],k))
        cs.append(Case('st '+t,'void f(%s *p,int i,%s v){ p[i&3]=v; }'%(t,t),['p32','i32',k],'v'))
        cs.append(Case('deref '+t,'%s f(%s *p){ return *p + *(p+1) - *&p[2]; }'%(t if t!='char*' else 'long',t),['p32'],k) if t!='char*' else Case('deref '+t,'char *f(char **p){ return *(p+1); }',['p32'],'i64'))
        cs.append(Case('pp '+t,'%s g0,g1; %s *t[2]={&g0,&g1}; %s f(int i){ return *t[i&1]; }'%(t,t,t),['i32'],k,havoc=True,ptrglobs={}) if False else Case('arr2 '+t,'%s a[3][4]; %s f(int i,int j){ return a[i&1][j&3]; }'%(t,t),['i32','i32'],k))
        cs.append(Case('arr2st '+t,'%s a[3][4]; void f(int i,int j,%s v){ a[i&1][j&3]=v; }'%(t,t),['i32','i32',k],'v'))
        cs.append(Case('local arr '+t,'%s f(int i,%s u,%s v,%s w){ %s a[3]; a[0]=u; a[1]=v; a[2]=w; return a[i%%3u]; }'%(t,t,t,t,t),['i32',k,k,k],k))
        cs+=[Case('vla1 %s %d'%(t,z),'%s f(int n,int i,%s v){ %s a[n+2]; a[0]=v; a[1]=v; a[i&1]=v; return a[(i+1)&1]; }'%(t,t,t),['=%d'%z,'i32',k],k) for z in (0,1,5)]
        cs.append(Case('vlasz '+t,'long f(int n){ n&=7; %s a[n+1]; return sizeof(a)*100+sizeof a[0]; }'%t,['i32'],'i64'))
    arrs=[('3d','int a[2][3][4]; int *f(int i,int j,int k){ return &a[i&1][j&1][k&3]; }',['i32']*3),
     ('3d partial','int a[2][3][4]; long f(int i){ return (char*)a[i&1]-(char*)a; }',['i32']),
     ('3d rows','int a[2][3][4]; long f(int i,int j){ return (char*)a[i&1][j&1]-(char*)a; }',['i32']*2),
     ('addr of array','int a[5]; long f(int i){ return (char*)(&a+1)-(char*)a; }',['i32']),
     ('deref array ptr','int f(int (*p)[4],int i,int j){ return p[i&1][j&3]; }',['p32','i32','i32']),
     ('deref *(*)','int f(int (*p)[4],int i,int j){ return *(*(p+(i&1))+(j&3)); }',['p32','i32','i32']),
     ('array param','int f(int p[][4],int i,int j){ return p[i&1][j&3]; }',['p32','i32','i32']),
     ('array param2','int f(int p[2][4],int i){ return sizeof(p)+ (*p)[i&3]; }',['p32','i32']),
     ('func ptr diff','int f(int x){ return f==&f && *f==f; }',['i32']),
     ('sizeof arr','int a[7]; long f(int i){ return sizeof(a)/sizeof(*a)+sizeof(a[0])+sizeof(&a)+sizeof(&a[0]); }',['i32']),
     ('neg subscript','int a[5]; int f(int i){ int *p=a+4; return p[-(i&3)]; }',['i32']),
     ('u32 wrap subscript','char *f(char *p,unsigned i){ return p+(i+1); }',['u64','u32']),
     ('i32 neg mul','char *f(char *p,int i){ return p-(i*2); }',['u64','i32']),
     ('long idx','char *f(char *p,long i){ return p+i*3; }',['u64','i64']),
     ('char idx','int *f(int *p,char c){ return p+c; }',['u64','i8']),
     ('uchar idx','int *f(int *p,unsigned char c){ return &p[c]; }',['u64','u8']),
     ('bool idx','int *f(int *p,_Bool c){ return &p[c]; }',['u64','bool']),
     ('enum idx','enum E{A=-1,B}; int *f(int *p,enum E c){ return &p[c]; }',['u64','i32']),
     ('bitfield idx','struct S{int x:3; unsigned y:3;}; int *f(int *p,struct S *s){ return &p[s->x]+s->y; }',['u64','p4']),
     ('ptr to long cast','long f(int *p,int *q){ return (long)p-(long)q; }',['u64','u64']),
     ('void ptr arith','char *f(void *p,int i){ return p+i; }',['u64','i32']),
     ('void ptr sub','long f(void *p,void *q){ return (char*)p-(char*)q; }',['u64','u64']),
     ('fn ptr add','int f(int a){ return a; } long g(long i){ return (char*)(&f)-(char*)f; }',['i64']),
     ('string idx','int f(int i){ return "abcdef"[i&3]; }',['i32']),
     ('string ridx','int f(int i){ return (i&3)["abcdef"]; }',['i32']),
     ('compound lit','int f(int i){ return ((int[]){3,5,7,11})[i&3]; }',['i32']),
     ('ptr cond','int a[2],b[2]; int *f(int c,int i){ return (c ? a : b)+(i&1); }',['i32','i32']),
     ('ptr cond null','int a[2]; int *f(int c){ return c ? a : 0; }',['i32']),
     ('ptr cond void','int a[2]; char *f(int c,void *p){ return c ? a : p; }',['i32','u64']),
     ('ptr comma','int a[4]; int *f(int i,int j){ return (i++, a)+(j&1); }',['i32','i32']),
     ('ptr assign chain','int a[4],*p,*q; void f(int i){ p=q=a+(i&1); }',['i32']),
     ('ptr inc deref','int f(int *p){ int x=*p++; return x*10+*p; }',['p16']),
     ('ptr deref inc','int f(int *p){ int x=(*p)++; return x*10+*p; }',['p16']),
     ('ptr predec','int f(int *p){ p+=2; int x=*--p; return x+p[1]; }',['p16']),
     ('ptr idx inc','int f(int *p,int i){ i&=1; int x=p[i++]; return x*10+p[i]+i; }',['p16','i32']),
     ('member ptr','struct S{int a; struct S *n;}; struct S x,y; int f(int v){ x.n=&y; y.a=v; return x.n->a; }',['i32']),
     ('arrow index','struct S{int a[4];}; int f(struct S *p,int i){ return p->a[i&3]; }',['p16','i32']),
     ('arr of struct','struct S{char c; int a;}; struct S t[3]; int f(int i){ return t[i&1].a + (&t[1])->a + (t+2)->c; }',['i32']),
     ('arr in struct in arr','struct S{int a[3]; short b[2];} t[2]; int f(int i,int j){ return t[i&1].a[j&1]+t[j&1].b[i&1]; }',['i32','i32']),
     ('big offset local','int f(int i){ int pad[3000]; int a[4]; pad[0]=i; pad[2999]=i+1; a[0]=1;a[1]=2;a[2]=3;a[3]=4; return a[i&3]+pad[0]*10+pad[2999]; }',['i32']),
     ('big global idx','int g[100000]; int *f(int i){ return &g[i&65535]; }',['i32']),
     ('uninit ptr cmp','int f(char *p,char *q){ return p<q ? -1 : p>q; }',['u64','u64']),
    ]
    for n,s,k in arrs:
        hdr=s.split(' f(')[0].split(';')[-1].split('}')[-1].strip() if ' f(' in s else ''
        ent='g' if n=='fn ptr add' else 'f'
        m=s.rfind(' f(') ; rt='i64' if ('*f(' in s or 'long f(' in s or ent=='g') else 'i32'
        cs.append(Case(n,s,k,rt,entry=ent,havoc=n not in('string idx','string ridx')))
    r.tv(cs,'pointers')
    E={'use':('-','v'),'u2':('i','i32'),'set':('p','v')}
    vl=[('vla2d','int f(int n,int m,int i,int j){ n=(n&1)+2; m=(m&1)+2; int a[n][m]; for (int x=0;x<n;x++) for (int y=0;y<m;y++) a[x][y]=x*10+y; return a[i&1][j&1]; }',['i32']*4),
     ('vla2d size','long f(int n,int m){ n=(n&3)+1; m=(m&3)+1; int a[n][m]; return sizeof(a)*10000+sizeof(a[0])*100+sizeof(a[0][0]); }',['i32']*2),
     ('vla const dim','long f(int n){ n=(n&3)+1; int a[n][5]; return sizeof(a)*1000+sizeof(a[0]); }',['i32']),
     ('vla const dim2','long f(int n){ n=(n&3)+1; short a[5][n]; return sizeof(a)*1000+sizeof(a[0]); }',['i32']),
     ('vla size once','long f(int n){ n&=3; int i=0; int a[(i++,n+1)]; n=100; return sizeof(a)+i*1000; }',['i32']),
     ('vla ptr','int f(int n,int i){ n=(n&1)+2; int a[3][n]; int (*p)[n]=a; for(int x=0;x<3;x++) for(int y=0;y<n;y++) a[x][y]=x*10+y; return p[2][i&1]+(*(p+1))[1]; }',['i32']*2),
     ('vla ptr arith','long f(int n,int k){ n=(n&7)+1; int a[10][n]; int (*p)[n]=a; p+=(k&3); return (char*)p-(char*)a; }',['i32']*2),
     ('vla ptr diff','long f(int n){ n=(n&3)+1; int a[4][n]; return &a[3]-&a[1]; }',['i32']),
     ('vla row addr','long f(int n,int k){ n=(n&7)+1; char a[4][n]; return (char*)&a[k&3]-(char*)a; }',['i32']*2),
     ('vla no overlap','int f(int n,int v,int w){ n=(n&3)+1; char a[n]; int x=v; char b[n]; for(int i=0;i<n;i++) a[i]=1; for(int i=0;i<n;i++) b[i]=w; for(int i=0;i<n;i++) if (a[i]!=1) return 0; return x==v; }',['i32']*3),
     ('vla in loop','int f(int n){ int s=0; for(int i=1;i<3;i++){ int a[i]; a[i-1]=n; s+=a[i-1]; } return s; }',['i32']),
     ('vla struct','struct S{char c[3];}; long f(int n,int i){ n=(n&3)+2; struct S a[n]; a[1].c[2]=i; return sizeof(a)*1000+a[1].c[2]; }',['i32']*2),
     ('vla typedef','long f(int n){ n=(n&3)+1; typedef int T[n]; n=50; T a; return sizeof(a)+sizeof(T); }',['i32']),
     ('vla sizeof expr','long f(int n){ n=(n&7)+1; return sizeof(int[n])+sizeof(char[n][3]); }',['i32']),
     ('vla call','long f(int n,int v){ n=(n&3)+1; int a[n]; use(a); a[n-1]=v; u2(n); return a[n-1]; }',['i32']*2),
     ('alloca basic','int f(int n,int v){ n=(n&7)+1; char *p=alloca(n); char *q=alloca(n); for(int i=0;i<n;i++) p[i]=v; for(int i=0;i<n;i++) q[i]=v+1; for(int i=0;i<n;i++) if (p[i]!=(char)v) return 0; return 1; }',['i32']*2),
     ('alloca call','int f(int n,int v){ n=(n&7)+1; int x=v; char *p=alloca(n*16); p[0]=1; p[n*16-1]=2; u2(3); return x*10+p[0]+(n?p[n*16-1]:0); }',['i32']*2),
     ('alloca arg','int g(int a,char *p,int b){ p[0]=a; p[7]=b; return a*100+b; } int f(int a,int b){ return g(a,alloca(8),b)+1; }',['i32']*2),
     ('alloca expr','int f(int a){ char *p=1+(char*)alloca(16)+1; p[0]=a; return p[0]+a; }',['i32']),
     ('alloca zero','int f(int a){ char *p=alloca(0); char *q=alloca(16); q[0]=a; q[15]=a; return q[0]+q[15]; }',['i32']),
    ]
    cs=[]
    head='void use(void*); int u2(int);\n'
    for n,s,k in vl:
        orc=[head+'#define alloca __builtin_alloca\n'+s]
        rt='i64' if 'long f(' in s else 'i32'
        args=s[s.rindex(' f(')+3:].split(')')[0].split(',')
        dims=[i for i,x in enumerate(args) if x.split()[-1] in('n','m')]
        if not dims or n in('vla size once','vla typedef'): cs.append(Case(n,head+s,k,rt,externs=E,oracle=orc)); continue
        for vals in itertools.product(range(4 if len(dims)==1 else 2),repeat=len(dims)):
            kk=list(k)
            for d,v in zip(dims,vals): kk[d]='=%d'%v
            cs.append(Case('%s %s'%(n,','.join(map(str,vals))),head+s,kk,rt,externs=E,oracle=orc))
    r.tv(cs,'vla and alloca')
    # alignment of every kind of object, distinctness
    cs=[]
    for t in ['char','short','int','long','float','double','long double','char*','struct{char a; long b;}','struct{short s[3];}','long double[2]']:
        i=t.find('[') if not t.startswith('struct') else -1
        td=('typedef %s E%s;'%(t[:i],t[i:]) if i>0 else 'typedef %s E;'%t)+'\nvoid use(void*);'
        cs.append(Case('align local '+t,td+'int f(int x){ char c; E v; char d; E w; use(&c); use(&d); return ((unsigned long)&v %% _Alignof(E))+((unsigned long)&w %% _Alignof(E));}'.replace('%%','%'),['i32'],'i32',externs=E))
        cs.append(Case('align global '+t,td+'char c; E v; char d; E w; int f(int x){ return ((unsigned long)&v % _Alignof(E))+((unsigned long)&w % _Alignof(E));}',['i32'],'i32',externs=E))
        cs.append(Case('align static '+t,td+'int f(int x){ static char c; static E v; static char d; static E w; return ((unsigned long)&v % _Alignof(E))+((unsigned long)&w % _Alignof(E));}',['i32'],'i32',externs=E))
    for n in [1,2,4,8,16]:
        cs.append(Case('alignas local %d'%n,'int f(int x){ char c; _Alignas(%d) char v; char d; _Alignas(%d) char w; return ((unsigned long)&v %% %d)+((unsigned long)&w %% %d);}'%(n,n,n,n),['i32'],'i32'))
    for n in [1,2,4,8,16,32,64,128,512,1024]:
        cs.append(Case('alignas global %d'%n,'char c; _Alignas(%d) char v; char d; static _Alignas(%d) char w; int f(int x){ static char e; static _Alignas(%d) char u; return ((unsigned long)&v %% %d)+((unsigned long)&w %% %d)+((unsigned long)&u %% %d);}'%((n,)*6),['i32'],'i32'))
    r.tv(cs,'alignment')
    r.bounds=['pointers and indices: all 64-bit values (address arithmetic is modular)','VLA/alloca: one or two dimensions of 1..4 elements (sizes fixed per obligation, contents and indices symbolic); sizeof of a VLA for every symbolic size 1..8']
    r.assume=['gcc 13 -O1 -fwrapv as the reference semantics of C','RV64 instruction semantics as encoded in lib/rv.py']
    return r.finish()
