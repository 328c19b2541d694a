from gen import *
from report import Report
import core, sx, rv, z3, re, functools, random, itertools
from c09 import Holes, sy
_Case=Case
def Case(name,src,*a,**k):
    # the reference also takes signed char where toycc has only char
    if 'char:1' in src and 'oracle' not in k and not name.startswith('char vs'): k['oracle']=[re.sub(r'(?<![a-z] )char:1','char:1,signed char:1',src).replace(',enum E:5','')]
    return _Case(name,src,*a,**k)
# distinct in toycc and in C; char/signed char and long/long long are kept apart (known findings)
TS=['char','unsigned char','short','unsigned short','int','unsigned int','long','unsigned long','_Bool','float','double','long double']
PT=['char *','int *','void *','int **','double *','struct S *','int (*)[3]','int (*)(int)']
ALL=TS+PT+['struct S','union U']
PRE='struct S{int a; char b;}; union U{long l; char c[9];}; enum E{E0,E1=-3}; '
def gen(e,extra=()): return '_Generic((%s)%s)'%(e,''.join(',%s:%d'%(t,i+1) for i,t in enumerate(list(ALL)+list(extra)))+',enum E:5')
def fn(exprs,decls='',params='',extra=(),what=('g','s')):
    """one switch over the symbolic selector: each case yields the type and the size of an expression"""
    b=''
    for i,e in enumerate(exprs):
        v=[]
        if 'g' in what: v.append('%s*1000'%gen(e,extra))
        if 's' in what: v.append('sizeof(%s)'%e)
        b+=' case %d: return %s;'%(i,'+'.join(v) or '0')
    return PRE+'struct S s,*ps; union U u; enum E en; int arr[4]; int m2[2][3]; int fn0(int); char *cp; int *ip,**ipp; void *vp; double *dp; int (*pa)[3]; int (*pf)(int); '+decls+' long f(int k%s){ switch(k){%s } return -1; }'%(params,b)
VD=' '.join('%s v%d;'%(t,i) for i,t in enumerate(TS))+' signed char sc; long long ll; unsigned long long ull; '
V=['v%d'%i for i in range(len(TS))]+['sc','en']
ISF=lambda v: v in('v9','v10','v11')
def chunks(xs,n): return [xs[i:i+n] for i in range(0,len(xs),n)]
def cases_binary():
    cs=[]
    for op in ['+','-','*','/','%','&','|','^','<<','>>','<','<=','>','>=','==','!=','&&','||',',']:
        ex=[]
        for a in V:
            for b in V:
                if op in('%','&','|','^','<<','>>') and (ISF(a) or ISF(b)): continue
                ex.append('%s %s %s'%(a,op,b))
        for k,c in enumerate(chunks(ex,28)): cs.append(Case('%s #%d'%(op,k),fn(c,VD),['i32'],'i64'))
    return cs
def cases_unary():
    cs=[]
    ex=[op+v for v in V for op in('+','-','!','~','++','--') if not(op=='~' and ISF(v)) and not(op in('++','--') and v=='v8')]+[v+op for v in V for op in('++','--') if v!='v8']+['(%s)%s'%(t,v) for t in TS for v in V]
    for k,c in enumerate(chunks(ex,30)): cs.append(Case('unary #%d'%k,fn(c,VD),['i32'],'i64'))
    ex=['%s%s%s'%(a,op,b) for op in('=','+=','*=','<<=','&=') for a in V for b in ('v0','v4','v7','v10') if not(op in('<<=','&=') and (ISF(a) or ISF(b)))]
    for k,c in enumerate(chunks(ex,30)): cs.append(Case('assign #%d'%k,fn(c,VD),['i32'],'i64'))
    ex=['k?%s:%s'%(a,b) for a in V for b in V]
    for k,c in enumerate(chunks(ex,30)): cs.append(Case('conditional #%d'%k,fn(c,VD),['i32'],'i64'))
    return cs
PX=['s','u','ps','*ps','s.a','s.b','ps->b','&s','&s.a','arr','arr[1]','*arr','arr+1','m2','m2[1]','m2[1][2]','*m2','**m2','m2+1','fn0','*fn0','&fn0','fn0(1)','cp','*cp','cp+1','cp-1','cp-cp','ip-ip','ip[2]','2[ip]','*ip','ipp','*ipp','**ipp','&ip','&*ip','*&ip','vp','pa','*pa','(*pa)[1]','pa[1]','pf','*pf','pf(1)','(*pf)(2)','k?cp:0','k?0:ip','k?vp:ip','k?ip:vp','k?ip:(void*)0','k?(void*)0:ip','k?s:s','k?arr:ip','k?fn0:pf','k?pf:0','(s)','s,u','(cp,ip)','cp=0','ip+=1','cp++','--ip','!cp','cp&&ip','ip<ip','cp==0','"abc"','"abc"[0]','&"abc"[1]','L"ab"','u"ab"','U"ab"','u8"ab"',"'a'","L'a'","u'a'","U'a'",'1','1u','1l','1ul','1.0','1.0f','1.0l','0x80000000','0xffffffff','2147483648','0x8000000000000000','sizeof(int)','_Alignof(int)','(struct S){1,2}','(struct S){1,2}.b','(int[]){1,2,3}','(int[2]){1}[0]','(char){1}','&(int){1}','ip-&arr[0]','(long)ip','(char*)1','u.c','u.c[1]','&u.c[3]','s=s','*ps=s','(void*)0','(int(*)[3])vp','*(int(*)[3])vp','en','E1','E0+1','(enum E)1','-en','~en','en<<1']
DECAY={'arr','m2','m2[1]','*m2','fn0','*fn0','*pa','pa[1]','*pf','"abc"','L"ab"','u"ab"','U"ab"','u8"ab"','(int[]){1,2,3}','u.c','*(int(*)[3])vp'}
def cases_lvalues():
    cs=[]
    # _Generic applies lvalue conversion: arrays and functions decay
    ex=[e for e in PX if e not in('fn0','*fn0','*pf') ]
    for k,c in enumerate(chunks([e for e in ex if e not in DECAY],20)): cs.append(Case('expressions #%d'%k,fn(c,VD),['i32'],'i64'))
    for k,c in enumerate(chunks(sorted(DECAY-{'fn0','*fn0','*pf'}),20)):
        cs.append(Case('arrays size #%d'%k,fn(c,VD,what=('s',)),['i32'],'i64'))
    # typeof reproduces the type: sizeof, and assignment through a pointer to it
    ex=['typeof(%s)'%e for e in PX if e not in('fn0','*fn0','*pf')]
    for k,c in enumerate(chunks(ex,20)): cs.append(Case('typeof #%d'%k,PRE+'struct S s,*ps; union U u; enum E en; int arr[4]; int m2[2][3]; int fn0(int); char *cp; int *ip,**ipp; void *vp; double *dp; int (*pa)[3]; int (*pf)(int); '+VD+' long f(int k){ switch(k){%s } return -1; }'%''.join(' case %d: return sizeof(%s)*100+_Alignof(%s);'%(i,t,t) for i,t in enumerate(c)),['i32'],'i64'))
    ex=[e for e in PX if e not in DECAY and e not in('s','u') ]
    for k,c in enumerate(chunks(ex,20)): cs.append(Case('typeof generic #%d'%k,fn(['*(typeof(%s)*)0'%e for e in c],VD),['i32'],'i64'))
    return cs
SPECS=[['char'],['signed','char'],['unsigned','char'],['short'],['short','int'],['signed','short'],['unsigned','short'],['signed','short','int'],['unsigned','short','int'],['int'],['signed'],['signed','int'],['unsigned'],['unsigned','int'],['long'],['long','int'],['signed','long'],['unsigned','long'],['signed','long','int'],['unsigned','long','int'],['long','long'],['long','long','int'],['signed','long','long'],['unsigned','long','long'],['unsigned','long','long','int'],['signed','long','long','int'],['_Bool'],['float'],['double'],['long','double']]
def cases_specs():
    cs=[]; ex=[]
    for s in SPECS:
        for p in sorted(set(itertools.permutations(s))): ex.append(p)
    rnd=random.Random(5)
    for k,c in enumerate(chunks(ex,12)):
        d=''; b=''
        for i,p in enumerate(c):
            q=list(p)
            for w in rnd.sample(['const','volatile','static','extern','register'],rnd.choice([0,1,1,2])):
                if w in('static','extern','register') and any(x in q for x in('static','extern','register')): continue
                if w=='register': continue
                q.insert(rnd.randrange(len(q)+1),w)
            d+=' '.join(q)+' w%d; '%i
            sg='_Generic(w%d,char:1,signed char:1,unsigned char:2,short:3,unsigned short:4,int:5,unsigned:6,long:7,long long:7,unsigned long:8,unsigned long long:8,_Bool:9,float:10,double:11,long double:12)'%i
            sg='_Generic(w%d,char:1,unsigned char:2,short:3,unsigned short:4,int:5,unsigned:6,long:7,unsigned long:8,_Bool:9,float:10,double:11,long double:12,default:0)'%i
            b+=' case %d: return %s*1000+sizeof(w%d)*10+_Alignof(w%d);'%(i,sg,i,i)
        o=d+'long f(int k){ switch(k){%s } return -1; }'%b
        # the reference sees char for signed char and long for long long, as toycc does not tell them apart
        ref=o.replace('char:1','char:1,signed char:1').replace('long:7','long:7,long long:7').replace('unsigned long:8','unsigned long:8,unsigned long long:8').replace('unsigned long:8,unsigned long long:8,unsigned long long:8','unsigned long:8,unsigned long long:8')
        cs.append(Case('specifiers #%d'%k,o,['i32'],'i64',oracle=[ref]))
    return cs
BASE=['char','int','long','double','unsigned','short','struct S','union U','_Bool','void *']
def build(r,depth,name):
    """a declarator read from the object outwards: list of steps, applied inside out"""
    steps=[]; last=''
    for i in range(depth):
        c=['ptr','arr','fn']
        if last=='fn': c=['ptr']           # functions return pointers (or the base)
        if last=='arr': c=['ptr','arr']
        if last=='': c=['ptr','arr']
        k=r.choice(c)
        steps.append((k,r.randint(1,5),r.choice(['void','int','char*,double','struct S','int,...','int(*)(int)','int x[3]','int(int)']))); last=k
    if last=='fn' : pass
    d=name
    for k,n,ps in steps:
        if k=='ptr': d='*'+d
        else:
            if d.startswith('*'): d='(%s)'%d
            d+='[%d]'%n if k=='arr' else '(%s)'%ps
    return d,steps
def uses(name,steps):
    """expressions peeling the declarator"""
    out=[name]; e=name
    for k,n,ps in steps:
        if k=='fn':
            a={'void':'','int':'1','char*,double':'0,1.0','struct S':'s','int,...':'1,2','int(*)(int)':'pf','int x[3]':'ip','int(int)':'fn0'}[ps]; e='%s(%s)'%(e,a)
        elif k=='arr': e='%s[0]'%e
        else: e='(*%s)'%e
        out.append(e)
    return out
def cases_decl(n=60):
    cs=[]
    for i in range(n):
        r=random.Random(7000+i); D=''; ex=[]
        for j in range(6):
            b=r.choice(BASE); d,st=build(r,r.randint(1,5),'o%d'%j)
            if st[-1][0]=='fn' and b in(): continue
            q=r.choice(['','','const ','volatile '])
            if r.random()<0.3: D+='typedef %s%s; T%d o%d; '%(b+' ',d.replace('o%d'%j,'T%d'%j),j,j)
            else: D+='%s%s %s; '%('extern ' if r.random()<0.3 else '',q+b,d)
            isfn=[False]+[k=='ptr' and m+1<len(st) and st[m+1][0]=='fn' for m,(k,_,_) in enumerate(st)]
            for u,fnq in zip(uses('o%d'%j,st),isfn):
                if not fnq: ex.append('sizeof(%s)'%u)
            # the abstract declarator of the same type
            ex.append('sizeof(%s%s)'%(b+' ',d.replace('o%d'%j,'')))
            ex.append('_Alignof(%s%s)'%(b+' ',d.replace('o%d'%j,'')))
            if not q: ex.append('__builtin_types_compatible_p(typeof(o%d),%s %s)'%(j,b,d.replace('o%d'%j,'')))
            if q=='' or 1:
                d2,_=build(r,r.randint(1,3),'')
                ex.append('__builtin_types_compatible_p(%s %s,%s %s)'%(b,d2,b,d.replace('o%d'%j,'')))
            for u,fnq,m in zip(uses('o%d'%j,st),isfn,range(99)):
                if not fnq and (m==len(st)) and b in TS: ex.append('_Generic(%s,%s:1,default:2)'%(u,b))
        src=PRE+'struct S s; int (*pf)(int); int *ip; int fn0(int); '+D+'long f(int k){ switch(k){%s } return -1; }'%''.join(' case %d: return %s;'%(k,e) for k,e in enumerate(ex))
        cs.append(Case('declarators %d'%i,src,['i32'],'i64'))
    return cs
CT2=['char','unsigned char','short','int','unsigned','long','float','double','long double','_Bool','void','struct S','union U','int*','char*','int**','int[3]','int[4]','int[3][2]','int(*)[3]','int(*)[4]','int*[3]','int(*)(int)','int(*)(long)','long(*)(int)','int(*)(int,...)','int(*)(int,int)','int(*)(void)','struct T','struct S*','struct T*','T1','T2','T3*','int(*(*)(int))[3]','void*','void(*)(void)','typeof(x1)','typeof(x2)','typeof(&x2[0])','typeof(x3)','typeof(*x3)','int(*[2])(int)','double*']
def cases_compat():
    cs=[]
    for i,a in enumerate(CT2):
        b=''.join(' case %d: return __builtin_types_compatible_p(%s,%s);'%(j,a,c) for j,c in enumerate(CT2))
        cs.append(Case('compatible %s'%a,PRE+'struct T{int a; char b;}; typedef int T1; typedef struct S T2; typedef T1 T3; int x1; int x2[3]; struct S x3[2]; long f(int k){ switch(k){%s } return -1; }'%b,['i32'],'i64'))
    inc=[('int[]','int[3]'),('int[3]','int[]'),('int(*)[]','int(*)[3]'),('int(*)[3]','int(*)[]'),('int[]','int[]'),('int(*)[]','int(*)[]'),('int[]','char[]'),('int[][2]','int[3][2]'),('int[][2]','int[3][3]')]
    cs.append(Case('incomplete arrays','long f(int k){ switch(k){%s } return -1; }'%''.join(' case %d: return __builtin_types_compatible_p(%s,%s);'%(j,a,c) for j,(a,c) in enumerate(inc)),['i32'],'i64'))
    # _Generic: default anywhere, exactly one association chosen, the others not evaluated
    for i,(s,want) in enumerate([('_Generic(x,default:1,int:2,char:3)',0),('_Generic(x,int:2,default:1)',0),('_Generic((char)x,default:g(),int:2,char:3)',0),('_Generic((long*)0,long*:x,default:g())',0),('_Generic(g(),int:5,default:6)',0),('_Generic(0?(void*)0:&x,int*:1,void*:2,default:3)',0),('_Generic(x,int:_Generic(1.0,double:7,default:8),default:9)',0),('_Generic("a",char*:1,default:2)',0),('_Generic(h,int(*)(int):1,default:2)',0),('_Generic(&h,int(*)(int):1,default:2)',0),('_Generic(a,int*:1,default:2)',0),('_Generic((int)x=x,int:x,default:g())' if 0 else '_Generic((x),int:x++,default:g())',0)]):
        cs.append(Case('selection %d'%i,'int g(void); int h(int); int a[3]; int f(int x){ int r=%s; return r*16+x; }'%s,['i32'],'i32',externs={'g':([],'i32')}))
    return cs
def cases_vla():
    cs=[]
    for i,(d,e) in enumerate([('int v[n];','sizeof(v)'),('int v[n];','sizeof v[0]'),('long v[n][m];','sizeof(v)+sizeof(v[0])*1000+sizeof(v[0][0])*100000'),('char v[3][n];','sizeof(v)*100+sizeof(v[1])'),('short v[n][4];','sizeof(v)*100+sizeof(*v)'),('typedef int T[n]; T v; n=7;','sizeof(v)+sizeof(T)*100'),('int (*p)[n];','sizeof(p)*1000+sizeof(*p)'),('int (*p)[n]; n=9;','sizeof(*p)'),('','sizeof(int[n])'),('','sizeof(int[n][m])'),('','sizeof(int(*)[n])'),('','sizeof(char[n+m*2])'),('double v[n]; typeof(v) w;','sizeof(w)'),('struct{int a; long b;} v[n];','sizeof(v)'),('int v[n]; n++;','sizeof(v)+n*1000'),('char v[n][m][2];','sizeof(v)+sizeof(v[0])*1000+sizeof(v[0][0])*100000L'),('int v[n]; int *q=v+1;','(char*)q-(char*)v'),('char v[n][m];','(char*)(v+1)-(char*)v'),('char v[n][m];','(char*)&v[1][1]-(char*)v'),('int (*p)[n]=0;','(long)(p+1)'),('int (*p)[n]=0;','(long)&p[2][1]'),('char v[n][m]; char (*p)[m]=v;','(char*)(p+1)-(char*)v')]):
        cs.append(Case('vla %d: %s %s'%(i,d,e),'long f(int n,int m){ %s return %s; }'%(d,e),['i32','i32'],'i64',assume=['p0>=1','p0<=8','p1>=1','p1<=8']))
    return cs
def groups():
    """array dimensions are symbolic decimal numbers: sizeof is the product for every value"""
    out=[]
    def mk(key,parts,terms,const=0):
        """parts: source pieces; an int is a dimension of that many digits; terms: expected sizeof of a: function of dims"""
        segs=[]; dims=[]; 
        for p in parts:
            if isinstance(p,int):
                n='d%d'%len(dims); bs=[]; segs.append(sy(n+'a',1,'1-9')); v=z3.ZeroExt(56,sx.B(n+'a'))-48
                if p>1:
                    segs.append(sy(n,p-1,'0-9'))
                    for i in range(p-1): v=v*10+(z3.ZeroExt(56,sx.B(n,i))-48)
                dims.append(v)
            else: segs.append(p)
        exp=terms(*dims)
        def conds(im):
            a=im.sym['r']; bs=[im.init.get(a+j,0) for j in range(8)]
            bs=[z3.BitVecVal(b,8) if isinstance(b,int) else (b if b.size()==8 else z3.Extract(7,0,b)) for b in bs]
            return [('wrong size',z3.Concat(*reversed(bs))!=exp)]
        def bad(p):
            if p.status!=0: return [('a valid program is rejected: '+p.out.get('<stderr>','')[-60:],True)]
            return conds(rv.Image([rv.Module(p.out.get('/o/a.s',''),Holes(p),tag='A')],rv.Layout(),'A'))
        def confirm(txt,m):
            rc,asm,err=core.native_asm(txt)
            if rc: return 'exit %d: %s'%(rc,err[-200:])
            im=rv.Image([rv.Module(asm,None,tag='A')],rv.Layout(),'A'); sub=[(z3.BitVec(k,8),z3.BitVecVal(v&255,8)) for k,v in m.items() if '#' in k]
            for l,c in conds(im):
                if z3.is_true(z3.simplify(z3.substitute(c,*sub))): return l
        out.append(dict(key=key,segs=segs,bad=bad,confirm=confirm,lits=1))
    for d in (1,2,3,4):
        mk('int[%d digits]'%d,['long r=sizeof(int[',d,']);\n'],lambda a:a*4)
        mk('object %d'%d,['extern short x[',d,']; long r=sizeof x;\n'],lambda a:a*2)
        mk('struct %d'%d,['struct S{char a[',d,']; long b; char c;}; long r=sizeof(struct S);\n'],lambda a:((a+7)&~7)+16)
        mk('packed %d'%d,['struct __attribute__((packed)) S{char a[',d,']; long b; char c;}; long r=sizeof(struct S);\n'],lambda a:a+9)
        mk('offset %d'%d,['struct S{char a[',d,']; int b; double c;}; long r=(long)&((struct S*)0)->c;\n'],lambda a:(((a+3)&~3)+4+7)&~7)
        mk('union %d'%d,['union S{char a[',d,']; long b; short c[5];}; long r=sizeof(union S);\n'],lambda a:(z3.If(z3.UGT(a,10),a,z3.BitVecVal(10,64))+7)&~7)
        mk('nested %d'%d,['struct S{short x; struct{char a[',d,']; short b;} y[3]; int z;}; long r=sizeof(struct S);\n'],lambda a:((2+3*(((a+1)&~1)+2)+3)&~3)+4)
        mk('pointer difference %d'%d,['int x[4][',d,']; long r=(char*)(x+3)-(char*)x;\n'] if 0 else ['extern int x[4][',d,']; long r=sizeof(x[2])+sizeof(x)*2+sizeof(&x[0])+sizeof(typeof(x[0]));\n'],lambda a:a*4+a*32+8+a*4)
    for d,e in ((1,1),(2,2),(2,1),(1,3)):
        mk('int[%d][%d]'%(d,e),['long r=sizeof(int[',d,'][',e,']);\n'],lambda a,b:a*b*4)
        mk('object[%d][%d]'%(d,e),['typedef long T[',d,']; extern T x[',e,']; long r=sizeof(x)+sizeof(x[0])*3+sizeof(*x[0]);\n'],lambda a,b:a*b*8+a*24+8)
        mk('expr dims %d %d'%(d,e),['enum{N=',d,'}; extern char x[N*2+1][',e,'+N]; long r=sizeof x;\n'],lambda a,b:(a*2+1)*(b+a))
    for d,e in ((1,1),(2,2),(3,2),(2,3),(3,3)):
        mk('pointer to array %d %d'%(d,e),['extern char (*x[',d,'])[',e,']; long r=sizeof(x)+sizeof(x[0])*1000000+sizeof(*x[0]);\n'],lambda a,b:a*8+8000000+b)
        mk('flexible %d %d'%(d,e),['struct S{int a[',d,']; short b[',e,']; long c[];}; long r=sizeof(struct S);\n'],lambda a,b:(a*4+b*2+7)&~7)
        mk('function %d %d'%(d,e),['int (*fn(int a[',d,']))[',e,']; long r=sizeof(*fn(0))+sizeof(fn(0))*100000;\n'],lambda a,b:b*4+800000)
    return out
def cases_known():
    """types C keeps distinct that toycc merges"""
    cs=[]
    for n,e in [('char vs signed char','_Generic((signed char)0,signed char:1,default:2)+_Generic((char)0,char:1,default:2)*3+_Generic((signed char)0,char:1,default:2)*9'),('long vs long long','_Generic(0LL,long:1,default:2)'),('pointer to const','_Generic((const char*)0,char*:1,default:2)'),('pointer to const compatible','__builtin_types_compatible_p(int*,const int*)')]:
        cs.append(Case(n,'int f(void){ return %s; }'%e,[],'i32'))
    return cs
def run():
    r=Report('C22','translation_validation','the type and size of every operator applied to every pair of types, of address/array/function/member expressions, of permuted specifiers, of seeded random declarators and the compatibility of every listed pair of types, selected by a symbolic index and compared with the reference; VLA sizes for all dimensions; sizeof with symbolic decimal dimensions against arithmetic over them')
    r.tv(cases_binary(),'binary'); r.tv(cases_unary(),'unary'); r.tv(cases_lvalues(),'expressions'); r.tv(cases_specs(),'specifiers'); r.tv(cases_decl(300 if core.THOROUGH else 60),'declarators'); r.tv(cases_compat(),'compatibility'); r.tv(cases_vla(),'vla')
    r.tv(cases_known(),'distinct types')
    sx.run(r,'symbolic dimensions',groups())
    r.bounds=['operators over 14 operand types and 20 result types; declarators of up to 5 steps; array dimensions of 1 to 4 symbolic digits; VLA dimensions 1..8 (all values symbolic)']
    r.assume=['gcc 13 (-fsigned-char) as the reference for types','enumerated types are compared only through arithmetic, not for compatibility (implementation-defined)']
    return r.finish()
