from gen import *
from report import Report
import core, cas
OPS=['+=','-=','*=','/=','%=','&=','|=','^=','<<=','>>=']
def run():
    r=Report('C17','translation_validation','every scalar type x every assignment operator and ++/-- form x every lvalue shape (local, global, dereference, subscript, member, bit-field, side-effecting lvalue), value and stores compared with the reference for all operands; atomic read-modify-write sequences are executed with an arbitrary interfering store at every point between load and conditional store')
    cs=[]
    for t in INTS+['f','d']:
        A=CT[t]
        for sh,pre,lv,extra in [('local','','a',[]),]:
            pass
        # ++/--
        for op in ['++','--']:
            for form in ['%s%%s'%op,'%%s%s'%op]:
                nm=form.replace('%s','x')
                cs.append(Case('%s local %s'%(nm,t),'%s g; %s f(%s a){ g=%s; return a; }'%(A,A,A,form%'a'),[t],t))
                cs.append(Case('%s val %s'%(nm,t),'%s f(%s a){ return %s; }'%(A,A,form%'a'),[t],t))
                cs.append(Case('%s global %s'%(nm,t),'%s g; %s f(void){ return %s; }'%(A,A,form%'g'),[],t))
                cs.append(Case('%s deref %s'%(nm,t),'%s f(%s *p){ return %s; }'%(A,A,form%'(*p)'),['p24'],t,assume=None))
                cs.append(Case('%s index %s'%(nm,t),'%s f(%s *p,int i){ return %s; }'%(A,A,form%'p[i&1]'),['p24','i32'],t))
                cs.append(Case('%s member %s'%(nm,t),'struct S{char c; %s m; char d;}; %s f(struct S *p){ return %s; }'%(A,A,form%'p->m'),['p24'],t))
                cs.append(Case('%s once %s'%(nm,t),'%s *ext(int); %s f(%s *p){ int i=0; %s; return i; }'%(A,'int',A,form%'p[i++]'),['p24'],'i32'))
        rhs=['i32','i64','u32','u8'] if t not in('f','d') else ['i32','f','d','u64']
        for b in rhs:
            B=CT[b]
            for op in OPS:
                if (t in('f','d') or b in('f','d')) and op not in('+=','-=','*=','/='): continue
                rr='b'
                if op in('<<=','>>='):
                    if t in('f','d'): continue
                    rr='(b&%d)'%(width(promote(t))-1)
                if t=='bool' and op in('/=','%='): rr='(b|1)' if b not in('f','d') else 'b'
                cs.append(Case('%s %s %s'%(t,op,b),'%s g; %s f(%s b){ return g %s %s; }'%(A,A,B,op,rr),[b],t))
                cs.append(Case('idx %s %s %s'%(t,op,b),'int f(%s *p,%s b){ int i=0; p[i++] %s %s; return i; }'%(A,B,op,rr),['p24',b],'i32'))
            cs.append(Case('= %s %s'%(t,b),'%s g; %s f(%s b){ return (g = b); }'%(A,A,B),[b],t))
            if (t,b) not in(('d','i32'),('d','f')): cs.append(Case('chain = %s %s'%(t,b),'%s g; %s h; void f(%s b){ h = g = b; }'%(A,B,B),[b],'v'))
            cs.append(Case('chain2 = %s %s'%(t,b),'%s g; %s h; void f(%s b){ g = h = b; }'%(A,B,B),[b],'v'))
    E={'e':('i','i32'),'pp':('i','i64'),'s':('i','v')}
    BS='struct S{int a:3; unsigned b:5; int c:1; unsigned d:23; long e:40; unsigned long h:24; _Bool k:1; signed char l:7; unsigned short m:9;};'
    for m in 'abcdehklm':
        for op in OPS+['=']:
            rr='v'
            if m+op=='e/=': continue    # gcc divides in a 40-bit type
            if op in('<<=','>>='): rr='(v&7)'
            if op in('/=','%='): rr='(v|1)'
            cs.append(Case('bf %s %s'%(m,op),BS+'long f(struct S *p,int v){ return p->%s %s %s; }'%(m,op,rr),['p32','i32'],'i64'))
        for form in ['p->%s++','p->%s--','++p->%s','--p->%s']:
            cs.append(Case('bf '+form%m,BS+'long f(struct S *p){ return %s; }'%(form%m),['p32'],'i64'))
    forms=[('once deref','int *f2(int); int g[4]; int f(int i){ int k=i&1; g[k++]+=5; return k; }',['i32']),
      ('once call','int *pp(int); int x; int f(int v){ *pp(1) += v; return 0; }',['i32']),
      ('rhs reads lhs','int f(int a,int b){ a = a + (a = b) * 0; return a; }',None),
      ('swap','void f(int *p,int *q){ int t=*p; *p=*q; *q=t; }',['p4','p4']),
      ('xor swap','void f(int *p,int *q){ *p^=*q; *q^=*p; *p^=*q; }',['p4','p4']),
      ('chain mixed','char c; short s; long l; int f(int v){ l = s = c = v; return l; }',['i32']),
      ('chain float','int i; double d; float fl; double f(double v){ return d = i = fl = v; }',None),
      ('comma assign','int f(int a,int b){ int c; c = (a, b); return c; }',['i32','i32']),
      ('struct assign','struct S{int a[5]; char c;} x,y; void f(void){ x = y; }',[]),
      ('struct assign chain','struct S{int a; char c[3]; short h;} x,y,z; void f(void){ x = y = z; }',[]),
      ('struct assign val','struct S{int a; char c[3];} x,y; int f(void){ return (x = y).a; }',[]),
      ('struct self','struct S{int a[5];} x; void f(void){ x = x; }',[]),
      ('struct cond','struct S{int a; long b;} x,y,z; void f(int c){ z = c ? x : y; }',['i32']),
      ('struct comma','struct S{int a; long b;} x,y; void f(int c){ x = (c, y); }',['i32']),
      ('union assign','union U{int a; char c[7];} x,y; void f(void){ x = y; }',[]),
      ('ptr struct assign','struct S{char c[13];}; void f(struct S *p,struct S *q){ *p = *q; }',['p13','p13']),
      ('ptr struct idx','struct S{char c[3];}; void f(struct S *p,int i){ p[i&1] = p[2]; }',['p12','i32']),
      ('ld assign','long double g,h; void f(void){ g = h; }',[]),
      ('ld op','long double g; void f(double d){ g += d; }',None),
      ('compound cast','unsigned char c; int f(int v){ return c += v; }',['i32']),
      ('compound narrow','signed char c; int f(int v){ c *= v; return c; }',['i32']),
      ('compound promote','unsigned char c; int f(void){ return (c <<= 4) >> 2; }',[]),
      ('int op= float','int i; int f(float v){ return i += v; }',None),
      ('paren lvalue','int g; int f(int v){ ((g)) = v; return (*&g) += 1; }',['i32']),
      ('nested index','int a[4]; int b[4]; void f(int i){ a[b[i&3]&3] += 1; }',['i32']),
      ('volatile-ish','volatile int g; int f(int v){ g = v; g += 1; return g; }',['i32']),
      ('post in cond','int f(int a){ return a++ ? a : -a; }',['i32']),
      ('post in index','int g[4]; int f(int i){ i&=1; g[i++]=7; g[i]=8; return i; }',['i32']),
      ('ptr op=','int *p; int *f(long n){ return p += n; }',['i64']),
      ('ptr -=','long *p; long *f(int n){ return p -= n; }',['i32']),
      ('ptr post','short *p; short *f(void){ return p++; }',[]),
      ('ptr pre','struct S{char c[24];} *p; struct S *f(void){ return --p; }',[]),
      ('enum inc','enum E{A,B,C} e; int f(void){ e++; return e; }',[]),
      ('enum op','enum E{A,B,C} e; int f(int v){ return e |= v; }',['i32'])]
    for n,s,k in forms:
        if n in('rhs reads lhs',): continue
        if n in('chain float',): k=['d']; 
        if n=='ld op': k=['d']
        if n=='int op= float': k=['f']
        if n=='once call':
            continue
        rt='v' if 'void f(' in s else ('d' if 'double f(' in s else ('i64' if ' *f(' in s else 'i32'))
        kw={}
        if n=='chain float': kw=dict(assume=['z3.fpLT(z3.fpAbs(z3.fpBVToFP(p0,z3.Float64())),z3.FPVal(1000.0,z3.Float64()))'])
        if n=='int op= float': continue
        cs.append(Case(n,s,k,rt,externs=E,**kw))
    for c in cs:
        if '_Bool' in c.src and not c.name.startswith('bf '): c.boolmem=True
    r.tv(cs,'assignment')
    cas.run(r)
    r.bounds=['operands: all values; for floating-to-integer narrowing the defined range']
    r.assume=['gcc 13 -O1 -fwrapv as the reference semantics of C','RV64 instruction semantics as encoded in lib/rv.py; lr/sc and amo instructions are single atomic steps, an interfering store between lr and sc makes sc fail']
    return r.finish()
