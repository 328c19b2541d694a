from gen import *
from report import Report
import core, random
import functools
Case=functools.partial(Case,boolmem=True)
SC=[('signed char','i8'),('unsigned char','u8'),('short','i16'),('unsigned short','u16'),('int','i32'),('unsigned int','u32'),('long','i64'),('unsigned long','u64'),('_Bool','bool'),('float','f'),('double','d'),('char*','u64'),('long double','ld')]
BF=[('signed char','i8',8),('unsigned char','u8',8),('short','i16',16),('unsigned short','u16',16),('int','i32',32),('unsigned int','u32',32),('long','i64',64),('unsigned long','u64',64),('_Bool','bool',1)]
class Gen:
    """random aggregate types; members: list of (access path, c type, kind, is bit-field)"""
    def __init__(g,seed,bits=True): g.r=random.Random(seed); g.n=0; g.bits=bits
    def name(g): g.n+=1; return 'm%d'%g.n
    def agg(g,depth,packed=False,kw=None):
        r=g.r; kw=kw or r.choice(['struct','struct','union']); body=''; acc=[]
        bits=g.bits and not packed
        for _ in range(r.randint(1,6 if depth else 4)):
            k=r.random()
            if bits and k<0.45:
                t,kd,w=r.choice(BF)
                if r.random()<0.08 and t!='_Bool': body+='%s :0; '%t; continue
                wd=r.randint(1,w) if w>1 else 1
                if r.random()<0.1: body+='%s :%d; '%(t,wd); continue
                n=g.name(); body+='%s %s:%d; '%(t,n,wd); acc.append((n,t,kd,wd)); continue
            if depth and k<0.62:
                kk=r.choice(['struct','union']); b,a=g.agg(depth-1,packed,kk)
                if not a: continue
                if r.random()<0.4 and not packed: body+='%s; '%b; acc+=a
                elif r.random()<0.5: n=g.name(); body+='%s %s; '%(b,n); acc+=[(n+'.'+x[0],)+x[1:] for x in a]
                else:
                    n=g.name(); L=r.randint(1,3); body+='%s %s[%d]; '%(b,n,L); i=r.randrange(L); acc+=[('%s[%d].'%(n,i)+x[0],)+x[1:] for x in a]
                continue
            t,kd=r.choice(SC)
            n=g.name()
            al=''
            if k>0.93 and not packed: al='_Alignas(%d) '%r.choice([a for a in(1,2,4,8,16,32) if a>={'i8':1,'u8':1,'bool':1,'i16':2,'u16':2,'i32':4,'u32':4,'f':4,'ld':16}.get(kd,8)])
            if r.random()<0.25:
                L=r.randint(1,4); body+='%s%s %s[%d]; '%(al,t,n,L); acc.append(('%s[%d]'%(n,r.randrange(L)),t,kd,0))
            else: body+='%s%s %s; '%(al,t,n); acc.append((n,t,kd,0))
        at=''
        if packed: at='__attribute__((packed)) '
        elif r.random()<0.06: at='__attribute__((aligned(%d))) '%r.choice([2,4,8,16,32])
        return '%s %s{ %s}'%(kw,at,body), acc
FIXED=[
 ('empty tail','struct { long a; char b; }',[('a','long','i64',0),('b','char','i8',0)]),
 ('bits straddle','struct { int a:17; int b:17; int c:30; int d:2; unsigned e:1; }',[(n,'int','i32',w) for n,w in(('a',17),('b',17),('c',30),('d',2))]+[('e','unsigned','u32',1)]),
 ('bits then char','struct { int a:3; signed char c; int b:5; }',[('a','int','i32',3),('c','signed char','i8',0),('b','int','i32',5)]),
 ('char then bits','struct { signed char c; int a:3; int b:25; int d:8; }',[('a','int','i32',3),('c','signed char','i8',0),('b','int','i32',25),('d','int','i32',8)]),
 ('zero width','struct { int a:3; int :0; int b:5; }',[('a','int','i32',3),('b','int','i32',5)]),
 ('zero width char','struct { int a:3; char :0; signed char b:5; }',[('a','int','i32',3),('b','signed char','i8',5)]),
 ('long bits','struct { long a:40; long b:30; unsigned long c:63; long d:64; unsigned long e:1; }',[('a','long','i64',40),('b','long','i64',30),('c','unsigned long','u64',63),('d','long','i64',64),('e','unsigned long','u64',1)]),
 ('mixed width types','struct { char a:4; short b:9; int c:12; long d:33; char e:7; }',[('b','short','i16',9),('c','int','i32',12),('d','long','i64',33)]),
 ('bool bits','struct { _Bool a:1; _Bool b:1; unsigned c:6; _Bool d; }',[('a','_Bool','bool',1),('b','_Bool','bool',1),('c','unsigned','u32',6),('d','_Bool','bool',0)]),
 ('full width','struct { int a:32; unsigned b:32; short c:16; signed char d:8; }',[('a','int','i32',32),('b','unsigned','u32',32),('c','short','i16',16),('d','signed char','i8',8)]),
 ('anon','struct { int a; union { long b; struct { short c,d; }; unsigned char e[3]; }; float f; }',[('a','int','i32',0),('b','long','i64',0),('c','short','i16',0),('d','short','i16',0),('e[2]','unsigned char','u8',0),('f','float','f',0)]),
 ('flex','struct { short n; int v[]; }',[('n','short','i16',0),('v[3]','int','i32',0)]),
 ('flex ld','struct { char n; long double v[]; }',[('n','char','i8',0),('v[2]','long double','ld',0)]),
 ('packed','struct __attribute__((packed)) { char a; int b; short c; long d; char e; double f; }',[('b','int','i32',0),('c','short','i16',0),('d','long','i64',0),('f','double','d',0)]),
 ('packed nested','struct { char a; struct __attribute__((packed)) { char b; long c; } d; char e; }',[('d.c','long','i64',0),('e','char','i8',0)]),
 ('unpacked in packed','struct __attribute__((packed)) { char a; struct { char b; long c; } d; char e; }',[('d.c','long','i64',0),('e','char','i8',0)]),
 ('aligned','struct __attribute__((aligned(32))) { char a; int b; }',[('a','char','i8',0),('b','int','i32',0)]),
 ('packed aligned','struct __attribute__((packed, aligned(8))) { char a; int b; }',[('a','char','i8',0),('b','int','i32',0)]),
 ('enum member','struct { char a; enum { X=-1, Y } e; enum { Z=-5 } u; }',[('e','int','i32',0),('u','int','i32',0)]),
 ('fnptr member','struct { char a; int (*f)(int); void *p[2]; }',[('p[1]','void*','u64',0)]),
 ('2d','struct { char a; short m[3][5]; int z; }',[('m[2][4]','short','i16',0),('z','int','i32',0)]),
 ('big','struct { char a[300]; int z; char b[3]; }',[('z','int','i32',0),('b[2]','char','i8',0)]),
 ('union bits','union { int a:5; unsigned b:9; long c; signed char d:3; }',[('a','int','i32',5),('b','unsigned','u32',9),('c','long','i64',0),('d','signed char','i8',3)]),
]
def widen(k): return {'f':'f','d':'d','ld':'ld','u64':'u64','u32':'i64'}.get(k,'i64')
def cases(nm,ty,acc,r,full):
    td='typedef %s T;\n'%ty; cs=[]; X={'f':'float','d':'double','ld':'long double','u64':'unsigned long','i64':'long'}
    nb=[a for a in acc if not a[3]]
    cs.append(Case('size '+nm,td+'long f(int i){ if(i==0) return sizeof(T); if(i==1) return _Alignof(T); if(i==2) return sizeof(T[3]); struct { char c; T t; } *q=0; if(i==3) return sizeof(*q); return (char*)&q->t-(char*)q; }',['i32'],'i64',havoc=False))
    if nb: cs.append(Case('offsets '+nm,td+'long f(T *p,int i){ '+' '.join('if(i==%d) return (long)&p->%s;'%(i,a[0]) for i,a in enumerate(nb))+' return 0; }',['u64','i32'],'i64',max_paths=200))
    B='p512'
    for (a,t,k,w) in acc:
        W=widen(k); key='%s %s'%(nm,a)
        cs.append(Case('get '+key,td+'%s f(T *p){ return %sp->%s; }'%(X[W],'(unsigned long)' if '*' in t else '',a),[B],W))
        cast='(%s)'%t if '*' in t else ''
        pk=k if k!='bool' else 'u8'
        pt={'bool':'unsigned char'}.get(k,t if '*' not in t else 'unsigned long')
        cs.append(Case('set '+key,td+'void f(T *p,%s v){ p->%s=%sv; }'%(pt,a,cast),[B,pk],'v'))
        if not full: continue
        if '*' not in t and k!='ld':
            cs.append(Case('setval '+key,td+'%s f(T *p,%s v){ return p->%s=v; }'%(X[W],pt,a),[B,pk],W))
        if '*' not in t and k not in('f','d','ld','bool'):
            op=r.choice(['+=','-=','^=','|=','&=','<<=','>>='])
            rhs='(v&3)' if op in('<<=','>>=') else 'v'
            cs.append(Case('op%s '%op+key,td+'long f(T *p,int v){ return p->%s%s%s; }'%(a,op,rhs),[B,'i32'],'i64'))
            inc=r.choice(['p->%s++','++p->%s','p->%s--','--p->%s'])
            cs.append(Case('inc '+key,td+'long f(T *p){ return %s; }'%(inc%a),[B],'i64'))
    if not full: return cs
    if len(acc)>1:
        for _ in range(2):   # store one, read another
            a,b=r.sample(acc,2)
            if '*' in a[1]+b[1] or 'ld' in(a[2],b[2]) or (b[2]=='bool' and 'union' in ty): continue
            cs.append(Case('store/load %s %s %s'%(nm,a[0],b[0]),td+'%s f(T *p,%s v){ p->%s=v; return p->%s; }'%(X[widen(b[2])],'unsigned char' if a[2]=='bool' else a[1],a[0],b[0]),[B,'u8' if a[2]=='bool' else a[2]],widen(b[2])))
    if 'flex' not in nm:
        cs.append(Case('copy '+nm,td+'void f(T *p,T *q){ *p=*q; }',['p512','p512'],'v'))
        cs.append(Case('copy idx '+nm,td+'void f(T *p,T *q){ p[1]=q[2]; }',['p1536','p1536'],'v'))
        cs.append(Case('copy glob '+nm,td+'char a=1; T g; char b=2; void f(T *q){ g=*q; }',['p512'],'v'))
        a,t,k,w=r.choice(acc); W=widen(k)
        if '*' not in t and k!='ld':
            cs.append(Case('local '+nm,td+'%s f(T *p){ char a=1; T t; char b=2; t=*p; T u=t; if(a!=1||b!=2) return 0; return u.%s; }'%(X[W],a),['p512'],W))
            cs.append(Case('global '+nm,td+'T g,h; %s f(%s v){ g.%s=v; h=g; return h.%s; }'%(X[W],'unsigned char' if k=='bool' else t,a,a),['u8' if k=='bool' else k],W))
            cs.append(Case('cond '+nm,td+'%s f(T *p,T *q,int c){ return (c?*p:*q).%s; }'%(X[W],a),['p512','p512','i32'],W))
            cs.append(Case('assign expr '+nm,td+'%s f(T *p,T *q){ T t; return (t=*p=*q).%s; }'%(X[W],a),['p512','p512'],W))
    return cs
def run():
    r=Report('C06','translation_validation','enumerated and seeded random struct/union types (nested, anonymous, packed, aligned, bit-fields of every type and width, flexible arrays): sizeof/_Alignof/offsets, and for each member load, store, value of the assignment, compound assignment and ++/-- over fully symbolic object contents; every byte either compiler writes is compared with gcc; whole-aggregate copies')
    rnd=random.Random(core.SEED*77+5)
    cs=[]
    for nm,ty,acc in FIXED: cs+=cases(nm,ty,acc,rnd,True)
    r.tv(cs,'enumerated')
    cs=[]
    N=400 if core.THOROUGH else 70
    for i in range(N):
        packed=i%6==5
        g=Gen(core.SEED*1000+i,bits=i%3!=2)
        ty,acc=g.agg(2 if i%2 else 1,packed)
        if not acc: continue
        if len(acc)>5: acc=rnd.sample(acc,5)
        cs+=cases('rand%d'%i,ty,acc,rnd,True)
    r.tv(cs,'random')
    # every width of every bit-field type, after a preceding field of every remainder class
    cs=[]
    for t,k,w in BF:
        for wd in range(1,w+1):
            if not core.THOROUGH and wd not in(1,2,3,5,7,8,9,15,16,17,23,24,31,32,33,40,48,63,64) : continue
            for lead in ((0,1,5,7,9,15,20,31,33,50) if core.THOROUGH else (0,3,13,29)):
                if w==1 and lead>7: continue
                pre='%s x:%d; '%('unsigned long' if lead>31 else 'unsigned',lead) if lead else ''
                ty='struct { %s%s m:%d; unsigned y:3; }'%(pre,t,wd); nm='%s:%d@%d'%(t,wd,lead)
                acc=[('m',t,k,wd)]
                cs+=cases(nm,ty,acc,rnd,False)
                cs.append(Case('rmw '+nm,'typedef %s T;\nlong f(T *p,%s v){ p->m=v; return (long)p->m*2+p->y; }'%(ty,'unsigned char' if k=='bool' else t),['p32','u8' if k=='bool' else k],'i64'))
    r.tv(cs,'widths')
    r.bounds=['%d random types of nesting depth <=3, up to 6 members per level'%N,'all object contents and stored values']
    r.assume=['gcc 13 implements the LP64D ABI layout','RV64 model in lib/rv.py']
    r.outside=['packed structs that contain bit-fields']
    return r.finish()
