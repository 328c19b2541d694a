from gen import *
from report import Report
import core
def cases_bin():
    cs=[]
    for op in ARITH:
        for a in INTS:
            for b in INTS:
                cs.append(Case('%s %s %s'%(a,op,b),'long f(%s a,%s b){ return %s; }'%(CT[a],CT[b],guard(op,'a','b',a,b)),[a,b],'i64',assume=['p1!=0'] if op in '/%' else None))
    return cs
def cases_un():
    cs=[]
    for op in ['-','~','!','+']:
        for a in INTS:
            cs.append(Case('%s%s'%(op,a),'long f(%s a){ return %sa; }'%(CT[a],op),[a],'i64'))
            cs.append(Case('%s%s native'%(op,a),'%s f(%s a){ return %sa; }'%(CT[promote(a)],CT[a],op),[a],promote(a)))
    return cs
def cases_const():
    cs=[]
    for op in ['+','-','*','&','|','^','<','<=','>','>=','==','!=']:
        for a in ['i32','u32','i64','u64','i8','u16']:
            for c in ['0','1','-1','2047','2048','-2048','-2049','0x7fffffff','0x80000000','0xffffffff','-2147483648L','0x7fffffffffffffff','0x8000000000000000','4294967295u','1u','-1L']:
                if op=='*' and c not in('0','1','-1','2048','1u','2047'): continue
                cs.append(Case('%s %s %s'%(a,op,c),'long f(%s a){ return a %s %s; }'%(CT[a],op,c),[a],'i64'))
                if a in('i32','u64') and op in('-','<','=='): cs.append(Case('%s %s %s rev'%(a,op,c),'long f(%s a){ return %s %s a; }'%(CT[a],c,op),[a],'i64'))
    for a in ['i32','u32','i64','u64','i8','u16']:
        for k in [0,1,7,31,32,63]:
            if k<width(promote(a)):
                for op in('<<','>>'): cs.append(Case('%s %s %d'%(a,op,k),'long f(%s a){ return a %s %d; }'%(CT[a],op,k),[a],'i64'))
        for k in [1,2,16,-1]:
            for op in('/','%'): cs.append(Case('%s %s %d'%(a,op,k),'long f(%s a){ return a %s %d; }'%(CT[a],op,k),[a],'i64'))
    return cs
def cases_prec():
    """precedence and associativity: every ordered pair of binary operators, unparenthesised"""
    cs=[]
    ops=ARITH
    for t in (['i32'],['u32'],['i64']) if core.THOROUGH else (['i32'],):
        for o1 in ops:
            for o2 in ops:
                # shifts get masked counts through pre-masked variables
                cs.append(Case('a%sb%sc %s'%(o1,o2,t[0]),'long f(%s a,%s b,%s c){ b&=31; c&=31; return a %s b %s c; }'%(CT[t[0]],CT[t[0]],CT[t[0]],o1,o2),[t[0]]*3,'i64',assume=(['p1&31!=0'] if o1 in '/%' else [])+(['p2&31!=0'] if o2 in '/%' else [])))
    for u in ['-','~','!','+']:
        for o in ops:
            cs.append(Case('%sa%sb'%(u,o),'long f(long a,long b){ b&=31; return %sa %s b; }'%(u,o),['i64','i64'],'i64',assume=['p1&31!=0'] if o in '/%' else None))
            cs.append(Case('a%s%sb'%(o,u),'long f(long a,long b){ b&=31; %s return a %s %sb; }'%('b=-b&31;' if o in('<<','>>') and u=='-' else '',o,u) if not(o in('<<','>>') and u in('-','~')) else 'long f(long a,long b){ return a %s (%sb&63); }'%(o,u),['i64','i64'],'i64',assume=({'-':['p1&31!=0'],'+':['p1&31!=0'],'~':None,'!':['p1&31==0']}[u]) if o in '/%' else None))
    for e in ['a?b:c','a?b:c?a:b','a,b,c','a?b,c:a','a||b?c:a','a=b,a+c','a?b?1:2:3','a-b-c','a-(b-c)','a/b*c','a%b%c','a<b==c<a','a&b==c','a|b^c&a','a<<1+2','!a==b','-a-b','- -a','~-a','a-(-b)','a+-b*c','(a,b)+c','(a?b:c)+1','a?1:b?2:c?3:4']:
        cs.append(Case(e,'long f(long a,long b,long c){ return %s; }'%e,['i64']*3,'i64',assume=['p1!=0','p2!=0'] if '/' in e or '%' in e else None))
    return cs
def cases_ptr():
    cs=[]
    for op in ['<','<=','>','>=','==','!=']:
        cs.append(Case('ptr %s'%op,'int f(unsigned long a,unsigned long b){ char *p=(char*)a,*q=(char*)b; return p %s q; }'%op,['u64','u64'],'i32'))
        cs.append(Case('intptr %s'%op,'int f(unsigned long a,unsigned long b){ int *p=(int*)a,*q=(int*)b; return p %s q; }'%op,['u64','u64'],'i32'))
    for e in ['!p','p&&a','p||a','p?1:2','p==0','p!=0']:
        cs.append(Case('ptr %s'%e,'int f(unsigned long a){ char *p=(char*)a; return %s; }'%e,['u64'],'i32'))
    for op in ARITH:
        cs.append(Case('enum %s'%op,'enum E{A=-5,B=7,C}; long f(enum E a,int b){ return %s; }'%guard(op,'a','b','i32','i32'),['i32','i32'],'i64',assume=['p1!=0'] if op in '/%' else None))
        cs.append(Case('enum const %s'%op,'enum E{A=-5,B=7,C}; long f(long b){ return %s; }'%guard(op,'b','C','i64','i32'),['i64'],'i64'))
    return cs
def cases_rand(n):
    cs=[]
    vs=[('a','i32'),('b','u32'),('c','i64'),('d','u64'),('e','i8'),('g','u16')]
    for k in range(n):
        g=RandExpr(1000+k,vs)
        e,t=g.gen(3 if k%3 else 4)
        cs.append(Case('rand%d'%k,'long f(int a,unsigned b,long c,unsigned long d,signed char e,unsigned short g){ return %s; }'%e,[t for _,t in vs],'i64'))
    # many simultaneously live temporaries
    for op in '+^':
        e='a'
        for i in range(12): e='(%s %s (%s))'%(['b','c','d'][i%3],op,e)
        cs.append(Case('deep right %s'%op,'long f(long a,long b,long c,long d){ return %s; }'%e,['i64']*4,'i64'))
        e='a'
        for i in range(12): e='((%s) %s %s)'%(e,op,['b','c','d'][i%3])
        cs.append(Case('deep left %s'%op,'long f(long a,long b,long c,long d){ return %s; }'%e,['i64']*4,'i64'))
    return cs
def run():
    r=Report('C01','translation_validation','every operator x operand-type pair, every ordered operator pair, constants at encoding boundaries and fixed-seed random expressions; a case is one function whose emitted code is compared with the reference for all operand values')
    r.tv(cases_bin(),'binary')
    r.tv(cases_un(),'unary')
    r.tv(cases_const(),'constant')
    r.tv(cases_prec(),'precedence')
    r.tv(cases_ptr(),'pointer-enum')
    r.tv(cases_rand(1500 if core.THOROUGH else 150),'random')
    r.bounds=['operands: all values of their type (64-bit symbolic)','expressions: <= 6 variables, depth <= 4 (12 for chains)','loop-free code, unbounded in data']
    r.assume=['gcc 13 -O1 -fwrapv as the reference semantics of C','RV64 instruction semantics as encoded in lib/rv.py']
    return r.finish()
