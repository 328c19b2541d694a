from gen import *
from report import Report
import core
def run():
    r=Report('C02','translation_validation','every ordered pair of integer/_Bool/enum/pointer types through every converting context (cast, assignment, initialisation, argument, return, compound assignment, condition, switch, array index); each case compared with the reference for all source values')
    cs=[]
    for a in INTS:
        for b in INTS:
            A,B=CT[a],CT[b]
            n='%s->%s'%(a,b)
            cs.append(Case('cast '+n,'long f(%s a){ return (%s)a; }'%(A,B),[a],'i64'))
            cs.append(Case('cast2 '+n,'unsigned long f(%s a){ return (%s)a + 1UL; }'%(A,B),[a],'i64'))
            cs.append(Case('return '+n,'%s f(%s a){ return a; }'%(B,A),[a],b))
            cs.append(Case('init '+n,'long f(%s a){ %s b = a; return b; }'%(A,B),[a],'i64'))
            cs.append(Case('assign '+n,'long f(%s a){ %s b; return (b = a) + 0L; }'%(A,B),[a],'i64'))
            cs.append(Case('global '+n,'%s g; void f(%s a){ g = a; }'%(B,A),[a],'v'))
            cs.append(Case('arg '+n,'long f(%s a){ return ext(a); }'%A if False else 'long ext(%s x); long f(%s a){ return ext(a); }'%(B,A),[a],'i64',externs={'ext':('i','i64')}))
            cs.append(Case('chain '+n,'long f(long x){ return (%s)(%s)x; }'%(B,A),['i64'],'i64'))
            if a!='bool': cs.append(Case('mem '+n,'long f(%s *p){ return (%s)*p; }'%(A,B),['p8'],'i64'))
            cs.append(Case('cond '+n,'long f(%s a,%s b,int c){ return c ? a : b; }'%(A,B),[a,b,'i32'],'i64'))
            cs.append(Case('callee '+n,'%s ext(%s); long f(long x){ return ext(x); }'%(A,B),['i64'],'i64',externs={'ext':('i',a)}))
    for a in INTS:
        A=CT[a]; n=a
        cs.append(Case('enum from '+n,'enum E{P=-1,Q=1}; long f(%s a){ return (enum E)a; }'%A,[a],'i64'))
        cs.append(Case('enum to '+n,'enum E{P=-1,Q=1}; long f(enum E e){ return (%s)e; }'%A,['i32'],'i64'))
        cs.append(Case('enum var '+n,'enum E{P=-1,Q=1} g; long f(%s a){ g=a; return g; }'%A,[a],'i64'))
        cs.append(Case('ptr to '+n,'long f(char *p){ return (%s)(unsigned long)p; }'%A,['u64'],'i64'))
        cs.append(Case('ptr from '+n,'unsigned long f(%s a){ return (unsigned long)(char*)(long)a; }'%A,[a],'i64'))
        cs.append(Case('vararg '+n,'long ext(int n, ...); long f(%s a){ return ext(1,a); }'%A,[a],'i64',externs={'ext':('ii','i64')}))
        cs.append(Case('bool test '+n,'int f(%s a){ if (a) return 1; return 0; }'%A,[a],'i32'))
        cs.append(Case('while test '+n,'int f(%s a){ int r=0; while (a) { r=7; break; } return r; }'%A,[a],'i32'))
        cs.append(Case('for test '+n,'int f(%s a){ int r=0; for (;a;) { r=7; break; } return r; }'%A,[a],'i32'))
        cs.append(Case('do test '+n,'int f(%s a){ int r=0; do { r++; if (r>1) break; } while (a); return r; }'%A,[a],'i32'))
        cs.append(Case('not test '+n,'int f(%s a){ return !a; }'%A,[a],'i32'))
        cs.append(Case('index '+n,'long f(char *p,%s a){ return p[a & 7]; }'%A,['p16',a],'i64'))
        cs.append(Case('bool cast '+n,'int f(%s a){ return (_Bool)a; }'%A,[a],'i32'))
        for op in ['+=','-=','*=','&=','|=','^=']:
            for b in ['i32','u32','i64','u8']:
                cs.append(Case('compound %s %s %s'%(a,op,b),'long f(%s a,%s b){ return (a %s b); }'%(A,CT[b],op),[a,b],'i64'))
        cs.append(Case('switch '+n,'int f(%s a){ switch(a){ case 0: return 10; case 1: return 11; case 100: return 12; case -1: return 13; } return 14; }'%A,[a],'i32'))
    for t in ['i8','u8','i16','u16','i32','u32','i64','u64']:
        for v in ['-1','255','128','65535','32768','0x80000000','0xffffffff','4294967296','-129']:
            cs.append(Case('const %s %s'%(t,v),'long f(void){ return (%s)(%s); }'%(CT[t],v),[],'i64'))
            cs.append(Case('constcmp %s %s'%(t,v),'int f(%s a){ return a == (%s)(%s); }'%(CT[t],CT[t],v),[t],'i32'))
    r.tv(cs,'convert')
    if core.THOROUGH:
        cs=[]
        for a in INTS:
            for b in INTS:
                for c in INTS: cs.append(Case('%s>%s>%s'%(a,b,c),'long f(%s a){ return (%s)(%s)a; }'%(CT[a],CT[c],CT[b]),[a],'i64'))
        r.tv(cs,'chain3')
    r.bounds=['source values: all values of the source type','one or two conversions in sequence (three in the thorough tier)']
    r.assume=['gcc 13 -O1 -fwrapv as the reference semantics of C','RV64 instruction semantics as encoded in lib/rv.py']
    return r.finish()
