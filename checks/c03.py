from gen import *
from report import Report
import core
FT=['f','d']
def run():
    r=Report('C03','translation_validation','every floating operator and every conversion between float/double and each integer type in every converting context; arithmetic is first abstracted by uninterpreted functions and, if that is not enough, decided in the IEEE-754 theory')
    cs=[]
    for a in FT:
        for b in FT:
            A,B=CT[a],CT[b]; c='d' if 'd' in(a,b) else 'f'
            for op in ['+','-','*','/']:
                cs.append(Case('%s %s %s'%(a,op,b),'%s f(%s a,%s b){ return a %s b; }'%(CT[c],A,B,op),[a,b],c))
            for op in ['<','<=','>','>=','==','!=','&&','||']:
                cs.append(Case('%s %s %s'%(a,op,b),'int f(%s a,%s b){ return a %s b; }'%(A,B,op),[a,b],'i32'))
                cs.append(Case('if %s %s %s'%(a,op,b),'int f(%s a,%s b){ if (a %s b) return 5; return 6; }'%(A,B,op),[a,b],'i32'))
            for op in ['+=','-=','*=','/=','=']:
                cs.append(Case('%s %s %s'%(a,op,b),'%s f(%s a,%s b){ a %s b; return a; }'%(A,A,B,op),[a,b],a))
                cs.append(Case('val %s %s %s'%(a,op,b),'%s f(%s a,%s b){ return a %s b; }'%(A,A,B,op),[a,b],a))
            cs.append(Case('cast %s %s'%(a,b),'%s f(%s a){ return (%s)a; }'%(B,A,B),[a],b))
            cs.append(Case('cond %s %s'%(a,b),'%s f(%s a,%s b,int c){ return c ? a : b; }'%(CT[c],A,B),[a,b,'i32'],c))
        A=CT[a]
        cs.append(Case('neg '+a,'%s f(%s a){ return -a; }'%(A,A),[a],a))
        cs.append(Case('pos '+a,'%s f(%s a){ return +a; }'%(A,A),[a],a))
        cs.append(Case('not '+a,'int f(%s a){ return !a; }'%A,[a],'i32'))
        cs.append(Case('bool '+a,'_Bool f(%s a){ return a; }'%A,[a],'bool'))
        cs.append(Case('boolcast '+a,'int f(%s a){ return (_Bool)a; }'%A,[a],'i32'))
        cs.append(Case('boolassign '+a,'_Bool g; void f(%s a){ g = a; }'%A,[a],'v'))
        for k,t in [('if','if (a) return 1; return 2;'),('while','while (a) return 1; return 2;'),('for','for (;a;) return 1; return 2;'),('ternary','return a ? 1 : 2;'),('andr','return b && a;'),('andl','return a && b;'),('orr','return b || a;'),('orl','return a || b;'),('do','int r=0; do { r++; if (r>1) break; } while (a); return r;')]:
            cs.append(Case('%s %s'%(k,a),'int f(%s a,int b){ %s }'%(A,t),[a,'i32'],'i32'))
        for op in ['++','--']:
            cs.append(Case('pre %s %s'%(op,a),'%s f(%s a){ return %sa; }'%(A,A,op),[a],a))
            cs.append(Case('postvar %s %s'%(op,a),'%s f(%s a){ a%s; return a; }'%(A,A,op),[a],a))
        cs.append(Case('global '+a,'%s g; void f(%s a){ g = g + a; }'%(A,A),[a],'v'))
        cs.append(Case('ptr '+a,'void f(%s *p,%s a){ p[1] = a; *p = p[2]; }'%(A,A),['p24',a],'v'))
        cs.append(Case('call '+a,'%s ext(%s x,int i,%s y); %s f(%s a){ return ext(a,1,a)+a; }'%(A,A,A,A,A),[a],a,externs={'ext':(a+'i'+a,a)}))
        cs.append(Case('callc '+a,'%s ext(%s x); %s f(int a){ return ext(a); }'%(A,A,A),['i32'],a,externs={'ext':(a,a)}))
        cs.append(Case('vararg '+a,'int ext(int n,...); int f(%s a){ return ext(1,a); }'%A,[a],'i32',externs={'ext':('ii','i32')}))
        for k,e in enumerate(['a+b*c','a*b+c','(a+b)*(c-a)','a-b-c','a/b/c','-a*b','a-(b-c)','a<b==b<c','a+b<c','!a+!b','a?b:c','(a,b)+c','-(a-b)','a*(b+(c*(a-(b*c))))']):
            rt='i32' if any(x in e for x in('<','!')) else a
            cs.append(Case('expr%d %s'%(k,a),'%s f(%s a,%s b,%s c){ return %s; }'%(CT[rt],A,A,A,e),[a]*3,rt))
        for i in INTS:
            I=CT[i]
            cs.append(Case('%s to %s'%(i,a),'%s f(%s a){ return a; }'%(A,I),[i],a))
            cs.append(Case('cast %s to %s'%(i,a),'%s f(%s a){ return (%s)a; }'%(A,I,A),[i],a))
            for op in ['+','*']:
                cs.append(Case('%s %s %s'%(i,op,a),'%s f(%s a,%s b){ return a %s b; }'%(A,I,A,op),[i,a],a))
                cs.append(Case('%s %s %s rev'%(i,op,a),'%s f(%s a,%s b){ return b %s a; }'%(A,I,A,op),[i,a],a))
            for op in ['<','==','<=']:
                cs.append(Case('%s %s %s'%(i,op,a),'int f(%s a,%s b){ return a %s b; }'%(I,A,op),[i,a],'i32'))
            if i=='bool': continue
            # float -> integer is defined when the truncated value fits
            w=width(i); lo,hi=(-(1<<(w-1)),1<<(w-1)) if i[0]=='i' else (0,1<<w)
            srt='z3.Float32()' if a=='f' else 'z3.Float64()'
            fp='z3.fpBVToFP(p0,%s)'%srt
            rng='z3.And(z3.fpGT(%s,z3.FPVal(%d,%s)) if %d else z3.fpGEQ(%s,z3.FPVal(%d,%s)), z3.fpLT(%s,z3.FPVal(%d,%s)))'%(fp,lo-1 if w<32 else lo,srt,1 if (i[0]=='u' or w<32) and w<32 else 0,fp,lo,srt,fp,hi,srt)
            for ctx,t in [('cast','long f(%s a){ return (%s)a; }'%(A,I)),('ret','%s f(%s a){ return a; }'%(I,A)),('asg','long f(%s a){ %s b; b=a; return b; }'%(A,I))]:
                cs.append(Case('%s to %s %s'%(a,i,ctx),t,[a],'i64',assume=[rng]))
            cs.append(Case('compound %s %s'%(i,a),'%s f(%s a,%s b){ a += b; return a; }'%(I,I,A),['i8' if i[0]=='i' else 'u8' if i!='u8' else 'u8',a],i,assume=['z3.fpGEQ(z3.fpBVToFP(p1,%s),z3.FPVal(0,%s))'%(srt,srt),'z3.fpLT(z3.fpBVToFP(p1,%s),z3.FPVal(1,%s))'%(srt,srt)]) if False else Case('store %s %s'%(i,a),'%s g; void f(%s a){ g = a; }'%(I,A),[a],'v',assume=[rng]))
    # floating constants of every shape
    for t in ['1.0','0.5','1e10','1.5e-3','0x1p4','0x1.8p-2','.25','3.','1e308','4.9e-324','1.0f','0.1f','16777217.0f','3.4e38f','0.1','123456789.123456789','1e-45f','0x.8p1f','2.2250738585072014e-308','9007199254740993.0']:
        k='f' if t.endswith('f') and not t.startswith('0x1p4') else 'd'
        cs.append(Case('const '+t,'%s f(%s a){ return a + %s; }'%(CT[k],CT[k],t),[k],k))
        cs.append(Case('constret '+t,'%s f(void){ return %s; }'%(CT[k],t),[],k))
        cs.append(Case('constcvt '+t,'%s f(void){ return %s; }'%('double' if k=='f' else 'float',t),[],'d' if k=='f' else 'f'))
        cs.append(Case('constneg '+t,'%s f(void){ return -%s; }'%(CT[k],t),[],k))
    r.tv(cs,'float')
    ld=[]
    for op in ['+','-','*','/']: ld.append(Case('ld '+op,'long double f(long double a,long double b){ return a %s b; }'%op,['ld','ld'],'ld'))
    for op in ['<','<=','>','>=','==','!=']: ld.append(Case('ld '+op,'int f(long double a,long double b){ return a %s b; }'%op,['ld','ld'],'i32'))
    for a in ['i8','u8','i16','u16','i32','u32','i64','u64','f','d']:
        ld.append(Case('%s to ld'%a,'long double f(%s a){ return a; }'%CT[a],[a],'ld'))
        if a not in('i8','u8','i16','u16'): ld.append(Case('ld to %s'%a,'%s f(long double a){ return a; }'%CT[a],['ld'],a))
    ld.append(Case('ld copy','void f(long double *p,long double a){ p[1]=a; *p=p[2]; }',['p48','ld'],'v'))
    ld.append(Case('ld if','int f(long double a){ if (a) return 1; return 2; }',['ld'],'i32'))
    ld.append(Case('ld not','int f(long double a){ return !a; }',['ld'],'i32'))
    ld.append(Case('ld neg','long double f(long double a){ return -a; }',['ld'],'ld'))
    ld.append(Case('ld chain','long double f(long double a,long double b,long double c){ return a*b+c; }',['ld','ld','ld'],'ld'))
    ld.append(Case('ld chain2','long double f(long double a,long double b,long double c){ return a+b*c; }',['ld','ld','ld'],'ld'))
    ld.append(Case('ld chain3','long double f(long double a,long double b,long double c,long double d){ return a+(b-(c*d)); }',['ld']*4,'ld'))
    ld.append(Case('ld call','long double ext(long double a,int i); long double f(long double a,long double b){ return a-ext(b,2); }',['ld','ld'],'ld',externs={'ext':('iii','i128')}))
    ld.append(Case('ld assign value','long double f(long double *p,long double a){ return p[0] = p[1] = a; }',['p32','ld'],'ld'))
    ld.append(Case('ld cond','long double f(int c,long double a,long double b){ return (c ? a : b) + a; }',['i32','ld','ld'],'ld'))
    ld.append(Case('ld discard','long double ext(long double a); int f(long double a){ a+a; ext(a); (void)a; for (int i=0;i<2;i++,a) ; return (a,3); }',['ld'],'i32',externs={'ext':('ii','i128')}))
    ld.append(Case('ld comma','long double f(long double a,long double b){ return (a,b)-a; }',['ld','ld'],'ld'))
    ld.append(Case('ld stmtexpr','long double f(long double a,long double b){ return ({ long double c=a*b; c; })-a; }',['ld','ld'],'ld'))
    ld.append(Case('ld compound','void f(long double *p,long double a){ *p += a; p[1] *= *p; }',['p32','ld'],'v'))
    ld.append(Case('ld nested casts','int f(long double a,int b,double c){ return a*(a+(b+c*a)) < a; }',['ld','i32','d'],'i32'))
    r.tv(ld,'long-double')
    r.bounds=['operands: all bit patterns including NaN, infinities and denormals; float-to-integer restricted to values whose truncation is representable (else undefined in C)','at most 4 operations per expression','long double arithmetic is delegated to libgcc, whose routines are uninterpreted functions of their 128-bit arguments']
    r.assume=['gcc 13 -O1 as the reference','NaN results are compared as canonical NaNs']
    return r.finish()
