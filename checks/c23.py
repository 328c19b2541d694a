from gen import *
from report import Report
import core, sx, random, itertools
from c09 import sy
NAMES=['a','b','c','T']
class G:
    """random scope trees; every declaration of a name has a different value/size, uses accumulate into r"""
    def __init__(g,seed,depth=4): g.r=random.Random(seed); g.k=0; g.depth=depth; g.sc=[]; g.lab=0; g.funcs=''; g.st=0
    def num(g): g.k+=1; return g.k*7+3
    def look(g,n,ns=0):
        for s in reversed(g.sc):
            if (n,ns) in s: return s[n,ns]
    def decl(g,n,glob=False):
        """-> text declaring n in the innermost scope or ''"""
        r=g.r; s=g.sc[-1]
        if r.random()<0.3:
            # tag name space
            if (n,1) in s: return ''
            k=r.choice(['struct','union','enum','fwd']) if not glob else r.choice(['struct','union'])
            sz=g.num()%50+1
            if k=='enum': s[n,1]='enum'; return 'enum %s{%s_e%d=%d}; '%(n,n,g.k,sz)
            if k=='fwd': 
                s[n,1]=('struct',); return 'struct %s; struct %s{char x[%d];}; '%(n,n,sz)
            s[n,1]=(k,); return '%s %s{char %s[%d];}; '%(k,n,r.choice(NAMES),sz)
        if (n,0) in s: return ''
        v=g.num()
        if glob:
            k=r.choice(['int','static','enum','typedef','arr']) 
        else: k=r.choice(['int','int','static','enum','typedef','extern','arr','enumself','tagvar','fnptr','sizeself','block-extern-fn'])
        if k=='int': s[n,0]='obj'; return 'int %s=x+%d; '%(n,v) if not glob else 'int %s=%d; '%(n,v)
        if k=='static': s[n,0]='obj'; return 'static int %s=%d; '%(n,v)
        if k=='enum': s[n,0]='obj'; return 'enum{%s=%d}; '%(n,v)
        if k=='typedef': s[n,0]='type'; return 'typedef char %s[%d]; '%(n,v%60+1)
        if k=='arr': s[n,0]='arr'; return '%s %s[%d]; '%(g.r.choice(['char','short']),n,v%40+1)
        if k=='extern': return ''
        if k=='enumself':
            # the scope of an enumerator starts after its own value
            o=g.look(n)
            if o!='obj' or not g.const(n): return ''
            s[n,0]='obj'; return ''
        if k=='sizeself': s[n,0]='obj'; return 'long %s=sizeof(%s)*%d; '%(n,n,v)      # the scope of an object starts before its initialiser
        if k=='tagvar':
            o=g.look(n,1)
            if not o or o=='enum' : return ''
            s[n,0]='arr'; return '%s %s %s; '%(o[0],n,n)
        if k=='fnptr': s[n,0]='obj'; return 'int (%s)=x-%d; '%(n,v)
        return ''
    def const(g,n): return False
    def use(g):
        r=g.r; n=r.choice(NAMES); o=g.look(n); t=g.look(n,1); out=[]
        if o=='obj': out+=['o(%s); '%n,'o(%s); '%n,'o((%s)+3); '%n]
        if o=='type': out+=['o(sizeof(%s)); '%n,'o(sizeof(%s[2])); '%n,'{ %s q; o(sizeof q); } '%n,'{ %s %s; o(sizeof %s); } '%(n,n,n),'{ const %s %s={x}; o(%s[0]); } '%(n,n,n)]
        if o=='arr': out+=['o(sizeof(%s)); '%n]
        if t and t!='enum': out+=['o(sizeof(%s %s)); '%(t[0],n),'{ %s %s *%s; o(sizeof(*%s)); } '%(t[0],n,n,n)]
        if t=='enum': out+=['o(sizeof(enum %s)); '%n]
        return r.choice(out) if out else ''
    def block(g,d):
        g.sc.append({}); b=g.items(d); g.sc.pop(); return '{ '+b+'} '
    def items(g,d):
        r=g.r; out=''
        for _ in range(r.randint(2,6)):
            k=r.random()
            if k<0.35: out+=g.decl(r.choice(NAMES))
            elif k<0.7 or d==0: out+=g.use()
            else:
                q=r.choice(['blk','blk','if','for','while','switch','stmtexpr','forinit','label','else'])
                if q=='blk': out+=g.block(d-1)
                elif q=='if': out+='if(x>%d) '%r.randint(-5,5)+g.block(d-1)
                elif q=='else': out+='if(x>%d) '%r.randint(-5,5)+g.block(d-1)+'else '+g.block(d-1)
                elif q=='while': out+='do '+g.block(d-1)+'while(0); '
                elif q=='for': out+='for(int i=0;i<2;i++) '+g.block(d-1)
                elif q=='forinit':
                    n=r.choice(NAMES); g.sc.append({(n,0):'obj'}); v=g.num(); b=g.use()+''; 
                    out+='for(int %s=x+%d,%s_=0; %s_<1; %s_++) '%(n,v,n,n,n)+'{ '+b+'{ '+g.items_in(d-1)+'} o(%s); } '%n; g.sc.pop()
                elif q=='switch': out+='switch(x&1){ case 0: '+g.block(d-1)+'default: '+g.block(d-1)+'} '
                elif q=='stmtexpr':
                    g.sc.append({}); b=g.items(d-1); out+='o(({ '+b+'x+%d; })); '%g.num(); g.sc.pop()
                elif q=='label':
                    n=r.choice(NAMES)
                    if n in g.labels: continue
                    g.labels.add(n); out+='goto %s; o(%d); %s: o(1); '%(n,g.num(),n)
        return out+g.use()
    def items_in(g,d):
        g.sc.append({}); b=g.items(d); g.sc.pop(); return b
    def program(g):
        r=g.r; g.sc=[{}]; g.labels=set(); pre=''
        for n in NAMES:
            if r.random()<0.8: pre+=g.decl(n,True)
        fs=''
        for i in range(r.randint(0,2)):
            p=r.choice(NAMES); g.labels=set(); g.sc.append({(p,0):'obj'}); fs+='static long h%d(int %s){ int x=%s; long r=0; '%(i,p,p)+g.items(2)+'o((%s)); return r; } '%('x'); g.sc.pop()
            fs+=g.decl(r.choice(NAMES),True); g.nf=i+1
        p=r.choice(NAMES); g.labels=set()
        g.sc.append({('x',0):'obj',(p,0):'obj'}); b=g.items(g.depth); g.sc.pop()
        calls=' '.join('o(h%d(x+%d));'%(i,i) for i in range(getattr(g,'nf',0)))
        return 'void o(long); '+pre+fs+'long f(int x,int %s){ long r=0; %s %s return r; }'%(p,b,calls)
def cases_random(n=120): return [Case('tree %d'%i,G(100+i).program(),['i32','i32'],'i64',max_paths=400,max_steps=60000,externs={'o':(['i64'],'v')}) for i in range(n)]
FIX=[
 ('inner struct declaration shadows','struct T{char a[3];}; long f(int x){ long r=sizeof(struct T); { struct T; struct U{struct T *p;} u; struct T{char a[7];}; r=r*10+sizeof(struct T); r=r*100+sizeof(*u.p); } return r*10+sizeof(struct T); }'),
 ('inner struct completes outer','struct T; struct T *p; struct T{char a[3];}; long f(int x){ struct T{char a[7];}; return sizeof(struct T)*10+sizeof(*p); }'),
 ('union tag shadows struct tag','struct T{char a[3];}; long f(int x){ long r=0; { union T{char a[9]; long l;}; r=sizeof(union T); } return r*10+sizeof(struct T); }'),
 ('enum tag shadows struct tag','struct T{char a[3];}; long f(int x){ long r=0; { enum T{A=5}; enum T t=A; r=sizeof(t)+t; } return r*10+sizeof(struct T); }'),
 ('tag declared in a parameter list','long f(int x){ struct T{char a[3];}; int (*p)(struct T*)=0; return sizeof(struct T)+(p==0); }'),
 ('tag in sizeof','long f(int x){ long r=sizeof(struct T{char a[3];}); return r+sizeof(struct T); }'),
 ('tag in cast','long f(int x){ void *p=(struct T{char a[3];}*)0; return sizeof(struct T)+(p==0); }'),
 ('enumerator scope','enum{a=3,b}; int f(int x){ enum{a=a+10,b=a+b,c=b}; return a*10000+b*100+c; }'),
 ('enumerator in block','enum{a=3}; int f(int x){ int r=a; { enum{a=9}; r=r*10+a; { int a=x; r=r*10+a; } r=r*10+a; } return r*10+a; }'),
 ('object scope begins at its declarator','int a=7; long f(int x){ char a[sizeof(a)+3]; return sizeof(a); }' if 0 else 'long a; long f(int x){ char a=sizeof(a); return a; }'),
 ('initialiser sees itself','long f(int x){ void *p=&p; return p==(void*)&p; }'),
 ('second declarator sees the first','int a=5; int f(int x){ int a=x,b=a+1; return a*3+b; }'),
 ('typedef name as object','typedef int T; int f(int x){ T T=x; return T+1; }'),
 ('typedef name as object 2','typedef int T; int f(int x){ int T=x; { long r=T*2; return r+T; } }'),
 ('typedef name as member','typedef int T; struct S{T T; T *b;}; int f(int x){ struct S s; s.T=x; s.b=&s.T; return *s.b+s.T; }'),
 ('typedef name as label','typedef int T; int f(int x){ if(x) goto T; return 1; T: return 2; }'),
 ('typedef name as tag','typedef int T; struct T{T x; T y[2];}; int f(int x){ struct T t={x,{1,2}}; return t.x+sizeof(struct T)+sizeof(T); }'),
 ('typedef name as parameter','typedef int T; int g(long T){ return T+sizeof T; } int f(int x){ T y=g(x); return y; }'),
 ('typedef name as enumerator','typedef int T; int f(int x){ T y=x; enum{T=4}; return y+T; }'),
 ('typedef redeclared in block','typedef int T; long f(int x){ typedef char T[9]; T y; return sizeof(y)+sizeof(T); }'),
 ('typedef via outer typedef','typedef char T[5]; long f(int x){ typedef T T2; typedef T2 T[2]; return sizeof(T)*10+sizeof(T2); }'),
 ('typedef hidden by for','typedef int T; int f(int x){ int r=0; for(int T=0;T<3;T++) r+=T; T y=r; return y+sizeof(T); }'),
 ('typedef with specifier','typedef long T; long f(int x){ unsigned T=3; return sizeof(T); }' if 0 else 'typedef long T; long f(int x){ const T y=x; return sizeof(y)+y; }'),
 ('unsigned T declares T','typedef long T; long f(int x){ { unsigned T; T=x; return T+sizeof(T); } }'),
 ('cast vs call','typedef int T; int g(int a){ return a+1; } int f(int x){ int r=(T)-x; { int (*T)(int)=g; r=r*10+(T)(x); } return r; }'),
 ('multiplication vs declaration','typedef int T; int f(int x,int y){ int r=0; { int T=x; T*y; r=T*y; } { T*y; y=0; r+=(y==0); } return r; }'),
 ('sizeof ambiguity','typedef char T[3]; long f(int x){ long r=sizeof(T); { long T=1; r=r*10+sizeof(T); r=r*10+sizeof(T)+x; } return r; }'),
 ('parameter shadows global','int a=3; int g(int a){ return a*2; } int f(int x){ return g(x)+a; }'),
 ('parameter shadows function','int g(int g){ return g+1; } int f(int x){ return g(x); }'),
 ('parameter hidden by block','int f(int x){ int r=x; { int x=5; r+=x; { int x=r; r+=x; } } return r+x; }'),
 ('local shadows function','int g(int a){ return a+1; } int f(int x){ int r=g(x); { int g=4; r+=g; } return r+g(1); }'),
 ('block scope extern','int a=3; int f(int x){ int r=a; int a=x; { extern int a; r=r*10+a; a=7; } r=r*10+a; return r; }'),
 ('block scope extern function','int f(int x){ int g(int); int r=g(x); { int g=2; r+=g; } return r; } int g(int a){ return a*3; }'),
 ('block scope static','int f(int x){ static int a=3; int r=a; { static int a=5; r=r*10+a; a=x; } a=x+1; return r*10+a; }'),
 ('same static name twice','int g(int x){ static int a=1; a+=x; return a; } int h(int x){ static int a=2; a+=x; return a; } int f(int x){ int r=g(x)*7; r+=h(x)*3; return r+g(1); }'),
 ('static shadows global','int a=4; int f(int x){ int r=a; { static int a=6; r=r*10+a; a=x; } return r*10+a; }'),
 ('for scope','int f(int i){ int r=i; for(int i=0;i<3;i++) r+=i; for(int i=5;i<6;i++){ int i=9; r+=i; } return r*10+i; }'),
 ('for body scope','int f(int x){ int r=0; for(int i=0;i<2;i++){ r+=i; int i=x; r+=i; i=100; } return r; }'),
 ('statement expression scope','int f(int x){ int y=1; int r=({ int y=x; y+1; })+y; return r+({ int x=3; ({ int x=4; x; })+x; })+x; }'),
 ('label name space','int f(int x){ int a=x; if(x>0) goto a; a=5; a: return a; }'),
 ('labels per function','int g(int x){ goto l; x=9; l: return x; } int f(int x){ int r=g(x); goto l; r=0; l: return r; }'),
 ('label before and after','int f(int x){ int r=0; l: r++; if(r<3) goto l; goto m; r=100; m: return r+x; }'),
 ('labels as values','int f(int x){ void *t[]={&&a,&&b}; goto *t[x&1]; a: return 5; b: return 7; }'),
 ('member name spaces','struct A{int a; struct{int b;} c;}; struct B{char a; int b;}; int f(int x){ int a=x,b=2; struct A s={a,{b}}; struct B t={a,b}; return s.a+s.c.b*3+t.a*5+t.b*7; }'),
 ('nested tag visible outside','struct A{struct B{char x[5];} b;}; long f(int x){ struct B y; return sizeof(y)+sizeof(struct A); }'),
 ('nested enum visible','struct A{enum{P=3,Q} e;}; int f(int x){ struct A s={Q}; return s.e+P*x; }'),
 ('tag in function result','struct R{int a;} g(int x){ struct R r={x}; return r; } int f(int x){ struct R q=g(x); return q.a; }'),
 ('prototype parameter names','int g(int a,int b); int f(int x){ int a=3; return g(x,a); } int g(int b,int a){ return b*2+a; }'),
 ('prototype scope ends','int a=4; int g(int a); int f(int x){ return g(a)+a; } int g(int c){ return c+1; }'),
 ('function redeclared','int g(int); int g(int); int g(int a){ return a; } int g(int); int f(int x){ return g(x); }'),
 ('tentative definition','int a; int a; int f(int x){ int r=a; return r+x; } int a=5;'),
 ('extern then definition','extern int a; int f(int x){ return a+x; } int a=6;'),
 ('static forward','static int g(int); int f(int x){ return g(x); } static int g(int a){ return a+2; }'),
 ('self pointer struct','struct N{struct N *n; int v;}; int f(int x){ struct N a={0,x},b={&a,2}; return b.n->v+b.v; }'),
 ('mutual structs','struct B; struct A{struct B *b; int v;}; struct B{struct A *a; int w;}; int f(int x){ struct A a; struct B b; a.b=&b; b.a=&a; a.v=x; b.w=3; return a.b->w+b.a->v+a.b->a->v; }'),
 ('typedef struct same name','typedef struct T T; struct T{int a; T *p;}; int f(int x){ T t={x,0}; t.p=&t; return t.p->a; }'),
 ('inner typedef of tag','struct T{char a[2];}; typedef struct T U; long f(int x){ struct T{char a[5];}; U u; struct T v; return sizeof(u)*10+sizeof(v); }'),
 ('compound literal scope','int f(int x){ int *p; { p=(int[]){x,2}; int q=p[0]+p[1]; return q; } }'),
 ('deep shadowing','int f(int a){ int r=a; '+''.join('{ int a=r^%d; r=a; '%i for i in range(20))+'r^=a; '+'} r^=a; '*20+'return r; }'),
 ('many names','int f(int x){ int r=0; '+''.join('int v%d=x+%d; '%(i,i) for i in range(60))+'r='+'+'.join('(v%d^%d)'%(i,i+1) for i in range(60))+'; return r; }'),
 ('prefix names','int f(int x){ int a=1,aa=2,aaa=3,a_=4,_a=5,A=6,aA=7; { int aa=x; a+=aa; } return a+aa*10+aaa*100+a_*1000+_a*10000+A*100000+aA*1000000; }'),
 ('switch scope','int f(int x){ int r=x; switch(x&3){ int r2; case 0: r2=5; r=r2; break; default: { int r=9; x=r; } } return r*10+x; }'),
 ('if without block','int a=2; int f(int x){ if(x) ({ int a=x; a++; }); else ({ int a=3; a; }); return a+x; }'),
 ('old name after block','int f(int x){ int a=1; { int b=a+x; a=b; } { int b=a*2; a=b; } return a; }'),
 ('K&R-like void','int g(void){ return 3; } int f(int x){ { int x=g(); { int g=x; x=g+1; } if(x!=4) return -1; } return g()+x; }'),
 ('__func__','int f(int x){ return __func__[0]+sizeof(__func__); }'),
 ('anonymous member names','struct S{int a; union{int b; struct{int c; int d;};}; int e;}; int f(int x){ int b=1,c=2; struct S s={x,.c=5,.d=6,.e=7}; return s.a+s.b*3+s.c*5+s.d*7+s.e*11+b+c; }'),
]
def cases_fixed(): return [Case(n,s,['i32'] if not 'int x,int y' in s else ['i32','i32'],'i64' if 'long f(' in s else 'i32') for n,s in FIX]
def groups():
    """two identifiers with symbolic characters: two declarations clash exactly when the spellings are equal, and a use resolves to the declaration it spells"""
    out=[]
    import rv,z3
    from c09 import Holes
    B=lambda n,i: sx.B(n,i)
    cls='a-eA-E_'
    def eq(n,m,k): return z3.And(*[B(n,i)==B(m,i) for i in range(k)])
    def rd(im):
        a=im.sym['Z']; bs=[im.init.get(a+j,0) for j in range(8)]
        return z3.Concat(*reversed([z3.BitVecVal(b,8) if isinstance(b,int) else (b if b.size()==8 else z3.Extract(7,0,b)) for b in bs]))
    def mk(key,segs,expect,reject,skip=z3.BoolVal(False)):
        """expect: [(condition, value of Z)], reject: condition under which a diagnostic is due"""
        def conds(p_ok,im,err):
            if not p_ok: return [('a valid program is rejected: '+err[-60:],z3.Not(reject))]
            o=[('an invalid program is accepted',reject)]
            for c,v in expect: o.append(('resolves to another declaration',z3.And(z3.Not(reject),c,rd(im)!=v)))
            return o
        def bad(p):
            if p.status!=0: return conds(False,None,p.out.get('<stderr>',''))
            return conds(True,rv.Image([rv.Module(p.out.get('/o/a.s',''),Holes(p),tag='A')],rv.Layout(),'A'),'')
        def confirm(txt,m):
            rc,asm,err=core.native_asm(txt)
            if sx.crashed(rc): return 'crash'
            im=None if rc else rv.Image([rv.Module(asm,None,tag='A')],rv.Layout(),'A'); sub=[(z3.BitVec(k,8),z3.BitVecVal(v&255,8)) for k,v in m.items() if '#' in k]
            for l,c in conds(rc==0,im,err):
                if z3.is_true(z3.simplify(z3.substitute(c,*sub))): return l
        out.append(dict(key=key,segs=segs,bad=bad,confirm=confirm,assume=[z3.Not(skip)]))
    F=z3.BoolVal(False); T=z3.BoolVal(True)
    for k in (1,2,3):
        s=lambda n: sy(n,k,cls) if k>1 else sy(n,1,cls)
        u=lambda n: n
        # two enumerators, a use
        mk('enumerator use %d'%k,['enum{',s('a'),'x=3}; enum{',s('b'),'y=5}; enum{',s('c'),'x=7',' }; long Z=',s('d'),'x;\n'],[(eq('d','a',k),3),(eq('d','c',k),7)],z3.And(z3.Not(eq('d','a',k)),z3.Not(eq('d','c',k))),eq('a','c',k))
        mk('tag use %d'%k,['struct ',s('a'),'{char q[3];}; struct ',s('b'),'{char q[5];}; long Z=sizeof(struct ',s('c'),');\n'],[(eq('c','a',k),3),(eq('c','b',k),5)],z3.And(z3.Not(eq('c','a',k)),z3.Not(eq('c','b',k))),eq('a','b',k))
        mk('typedef use %d'%k,['typedef char ',s('a'),'[3]; typedef char ',s('b'),'z[5]; long Z=sizeof(',s('c'),');\n'],[(eq('c','a',k),3)],z3.Not(eq('c','a',k)))
        mk('member use %d'%k,['struct S{char ',s('a'),'[3]; char ',s('b'),'[5];}; long Z=sizeof(((struct S*)0)->',s('c'),');\n'],[(eq('c','a',k),3),(eq('c','b',k),5)],z3.And(z3.Not(eq('c','a',k)),z3.Not(eq('c','b',k))),eq('a','b',k))
        mk('label use %d'%k,['long Z=1; void f(void){ ',s('a'),':; ',s('b'),':; goto ',s('c'),'; }\n'],[(T,1)],z3.Or(eq('a','b',k),z3.And(z3.Not(eq('c','a',k)),z3.Not(eq('c','b',k)))))
        mk('name spaces do not clash %d'%k,['struct ',s('a'),'{int ',s('b'),';}; enum{',s('c'),'=4}; long Z=sizeof(struct ',s('a2'),')+0;\n'],[(T,4)],z3.Not(eq('a','a2',k)))
        mk('undeclared %d'%k,['extern int ',s('a'),'; long Z=2; int f(void){ return ',s('b'),'; }\n'],[(T,2)],z3.Not(eq('a','b',k)))
    # names of different lengths: one may be a prefix of the other
    def eq2(n,k,m,l): return eq(n,m,k) if k==l else F
    for ka,kb,kc in ((1,2,1),(2,1,1),(1,2,2),(2,1,2),(2,3,2),(3,2,2)):
        s=lambda n,k: sy(n,k,'a-c')
        A=eq2('c',kc,'a',ka); Bq=eq2('c',kc,'b',kb); L='%d%d%d'%(ka,kb,kc); none=z3.And(z3.Not(A),z3.Not(Bq)); dup=eq2('a',ka,'b',kb)
        mk('designator, lengths %s'%L,['struct S{int ',s('a',ka),'; int ',s('b',kb),';}; struct S Z={.',s('c',kc),'=5};\n'],[(A,5),(Bq,5<<32)],none,dup)
        mk('member, lengths %s'%L,['struct S{char ',s('a',ka),'[3]; char ',s('b',kb),'[5];}; long Z=sizeof(((struct S*)0)->',s('c',kc),');\n'],[(A,3),(Bq,5)],none,dup)
        mk('anonymous member, lengths %s'%L,['struct S{struct{int ',s('a',ka),';}; union{int ',s('b',kb),';};}; struct S Z={.',s('c',kc),'=5};\n'],[(A,5),(Bq,5<<32)],none,dup)
        mk('enumerator, lengths %s'%L,['enum{',s('a',ka),'=3,',s('b',kb),'=5}; long Z=',s('c',kc),';\n'],[(A,3),(Bq,5)],none,dup)
        mk('tag, lengths %s'%L,['struct ',s('a',ka),'{char q[3];}; struct ',s('b',kb),'{char q[5];}; long Z=sizeof(struct ',s('c',kc),');\n'],[(A,3),(Bq,5)],none,dup)
        mk('inner scope, lengths %s'%L,['enum{',s('a',ka),'=3}; long *f(void){ enum{',s('b',kb),'=5}; static long Y=',s('c',kc),'; return &Y; } long Z=',s('d',ka),';\n'],[(eq('d','a',ka),3)],z3.Or(none,z3.Not(eq('d','a',ka))))
        mk('goto, lengths %s'%L,['long Z=1; void f(void){ ',s('a',ka),':; ',s('b',kb),':; goto ',s('c',kc),'; }\n'],[(T,1)],z3.Or(dup,none))
    return out
def run():
    r=Report('C23','translation_validation','seeded random scope trees and the listed shapes: every use in every name space is compared with the reference for all inputs; identifiers with symbolic characters: the compiler (bitcode) resolves a use to the declaration with the same spelling, for every spelling, and diagnoses the others')
    r.tv(cases_fixed(),'scopes'); r.tv(cases_random(800 if core.THOROUGH else 120),'trees')
    sx.run(r,'symbolic names',groups(),abshash=True)
    r.bounds=['scope trees of depth <= 4 with 4 reused names over objects, enumerators, typedef names, tags, labels and members; 70 listed shapes; identifiers of 1-3 symbolic characters from 11']
    r.assume=['gcc 13 -O1 -fwrapv as the reference for scope rules']
    return r.finish()
