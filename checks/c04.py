from gen import *
from report import Report
import core
S={'s':('i','v'),'c':('i','i32')}
P='void s(int); int c(int);\n'
def T(name,body,params='int a,int b',kinds=('i32','i32'),ret='int',rk='i32',pre='',**kw):
    return Case(name,P+pre+'%s f(%s){ %s }'%(ret,params,body),list(kinds),rk,externs=S,**kw)
class RandStmt:
    """random terminating statement trees: every branch condition is symbolic (an argument or
    the result of an external call), every loop is bounded by a counter"""
    def __init__(s,seed): s.r=random.Random(seed); s.n=0; s.lab=[]; s.ctr=0; s.decl=[]
    def ev(s): s.n+=1; return 's(%d);'%s.n
    def cond(s,d=2):
        r=s.r; k=r.random()
        if d and k<0.2: return '(%s && %s)'%(s.cond(d-1),s.cond(d-1))
        if d and k<0.4: return '(%s || %s)'%(s.cond(d-1),s.cond(d-1))
        if d and k<0.5: return '!%s'%s.cond(d-1)
        if d and k<0.58: return '(%s ? %s : %s)'%(s.cond(d-1),s.cond(d-1),s.cond(d-1))
        if d and k<0.64: s.n+=1; return '(s(%d), %s)'%(s.n,s.cond(d-1))
        if k<0.8: return '(%s %s %d)'%(r.choice('ab'),r.choice(['<','>','==','!=','<=','>=']),r.choice([0,1,-1,5,100]))
        if k<0.9: s.n+=1; return 'c(%d)'%s.n
        return '(%s & %d)'%(r.choice('ab'),r.choice([1,2,4,8]))
    def loopv(s): s.ctr+=1; v='i%d'%s.ctr; return v
    def stmt(s,d,inloop=False,insw=False):
        r=s.r; k=r.random()
        if d==0 or k<0.1:
            if inloop and r.random()<0.3: return 'if (%s) { %s }'%(s.cond(1),r.choice(['break;','continue;']))
            if insw and r.random()<0.3: return 'break;'
            if r.random()<0.1: return 'if (%s) return %d;'%(s.cond(0),r.randrange(100))
            return s.ev()
        if k<0.3: return 'if (%s) %s else %s'%(s.cond(),s.blk(d-1,inloop,insw),s.blk(d-1,inloop,insw))
        if k<0.38: return 'if (%s) %s'%(s.cond(),s.blk(d-1,inloop,insw))
        if k<0.48:
            v=s.loopv(); return 'for (int %s=0; %s<%d; %s++) %s'%(v,v,r.choice([1,2,3]),v,s.blk(d-1,True,False))
        if k<0.56:
            v=s.loopv(); return '{ int %s=0; while (%s++ < %d) %s }'%(v,v,r.choice([1,2]),s.blk(d-1,True,False))
        if k<0.64:
            v=s.loopv(); return '{ int %s=0; do %s while (++%s < %d && %s); }'%(v,s.blk(d-1,True,False),v,r.choice([1,2]),s.cond(0))
        if k<0.8:
            vals=r.sample([0,1,2,3,5,7,-1,-5,100,2147483647,-2147483648],r.randrange(1,5)); out=[]
            dpos=r.choice([-1,0,1,len(vals)])
            for i,v in enumerate(vals):
                if i==dpos: out.append('default: %s %s'%(s.stmt(d-1,inloop,True),r.choice(['break;',''])))
                out.append('case %s: %s %s'%(v if v!=-2147483648 else '(-2147483647-1)',s.stmt(d-1,inloop,True),r.choice(['break;','','break;'])))
            if dpos==len(vals): out.append('default: %s'%s.stmt(d-1,inloop,True))
            return 'switch (%s) { %s }'%(r.choice(['a','b','a & 7','c(%d)'%r.randrange(900,999)]),' '.join(out))
        if k<0.88:
            s.n+=1; L='L%d'%s.n
            return '{ if (%s) goto %s; %s %s: %s }'%(s.cond(1),L,s.blk(d-1,inloop,insw),L,s.ev())
        if k<0.94: return '(void)(%s ? (s(%d),1) : (s(%d),2));'%(s.cond(),s.n+1000,s.n+2000)
        return s.blk(d-1,inloop,insw)
    def blk(s,d,inloop=False,insw=False): return '{ %s }'%' '.join(s.stmt(d,inloop,insw) for _ in range(s.r.randrange(1,3)))
def run():
    r=Report('C04','translation_validation','hand-written statement forms (each branch, loop, switch, goto form with symbolic conditions over every scalar type) plus seeded random statement trees; the sequence of external calls, their arguments and all visible stores are compared with the reference for every value of the arguments and of the results the external functions return')
    cs=[]
    for t in INTS+['f','d']:
        A=CT[t]; pa='%s a,int b'%A; kk=(t,'i32')
        for n,b in [('if','if (a) s(1); else s(2); s(3); return 0;'),('if-noelse','if (a) s(1); s(3); return 0;'),('while','int i=0; while (a) { s(i); if (i++==2) break; } return i;'),
            ('do','int i=0; do { s(i); if (i++==2) break; } while (a); return i;'),('for','int i; for (i=0; a && i<3; i++) s(i); return i;'),('cond','return a ? c(1) : c(2);'),('gnucond','return (a ?: b) != 0;'),
            ('and','return a && c(1);'),('or','return a || c(1);'),('not','if (!a) s(1); return 0;'),('andif','if (a && b) s(1); else s(2); return 0;'),('orif','if (b || a) s(1); else s(2); return 0;'),
            ('voidcond','a ? s(1) : s(2); return 0;'),('comma','return (s(1), a) ? c(2) : (s(3), b);')]:
            cs.append(T('%s %s'%(n,t),b,pa,kk))
    for t in INTS:
        A=CT[t]; pa='%s a,int b'%A; kk=(t,'i32')
        cs.append(T('switch %s'%t,'switch (a) { case 0: s(1); case 1: s(2); break; case 2: s(3); default: s(4); case 5: s(5); break; case 127: s(6); } return 0;',pa,kk))
        lab=['-1','-128','255','65535','128']
        if t in('i32','u32','i64','u64'): lab+=['32768','2147483647','-2147483647-1']
        if t in('i64','u64'): lab+=['4294967295','4294967296','-4294967296']
        cs.append(T('switch neg %s'%t,'switch (a) { %s } return 99;'%' '.join('case %s: return %d;'%(l,k) for k,l in enumerate(lab)),pa,kk))
        cs.append(T('switch range %s'%t,'switch (a) { case 1 ... 5: return 1; case 10 ... 10: return 2; case 20 ... 126: return 3; case 0: return 4; default: return 5; } return 0;',pa,kk))
        if t in('i8','u8','i16','u16','i32','i64'): cs.append(T('switch negrange %s'%t,'switch (a) { case -100 ... -50: return 1; case -3 ... 3: return 2; case 100 ... 120: return 3; } return 0;',pa,kk))
    for v in ['0x80000000','0xffffffff','0x7fffffff','-1','-2147483647-1','0x80000000u','4294967295u']:
        for t in ['i32','u32']: cs.append(T('case %s %s'%(v,t),'switch (a) { case %s: return 1; } return 0;'%v,CT[t]+' a',(t,)))
    for v in ['0x8000000000000000','-1','0x100000000','0xffffffff','0x7fffffffffffffff','-4294967296','0x80000000','1L<<40']:
        for t in ['i64','u64']: cs.append(T('case %s %s'%(v,t),'switch (a) { case 7: return 2; case %s: return 1; } return 0;'%v,CT[t]+' a',(t,)))
    for t,l,h in [('i64','-4294967297','4294967297'),('u64','0x100000000','0x8000000000000000'),('i64','0x7fffffff','0x80000001'),('u32','0x7fffffff','0x80000001'),('u32','0xfffffff0','0xffffffff'),('i32','-2147483647-1','-2147483640'),('i32','-5','0x7fffffff'),('u64','0','0xffffffffffffffff'),('i32','-2147483647-1','2147483647')]:
        cs.append(T('range %s %s %s'%(t,l,h),'switch (a) { case %s ... %s: return 1; } return 0;'%(l,h),CT[t]+' a',(t,)))
    misc=[('nested switch','switch (a) { case 1: switch (b) { case 1: s(1); break; case 2: s(2); default: s(3); } s(4); break; case 2: s(5); default: s(6); } s(7); return 0;'),
     ('switch in loop','for (int i=0;i<3;i++) { switch (a+i) { case 1: continue; case 2: break; case 3: s(9); break; default: s(i); } s(100+i); } return 0;'),
     ('loop in switch','switch (a) { case 1: for (int i=0;i<2;i++) { if (b) break; s(i); } s(2); case 2: s(3); } return 0;'),
     ('duff','int n=3; switch (a & 3) { case 0: do { s(0); case 3: s(3); case 2: s(2); case 1: s(1); } while (--n > 0); } return 0;'),
     ('switch no braces','switch (a) case 3: s(1); s(2); return 0;'),
     ('switch empty','switch (c(1)) { } s(2); return 0;'),
     ('switch only default','switch (a) { default: s(1); } return 0;'),
     ('switch decl','switch (a) { int x; case 1: x=5; s(x); break; default: x=6; s(x); } return 0;'),
     ('goto back','int i=0; again: s(i); if (++i<3 && c(i)) goto again; return i;'),
     ('goto fwd','if (a) goto end; s(1); end: s(2); return 0;'),
     ('goto into block','if (a) goto in; { s(1); in: s(2); } return 0;'),
     ('goto out of loops','for (int i=0;i<2;i++) for (int j=0;j<2;j++) { if (c(i*2+j)) goto out; s(j); } out: s(99); return 0;'),
     ('goto into loop','int i=0; if (a) goto mid; for (;i<2;i++) { s(i); mid: s(10+i); } return i;'),
     ('computed goto','void *t[]={&&x,&&y,&&z}; goto *t[a & 1]; x: s(1); y: s(2); z: s(3); return 0;'),
     ('static label table','static void *t[]={&&x,&&y,&&z}; goto *t[a & 1]; x: s(1); y: s(2); return 0; z: s(3); return 1;'),
     ('label compare','void *p = a ? &&x : &&y; goto *p; x: s(1); return 1; y: s(2); return 2;'),
     ('continue while','int i=0; while (i<4) { i++; if (c(i)) continue; s(i); } return i;'),
     ('continue do','int i=0; do { i++; if (c(i)) continue; s(i); } while (i<3 && c(10+i)); return i;'),
     ('continue for','int i; for (i=0;i<3;i++,s(50)) { if (c(i)) continue; s(i); } return i;'),
     ('for no cond','int i=0; for (;;) { if (i++>=2) break; s(i); } return i;'),
     ('for decl','int i=7; for (int i=0;i<2;i++) s(i); return i;'),
     ('nested break','for (int i=0;i<2;i++) { while (1) { if (c(1)) break; s(2); break; } if (c(3)) break; s(i); } return 0;'),
     ('dangling else','if (a) if (b) s(1); else s(2); return 0;'),
     ('else if','if (a==1) s(1); else if (a==2) s(2); else if (b) s(3); else s(4); return 0;'),
     ('ternary nest','return a ? b ? 1 : 2 : b ? 3 : 4;'),
     ('ternary assoc','return a ? 1 : b ? 2 : 3;'),
     ('logic prec','return a || b && c(1);'),('logic prec2','return a && b || c(1);'),('logic prec3','return (a || b) && c(1);'),
     ('logic value','return (a && b) + (a || b) * 2 + !a * 4;'),('shortcircuit order','return c(1) && c(2) || c(3) && c(4);'),
     ('side effects','int x=0; a && (x=1); b || (x+=2); return x;'),
     ('cond assign','int x,y; (a ? (x=1,y=2) : (x=3,y=4)); return x*10+y;'),
     ('stmt expr','int x = ({ int t=c(1); if (t) s(2); t+1; }); return x;'),
     ('stmt expr break','for (int i=0;i<2;i++) { int x=({ if (c(i)) break; i; }); s(x); } return 0;'),
     ('stmt expr goto','int x=({ if (a) goto out; 5; }); s(x); out: return 1;'),
     ('return in loop','for (int i=0;i<3;i++) if (c(i)) return i; return -1;'),
     ('void return','if (a) return; s(1);'),
     ('comma seq','return (s(1), s(2), c(3));'),
     ('empty','; ; {} return 0;'),
     ('while comma','int i=0; while (s(i), i++ < 2) ; return i;'),
     ('do while 0','do s(1); while (0); return 0;'),
     ('do while continue cond','int i=0; do { if (c(1)) continue; s(2); } while (i++ < 1); return i;'),
     ('return cond types','return a ? (char)300 : b;'),
     ('unreachable','return 1; s(2); return 3;'),
     ('label before decl-ish','x: s(1); if (c(2)) goto y; return 0; y: return 1;'),
     ('switch on char expr','char ch=a; switch (ch) { case -1: return 1; case 65: return 2; } return 3;'),
     ('switch on uchar expr','unsigned char ch=a; switch (ch) { case 255: return 1; case 65: return 2; } return 3;'),
     ('switch enum','enum {X=-1,Y=5} e=a; switch (e) { case X: return 1; case Y: return 2; } return 3;'),
     ('switch bitfield','struct {int x:4;} q; q.x=a; switch (q.x) { case -8: return 1; case 7: return 2; } return 3;'),
     ('assert-like','((a) ? (void)0 : s(1)); return 0;'),
     ('typeof cond','long r = a ? 1u : -1; return r == -1;'),
     ('goto same label names','{ goto l1; } l1: s(1); goto l2; s(2); l2: s(3); return 0;'),
     ('for cont switch','for (int i=0;i<2;i++) switch (c(i)) { case 0: continue; default: s(i); } return 0;'),
     ('gnu elvis side','int x=a; int y = c(1) ?: b; return y;'),
     ('gnu elvis once','int i=0; int y = (i++, c(i)) ?: 7; return y*10+i;'),
     ('bool logic in arith','return (a<b) + (a>b) - (a==b);'),
    ]
    for n,b in misc: cs.append(T(n,b) if n!='void return' else T(n,b,ret='void',rk='v'))
    # two functions sharing label / static names
    cs.append(Case('labels per function',P+'int g(int a){ if (a) goto out; s(1); out: return 2; } int f(int a){ if (a) goto out; s(3); out: return g(a); }',['i32'],'i32',externs=S))
    cs.append(Case('recursion',P+'int g(int n,int a){ if (n==0) return a; s(n); return g(n-1,a+n); } int f(int a){ return g(3,a); }',['i32'],'i32',externs=S))
    cs.append(Case('mutual',P+'int h(int); int g(int n){ if (n<=0) return 0; s(n); return h(n-1); } int h(int n){ if (n<=0) return 1; s(-n); return g(n-1); } int f(int a){ return g(a & 3); }',['i32'],'i32',externs=S))
    cs.append(Case('fnptr',P+'int g(int a){ return a+1; } int h(int a){ return a*2; } int f(int a){ int (*p)(int)= a ? g : h; return p(a)+(*p)(2)+(**p)(3); }',['i32'],'i32',externs=S))
    cs.append(Case('fnptr table',P+'static int g(int a){ return a+1; } static int h(int a){ return a*2; } int (*t[])(int)={g,h}; int f(int a){ return t[a&1](a); }',['i32'],'i32',externs=S,havoc=False))
    cs.append(Case('noreturn',P+'void die(int); int f(int a){ if (a) die(a); return 3; }',['i32'],'i32',externs={'die':('i','noreturn')}))
    r.tv(cs,'forms')
    cs=[]
    N=700 if core.THOROUGH else 110
    for i in range(N):
        g=RandStmt(core.SEED*100000+i)
        body=' '.join(g.stmt(3 if i%3 else 2) for _ in range(2))
        cs.append(Case('rand%d'%i,P+'int f(int a,int b){ %s return 777; }'%body,['i32','i32'],'i32',externs=S,max_paths=60 if not core.THOROUGH else 400))
    r.tv(cs,'random trees')
    r.bounds=['conditions, switch operands and results of external calls: all values','loops bounded by counters of at most 4 iterations','random trees: depth <= 3, path count per program <= 60 (400 thorough); programs over the path bound are counted inconclusive']
    r.assume=['gcc 13 -O1 -fwrapv as the reference semantics of C','RV64 instruction semantics as encoded in lib/rv.py']
    return r.finish()
