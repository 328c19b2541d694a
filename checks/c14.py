from report import Report
import core, hx, random, re
from c12 import S
H=core.VERIF+'/harness/cpp.c'
def tpl(t):
    """«abc»: one symbolic character among a, b, c"""
    out=[]; i=0
    for k,p in enumerate(re.split('[«»]',t)):
        if k%2: out.append(S('h%d'%i,1,p)); i+=1
        elif p: out.append(p)
    return out
FIX='''object-like, self reference and mutual recursion
#define «ABC» «ABCx»+«ABCx»
#define B «ABC» 1
A B C
===
chain of object-like macros
#define A «ABCD»
#define B «ABCD»
#define C «ABCD»
A,B,C,D
===
function-like macro name with and without (
#define f(x) <x>
«fg» «(+»1) f f«( »2) f
«(x»3)
===
arguments: nesting and commas
#define f(x,y) [x|y]
f(«(x»1,2«)y»,3)
===
argument count
#define f(x) x
#define g(x,y) x y
#define h() z
«fgh»(1«,+»2) «fgh»()
===
parameter substitution
#define f(x,y) «xyz» «xyz»-«xyz»
#define z y
f(x,y) f(z,1)
===
argument expansion before substitution
#define A «AB1»
#define f(x) x A «x#»x x
f(A) f(f(A)) f(«AB»)
===
stringize
#define s(x) «#+»x
#define t(x) s(x)
#define A «1B» 2
s(A) t(A) s( A «+B») t(t(A)) s("«a\\"n») s('«a"»')
===
stringize spelling
#define s(x) #x
s(a«+ »b) s(a «+
»b) s("«ab»\\n" '\\'' L"«ab»") s(  a «,»b) s(a,«b) »)
===
paste
#define c(x,y) x##y
#define A 1
#define AB «2A»
#define xc(x,y) c(x,y)
c(«AxL»,«AB1») xc(«Ax»,B) c(«+-<»,«+-<=») c(A,) c(,A) c(,)
===
paste chains and placemarkers
#define c(x,y,z) w x##y##z v
#define d(x,y) x##«xyq» x «xy»##1
c(«a,»«b,») c(,«a,») d(,) d(«a »,2)
===
paste makes a macro name
#define c(x,y) x##y
#define f(x) <x>
#define ff g
c(f,)(1) c(,«fg»)(2) c(f,«fg») c(c,«c»)(1,2) c(«fg»,f)
===
## in object-like macros
#define A x«#+»«#+»y
#define xy 3
A
===
# in object-like macros
#define A #«xA»
#define f(x) #x A «x#»x
A f(A)
===
variadic
#define v(...) <__VA_ARGS__>
#define w(x,...) x:__VA_ARGS__ #__VA_ARGS__
v() v(«1,»2) w(1«,+»«2,») v((1,2)«,)»
===
variadic named and GNU comma
#define v(x,y...) g(x,##y) #y
#define w(x,...) g(x,##__VA_ARGS__)
#define u(...) g(x,##__VA_ARGS__)
v(1«,+»«2,») w(«1,»«2,») u() u(«1,»)
===
__VA_OPT__
#define v(x,...) f(x __VA_OPT__(,) __VA_ARGS__)
#define w(x,...) __VA_OPT__(«x+y»(x) «x»)
#define E
v(1) v(1«,+»2) w(1«,+»«E2») v(«E1»,E)
===
rescan with the rest of the source
#define f(x) x g
#define g(x) f(«xfg») h
f(«fgx»)(«fg»)(2)
===
rescan across the end of an expansion
#define f(x) [x]
#define l f(
#define o «fgl»
o«( »1) l «1o») f«( »l 2))
===
hide sets in arguments
#define f(x) x+«fxg»(x)
#define g «fg»
f(f(1)) g(f)(«fg»)
===
indirect recursion through arguments
#define A B(A)
#define B(x) x «ABx»
A B(«AB»)
===
empty expansions
#define E
#define f(x) x
E«E »a«E
+»E b
«E+»#E
-E«-+»E-E
f()«E+»f(E) x f
===
empty at the end of a line before a directive
#define E
#define f(x)
x «EAf»
#define A 1
A f(«EA»)
#undef A
A E
===
# from a macro is no directive
#define H #
#define E
H «HE» define A 1
E «H#» define A 2
A
===
undef and redefine
#define A 1
A «BA»
#«undef A»A
A
#define B A
B
#undef «AB»
B A
===
token boundaries after expansion
#define p «+-.&<1ae»
#define q(x) x«+-&»
#define E
p«+-&<»p q(«+-&<»)«+-=»p«1a.e»
===
numbers
#define E 9
#define e 8
1«e.E»2 0x1«ef»+1 .5«eE»+E 1.«e»2 e«1»
===
strings and characters are not expanded
#define a 1
#define f(x) #x x
"a«ab»" '«ab»' L'«a»' f("«a»") f('a') «ab»
===
macro arguments containing other invocations
#define f(x,y) x y
#define g(x) (x),x
#define h f(g(
f(g(«1g»)«,+»g(2)) h 1),«gh»)
===
invocation spanning lines
#define f(x,y) «xy»,y
f
(1
,
«2f»
)
f(«a
»,
b)
===
__LINE__ is the line of its use
#define L __LINE__
#define f(x) x L
«L1» L
f(«L1»)

__LINE__«+ »__LINE__
===
comments are white space
#define A/**/«1(»2)
#define f(x)/* */x/**/«xy»
#define g(x) #x
A f(1) g(a/**/«b/»/**/c) f/**/(2)
===
redefinition as another kind
#define f(x) «x1»
f(2)
#undef f
#define f «f3»
f(2)
#undef f
#define f() «f4»
f() f
===
whether ( touches the macro name
#define f«( »x) x
f(1)
===
malformed definitions and calls
#define f(x«,).»y) x y
f(«1(»«,)»2)
===
malformed parameter lists
#define f(«x,).».«., »«.,) ») 1
===
unterminated invocations
#define f(x) x
f(1«)(»
f«( »2«) »
===
same name for macro and parameter
#define x 1
#define f(x) «xf»
#define g(f) f(«xf»)
f(«xf») g(f) g(x)
===
nested stringize and paste
#define s(x) #x
#define c(x,y) x##y
#define m(x,y) s(x##y) s(x)«,+»c(x,y) c(s,)(y)
m(«a1»,«b2») c(L,s(a)) 
===
paste with stringize
#define w(x) L###x L##«#+»x
w(«a1»)
===
gnu comma with expansion
#define A 1«,+»2
#define w(x,...) g(x,##__VA_ARGS__) x ,«##»__VA_ARGS__
w(A,A) w(A)
'''
def rnd(rg,i):
    """a random set of macros and an invocation line; some tokens symbolic"""
    L=[]; used=[]; holes=[0]
    names=['A','B','f','g','h']; ar={}
    def tok(pool):
        if holes[0]<4 and rg.random()<.3: holes[0]+=1; return '«%s»'%''.join(sorted(set(rg.sample(pool,min(3,len(pool))))))
        return rg.choice(pool)
    nm=rg.sample(names,rg.randint(2,4))
    for n in nm:
        k=rg.choice([-1,0,1,1,2,2,3]) if n.islower() else -1
        va=k>0 and rg.random()<.25; ar[n]=(k,va)
    def call(n,depth,pool):
        k,va=ar[n]
        if k<0 or rg.random()<.1: return n
        m=k+(rg.randint(0,2) if va else 0)-(1 if va and rg.random()<.3 else 0)
        return n+'('+','.join(seq(depth-1,pool,rg.randint(0,2)) for _ in range(max(m,0)))+')'
    def seq(depth,pool,n):
        o=[]
        for _ in range(n):
            if depth>0 and rg.random()<.45: o.append(call(rg.choice(nm),depth,pool))
            else: o.append(tok(pool+['1','+','k']))
        return ' '.join(o)
    for n in nm:
        k,va=ar[n]; ps=['x','y','z'][:max(k,0)]
        head='#define '+n
        if k>=0: head+='('+','.join(ps[:-1]+['...'] if va else ps)+')'
        vs=ps[:-1]+['__VA_ARGS__'] if va else ps
        b=[]
        for _ in range(rg.randint(0,4)):
            r=rg.random()
            if vs and r<.15: b.append('#'+rg.choice(vs))
            elif vs and r<.3: b.append(rg.choice(vs)+'##'+rg.choice(vs+['1','k','A']))
            elif vs and r<.55: b.append(tok([v for v in vs if len(v)==1] or ['k']))
            elif r<.75: b.append(call(rg.choice(nm),1,[v for v in vs if len(v)==1] or ['k']))
            else: b.append(tok(nm+['k','+']))
        L.append(head+' '+' '.join(b))
    L.append(seq(3,nm,rg.randint(2,4)))
    if rg.random()<.4: L.append('#undef '+rg.choice(nm)); L.append(seq(2,nm,2))
    return '\n'.join(L)+'\n'
def run():
    r=Report('C14','bounded_symbolic','"toycc -E" (the whole compiler as LLVM bitcode) and a reference preprocessor written from C11 6.10.3 (harness/cpp.c) run on the same file with symbolic characters; on every path the solver decides that both produce the same token sequence or that malformed input is diagnosed')
    gs=[]
    for b in FIX.split('===\n'):
        k,t=b.split('\n',1); gs.append((k,tpl(t)))
    hx.run(r,'rules',H,gs,timeout=400)
    rg=random.Random(core.SEED*77+5); n=1500 if core.THOROUGH else 160
    hx.run(r,'random macro sets',H,[('random %d'%i,tpl(rnd(rg,i))) for i in range(n)],timeout=400)
    r.bounds=['the listed templates, every combination of their symbolic characters','seeded random sets of 2-4 macros with up to 3 parameters and up to 4 symbolic characters']
    r.assume=['the reference preprocessor in harness/cpp.c (Prosser\'s hide-set algorithm where C leaves re-expansion unspecified)']
    return r.finish()
