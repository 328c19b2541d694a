from report import Report
import core, hx, random, itertools
from c14 import tpl, H
FIX='''taken and skipped branches
#if «0123»
a
#elif «012»
b
#else
c
#endif
d
===
ifdef, ifndef
#define A
#if«dn»def «AB»
a
#else
b
#endif
===
ifndef
#define A
#ifndef «AB»
a
#elif «01»
b
#endif
c
===
nested conditionals in taken and skipped groups
#if «01»
#if «01»
a
#else
b
#endif
c
#elif «01»
#ifdef «AB»
d
#elif «01»
e
#else
f
#endif
#else
#ifndef X
g
#endif
#endif
h
===
skipped groups are not processed
#if «01»
#define A 1
#undef B
#error «x"»y"
#include "nonexistent.h"
#foo «a(»
#if (
#elif )
#else
#define C
#endif
#else
#define A 2
#error no
#endif
A B C
===
conditions of skipped branches are not evaluated
#if «01»
a
#elif 1/«01»
b
#elif )«(x»
c
#else
d
#endif
===
definitions made in a taken branch
#if «01»
#define A «01»
#elif «01»
#define B
#endif
#if A
a
#elif defined B
b
#else
c
#endif
A B
===
defined
#define A
#define B A
#define f(x) x
#if defined «AB( » && defined(«ABCf»)«) »
a
#endif
#if !defined«( »«AC»«) »|| «01»
b
#endif
===
macros in controlling expressions
#define A «01»
#define f(x,y) ((x)«<>»(y))
#if f(A,«01»)«+-»A
a
#elif A
b
#endif
#if B
c
#elif C == 0
d
#endif
===
function-like macro name without arguments
#define f(x) 1
#if f«+ »
a
#elif f(«01»«) »
b
#endif
===
undefined names are 0, keywords too
#if «aif»nt «=!»= «01»
a
#else
b
#endif
#if x«+-»1
c
#endif
===
short circuit
#if «01» && 1/«01»
a
#endif
#if «01» || 1/«01»
b
#endif
#if «01» ? 1/«01» : «01»
c
#endif
===
precedence
#if «23» «+-*/%<>&|^» «03» «+-*<&|^» «12»
a
#else
b
#endif
===
comparison precedence
#if «12» «<>=!»= «012» «+-&|^» 1
a
#endif
===
shift precedence
#if «012» «<>»«<>» «012» «+-*&» 1
b
#endif
===
logical precedence
#if «12» «&|»«&|» «01» «&|^» «01»
c
#endif
===
unary and parentheses
#if «!-~+»«!-~+»(«01»«+-»«01»)
a
#elif («01»«) »«)+»1)
b
#endif
===
ternary nesting
#if «01» ? «012» : «01» ? «01» : «012»
a
#elif (1 «?+» 2 «:+» 0)
b
#else
c
#endif
===
malformed controlling expressions
#if «1(»«1)+»«)1 »
a
#endif
===
empty controlling expression
#define E
#if «E1»
a
#elif E «1E»
b
#endif
===
extra tokens
#define A
#ifdef A «x »
a
#else «x»y
b
#endif «x»
c
===
where a directive may stand
 «# a» if «01»
a
 #endif
#«
 »
b
===
conditionals and comments
#/**/if /* «01» */ «01» // «01»
a
#  else/**/
b
/* «a»
*/ #endif
c
===
# inside a line is no directive
#if «01»
a #«e»lse
b
#else
c #endif
#endif
===
conditional inside macro history
#define A 1
#if A «=!»= 1
#undef A
#define A «12»
#endif
#if A == 1
a
#elif A == 2
b
#endif
===
misspelt directives
#if «01»
#e«nl»«ds»«ie»«f
»
x
#endif
===
null and unknown directives
#«
 ax»
#if «01»
#
#x«1 »
#endif
y
===
line continuation
#if «01» \\
 && «01»
a
#el\\
se
b
#endif
===
elif chain
#if «01»
0
#elif «01»
1
#elif «01»
2
#elif «01»
3
#else
4
#endif
5
'''
def seqs(n,rg=None,cnt=None):
    """directive sequences over if/elif/else/endif in any order, a distinct text line after each"""
    D={'I':'#if «01»','D':'#ifdef «AB»','N':'#ifndef «AB»','E':'#elif «01»','L':'#else','F':'#endif'}
    out=[]
    it=itertools.product('IELF',repeat=n) if not rg else (tuple(rg.choice('IIDNEELFFF') for _ in range(n)) for _ in range(cnt))
    for q in it:
        t='#define A\n'
        for i,d in enumerate(q):
            t+=D[d]+'\n'+'abcdefghij'[i]+'\n'
            if rg and rg.random()<.25: t+=rg.choice(['#define B\n','#undef A\n','#define A\n','#undef B\n'])
        if rg:
            o=0
            for d in q: o=o+1 if d in 'IDN' else max(o-1,0) if d=='F' else o
            if rg.random()<.85: t+='#endif\nz\n'*o
        out.append((''.join(q),tpl(t)))
    return out
def run():
    r=Report('C15','bounded_symbolic','"toycc -E" (the whole compiler as LLVM bitcode) and a reference preprocessor written from C11 6.10.1 (harness/cpp.c) run on the same file with symbolic conditions, names and operators; on every path the solver decides that both select the same groups or that the input is diagnosed')
    gs=[]
    for b in FIX.split('===\n'):
        k,t=b.split('\n',1); gs.append((k,tpl(t)))
    hx.run(r,'rules',H,gs,timeout=400)
    N=6 if core.THOROUGH else 4
    hx.run(r,'all directive sequences up to %d'%N,H,[g for n in range(1,N+1) for g in seqs(n)],timeout=400)
    rg=random.Random(core.SEED*31+7)
    hx.run(r,'random directive sequences',H,[('%d %s'%(i,g[0]),g[1]) for n in (6,7,8,9) for i,g in enumerate(seqs(n,rg,400 if core.THOROUGH else 40))],timeout=400)
    r.bounds=['the listed templates, every combination of their symbolic characters','every sequence of up to %d of #if/#elif/#else/#endif with every truth value'%N,'seeded random sequences of 6-9 directives with #ifdef/#ifndef/#define/#undef']
    r.assume=['the reference preprocessor in harness/cpp.c','controlling values: small literals here, all 64-bit values in C08']
    return r.finish()
