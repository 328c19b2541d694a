"""A regular language over bytes as an SMT condition on a fixed-length byte sequence."""
import z3, re
def cls(spec):
    """'0-9a-f' -> set of ints"""
    out=set(); i=0
    while i<len(spec):
        if i+2<len(spec) and spec[i+1]=='-': out|=set(range(ord(spec[i]),ord(spec[i+2])+1)); i+=3
        else: out.add(ord(spec[i])); i+=1
    return out
def inset(b,s):
    if isinstance(b,int): return b in s
    rs=[]; s=sorted(s)
    for c in s:
        if rs and rs[-1][1]==c-1: rs[-1][1]=c
        else: rs.append([c,c])
    return z3.Or(*[z3.And(z3.ULE(z3.BitVecVal(l,8),b),z3.ULE(b,z3.BitVecVal(h,8))) if l!=h else b==l for l,h in rs]) if rs else z3.BoolVal(False)
# regex AST: bytes-set, ('cat',..), ('alt',..), ('star',x), ('opt',x)
def S(s): return cls(s)
def cat(*x): return ('cat',)+x
def alt(*x): return ('alt',)+x
def star(x): return ('star',x)
def opt(x): return alt(cat(),x)
def plus(x): return cat(x,star(x))
def lit(s): return cat(*[{ord(c)} for c in s])
def AND(a,b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    return z3.And(a,b)
def OR(v):
    if any(x is True for x in v): return True
    v=[x for x in v if x is not False]
    return False if not v else v[0] if len(v)==1 else z3.Or(*v)
def tob(x): return z3.BoolVal(x) if isinstance(x,bool) else x
def match(r,bs):
    """condition that bs (list of byte terms/ints) is in the language"""
    memo={}
    def clean(n): 
        o={}
        for e,v in n.items():
            c=OR(v)
            if c is not False: o[e]=c
        return o
    def go(r,i):           # -> {end: cond}
        k=(id(r),i)
        if k in memo: return memo[k]
        if isinstance(r,(set,frozenset)): o=clean({i+1:[inset(bs[i],r)]}) if i<len(bs) else {}
        elif r[0]=='cat':
            o={i:True}
            for x in r[1:]:
                n={}
                for e,c in o.items():
                    for e2,c2 in go(x,e).items(): n.setdefault(e2,[]).append(AND(c,c2))
                o=clean(n)
        elif r[0]=='alt':
            n={}
            for x in r[1:]:
                for e,c in go(x,i).items(): n.setdefault(e,[]).append(c)
            o=clean(n)
        else:
            o={i:True}; work=[i]
            while work:
                j=work.pop(0)
                for e,c in go(r[1],j).items():
                    if e==j: continue
                    t=AND(o[j],c)
                    if e in o: o[e]=OR([o[e],t])
                    else: o[e]=t; work.append(e); work.sort()
        memo[k]=o; return o
    return tob(go(r,0).get(len(bs),False))
