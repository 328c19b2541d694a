"""Integer constant expressions of C: text plus an SMT term for their value.
A node is (text, type, value term (64-bit, extended per the type), error term)."""
import z3
from gen import CT, RANK, promote, common, width
F=z3.BoolVal(False)
def W(t): return 1 if t=='bool' else width(t)
def uns(t): return t[0]=='u' or t=='bool'
def wrap(t,v):
    """64-bit v as a value of type t"""
    if t in('i64','u64'): return v
    if t=='bool': return z3.If(v!=0,z3.BitVecVal(1,64),z3.BitVecVal(0,64))
    w=width(t); x=z3.Extract(w-1,0,v)
    return z3.ZeroExt(64-w,x) if uns(t) else z3.SignExt(64-w,x)
def b2v(c): return z3.If(c,z3.BitVecVal(1,64),z3.BitVecVal(0,64))
class N:
    __slots__=('s','t','v','e')
    def __init__(n,s,t,v,e=F): n.s=s; n.t=t; n.v=v; n.e=e
def lit(k,t):
    """the k-th symbolic literal, converted to type t"""
    return N('((%s)7777770%02dUL)'%(CT[t],k),t,wrap(t,z3.BitVec('lit%d'%k,64)))
def num(v,suf=''):
    t={'':'i32','u':'u32','L':'i64','UL':'u64'}[suf]
    return N('%d%s'%(v,suf),t,z3.BitVecVal(v,64))
def cast(t,a): return N('((%s)%s)'%(CT[t],a.s),t,wrap(t,a.v),a.e)
def un(op,a):
    if op=='!': return N('(!%s)'%a.s,'i32',b2v(a.v==0),a.e)
    t=promote(a.t); v=wrap(t,a.v)
    return N('(%s%s)'%(op,a.s),t,wrap(t,-v if op=='-' else ~v if op=='~' else v),a.e)
def bi(op,a,b):
    s='(%s %s %s)'%(a.s,op,b.s); e=z3.Or(a.e,b.e)
    if op=='&&': return N(s,'i32',b2v(z3.And(a.v!=0,b.v!=0)),z3.Or(a.e,z3.And(a.v!=0,b.e)))
    if op=='||': return N(s,'i32',b2v(z3.Or(a.v!=0,b.v!=0)),z3.Or(a.e,z3.And(a.v==0,b.e)))
    if op==',': return N(s,b.t,b.v,e)
    if op in('<<','>>'):
        t=promote(a.t); w=width(t); x=wrap(t,a.v); n=b.v&z3.BitVecVal(w-1,64)
        r=x<<n if op=='<<' else (z3.LShR(x,n) if uns(t) else x>>n)
        return N('(%s %s (%s & %d))'%(a.s,op,b.s,w-1),t,wrap(t,r),e)
    t=common(a.t,b.t); x,y=wrap(t,a.v),wrap(t,b.v)
    if op in('<','<=','>','>=','==','!='):
        u=uns(t)
        c={'<':lambda:z3.ULT(x,y) if u else x<y,'<=':lambda:z3.ULE(x,y) if u else x<=y,'>':lambda:z3.UGT(x,y) if u else x>y,'>=':lambda:z3.UGE(x,y) if u else x>=y,'==':lambda:x==y,'!=':lambda:x!=y}[op]()
        return N(s,'i32',b2v(c),e)
    if op in('/','%'):
        e=z3.Or(e,y==0)
        if uns(t): r=z3.UDiv(x,y) if op=='/' else z3.URem(x,y)
        else: r=z3.If(y==-1,-x if op=='/' else z3.BitVecVal(0,64),(x/y) if op=='/' else z3.SRem(x,y))
        return N(s,t,wrap(t,r),e)
    r={'+':lambda:x+y,'-':lambda:x-y,'*':lambda:x*y,'&':lambda:x&y,'|':lambda:x|y,'^':lambda:x^y}[op]()
    return N(s,t,wrap(t,r),e)
def cond(c,a,b):
    t=common(a.t,b.t)
    return N('(%s ? %s : %s)'%(c.s,a.s,b.s),t,z3.If(c.v!=0,wrap(t,a.v),wrap(t,b.v)),z3.Or(c.e,z3.If(c.v!=0,a.e,b.e)))
class Rand:
    def __init__(g,rnd,types,nlit=2,ops=None): g.r=rnd; g.T=types; g.k=nlit; g.ops=ops or ['+','-','*','/','%','&','|','^','<<','>>','<','<=','>','>=','==','!=','&&','||']
    def gen(g,d):
        r=g.r
        if d==0 or r.random()<.1:
            if r.random()<.3: return num(r.choice([0,1,2,3,7,8,31,127,128,255,256,32768,65535,2147483647,r.randrange(1<<31)]),r.choice(['','','u','L','UL']))
            return lit(r.randint(1,g.k),r.choice(g.T))
        k=r.random()
        if k<.12: return un(r.choice('-~!+'),g.gen(d-1))
        if k<.24: return cast(r.choice(g.T),g.gen(d-1))
        if k<.34: return cond(g.gen(d-1),g.gen(d-1),g.gen(d-1))
        return bi(r.choice(g.ops),g.gen(d-1),g.gen(d-1))
