"""program generators shared by the translation-validation checks"""
import random, itertools
from tv import Case
CT={'i8':'signed char','u8':'unsigned char','i16':'short','u16':'unsigned short','i32':'int','u32':'unsigned int','i64':'long','u64':'unsigned long','bool':'_Bool','f':'float','d':'double','ld':'long double'}
INTS=['bool','i8','u8','i16','u16','i32','u32','i64','u64']
SIGNED={'i8','i16','i32','i64'}
RANK={'bool':0,'i8':1,'u8':1,'i16':2,'u16':2,'i32':3,'u32':3,'i64':4,'u64':4}
def promote(t): return t if t in('i32','u32','i64','u64') else 'i32'
def common(a,b):
    a,b=promote(a),promote(b)
    if RANK[a]!=RANK[b]: return a if RANK[a]>RANK[b] else b
    return b if b[0]=='u' else a
def width(t): return {'bool':8,'i8':8,'u8':8,'i16':16,'u16':16,'i32':32,'u32':32,'i64':64,'u64':64}[t]
ARITH=['+','-','*','/','%','&','|','^','<<','>>','<','<=','>','>=','==','!=','&&','||']
def guard(op,a,b,ta,tb):
    """text of 'a op b' with undefined cases excluded by construction"""
    if op in('<<','>>'): return '(%s %s (%s & %d))'%(a,op,b,width(promote(ta))-1)
    if op in('/','%'):
        c=common(ta,tb)
        return '(%s %s %s)'%(a,op,b)
    return '(%s %s %s)'%(a,op,b)
class RandExpr:
    """random UB-free integer expressions over typed variables"""
    def __init__(s,seed,vars,ops=None,lits=True,divs=True):
        s.r=random.Random(seed); s.v=vars; s.ops=ops or ['+','-','*','&','|','^','<','<=','>','>=','==','!=','&&','||','<<','>>']; s.lits=lits
    def lit(s):
        r=s.r
        v=r.choice([0,1,2,3,5,7,8,15,127,128,255,256,32767,32768,65535,65536,2147483647,r.randrange(1<<31)])
        suf=r.choice(['','','','u','L','UL'])
        return '%d%s'%(v,suf), {'':'i32','u':'u32','L':'i64','UL':'u64'}[suf]
    def gen(s,d):
        """-> (text, type)"""
        r=s.r
        if d==0 or r.random()<0.12:
            if s.lits and r.random()<0.25: return s.lit()
            n,t=r.choice(s.v); return n,t
        k=r.random()
        if k<0.12:
            e,t=s.gen(d-1); op=r.choice(['-','~','!','+'])
            return '(%s%s)'%(op,' '+e if e[0]==op else e), 'i32' if op=='!' else promote(t)
        if k<0.22:
            e,t=s.gen(d-1); c=r.choice(INTS)
            return '((%s)%s)'%(CT[c],e), c
        if k<0.30:
            c,_=s.gen(d-1); a,ta=s.gen(d-1); b,tb=s.gen(d-1)
            return '(%s ? %s : %s)'%(c,a,b), common(ta,tb)
        if k<0.33:
            a,_=s.gen(d-1); b,t=s.gen(d-1)
            return '(%s, %s)'%(a,b), t
        op=r.choice(s.ops)
        a,ta=s.gen(d-1); b,tb=s.gen(d-1)
        if op in('<<','>>'):
            return '(%s %s (%s & %d))'%(a,op,b,width(promote(ta))-1), promote(ta)
        if op in('<','<=','>','>=','==','!=','&&','||'): return '(%s %s %s)'%(a,op,b),'i32'
        return '(%s %s %s)'%(a,op,b), common(ta,tb)
def rettype(t): return CT[t]
