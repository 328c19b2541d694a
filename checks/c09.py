from gen import *
from report import Report
import core, sx, rv, z3, random, re
from nfa import *
SUF=['','u','U','l','L','ul','uL','Ul','UL','lu','lU','Lu','LU','ll','LL','ull','uLL','Ull','ULL','llu','llU','LLu','LLU']
# concrete reference (used to confirm counterexamples)
INT=re.compile(r'^(?:(0[xX])([0-9a-fA-F]+)|(0[bB])([01]+)|(0)([0-7]*)|([1-9][0-9]*))(%s)$'%'|'.join(SUF))
FLT=re.compile(r'^(?:(?:[0-9]+\.[0-9]*|\.[0-9]+|[0-9]+(?=[eE]))(?:[eE][+-]?[0-9]+)?|[0-9]+(?=[fF]$)|0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)[pP][+-]?[0-9]+)([fFlL]?)$')
TN={1:'int',2:'unsigned',3:'long',4:'unsigned long',5:'float',6:'double',7:'long double'}
def ref(s):
    """-> ('int',value,type) | ('float',None,type) | None (malformed) | 'range'"""
    m=INT.match(s)
    if m:
        if m.group(1): v=int(m.group(2),16); dec=False
        elif m.group(3): v=int(m.group(4),2); dec=False
        elif m.group(5): v=int(m.group(6) or '0',8); dec=False
        else: v=int(m.group(7)); dec=True
        suf=m.group(8).lower(); u='u' in suf; l='l' in suf
        for t in ((1,2,3,4)):
            if u and t in(1,3) or l and t in(1,2) or (dec and not u and t in(2,4)): continue
            if v<(1<<31,1<<32,1<<63,1<<64)[t-1]: return ('int',v,t)
        return 'range'
    m=FLT.match(s)
    if m: return ('float',None,{'':6,'f':5,'l':7}[m.group(1).lower()])
    return None
# symbolic reference
D=S('0-9'); H=S('0-9a-fA-F'); OC=S('0-7'); BI=S('01'); SG=opt(S('+-'))
EXP=cat(S('eE'),SG,plus(D)); PEX=cat(S('pP'),SG,plus(D))
FBODY=alt(cat(alt(cat(plus(D),{ord('.')},star(D)),cat({ord('.')},plus(D))),opt(EXP)),cat(plus(D),EXP),cat({ord('0')},S('xX'),alt(cat(plus(H),opt({ord('.')}),star(H)),cat({ord('.')},plus(H))),PEX))
def spec(bs):
    """-> (isint, val72, type term, isflt, ftype term, inrange)"""
    n=len(bs)
    def num(ds,base):
        v=z3.BitVecVal(0,64)
        for d in ds:
            c=z3.ZeroExt(56,d) if not isinstance(d,int) else z3.BitVecVal(d,64)
            v=v*base+((c&15)+9*z3.LShR(c,6) if base==16 else c-48)
        return v
    def below(ds,lim):
        """the digit string (no leading zeros dropped) denotes less than lim"""
        L='%0*d'%(len(ds),lim) if len(str(lim))<=len(ds) else None
        if L is None: return z3.BoolVal(True)
        r=z3.BoolVal(False); eq=z3.BoolVal(True)
        for d,c in zip(ds,L):
            d=z3.BitVecVal(d,8) if isinstance(d,int) else d
            r=z3.Or(r,z3.And(eq,z3.ULT(d,ord(c)))); eq=z3.And(eq,d==ord(c))
        return r
    alts=[]; ok64=[]
    for suf in SUF:
        k=n-len(suf)
        if k<1: continue
        sm=match(lit(suf),bs[k:]); low=suf.lower(); u='u' in low; l='l' in low
        for pre,base,ds,mc in (('d',10,bs[:k],match(cat(S('1-9'),star(D)),bs[:k])),('o',8,bs[:k],match(cat({48},star(OC)),bs[:k])),
                            ('x',16,bs[2:k],match(cat({48},S('xX'),plus(H)),bs[:k]) if k>2 else None),('b',2,bs[2:k],match(cat({48},S('bB'),plus(BI)),bs[:k]) if k>2 else None)):
            if mc is None: continue
            mc=z3.simplify(z3.And(sm,mc))
            if z3.is_false(mc): continue
            v=num(ds,base); t=z3.BitVecVal(4 if u or pre!='d' else 3,32)
            for ty in (3,2,1):
                if u and ty in(1,3) or l and ty in(1,2) or (pre=='d' and not u and ty in(2,4)): continue
                t=z3.If(z3.LShR(v,(31,32,63)[ty-1])==0,z3.BitVecVal(ty,32),t)
            fit=z3.BoolVal(True)
            if pre=='d': fit=below(ds,1<<64 if u else 1<<63)
            elif pre=='o' and len(ds)>22: fit=z3.ULE(ds[1] if not isinstance(ds[1],int) else z3.BitVecVal(ds[1],8),49) if len(ds)==23 else z3.BoolVal(False)
            alts.append((mc,v,t)); ok64.append(z3.Implies(mc,fit))
    isint=z3.Or(*[a for a,_,_ in alts]); val=z3.BitVecVal(0,64); ty=z3.BitVecVal(0,32)
    for i,(c,v,t) in enumerate(alts):
        if i==0: val,ty=v,t; continue
        if not v.eq(val): val=z3.If(c,v,val)
        ty=z3.If(c,t,ty)
    f0=match(FBODY,bs); ff=z3.And(match(alt(FBODY,plus(D)),bs[:-1]),tob(inset(bs[-1],S('fF')))) if n>1 else z3.BoolVal(False); fl=z3.And(match(FBODY,bs[:-1]),tob(inset(bs[-1],S('lL')))) if n>1 else z3.BoolVal(False)
    return isint,val,ty,z3.Or(f0,ff,fl),z3.If(f0,z3.BitVecVal(6,32),z3.If(ff,z3.BitVecVal(5,32),z3.BitVecVal(7,32))),z3.And(*ok64)
GEN='_Generic(%s,int:1,unsigned:2,long:3,unsigned long:4,float:5,double:6,long double:7,default:8)'
class Holes:
    def __init__(h,p): h.p=p
    def __getitem__(h,k): return h.p.terms()[h.p.j['holes'][int(k[1:])][1]]
def run_g(asm,holes,pre):
    im=rv.Image([rv.Module(asm,holes,tag='A')],rv.Layout(),'A')
    out=[]
    for A in rv.Exec(im,rv.Stats(),{},pre=pre).run('g',{},{}):
        if A.kind!='ret': raise rv.Limit('g does not return')
        out.append((A.path,z3.Extract(31,0,rv.bv(A.x[10]))))
    return im,out
def mk(key,lits,bs,withval,ctx=('','')):
    """lits: segments of the literal; bs: their byte terms"""
    isint,val,ty,isf,fty,rng=spec(bs)
    segs=['int g(void){ return ']+[GEN.split('%s')[0]]+lits+[GEN.split('%s')[1],'; }\n']
    if withval: segs+=['int f(unsigned long v){ switch(v){ case (unsigned long)(']+lits+['): return 1; } return 0; }\n']
    def bad(p):
        if p.status!=0:
            o=[('a well-formed constant is rejected',z3.Or(isint,isf))]
            if not p.out.get('<stderr>','').strip(): o.append(('rejected without a diagnostic',z3.BoolVal(True)))
            return o
        asm=p.out.get('/o/a.s',''); im,rs=run_g(asm,Holes(p),p.pc())
        o=[('a malformed constant is accepted',z3.Not(z3.Or(isint,isf)))]
        for path,t in rs: o.append(('wrong type',z3.And(*path,z3.Or(z3.And(isint,t!=ty),z3.And(isf,t!=fty)))))
        if withval:
            d=z3.BitVec('d',64)     # f(value+d) is 1 exactly when d is 0
            for A in rv.Exec(im,rv.Stats(),{},pre=p.pc()).run('f',{10:val+d},{}):
                o.append(('wrong value',z3.And(*A.path,isint,z3.Extract(31,0,rv.bv(A.x[10]))!=z3.If(d==0,z3.BitVecVal(1,32),z3.BitVecVal(0,32)))))
        return o
    def confirm(txt,m):
        s=sx.concretize(lits,m,{}).decode('latin-1'); w=ref(s)
        if w=='range': return None
        rc,asm,err=core.native_asm(txt)
        if rc: return None if w is None and not sx.crashed(rc) and err.strip() else '%r: exit %d %s, expected %s'%(s,rc,err[-100:],w)
        if w is None: return '%r is accepted, but is not a constant'%s
        im,rs=run_g(asm,None,[]); t=z3.simplify(rs[0][1]).as_long()
        if t!=w[2]: return '%r has type %s, expected %s'%(s,TN.get(t,t),TN[w[2]])
        if withval and w[0]=='int':
            for A in rv.Exec(im,rv.Stats(),{}).run('f',{10:w[1]},{}):
                if z3.simplify(z3.Extract(31,0,rv.bv(A.x[10]))).as_long()!=1: return '%r does not have the value %d'%(s,w[1])
        return None
    return dict(key=key,segs=segs,bad=bad,confirm=confirm,assume=[rng],lits=2)
def R(s): return sorted([[c,c] for c in cls(s)])
def sy(nm,n,s): 
    r=[]
    for c in sorted(cls(s)):
        if r and r[-1][1]==c-1: r[-1][1]=c
        else: r.append([c,c])
    return {'sym':nm,'n':n,'in':r}
def run():
    r=Report('C09','bounded_symbolic','the real tokenizer, parser and code generator (LLVM bitcode) run on numeric constants whose characters are symbolic; acceptance, type (through _Generic in emitted code) and value (through an emitted case comparison) are compared with an SMT rendering of C\'s constant grammar, for every character string in the bounds')
    gs=[]
    ALPHA='0-9a-fA-FxXuUlLpP.'
    for n in (1,2,3):
        gs.append(mk('any%d'%n,[sy('a',1,'0-9')]+([sy('b',n-1,ALPHA)] if n>1 else []),sx.Bs('a',1)+(sx.Bs('b',n-1) if n>1 else []),False))
    for pre in ['0x','0X','0b','0B','0','.','.1','1.','1e','0x1.','0x1p','9','1e+','0x.','00','0x1p-','1.e','08','0b1']:
        for n in (1,2) if not core.THOROUGH else (1,2,3):
            if pre=='.' and n>1: continue
            gs.append(mk('%s+%d'%(pre,n),[pre,sy('b',n,ALPHA)],[ord(c) for c in pre]+sx.Bs('b',n),False))
    # digit strings: a concrete head (boundaries of the types, seeded) and a symbolic tail, with every suffix of up to three letters
    rnd=random.Random(core.SEED*11+9); heads=[]
    T=4
    for base,pre in ((10,''),(8,'0'),(16,'0x'),(2,'0b')):
        fm=lambda v:{10:'%d',8:'%o',16:'%x'}[base]%v if base!=2 else bin(v)[2:]
        for bnd in (1<<31,1<<32,1<<63,1<<64):
            x=fm(bnd-1)
            if bnd==1<<64 and base==16: x='f'*16
            heads.append((pre,x,base))
            if bnd<1<<64 and base in(8,16,2): heads.append((pre,fm(bnd),base))
        for i in range(4 if not core.THOROUGH else 40): heads.append((pre,fm(rnd.randrange(1<<rnd.randint(8,63))),base))
        heads+=[(pre,'',base),(pre,'1',base),(pre,'10',base)]
    dig={10:'0-9',8:'0-7',16:'0-9a-dA-D',2:'01'}
    for pre,h0,base in heads:
        for ns in (0,1,2,3):
            if ns and h0 and rnd.random()<.4 and not core.THOROUGH: continue
            # the keyword lookup hashes the whole token: few symbolic characters keep its table probe decidable by enumeration of the domain
            k={10:(3,2,2,1),8:(3,2,2,1),16:(2,2,1,1),2:(8,6,4,3)}[base][ns]
            h=h0[:-k]; txt=pre+h; l=[txt] if txt else []; bs=[ord(c) for c in txt]
            if not txt: l.append(sy('a',1,'1-9')); bs+=sx.Bs('a',1); kk=k-1
            else: kk=k
            if kk: l.append(sy('b',kk,dig[base])); bs+=sx.Bs('b',kk)
            if ns: l.append(sy('s',ns,'uUlLf' if base!=16 else 'uUlL')); bs+=sx.Bs('s',ns)
            gs.append(mk('%s %d symbolic digits suffix %d'%(txt,k,ns),l,bs,True))
    sx.run(r,'constants',gs,timeout=600)
    # floating constants: emitted bits equal the correctly rounded ones (oracle gcc), digits seeded
    rnd=random.Random(core.SEED*3+9); cs=[]; seen=set()
    base=['1e-45','1.17549435e-38','3.4028235e38','3.4028236e38','4.9e-324','2.2250738585072011e-308','1.7976931348623157e308','0x1.fffffep127','0x1p-149','0x1.8p-150','0x1.0000010000000000001p0','8388609.5','16777217.0','9007199254740993.0','0.1','1e23','123456789012345678.0','0x1.fffffffffffff7p0','0x1.fffffffffffff8p0','1.0000000596046448','1.00000005960464477540','1.000000059604644775390625','1.0000000596046447753906250000001','0.','.5','5.','0x.8p1','0x1.p1','1e+5','1E5','1e05']
    for i in range(40 if not core.THOROUGH else 400):
        base.append(rnd.choice(['%d.%de%d','%d.%de-%d'])%(rnd.randrange(10**rnd.randint(1,17)),rnd.randrange(10**rnd.randint(1,17)),rnd.randint(0,30)))
        base.append('0x%x.%xp%d'%(rnd.randrange(1<<rnd.randint(1,60)),rnd.randrange(1<<rnd.randint(1,60)),rnd.randint(-100,60)))
    def exact64(t):
        """representable with 64 significant bits"""
        from fractions import Fraction
        try:
            if 'x' in t:
                m,e=t[2:].split('p'); i,_,f=m.partition('.'); v=Fraction(int((i or '0')+f,16),16**len(f))*Fraction(2)**int(e)
            else: v=Fraction(t if t[-1]!='.' else t+'0')
        except Exception: return False
        if v==0: return True
        n,d=v.numerator,v.denominator
        return d&(d-1)==0 and (n>>((n&-n).bit_length()-1)).bit_length()<=64
    for s in base:
        for suf,t in (('f','float'),('','double'),('L','long double'),('','float')):
            if t=='long double' and s!='0.1' and not exact64(s): continue
            cs.append(Case('%s%s as %s'%(s,suf,t),'%s x = %s%s; int f(unsigned i){ return ((unsigned char*)&x)[i%%sizeof x]; }'%(t,s,suf),['u32'],'i32',havoc=False))
    r.tv(cs,'floating values')
    r.bounds=['fully symbolic constants of up to 3 characters over [0-9a-fA-FxXuUlLpP.]; +/- only after e/p in listed prefixes','structured constants: concrete heads at the type boundaries and seeded ones, up to 3 symbolic trailing digits, 8 in binary (e/E excluded in hexadecimal) and up to 3 symbolic suffix letters','values that fit no type of C\'s list are excluded','floating values: seeded digit strings against gcc; long double ones representable in 64 bits (known finding: the host\'s 80-bit strtold limits the others)']
    r.assume=['glibc\'s strtoul as modelled in engine/minilibc.c, strtold/strtod/strtof correctly rounded']
    return r.finish()
