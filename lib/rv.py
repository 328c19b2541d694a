"""rvsym: symbolic executor for RV64GC assembly text (as emitted by toycc or gcc).

Values are Python ints (concrete, 0..2^64-1) or z3 64-bit bit-vector terms.
Memory is a dict address -> byte; addresses that are never written hold lazily
created symbolic bytes (shared by both sides for program-visible memory, private
to the side for stack garbage).
"""
import re, struct, time
import z3

M64 = (1 << 64) - 1
XN = ['zero','ra','sp','gp','tp','t0','t1','t2','s0','s1']+['a%d'%i for i in range(8)]+['s%d'%i for i in range(2,12)]+['t3','t4','t5','t6']
XR = {n:i for i,n in enumerate(XN)}
XR['fp'] = 8
XR.update({'x%d'%i:i for i in range(32)})
FN = ['ft%d'%i for i in range(8)]+['fs0','fs1']+['fa%d'%i for i in range(8)]+['fs%d'%i for i in range(2,12)]+['ft8','ft9','ft10','ft11']
FR = {n:i for i,n in enumerate(FN)}
FR.update({'f%d'%i:i for i in range(32)})
A0, SP, RA, TP, FP = 10, 2, 1, 4, 8
FA0 = 10
SAVED_X = [8,9]+list(range(18,28))
SAVED_F = [8,9]+list(range(18,28))
CALLER_X = [5,6,7]+list(range(10,18))+[28,29,30,31]
CALLER_F = [i for i in range(32) if i not in SAVED_F]

SP0   = 0x7ffff000
TPB   = 0x60000000
RETPC = 0xdead0000
BUF0  = 0x30000000       # pointer-parameter buffers
GLB0  = 0x20000000
TXT0  = 0x10000000
PRV0  = 0x50000000       # side-private objects (string literals, locals statics)

TIMEOUT=[10000]
class AsmError(Exception): pass
class Limit(Exception): pass

# ------------------------------------------------------------------ terms
def isint(v): return isinstance(v, int)
def bv(v, w=64): return z3.BitVecVal(v, w) if isint(v) else v
def sx(v, w):               # sign extend concrete
    v &= (1<<w)-1
    return v-(1<<w) if v >> (w-1) else v
_DK = {}
def kind(e): return e.decl().kind()
def lo(v, n):
    """low n bits as int or BV n"""
    if isint(v): return v & ((1<<n)-1)
    w = v.size()
    if w == n: return v
    k = kind(v)
    if k in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
        c = v.arg(0)
        if c.size() == n: return c
        if c.size() > n: return lo(c, n)
        return z3.SignExt(n-c.size(), c) if k == z3.Z3_OP_SIGN_EXT else z3.ZeroExt(n-c.size(), c)
    if k == z3.Z3_OP_CONCAT:
        c = v.arg(v.num_args()-1)
        if c.size() == n: return c
        if c.size() > n: return lo(c, n)
    if k == z3.Z3_OP_EXTRACT:
        hi_, lo_ = v.params()
        return z3.Extract(lo_+n-1, lo_, v.arg(0))
    if k == z3.Z3_OP_BNUM: return v.as_long() & ((1<<n)-1)
    return z3.Extract(n-1, 0, v)
def sext(v, n):             # v is n-bit -> 64
    if isint(v): return sx(v, n) & M64
    return z3.SignExt(64-n, v)
def zext(v, n):
    if isint(v): return v & ((1<<n)-1)
    return z3.ZeroExt(64-n, v)
def simp(v):
    if isint(v): return v
    s = z3.simplify(v)
    if z3.is_bv_value(s): return s.as_long()
    return s
def poly(t, memo):
    """polynomial normal form (mod 2^w) of a bit-vector term: {sorted leaf ids: coefficient};
    an exact ring rewriting that spares the bit-blaster multiplications by constants"""
    k=t.get_id()
    if k in memo: return memo[k]
    w=t.size(); M=(1<<w)-1; op=t.decl().kind()
    r=None
    if z3.is_bv_value(t): r={():t.as_long()}
    elif op in(z3.Z3_OP_BADD,z3.Z3_OP_BSUB):
        r={}
        for i,c in enumerate(t.children()):
            sg=-1 if op==z3.Z3_OP_BSUB and i else 1
            for m,v in poly(c,memo).items(): r[m]=(r.get(m,0)+sg*v)&M
    elif op==z3.Z3_OP_BNEG: r={m:(-v)&M for m,v in poly(t.arg(0),memo).items()}
    elif op==z3.Z3_OP_BMUL:
        r={():1}
        for c in t.children():
            q=poly(c,memo); n={}
            if len(q)*len(r)>64: n=None; break
            for m,v in r.items():
                for m2,v2 in q.items():
                    mm=tuple(sorted(m+m2)); n[mm]=(n.get(mm,0)+v*v2)&M
            r=n
        if n is None: r=None
    elif op==z3.Z3_OP_BSHL:
        a=z3.simplify(t.arg(1))
        if z3.is_bv_value(a) and a.as_long()<w: r={m:(v<<a.as_long())&M for m,v in poly(t.arg(0),memo).items()}
    elif op==z3.Z3_OP_CONCAT and t.num_args()==2 and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long()==0:
        a=t.arg(0); n=t.arg(1).size()
        if a.decl().kind()==z3.Z3_OP_EXTRACT and a.params()[1]==0 and a.arg(0).size()==w:
            r={m:(v<<n)&M for m,v in poly(a.arg(0),memo).items()}
    if r is None:
        u=z3.simplify(t); r={(u.get_id(),):1}; memo.setdefault('keep',[]).append(u)
    r={m:v for m,v in r.items() if v}
    memo[k]=r
    return r
def eqv(a, b):
    """z3 Bool or python bool: a == b"""
    if isint(a) and isint(b): return a == b
    if not isint(a) and not isint(b):
        if a.eq(b): return True
        if a.size()==b.size() and a.size()>=32:
            memo={}
            try:
                if poly(a,memo)==poly(b,memo): return True
            except RecursionError: pass
        return a == b
    return bv(a, b.size() if not isint(b) else 64) == bv(b, a.size() if not isint(a) else 64)

# ------------------------------------------------------------------ assembler
class Sec:
    def __init__(s, name): s.name=name; s.items=[]; s.off=0; s.align=1

class Module:
    """parsed assembly"""
    def __init__(m, text, holes=None, tag=''):
        m.holes = holes or {}
        m.tag = tag
        m.code = []            # (mnemonic, [operands], lineno)
        m.labels = {}          # name -> ('c', idx) | ('d', secname, off)
        m.numlab = {}          # numeric label -> list of idx
        m.glob = set(); m.local = set(); m.weak = set()
        m.comm = {}            # sym -> (size, align, local)
        m.secs = {}
        m.size = {}; m.typ = {}
        m.tls = set()
        m.defcount = {}
        m.secalign = {}
        m.parse(text)
    def err(m, l, why): raise AsmError('%s: %s' % (why, l.strip()[:80]))
    def parse(m, text):
        cur = '.text'; prev='.text'; pend=[]; stack=[]
        for ln, raw in enumerate(text.split('\n')):
            l = raw
            if '#' in l and '"' not in l: l = l.split('#',1)[0]
            elif '#' in l:
                # strip comment outside of quotes
                q=False; out=''
                i=0
                while i < len(l):
                    c=l[i]
                    if c=='\\' and q: out+=l[i:i+2]; i+=2; continue
                    if c=='"': q=not q
                    if c=='#' and not q: break
                    out+=c; i+=1
                l=out
            l = l.strip()
            while l:
                mt = re.match(r'^([A-Za-z_.$0-9\x80-\uffff]+):\s*', l)
                if not mt: break
                name = mt.group(1)
                iscode = cur.startswith('.text')
                if name.isdigit():
                    m.numlab.setdefault(name, []).append(len(m.code))
                else:
                    if name in m.labels: m.err(raw, 'symbol `%s\' is already defined'%name)
                    if iscode: m.labels[name] = ('c', len(m.code))
                    else:
                        s = m.sec(cur); m.labels[name] = ('d', cur, s.off)
                        if cur.startswith(('.tbss','.tdata')): m.tls.add(name)
                l = l[mt.end():]
            if not l: continue
            if l[0] == '.':
                p = l.split(None, 1); d = p[0]; a = p[1].strip() if len(p) > 1 else ''
                if d in ('.text','.data','.bss'): prev,cur = cur,d; m.sec(cur)
                elif d == '.section':
                    prev = cur; cur = a.split(',')[0].strip(); m.sec(cur)
                elif d == '.previous': prev,cur = cur,prev
                elif d == '.pushsection': stack.append(cur); cur = a.split(',')[0].strip()
                elif d == '.popsection': cur = stack.pop()
                elif d in ('.global','.globl'): m.glob.add(a)
                elif d == '.local': m.local.add(a)
                elif d == '.weak': m.weak.add(a); m.glob.add(a)
                elif d in ('.comm','.lcomm'):
                    q=[x.strip() for x in a.split(',')]
                    m.comm[q[0]] = (m.num(q[1]), m.num(q[2]) if len(q)>2 else 1, q[0] in m.local or d=='.lcomm')
                elif d == '.type': q=[x.strip() for x in a.split(',')]; m.typ[q[0]] = q[1]
                elif d == '.size': q=[x.strip() for x in a.split(',')]; m.size[q[0]] = q[1]
                elif d in ('.align','.p2align'):
                    n = m.num(a.split(',')[0])
                    if not isint(n) or n < 0 or n > 31: m.err(raw, 'bad alignment')
                    if not cur.startswith('.text'):
                        s = m.sec(cur); al = 1 << n; s.align = max(s.align, al)
                        while s.off % al: s.items.append((s.off, 1, 0, 0)); s.off += 1
                elif d in ('.byte','.half','.2byte','.short','.word','.4byte','.long','.dword','.8byte','.quad'):
                    sz = {'.byte':1,'.half':2,'.2byte':2,'.short':2,'.word':4,'.4byte':4,'.long':4}.get(d,8)
                    s = m.sec(cur)
                    for x in a.split(','):
                        sym, add = m.symadd(x.strip())
                        s.items.append((s.off, sz, sym, add)); s.off += sz
                elif d in ('.zero','.space','.skip'):
                    n = m.num(a.split(',')[0])
                    if not isint(n): n = m.hole_const(n)
                    if n < 0 or n >= 1<<31: m.err(raw, 'bad .zero')
                    s = m.sec(cur)
                    s.items.append((s.off, n, 'zero', 0)); s.off += n
                elif d in ('.string','.ascii','.asciz'):
                    s = m.sec(cur)
                    bs = m.cstr(a)
                    if d != '.ascii': bs += b'\0'
                    for b in bs: s.items.append((s.off, 1, None, b)); s.off += 1
                elif d in ('.file','.loc','.ident','.option','.attribute','.cfi_startproc','.cfi_endproc','.hidden','.set','.addrsig','.internal','.protected') or d.startswith('.cfi'): 
                    if d == '.set':
                        q=[x.strip() for x in a.split(',')]; m.labels[q[0]] = ('alias', q[1])
                else: m.err(raw, 'unknown directive')
                continue
            p = l.split(None, 1)
            ops = m.splitops(p[1]) if len(p) > 1 else []
            m.code.append((p[0], ops, raw))
    def sec(m, n):
        if n not in m.secs: m.secs[n] = Sec(n)
        return m.secs[n]
    def splitops(m, t): return [x.strip() for x in t.split(',')]
    def cstr(m, a):
        out = bytearray(); i = 1
        a = a.encode('latin-1','surrogateescape') if all(ord(c)<256 for c in a) else a.encode('utf-8','surrogateescape')
        while i < len(a) and a[i:i+1] != b'"':
            c = a[i]
            if c == 0x5c:
                i += 1; e = chr(a[i])
                if e in '01234567':
                    j = i; v = 0
                    while j < i+3 and chr(a[j]) in '01234567': v = v*8+a[j]-48; j += 1
                    out.append(v & 255); i = j; continue
                out.append({'n':10,'t':9,'r':13,'b':8,'f':12,'v':11}.get(e, ord(e))); i += 1
            else: out.append(c); i += 1
        return bytes(out)
    def num(m, t):
        """constant int or hole term"""
        t = t.strip()
        if t.startswith('\x01'):
            k = t[1:t.index('\x02')]
            return m.holes[k]
        mt = re.match(r'^([+-]?)\s*(0[xX][0-9a-fA-F]+|[0-9]+)$', t)
        if not mt:
            # simple sums / products
            if re.match(r'^[-+*()0-9xXa-fA-F ]+$', t):
                return int(eval(t))
            raise AsmError('bad number: %s' % t[:60])
        v = mt.group(2)
        v = int(v, 16) if v[:2] in ('0x','0X') else (int(v, 8) if len(v)>1 and v[0]=='0' else int(v))
        return -v if mt.group(1)=='-' else v
    def hole_const(m, n): raise Limit('symbolic size')
    def symadd(m, t):
        """-> (sym or None, addend)"""
        if not re.match(r'^[A-Za-z_.$\x80-\uffff]', t): return None, m.num(t)
        mt = re.match(r'^([A-Za-z_.$0-9\x80-\uffff]+)\s*([+-].*)?$', t)
        if not mt: raise AsmError('bad symbol expr: %s'%t[:60])
        add = 0
        if mt.group(2):
            s = mt.group(2)
            if s[0] == '+' : add = m.num(s[1:])
            else: add = m.num(s)
        return mt.group(1), add

class Layout:
    """shared symbol -> address assignment (common to both sides)"""
    def __init__(l): l.g={}; l.t={}; l.tls={}; l.sizes={}
    def data(l, n):
        if n not in l.g: l.g[n] = GLB0 + 0x10000*len(l.g)
        return l.g[n]
    def text(l, n):
        if n not in l.t: l.t[n] = TXT0 + 0x40000*len(l.t)
        return l.t[n]
    def tlsoff(l, n):
        if n not in l.tls: l.tls[n] = 0x1000*(len(l.tls)+1)
        return l.tls[n]

class Image:
    """linked program for one side"""
    def __init__(im, mods, layout, side, havoc_globals=False, funcs_hint=()):
        im.mods=mods; im.lay=layout; im.side=side
        im.code={}         # address -> (mod, idx)
        im.sym={}          # global symbol -> address
        im.msym=[{} for _ in mods]
        im.init={}         # initial memory
        im.size={}         # address -> size of object
        im.got={}
        im.havoc=havoc_globals
        im.funcs={}        # address -> name of undefined/external function
        im.tlsaddr={}
        im.privmap={}
        prv = PRV0 + (0x800000 if side=='B' else 0)
        txtloc = TXT0 + 0x8000000 + (0x2000000 if side=='B' else 0)
        im.prv=prv; im.prv_end=prv+0x800000
        relocs=[]
        # which names are global definitions
        defs={}
        for mi,m in enumerate(mods):
            for n,v in m.labels.items():
                if n in m.glob and n not in m.local:
                    if n in defs and n not in m.weak and n not in mods[defs[n]].weak:
                        raise AsmError('multiple definition of `%s\''%n)
                    defs[n]=mi
        # commons
        com={}
        for mi,m in enumerate(mods):
            for n,(sz,al,loc) in m.comm.items():
                if loc: continue
                com[n]=max(com.get(n,(0,0)), (sz,al))
        for mi,m in enumerate(mods):
            base = txtloc; txtloc += 0x400000
            # code labels: every instruction idx has address base+4*idx; global function labels alias
            m.base = base
            for i in range(len(m.code)): im.code[base+4*i]=(mi,i)
            im.code[base+4*len(m.code)]=(mi,len(m.code))
            for n,v in m.labels.items():
                if v[0]=='c':
                    if n in m.glob and n not in m.local:
                        a = layout.text(n); im.code[a]=(mi,v[1]); im.sym[n]=a; im.msym[mi][n]=a
                    elif m.typ.get(n)=='@function' or n in m.local:
                        a = layout.text('.static.'+n); im.code[a]=(mi,v[1]); im.msym[mi][n]=a
                    else: im.msym[mi][n]=base+4*v[1]
            # data: objects = label ranges
            for sn,s in m.secs.items():
                if sn.startswith('.text') or sn.startswith('.note') or sn.startswith('.debug') or sn=='.comment': continue
                labs = sorted([(v[2],n) for n,v in m.labels.items() if v[0]=='d' and v[1]==sn])
                # assign addresses per label (group labels at same offset)
                starts=[]
                for off,n in labs:
                    end = min([o for o,_ in labs if o>off], default=s.off)
                    sz = m.size.get(n)
                    try: sz=int(sz)
                    except Exception: sz=end-off
                    if sn.startswith(('.tbss','.tdata')):
                        key = n if n in m.glob else '.static.'+n
                        a = TPB + layout.tlsoff(key); im.tlsaddr[(mi,n)]=a
                    elif n in m.glob and n not in m.local: a = layout.data(n)
                    elif not n.startswith('.L') and re.match(r'^[A-Za-z_]\w*$', n): a = layout.data('.static.'+n)
                    else:
                        al = 64
                        prv = (prv+al-1)//al*al; a = prv; prv += max(end-off,sz,1)+64
                        im.privmap[a]=n
                    im.msym[mi][n]=a
                    if n in m.glob and n not in m.local: im.sym[n]=a
                    im.size[a]=max(sz,im.size.get(a,0))
                    starts.append((off,end,a))
                starts.sort()
                if not starts and s.off:   # anonymous data
                    continue
                relocs.append((mi,s,starts))
            for n,(sz,al,loc) in m.comm.items():
                if loc:
                    if not n.startswith('.L'): a=layout.data('.static.'+n)
                    else: prv=(prv+63)//64*64; a=prv; prv+=sz+64
                    im.msym[mi][n]=a; im.size[a]=sz
                    im.zero(a,sz)
                elif n not in defs:
                    a=layout.data(n); im.sym[n]=a; im.size[a]=com[n][0]; im.zero(a,com[n][0])
        for mi,m in enumerate(mods):
            for n,v in m.labels.items():
                if v[0]=='alias': im.msym[mi][n]=im.addr(mi,v[1])
        for mi,s,starts in relocs:
            import bisect
            offs=[x[0] for x in starts]
            for off,sz,sym,add in s.items:
                k = bisect.bisect_right(offs,off)-1
                if k<0: continue
                a = starts[k][2]+off-starts[k][0]
                if sym=='zero': im.zero(a,sz); continue
                if sym is None or sym==0: v=add
                else:
                    base=im.addr(mi,sym)
                    v = (base+add)&M64 if isint(add) else simp(bv(base)+add)
                im.put(a,sz,v)
    def put(im,a,sz,v):
        for i in range(sz):
            if isint(v): im.init[a+i]=(v>>(8*i))&255
            else: im.init[a+i]=simp(z3.Extract(8*i+7,8*i,v))
    def zero(im,a,n):
        if n>1<<20: raise Limit('huge object')
        for i in range(n): im.init[a+i]=0
    def addr(im, mi, n):
        n=n.replace('@plt','')
        s=im.msym[mi]
        if n in s: return s[n]
        if n in im.sym: return im.sym[n]
        m=im.mods[mi]
        if n.startswith('.L'): raise AsmError('undefined local label '+n)
        # external: function or data unknown; use layout
        if n in im.lay.g: a=im.lay.g[n]
        else: a=im.lay.text(n); im.funcs[a]=n
        im.sym[n]=a
        return a
    def tprel(im, mi, n):
        if (mi,n) in im.tlsaddr: return im.tlsaddr[(mi,n)]-TPB
        for (k,nn),a in im.tlsaddr.items():
            if nn==n: return a-TPB
        return im.lay.tlsoff(n)

# ------------------------------------------------------------------ FP
S32, D64 = z3.Float32(), z3.Float64()
RM = {'rne':z3.RNE(),'rtz':z3.RTZ(),'rdn':z3.RTN(),'rup':z3.RTP(),'rmm':z3.RNA(),'dyn':z3.RNE()}
QNAN32, QNAN64 = 0x7fc00000, 0x7ff8000000000000
_uf={}
def UF(name, *ws):
    k=(name,)+ws
    if k not in _uf: _uf[k]=z3.Function(name, *[z3.BitVecSort(w) for w in ws])
    return _uf[k]
COMM = {'fadd','fmul'}

class FPMode:
    exact=False
    axioms=[]
    used=False      # did any UF abstraction get used?
def arith_uf(name, w, x, y, comm=False):
    """uninterpreted stand-in for a costly operation (first attempt only)"""
    FPMode.used=True
    x=z3.simplify(x); y=z3.simplify(y)
    if name=='mul32':
        return z3.Extract(31,0,arith_uf('mul64',64,z3.SignExt(32,x),z3.SignExt(32,y),True))
    f=UF(name,w,w,w)
    if comm:
        if x.eq(y): r=f(x,x)
        else: r=z3.If(z3.ULE(x,y),f(x,y),f(y,x))
        for i in (8,15,16):
            for j in (8,15,16):
                FPMode.axioms.append(z3.Implies(z3.And(z3.ULT(x,1<<i),z3.ULT(y,1<<j)),z3.ULT(r,1<<(i+j))))
    else:
        r=f(x,y)
        if name.startswith('u'): FPMode.axioms.append(z3.ULE(r,x))
        if name.startswith('urem'): FPMode.axioms.append(z3.Or(y==0,z3.ULT(r,y)))
    return r
def hard(name, w, comm, exact):
    def z(p,q):
        if FPMode.exact or z3.is_bv_value(z3.simplify(p)) or z3.is_bv_value(z3.simplify(q)): return exact(p,q)
        return arith_uf(name,w,p,q,comm)
    return z
def tofp(b, w):
    return z3.fpBVToFP(bv(b,w), S32 if w==32 else D64)
def fpbits(f, w):
    return z3.If(z3.fpIsNaN(f), z3.BitVecVal(QNAN32 if w==32 else QNAN64, w), z3.fpToIEEEBV(f))
def concr(w,*vs):
    return all(isint(v) for v in vs)
def farith(op, w, *args):
    args=[bv(a,w) for a in args]
    allc = all(z3.is_bv_value(a) for a in args)
    if not FPMode.exact and not allc:
        FPMode.used=True
        args=[z3.simplify(a) for a in args]
        if op in COMM and not args[0].eq(args[1]):
            u=UF('%s.%d'%(op,w),w,w,w)
            return z3.If(z3.ULE(args[0],args[1]),u(args[0],args[1]),u(args[1],args[0]))
        return UF('%s.%d'%(op,w), *([w]*(len(args)+1)))(*args)
    f=[tofp(a,w) for a in args]; r=z3.RNE()
    v={'fadd':lambda:z3.fpAdd(r,f[0],f[1]),'fsub':lambda:z3.fpSub(r,f[0],f[1]),'fmul':lambda:z3.fpMul(r,f[0],f[1]),
       'fdiv':lambda:z3.fpDiv(r,f[0],f[1]),'fsqrt':lambda:z3.fpSqrt(r,f[0]),
       'fmadd':lambda:z3.fpFMA(r,f[0],f[1],f[2]),
       'fmsub':lambda:z3.fpFMA(r,f[0],f[1],z3.fpNeg(f[2])),
       'fnmsub':lambda:z3.fpFMA(r,z3.fpNeg(f[0]),f[1],f[2]),
       'fnmadd':lambda:z3.fpFMA(r,z3.fpNeg(f[0]),f[1],z3.fpNeg(f[2]))}[op]()
    return simp(fpbits(v,w))
def fminmax(op,w,a,b):
    a=bv(a,w); b=bv(b,w); fa,fb=tofp(a,w),tofp(b,w)
    na,nb=z3.fpIsNaN(fa),z3.fpIsNaN(fb)
    lt = z3.Or(z3.fpLT(fa,fb), z3.And(z3.fpEQ(fa,fb), z3.Extract(w-1,w-1,a)==1))
    pick = z3.If(lt,a,b) if op=='fmin' else z3.If(lt,b,a)
    q=z3.BitVecVal(QNAN32 if w==32 else QNAN64,w)
    return z3.If(z3.And(na,nb),q,z3.If(na,b,z3.If(nb,a,pick)))
def fcmp(op,w,a,b):
    fa,fb=tofp(a,w),tofp(b,w)
    c={'feq':z3.fpEQ,'flt':z3.fpLT,'fle':z3.fpLEQ}[op](fa,fb)
    return boolv(c)
def f2i(w, iw, signed, rm, a):
    """float of width w -> iw-bit int, RISC-V saturation, returns 64-bit"""
    a=bv(a,w)
    if not FPMode.exact and not z3.is_bv_value(a):
        FPMode.used=True
        return sext(UF('f2i.%d.%d.%s.%s'%(w,iw,'s' if signed else 'u',rm), w, iw)(a), iw) if iw<64 else UF('f2i.%d.%d.%s.%s'%(w,iw,'s' if signed else 'u',rm), w, 64)(a)
    f=tofp(a,w); srt=S32 if w==32 else D64
    r=z3.fpRoundToIntegral(RM[rm],f)
    mx=(1<<(iw-1))-1 if signed else (1<<iw)-1
    mn=-(1<<(iw-1)) if signed else 0
    conv=(z3.fpToSBV if signed else z3.fpToUBV)(RM[rm],f,z3.BitVecSort(iw))
    hi=z3.FPVal(float(mx+1),srt)   # exact power of two
    lowv=z3.FPVal(float(mn),srt)
    v=z3.If(z3.fpIsNaN(f),z3.BitVecVal(mx,iw),
       z3.If(z3.fpGEQ(r,hi),z3.BitVecVal(mx,iw),
        z3.If(z3.fpLT(r,lowv),z3.BitVecVal(mn,iw),conv)))
    v=simp(v)
    return sext(v,iw) if iw<64 else v
def i2f(iw, signed, w, a):
    a=lo(a,iw)
    a=bv(a,iw)
    if not FPMode.exact and not z3.is_bv_value(a):
        FPMode.used=True
        # 32-bit sources convert like the equal-valued 64-bit source
        return UF('i2f.%s.%d'%('s' if signed else 'u',w), 65, w)(z3.SignExt(65-iw,a) if signed else z3.ZeroExt(65-iw,a)) if False else UF('i2f.%d'%w, 65, w)(z3.SignExt(65-iw,a) if signed else z3.ZeroExt(65-iw,a))
    f=(z3.fpSignedToFP if signed else z3.fpUnsignedToFP)(z3.RNE(),a,S32 if w==32 else D64)
    return simp(fpbits(f,w))
def f2f(wf, wt, a):
    a=bv(a,wf)
    if wf==32:      # widening is exact: cheap enough to keep precise
        f=z3.fpFPToFP(z3.RNE(),tofp(a,32),D64)
        if not FPMode.exact and not z3.is_bv_value(a):
            FPMode.used=True
            return UF('f2f.32.64',32,64)(a)
        return simp(fpbits(f,64))
    if not FPMode.exact and not z3.is_bv_value(a):
        FPMode.used=True
        return UF('f2f.64.32',64,32)(a)
    return simp(fpbits(z3.fpFPToFP(z3.RNE(),tofp(a,64),S32),32))
def boolv(c):
    if c is True: return 1
    if c is False: return 0
    c=z3.simplify(c)
    if z3.is_true(c): return 1
    if z3.is_false(c): return 0
    return z3.If(c,z3.BitVecVal(1,64),z3.BitVecVal(0,64))
def box(v):
    if isint(v): return v|(0xffffffff<<32)
    return z3.Concat(z3.BitVecVal(0xffffffff,32),v)
def unbox(v):
    if isint(v): return v&0xffffffff if v>>32==0xffffffff else QNAN32
    if kind(v)==z3.Z3_OP_CONCAT and z3.is_bv_value(v.arg(0)) and v.arg(0).size()==32 and v.arg(0).as_long()==0xffffffff: 
        w=v.arg(1)
        return w.as_long() if z3.is_bv_value(w) else w
    return z3.If(z3.Extract(63,32,v)==0xffffffff, z3.Extract(31,0,v), z3.BitVecVal(QNAN32,32))

# libgcc soft-float for binary128: (nargs in 64-bit words, nresult words)
TF2 = {'__addtf3':(4,2),'__subtf3':(4,2),'__multf3':(4,2),'__divtf3':(4,2),
 '__extendsftf2':('f',2),'__extenddftf2':('d',2),'__trunctfsf2':(2,'f'),'__trunctfdf2':(2,'d'),
 '__fixtfsi':(2,'i32'),'__fixtfdi':(2,1),'__fixunstfsi':(2,'i32'),'__fixunstfdi':(2,1),
 '__floatsitf':('i32',2),'__floatditf':(1,2),'__floatunsitf':('i32',2),'__floatunditf':(1,2),
 '__eqtf2':(4,'i32'),'__netf2':(4,'i32'),'__lttf2':(4,'i32'),'__letf2':(4,'i32'),'__gttf2':(4,'i32'),'__getf2':(4,'i32'),'__unordtf2':(4,'i32'),
 '__negtf2':(2,2)}
TFALIAS={'__netf2':'__eqtf2','__letf2':'__lttf2','__gttf2':'__getf2'}

# ------------------------------------------------------------------ state
class State:
    __slots__=('x','f','mem','pc','path','events','steps','written','kind','msg','depth','fresh','reserved','retstack','aux')
    def clone(s):
        t=State()
        t.x=list(s.x); t.f=list(s.f); t.mem=dict(s.mem); t.pc=s.pc; t.path=list(s.path); t.events=list(s.events)
        t.steps=s.steps; t.written=set(s.written); t.kind=s.kind; t.msg=s.msg; t.depth=s.depth; t.fresh=s.fresh; t.reserved=s.reserved; t.retstack=list(s.retstack); t.aux=s.aux
        return t

class Stats:
    def __init__(s): s.queries=0; s.solver_s=0.0; s.insts=0; s.paths=0; s.unknown=0
    def add(s,o):
        s.queries+=o.queries; s.solver_s+=o.solver_s; s.insts+=o.insts; s.paths+=o.paths; s.unknown+=o.unknown

class Exec:
    def __init__(e, image, stats, externs=None, max_paths=200, max_steps=60000, max_cand=80, pre=(), stop=None, unmapped_ok=False, bufs=()):
        e.cut=False
        e.im=image; e.st=stats; e.externs=externs or {}
        e.max_paths=max_paths; e.max_steps=max_steps; e.max_cand=max_cand
        e.side=image.side; e.pre=list(pre)
        e.done=[]
        e.bufs=list(bufs)          # (addr,size) readable buffers, shared contents
        e.solver=z3.Solver(); e.solver.set('timeout',TIMEOUT[0])
        for p in e.pre: e.solver.add(p)
        e.imms=[]                  # symbolic immediates and their required ranges
        e.dec={}
        e.stop=stop
    # --- solver helpers
    def check(e, path, *conds):
        t=time.time()
        e.st.queries+=1
        e.solver.push()
        for p in path: e.solver.add(p)
        for c in conds: e.solver.add(c)
        for c in FPMode.axioms: e.solver.add(c)
        r=e.solver.check()
        mdl = e.solver.model() if r==z3.sat else None
        e.solver.pop()
        e.st.solver_s+=time.time()-t
        if r==z3.unknown: e.st.unknown+=1
        return r, mdl
    def init_state(e, pc, x=None, f=None):
        s=State(); s.x=[None]*32; s.f=[None]*32
        for i in range(32):
            s.x[i]=z3.BitVec('x%d_0'%i,64); s.f[i]=z3.BitVec('f%d_0'%i,64)
        s.x[0]=0; s.x[SP]=SP0; s.x[TP]=TPB; s.x[RA]=RETPC
        # registers that carry no argument are garbage private to the side
        for i in CALLER_X:
            s.x[i]=z3.BitVec('gx%d_%s'%(i,e.side),64)
        for i in CALLER_F: s.f[i]=z3.BitVec('gf%d_%s'%(i,e.side),64)
        for k,v in (x or {}).items(): s.x[k]=v
        for k,v in (f or {}).items(): s.f[k]=v
        s.mem={}; s.pc=pc; s.path=[]; s.events=[]; s.steps=0; s.written=set(); s.kind=None; s.msg=''; s.depth=0; s.fresh=0; s.reserved=None; s.retstack=[]; s.aux=None
        return s
    # --- memory
    def region_ok(e, a):
        if SP0-0x400000 <= a < SP0+0x10000: return True
        if GLB0 <= a < GLB0+0x10000000: return True
        if TPB <= a < TPB+0x100000: return True
        if e.im.prv <= a < e.im.prv_end: return True
        for b,n in e.bufs:
            if b<=a<b+n: return True
        if a in e.im.gotmem if hasattr(e.im,'gotmem') else False: return True
        return False
    def private(e,a):
        return a < SP0 and a >= SP0-0x400000 or e.im.prv<=a<e.im.prv_end
    def rd8(e, s, a):
        v=s.mem.get(a)
        if v is not None: return v
        if a in e.im.init and not (e.im.havoc and GLB0<=a<GLB0+0x10000000):
            v=e.im.init[a]
        elif e.private(a): v=z3.BitVec('u_%s_%x'%(e.side,a),8)
        else: v=z3.BitVec('m_%x'%a,8)
        return v
    def load_c(e, s, a, n):
        """n bytes at concrete address -> n*8-bit value"""
        b0=s.mem.get(a)
        if isinstance(b0,tuple) and b0[1]==0:
            v=b0[0]
            if all(s.mem.get(a+i)==(v,i) if isint(v) else (isinstance(s.mem.get(a+i),tuple) and s.mem[a+i][0] is v and s.mem[a+i][1]==i) for i in range(1,n)):
                return lo(v,8*n)
        parts=[]; conc=True; acc=0
        for i in range(n):
            b=e.rd8(s,a+i)
            if isinstance(b,tuple):
                v,k=b
                b=(v>>(8*k))&255 if isint(v) else z3.Extract(8*k+7,8*k,v)
            if not isint(b):
                if z3.is_bv_value(b): b=b.as_long()
                else: conc=False
            parts.append(b)
        if conc:
            for i,b in enumerate(parts): acc|=b<<(8*i)
            return acc
        if n==1: return parts[0]
        return z3.Concat(*[bv(b,8) for b in reversed(parts)])
    def fault(e, s, why):
        s.kind='fault'; s.msg=why; e.finish(s)
        return None
    def cands(e, s, a, n):
        """feasible concrete values of a symbolic address"""
        out=[]; conds=[]
        while True:
            r,m=e.check(s.path,*conds)
            if r==z3.unsat: break
            if r!=z3.sat: raise Limit('unknown while enumerating addresses')
            v=m.eval(a,model_completion=True).as_long()
            out.append(v); conds.append(a!=v)
            if len(out)>e.max_cand: raise Limit('too many candidate addresses')
        return sorted(out)
    def load(e, s, a, n):
        if not isint(a):
            a=simp(a)
        if isint(a):
            if not all(e.region_ok((a+i)&M64) for i in (0,n-1)): return e.fault(s,'load from unmapped %x'%a)
            return e.load_c(s,a,n)
        cs=e.cands(s,a,n)
        bad=[c for c in cs if not (e.region_ok(c) and e.region_ok(c+n-1))]
        if bad: return e.fault(s,'load from unmapped %x (symbolic)'%bad[0])
        v=bv(e.load_c(s,cs[-1],n),8*n)
        for c in reversed(cs[:-1]): v=z3.If(a==c,bv(e.load_c(s,c,n),8*n),v)
        return simp(v)
    def store_c(e,s,a,n,v,track=True):
        for i in range(n):
            s.mem[a+i]=(v,i)
            if not e.private(a+i): s.written.add(a+i)
    def store(e, s, a, n, v):
        """v: 64-bit or n*8-bit value"""
        if not isint(a): a=simp(a)
        if isint(v): v&=(1<<(8*n))-1
        if isint(a):
            if not all(e.region_ok((a+i)&M64) for i in (0,n-1)): return e.fault(s,'store to unmapped %x'%a)
            e.store_c(s,a,n,v); return True
        cs=e.cands(s,a,n)
        bad=[c for c in cs if not (e.region_ok(c) and e.region_ok(c+n-1))]
        if bad: return e.fault(s,'store to unmapped %x (symbolic)'%bad[0])
        vv=bv(lo(v,8*n),8*n)
        old={c:bv(e.load_c(s,c,n),8*n) for c in cs}
        # byte-wise: overlapping candidates handled by sequential ITE per byte
        upd={}
        for c in cs:
            for i in range(n):
                cur=upd.get(c+i)
                if cur is None:
                    b=e.load_c(s,c+i,1); cur=bv(b,8)
                upd[c+i]=z3.If(a==c,z3.Extract(8*i+7,8*i,vv),cur)
        for k,b in upd.items():
            s.mem[k]=(b,0)
            if not e.private(k): s.written.add(k)
        return True
    # --- operands
    def reg(e, t):
        try: return XR[t]
        except KeyError: raise AsmError('bad integer register `%s\''%t)
    def freg(e,t):
        try: return FR[t]
        except KeyError: raise AsmError('bad FP register `%s\''%t)
    def imm(e, s, m, mi, t, lo_, hi_, what):
        if t.startswith('%'):
            mt=re.match(r'^%(\w+)\((.*)\)$',t)
            if not mt: raise AsmError('bad reloc '+t)
            k,arg=mt.groups()
            if k=='lo':
                n,add=m.symadd(arg); a=e.im.addr(mi,n)+add; return sx(a,12)
            if k=='pcrel_lo':
                if arg.rstrip('bf').isdigit(): idx=e.numlabel(m,arg,e.cur)
                else:
                    v=m.labels.get(arg)
                    if v is None: raise AsmError('undefined label '+arg)
                    idx=v[1]
                ins=m.code[idx]
                mt2=re.match(r'^%(\w+)\((.*)\)$',ins[1][1])
                a=e.hi_target(mi,m,mt2.group(1),mt2.group(2))
                return sx(a,12)
            if k=='tprel_lo':
                n,add=m.symadd(arg); return sx(e.im.tprel(mi,n)+add,12)
            raise AsmError('unsupported reloc '+t)
        v=m.num(t)
        if isint(v):
            if not lo_<=v<=hi_: raise AsmError('illegal operand %s in `%s\''%(t,what))
            return v
        e.imms.append((list(s.path),v,lo_,hi_,what))
        return v
    def hi_target(e,mi,m,k,arg):
        n,add=m.symadd(arg)
        if k=='pcrel_hi': return e.im.addr(mi,n)+add
        if k=='got_pcrel_hi': return e.gotslot(mi,n)
        if k=='tls_ie_pcrel_hi': return e.gotslot(mi,n,'tprel')
        if k=='tls_gd_pcrel_hi': return e.gotslot(mi,n,'tlsgd')
        raise AsmError('unsupported reloc %'+k)
    def gotslot(e,mi,n,kind='addr'):
        im=e.im
        key=(n if n in im.sym or n not in im.msym[mi] else (mi,n),kind)
        if key not in im.got:
            a=im.prv_end-0x10000+16*len(im.got); im.got[key]=a
            if kind=='addr': v=im.addr(mi,n)
            elif kind=='tprel': v=im.tprel(mi,n)
            else: v=im.tprel(mi,n)   # tls_index: value used by __tls_get_addr model
            im.put(a,8,v)
        return im.got[key]
    def numlabel(e,m,t,cur):
        n=t[:-1]; L=m.numlab.get(n,[])
        if t[-1]=='b':
            c=[i for i in L if i<=cur]
            if not c: raise AsmError('no label '+t)
            return c[-1]
        c=[i for i in L if i>cur]
        if not c: raise AsmError('no label '+t)
        return c[0]
    def target(e,mi,m,t):
        """branch target -> address"""
        if re.match(r'^\d+[bf]$',t): return m.base+4*e.numlabel(m,t,e.cur)
        v=m.labels.get(t)
        if v and v[0]=='c': return m.base+4*v[1]
        if re.match(r'^\d+$',t):
            # gas: a bare number that is not a numeric-label reference is an absolute address
            raise AsmError('branch to absolute '+t)
        return e.im.addr(mi,t)
    def memop(e,s,m,mi,t):
        mt=re.match(r'^(.*)\((\w+)\)$',t)
        if not mt:
            # symbol operand pseudo:  lw a5,g
            n,add=m.symadd(t); return e.im.addr(mi,n)+add
        off,base=mt.groups()
        # %lo(x)(a5) keeps parentheses: regex is greedy so off may be '%lo(x)'
        b=s.x[e.reg(base)]
        o=e.imm(s,m,mi,off.strip(),-2048,2047,t) if off.strip() else 0
        if isint(b) and isint(o): return (b+o)&M64
        return bv(b)+bv(o&M64 if isint(o) else o)
    # --- run
    def run(e, entry, x=None, f=None, premem=None, path=()):
        s=e.init_state(e.im.sym[entry] if isinstance(entry,str) else entry, x, f)
        if premem: s.mem.update(premem)
        s.path=list(path)
        work=[s]
        while work:
            s=work.pop()
            e.steploop(s,work)
            if len(e.done)>=e.max_paths and work: e.cut=True; break
        return e.done
    def finish(e,s):
        e.done.append(s); e.st.paths+=1
    def setx(e,s,r,v):
        if r: s.x[r]=v
    def steploop(e,s,work):
        im=e.im
        while True:
            if s.kind: return
            pc=s.pc
            if not isint(pc):
                pc=simp(pc)
                if not isint(pc):
                    cs=e.cands(s,pc,1)
                    for c in cs:
                        t=s.clone(); t.path.append(pc==c); t.pc=c; work.append(t)
                    return
            if pc==RETPC:
                s.kind='ret'; e.finish(s); return
            if pc not in im.code:
                if pc in im.funcs:
                    if not e.extern(s,im.funcs[pc],work): return
                    continue
                e.fault(s,'jump to %x'%pc); return
            mi,i=im.code[pc]; m=im.mods[mi]
            if i>=len(m.code): e.fault(s,'fell off the end of .text'); return
            s.steps+=1; e.st.insts+=1
            if s.steps>e.max_steps:
                s.kind='steps'; s.msg='step bound'; e.finish(s); return
            op,a,raw=m.code[i]
            s.pc=m.base+4*(i+1)
            e.cur=i
            if not e.step(s,work,mi,m,op,a,raw): return
    def branch(e,s,work,cond,target):
        """cond: bool or z3 Bool"""
        if cond is True: s.pc=target; return True
        if cond is False: return True
        c=z3.simplify(cond)
        if z3.is_true(c): s.pc=target; return True
        if z3.is_false(c): return True
        r1,_=e.check(s.path,c)
        if r1==z3.unsat: 
            s.path.append(z3.Not(c)); return True
        r2,_=e.check(s.path,z3.Not(c))
        if r2==z3.unsat:
            s.path.append(c); s.pc=target; return True
        t=s.clone(); t.path.append(c); t.pc=target; work.append(t)
        s.path.append(z3.Not(c))
        return True
    def extern(e,s,name,work):
        ret=s.x[RA]
        if name in TF2:
            na,nr=TF2[name]; al=TFALIAS.get(name,name)
            if na=='f': ins=[(unbox(s.f[FA0]),32)]
            elif na=='d': ins=[(s.f[FA0],64)]
            elif na=='i32': ins=[(lo(s.x[A0],32),32)]
            else: ins=[(s.x[A0+k],64) for k in range(na)]
            iv=[bv(v,w) for v,w in ins]; ws=[w for _,w in ins]
            if nr=='i32' and na==4:
                p=z3.Concat(iv[1],iv[0]); q=z3.Concat(iv[3],iv[2])
                LT=UF('tf.lt',128,128,1); EQ=UF('tf.eq',128,128,1)
                eq=z3.If(z3.ULE(p,q),EQ(p,q),EQ(q,p))==1
                k=lambda n: z3.BitVecVal(n,64)
                if al=='__eqtf2': r=z3.If(eq,k(0),k(1))
                elif al=='__lttf2': r=z3.If(eq,k(0),z3.If(LT(p,q)==1,k(-1),z3.If(LT(q,p)==1,k(1),k(2))))
                elif al=='__getf2': r=z3.If(eq,k(0),z3.If(LT(q,p)==1,k(1),z3.If(LT(p,q)==1,k(-1),k(-2))))
                else: r=z3.If(z3.Or(eq,LT(p,q)==1,LT(q,p)==1),k(0),k(1))
                FPMode.axioms.append(z3.Not(z3.And(LT(p,q)==1,LT(q,p)==1)))
                FPMode.axioms.append(z3.Implies(eq,z3.And(LT(p,q)==0,LT(q,p)==0)))
            elif name=='__negtf2':
                r=[s.x[A0], s.x[A0+1]^(1<<63) if isint(s.x[A0+1]) else s.x[A0+1]^z3.BitVecVal(1<<63,64)]
                nr=2
            elif nr=='f': r=UF(al,*ws,32)(*iv)
            elif nr=='d': r=UF(al,*ws,64)(*iv)
            elif nr=='i32':
                r=z3.SignExt(32,UF(al,*ws,32)(*iv))
            elif name in('__addtf3','__multf3'):
                p=z3.Concat(iv[1],iv[0]); q=z3.Concat(iv[3],iv[2]); c=z3.ULE(p,q)
                lo_,hi_=z3.simplify(z3.If(c,p,q)),z3.simplify(z3.If(c,q,p))
                r=[UF(al+'.%d'%k,128,128,64)(lo_,hi_) for k in range(nr)]
            else: r=[UF(al+'.%d'%k,*ws,64)(*iv) for k in range(nr)]
            FPMode.used=True
            e.clobber(s)
            if nr=='f': s.f[FA0]=box(r)
            elif nr=='d': s.f[FA0]=r
            elif nr=='i32': s.x[A0]=r
            else:
                for k in range(nr): s.x[A0+k]=r[k]
            s.pc=ret; return True
        if name=='__tls_get_addr':
            off=e.load(s,s.x[A0],8)
            if off is None: return False
            e.clobber(s); s.x[A0]=(off+TPB)&M64 if isint(off) else off+TPB
            s.pc=ret; return True
        if name in ('memcpy','memset','memmove') and isint(s.x[A0+2]) and s.x[A0+2]<4096 and isint(s.x[A0]):
            n=s.x[A0+2]; d=s.x[A0]
            if name=='memset':
                v=lo(s.x[A0+1],8)
                for k in range(n):
                    if e.store(s,d+k,1,v) is None: return False
            else:
                if not isint(s.x[A0+1]): raise Limit('symbolic memcpy source')
                bs=[]
                for k in range(n):
                    b=e.load(s,s.x[A0+1]+k,1)
                    if b is None: return False
                    bs.append(b)
                for k in range(n):
                    if e.store(s,d+k,1,bs[k]) is None: return False
            e.clobber(s); s.x[A0]=d; s.pc=ret; return True
        sig=e.externs.get(name)
        if sig is None:
            e.fault(s,'call to undeclared external `%s\''%name); return False
        argk,retk=sig[0],sig[1]
        args=[]
        xi=fi=0; so=0
        sp=s.x[SP]
        for k in argk:
            if k in ('f','d'):
                v=s.f[FA0+fi]; fi+=1
                args.append(('f',lo(v,32)) if k=='f' else ('d',v))
            elif k=='i':
                args.append(('i',s.x[A0+xi])); xi+=1
            elif k=='w':    # only the low 32 bits are meaningful? ABI says extended: compare whole
                args.append(('i',s.x[A0+xi])); xi+=1
            elif k=='p':    # pointer argument: ignore when both are side-private
                args.append(('p',s.x[A0+xi])); xi+=1
            elif k=='s':    # 8-byte stack slot
                v=e.load(s,(sp+so)&M64 if isint(sp) else sp+so,8); so+=8
                if v is None: return False
                args.append(('i',v))
            elif k=='t':    # stack slot of an int: the high half is unspecified
                v=e.load(s,(sp+so)&M64 if isint(sp) else sp+so,4); so+=8
                if v is None: return False
                args.append(('i',v))
            elif k=='P':    # pointer to 16 bytes whose contents are compared
                p=s.x[A0+xi]; xi+=1
                v=e.load(s,p,16)
                if v is None: return False
                args.append(('m',v))
            elif k=='-': xi+=1
        spal = (sp%16==0) if isint(sp) else None
        nev=len(s.events)
        snap={k:s.mem[k] for k in s.written}
        s.events.append((name,args,spal,snap,sp))
        e.clobber(s)
        if len(sig)>2:
            for (addr,n) in sig[2]:      # memory the callee may modify
                base=e.im.lay.data(addr) if isinstance(addr,str) else addr
                for k in range(n):
                    s.mem[base+k]=(z3.BitVec('hv%d_%x'%(nev,base+k),8),0); s.written.add(base+k)
        if retk in ('i32','u32','bool','i8','u8','i16','u16'):
            w={'i32':32,'u32':32,'bool':1,'i8':8,'u8':8,'i16':16,'u16':16}[retk]
            v=z3.BitVec('ret%d_%s'%(nev,name),w)
            s.x[A0]=z3.SignExt(64-w,v) if retk in('i32','u32','i8','i16') else z3.ZeroExt(64-w,v)
        elif retk in('i64','u64'): s.x[A0]=z3.BitVec('ret%d_%s'%(nev,name),64)
        elif retk=='i128': 
            s.x[A0]=z3.BitVec('ret%d_%s'%(nev,name),64); s.x[A0+1]=z3.BitVec('retb%d_%s'%(nev,name),64)
        elif retk=='f': s.f[FA0]=box(z3.BitVec('ret%d_%s'%(nev,name),32))
        elif retk=='d': s.f[FA0]=z3.BitVec('ret%d_%s'%(nev,name),64)
        elif retk=='noreturn': s.kind='noreturn'; e.finish(s); return False
        s.pc=ret
        return True
    def clobber(e,s):
        s.fresh+=1
        t='%s_%d_%d'%(e.side,s.fresh,len(s.path))
        for i in CALLER_X: s.x[i]=z3.BitVec('cx%d_%s'%(i,t),64)
        for i in CALLER_F: s.f[i]=z3.BitVec('cf%d_%s'%(i,t),64)
        sp=s.x[SP]
        if isint(sp):
            for k in [k for k in s.mem if k<sp and k>=sp-0x100000]:
                s.mem[k]=(z3.BitVec('cm_%x_%s'%(k,t),8),0)
    # --- one instruction; returns False when the path is finished/forked away
    def step(e,s,work,mi,m,op,a,raw):
        fn=e.dec.get(op)
        if fn is None:
            fn=getattr(e,'i_'+op.replace('.','_'),None)
            if fn is None: fn=e.generic(op)
            e.dec[op]=fn
        return fn(s,work,mi,m,a,raw)
    def nops(e,a,n,raw):
        if len(a)!=n: raise AsmError('illegal operands `%s\''%raw.strip()[:60])
    def generic(e,op):
        # register-register and register-immediate ALU
        R=e.reg
        def w(f32): # word op
            return f32
        def alu(fn, ifn=None, rng=(-2048,2047), allow_imm=False):
            def go(s,work,mi,m,a,raw):
                e.nops(a,3,raw)
                rd=R(a[0]); x=s.x[R(a[1])]
                if a[2] in XR:
                    if ifn=='immonly': raise AsmError('illegal operands `%s\''%raw.strip()[:60])
                    y=s.x[XR[a[2]]]
                else:
                    if not allow_imm: raise AsmError('illegal operands `%s\''%raw.strip()[:60])
                    y=e.imm(s,m,mi,a[2],rng[0],rng[1],raw.strip()[:60])
                    if isint(y): y&=M64
                e.setx(s,rd,fn(x,y)); return True
            return go
        def both(c,z):
            def f(x,y):
                if isint(x) and isint(y): return c(x,y)&M64
                r=z(bv(x),bv(y))
                return r
            return f
        def both32(c,z):
            def f(x,y):
                x=lo(x,32); y=lo(y,32)
                if isint(x) and isint(y): return sx(c(x,y),32)&M64
                return z3.SignExt(32,z(bv(x,32),bv(y,32)))
            return f
        sh=lambda y,n: (y&(n-1)) if isint(y) else y
        def shl(x,y): return both(lambda p,q:p<<(q&63),lambda p,q:p<<(q&63))(x,y)
        def shr(x,y): return both(lambda p,q:p>>(q&63),lambda p,q:z3.LShR(p,q&63))(x,y)
        def sar(x,y): return both(lambda p,q:sx(p,64)>>(q&63),lambda p,q:p>>(q&63))(x,y)
        def add(x,y):
            if isint(x) and isint(y): return (x+y)&M64
            if isint(y) and y==0: return x
            if isint(x) and x==0: return y
            return bv(x)+bv(y)
        def cmpf(c,z):
            def f(x,y):
                if isint(x) and isint(y): return 1 if c(x,y) else 0
                return boolv(z(bv(x),bv(y)))
            return f
        slt=cmpf(lambda p,q:sx(p,64)<sx(q,64),lambda p,q:p<q)
        sltu=cmpf(lambda p,q:p<q,lambda p,q:z3.ULT(p,q))
        def mulz(p,q):
            if z3.is_bv_value(z3.simplify(p)): p,q=q,p
            q=z3.simplify(q)
            if not z3.is_bv_value(q): return p*q
            n=p.size(); c=sx(q.as_long(),n); acc=z3.BitVecVal(0,n); k=0
            while c:                      # signed-digit form: cheap for the solver
                if c&1:
                    d=2-(c&3); c-=d
                    t=p<<k if k else p
                    acc=acc+t if d==1 else acc-t
                c>>=1; k+=1
                if k>=n: break
            return acc
        def sdiv_(n):
            def c(p,q):
                p,q=sx(p,n),sx(q,n)
                if q==0: return -1
                r=abs(p)//abs(q); return r if (p<0)==(q<0) else -r
            def z(p,q):
                if FPMode.exact or z3.is_bv_value(z3.simplify(q)): return z3.If(q==0,z3.BitVecVal(-1,n),p/q)
                u=arith_uf('udiv%d'%n,n,z3.If(p<0,-p,p),z3.If(q<0,-q,q))
                return z3.If(q==0,z3.BitVecVal(-1,n),z3.If((p<0)!=(q<0),-u,u))
            return c,z
        def srem_(n):
            def c(p,q):
                p,q=sx(p,n),sx(q,n)
                if q==0: return p
                r=abs(p)%abs(q); return r if p>=0 else -r
            def z(p,q):
                if FPMode.exact or z3.is_bv_value(z3.simplify(q)): return z3.If(q==0,p,z3.SRem(p,q))
                u=arith_uf('urem%d'%n,n,z3.If(p<0,-p,p),z3.If(q<0,-q,q))
                return z3.If(q==0,p,z3.If(p<0,-u,u))
            return c,z
        def udiv_(n): return (lambda p,q:(1<<n)-1 if q==0 else p//q),(lambda p,q:z3.If(q==0,z3.BitVecVal(-1,n),z3.UDiv(p,q) if FPMode.exact or z3.is_bv_value(z3.simplify(q)) else arith_uf('udiv%d'%n,n,p,q)))
        def urem_(n): return (lambda p,q:p if q==0 else p%q),(lambda p,q:z3.If(q==0,p,z3.URem(p,q) if FPMode.exact or z3.is_bv_value(z3.simplify(q)) else arith_uf('urem%d'%n,n,p,q)))
        def wrap(nm,g):
            def k(n):
                c,z=g(n); return c,hard('%s%d'%(nm,n),n,False,z)
            return k
        sdiv,srem=sdiv_,srem_; udiv,urem=udiv_,urem_
        def mulh(sa,sb):
            def f(x,y):
                if isint(x) and isint(y):
                    X=sx(x,64) if sa else x; Y=sx(y,64) if sb else y
                    return ((X*Y)>>64)&M64
                X=z3.SignExt(64,bv(x)) if sa else z3.ZeroExt(64,bv(x)); Y=z3.SignExt(64,bv(y)) if sb else z3.ZeroExt(64,bv(y))
                return z3.Extract(127,64,X*Y)
            return f
        T={
         'add':alu(add,allow_imm=True),'addi':alu(add,'immonly',allow_imm=True),
         'sub':alu(both(lambda p,q:p-q,lambda p,q:p-q)),
         'and':alu(both(lambda p,q:p&q,lambda p,q:p&q),allow_imm=True),'andi':alu(both(lambda p,q:p&q,lambda p,q:p&q),'immonly',allow_imm=True),
         'or':alu(both(lambda p,q:p|q,lambda p,q:p|q),allow_imm=True),'ori':alu(both(lambda p,q:p|q,lambda p,q:p|q),'immonly',allow_imm=True),
         'xor':alu(both(lambda p,q:p^q,lambda p,q:p^q),allow_imm=True),'xori':alu(both(lambda p,q:p^q,lambda p,q:p^q),'immonly',allow_imm=True),
         'sll':alu(shl,allow_imm=True,rng=(0,63)),'slli':alu(shl,'immonly',allow_imm=True,rng=(0,63)),
         'srl':alu(shr,allow_imm=True,rng=(0,63)),'srli':alu(shr,'immonly',allow_imm=True,rng=(0,63)),
         'sra':alu(sar,allow_imm=True,rng=(0,63)),'srai':alu(sar,'immonly',allow_imm=True,rng=(0,63)),
         'slt':alu(slt,allow_imm=True),'slti':alu(slt,'immonly',allow_imm=True),'sltu':alu(sltu,allow_imm=True),'sltiu':alu(sltu,'immonly',allow_imm=True),
         'sgt':alu(lambda x,y:slt(y,x)),'sgtu':alu(lambda x,y:sltu(y,x)),
         'mul':alu(both(lambda p,q:p*q,hard('mul64',64,True,mulz))),'mulh':alu(mulh(1,1)),'mulhu':alu(mulh(0,0)),'mulhsu':alu(mulh(1,0)),
         'div':alu(both(*sdiv(64))),'divu':alu(both(*udiv(64))),'rem':alu(both(*srem(64))),'remu':alu(both(*urem(64))),
         'addw':alu(both32(lambda p,q:p+q,lambda p,q:p+q),allow_imm=True),'addiw':alu(both32(lambda p,q:p+q,lambda p,q:p+q),'immonly',allow_imm=True),
         'subw':alu(both32(lambda p,q:p-q,lambda p,q:p-q)),'mulw':alu(both32(lambda p,q:p*q,hard('mul32',32,True,mulz))),
         'divw':alu(both32(*sdiv(32))),'divuw':alu(both32(*udiv(32))),'remw':alu(both32(*srem(32))),'remuw':alu(both32(*urem(32))),
         'sllw':alu(both32(lambda p,q:p<<(q&31),lambda p,q:p<<(q&31)),allow_imm=True,rng=(0,31)),
         'slliw':alu(both32(lambda p,q:p<<(q&31),lambda p,q:p<<(q&31)),'immonly',allow_imm=True,rng=(0,31)),
         'srlw':alu(both32(lambda p,q:p>>(q&31),lambda p,q:z3.LShR(p,q&31)),allow_imm=True,rng=(0,31)),
         'srliw':alu(both32(lambda p,q:p>>(q&31),lambda p,q:z3.LShR(p,q&31)),'immonly',allow_imm=True,rng=(0,31)),
         'sraw':alu(both32(lambda p,q:sx(p,32)>>(q&31),lambda p,q:p>>(q&31)),allow_imm=True,rng=(0,31)),
         'sraiw':alu(both32(lambda p,q:sx(p,32)>>(q&31),lambda p,q:p>>(q&31)),'immonly',allow_imm=True,rng=(0,31)),
        }
        # unary pseudo
        def un(fn):
            def go(s,work,mi,m,a,raw):
                e.nops(a,2,raw); e.setx(s,R(a[0]),fn(s.x[R(a[1])])); return True
            return go
        z=lambda x:cmpf(lambda p,q:p==q,lambda p,q:p==q)(x,0)
        U={'mv':lambda x:x,'not':lambda x:(~x)&M64 if isint(x) else ~x,'neg':lambda x:(-x)&M64 if isint(x) else -x,
           'negw':lambda x:sext((-lo(x,32))&0xffffffff if isint(x) else -lo(x,32),32),
           'sext.w':lambda x:sext(lo(x,32),32),'sext.b':lambda x:sext(lo(x,8),8),'sext.h':lambda x:sext(lo(x,16),16),
           'zext.b':lambda x:zext(lo(x,8),8),'zext.h':lambda x:zext(lo(x,16),16),'zext.w':lambda x:zext(lo(x,32),32),
           'seqz':z,'snez':lambda x:cmpf(lambda p,q:p!=q,lambda p,q:p!=q)(x,0),
           'sltz':lambda x:slt(x,0),'sgtz':lambda x:slt(0,x)}
        # loads / stores
        L={'lb':(1,1),'lh':(2,1),'lw':(4,1),'ld':(8,1),'lbu':(1,0),'lhu':(2,0),'lwu':(4,0)}
        St={'sb':1,'sh':2,'sw':4,'sd':8}
        if op in T: return T[op]
        if op in U: return un(U[op])
        if op in L:
            n,sg=L[op]
            def go(s,work,mi,m,a,raw):
                e.nops(a,2,raw)
                v=e.load(s,e.memop(s,m,mi,a[1]),n)
                if v is None: return False
                e.setx(s,R(a[0]),v if n==8 else (sext(v,8*n) if sg else zext(v,8*n))); return True
            return go
        if op in St:
            n=St[op]
            def go(s,work,mi,m,a,raw):
                if len(a)==3:   # sw a0,sym,t0
                    n_,add=m.symadd(a[1]); ad=e.im.addr(mi,n_)+add
                else:
                    e.nops(a,2,raw); ad=e.memop(s,m,mi,a[1])
                return e.store(s,ad,n,s.x[R(a[0])]) is not None
            return go
        if op in ('flw','fld'):
            n=4 if op=='flw' else 8
            def go(s,work,mi,m,a,raw):
                v=e.load(s,e.memop(s,m,mi,a[1]),n)
                if v is None: return False
                s.f[e.freg(a[0])]=v if n==8 else box(v); return True
            return go
        if op in ('fsw','fsd'):
            n=4 if op=='fsw' else 8
            def go(s,work,mi,m,a,raw):
                if len(a)==3: n_,add=m.symadd(a[1]); ad=e.im.addr(mi,n_)+add
                else: ad=e.memop(s,m,mi,a[1])
                v=s.f[e.freg(a[0])]
                return e.store(s,ad,n,lo(v,8*n)) is not None
            return go
        # branches
        B={'beq':lambda x,y:eqv(x,y),'bne':lambda x,y:z3.Not(eqv(x,y)) if not isinstance(eqv(x,y),bool) else not eqv(x,y),
           'blt':lambda x,y:sx(x,64)<sx(y,64) if isint(x) and isint(y) else bv(x)<bv(y),
           'bge':lambda x,y:sx(x,64)>=sx(y,64) if isint(x) and isint(y) else bv(x)>=bv(y),
           'bltu':lambda x,y:x<y if isint(x) and isint(y) else z3.ULT(bv(x),bv(y)),
           'bgeu':lambda x,y:x>=y if isint(x) and isint(y) else z3.UGE(bv(x),bv(y))}
        B['bgt']=lambda x,y:B['blt'](y,x); B['ble']=lambda x,y:B['bge'](y,x); B['bgtu']=lambda x,y:B['bltu'](y,x); B['bleu']=lambda x,y:B['bgeu'](y,x)
        BZ={'beqz':'beq','bnez':'bne','bltz':'blt','bgez':'bge','bgtz':'bgt','blez':'ble'}
        if op in B:
            def go(s,work,mi,m,a,raw):
                e.nops(a,3,raw)
                return e.branch(s,work,B[op](s.x[R(a[0])],s.x[R(a[1])]),e.target(mi,m,a[2]))
            return go
        if op in BZ:
            f=B[BZ[op]]
            def go(s,work,mi,m,a,raw):
                e.nops(a,2,raw)
                return e.branch(s,work,f(s.x[R(a[0])],0),e.target(mi,m,a[1]))
            return go
        g=e.fpgen(op)
        if g: return g
        g=e.amogen(op)
        if g: return g
        raise AsmError('unknown instruction `%s\''%op)
    def i_nop(e,s,work,mi,m,a,raw): return True
    def i_fence(e,s,work,mi,m,a,raw): return True
    def i_ebreak(e,s,work,mi,m,a,raw): e.fault(s,'ebreak'); return False
    def i_li(e,s,work,mi,m,a,raw):
        e.nops(a,2,raw)
        v=m.num(a[1])
        if isint(v):
            if not -(1<<63)<=v<1<<64: raise AsmError('li out of range `%s\''%raw.strip()[:60])
            v&=M64
        e.setx(s,e.reg(a[0]),v); return True
    def i_la(e,s,work,mi,m,a,raw):
        n,add=m.symadd(a[1]); e.setx(s,e.reg(a[0]),(e.im.addr(mi,n)+add)&M64); return True
    i_lla=i_la
    def i_lui(e,s,work,mi,m,a,raw):
        t=a[1]
        mt=re.match(r'^%(\w+)\((.*)\)$',t)
        if mt:
            n,add=m.symadd(mt.group(2))
            if mt.group(1)=='hi': v=e.im.addr(mi,n)+add
            elif mt.group(1)=='tprel_hi': v=e.im.tprel(mi,n)+add
            else: raise AsmError('bad lui '+t)
            e.setx(s,e.reg(a[0]),(v-sx(v,12))&M64)
        else:
            v=m.num(t); 
            if not isint(v) or not 0<=v<=0xfffff and not -0x80000<=v<0: raise AsmError('lui range')
            e.setx(s,e.reg(a[0]),sx(v<<12,32)&M64)
        return True
    def i_auipc(e,s,work,mi,m,a,raw):
        mt=re.match(r'^%(\w+)\((.*)\)$',a[1])
        if not mt: raise AsmError('auipc operand')
        if mt.group(1)=='tprel_hi':
            n,add=m.symadd(mt.group(2)); v=e.im.tprel(mi,n)+add
            e.setx(s,e.reg(a[0]),(e.im.mods[mi].base+4*e.cur+v-sx(v,12))&M64); return True
        v=e.hi_target(mi,m,mt.group(1),mt.group(2))
        e.setx(s,e.reg(a[0]),(v-sx(v,12))&M64); return True
    def i_add(e,s,work,mi,m,a,raw):
        if len(a)==4: # add rd,rs,tp,%tprel_add(x)
            x,y=s.x[e.reg(a[1])],s.x[e.reg(a[2])]
            e.setx(s,e.reg(a[0]),(x+y)&M64 if isint(x) and isint(y) else bv(x)+bv(y)); return True
        if 'add!' not in e.dec: e.dec['add!']=e.generic('add')
        return e.dec['add!'](s,work,mi,m,a,raw)
    def i_j(e,s,work,mi,m,a,raw): s.pc=e.target(mi,m,a[0]); return True
    def i_tail(e,s,work,mi,m,a,raw): s.pc=e.im.addr(mi,a[0]); return True
    def i_jal(e,s,work,mi,m,a,raw):
        if len(a)==1: s.x[RA]=s.pc; s.pc=e.target(mi,m,a[0])
        else: 
            r=s.pc; s.pc=e.target(mi,m,a[1]); e.setx(s,e.reg(a[0]),r)
        return True
    def i_call(e,s,work,mi,m,a,raw):
        s.x[RA]=s.pc; s.pc=e.im.addr(mi,a[0]); return True
    def i_jalr(e,s,work,mi,m,a,raw):
        rd,rs,off=RA,None,0
        if len(a)==1:
            mt=re.match(r'^(-?\d*)\((\w+)\)$',a[0])
            if mt: off=int(mt.group(1) or 0); rs=e.reg(mt.group(2))
            else: rs=e.reg(a[0])
        elif len(a)==2:
            rd=e.reg(a[0]); mt=re.match(r'^(-?\d*)\((\w+)\)$',a[1])
            if mt: off=int(mt.group(1) or 0); rs=e.reg(mt.group(2))
            elif a[1] in XR: rs=XR[a[1]]
            else: rs=rd; rd=RA; off=m.num(a[1])
        else: rd=e.reg(a[0]); rs=e.reg(a[1]); off=m.num(a[2])
        v=s.x[rs]; t=(v+off)&M64 if isint(v) else (v+off if off else v)
        e.setx(s,rd,s.pc); s.pc=t
        return True
    def i_jr(e,s,work,mi,m,a,raw):
        mt=re.match(r'^(-?\d*)\((\w+)\)$',a[0])
        if mt: v=s.x[e.reg(mt.group(2))]; off=int(mt.group(1) or 0); s.pc=(v+off)&M64 if isint(v) else v+off
        else: s.pc=s.x[e.reg(a[0])]
        return True
    def i_ret(e,s,work,mi,m,a,raw): s.pc=s.x[RA]; return True
    def fpgen(e,op):
        F=e.freg; R=e.reg
        p=op.split('.')
        wd={'s':32,'d':64}
        def get(s,r,w):
            v=s.f[r]
            return unbox(v) if w==32 else v
        def put(s,r,w,v): s.f[r]=box(v) if w==32 else v
        if len(p)==2 and p[1] in wd:
            w=wd[p[1]]; o=p[0]
            if o in('fadd','fsub','fmul','fdiv','fsqrt','fmadd','fmsub','fnmadd','fnmsub'):
                n={'fsqrt':1,'fmadd':3,'fmsub':3,'fnmadd':3,'fnmsub':3}.get(o,2)
                def go(s,work,mi,m,a,raw):
                    if not n+1<=len(a)<=n+2: raise AsmError('illegal operands `%s\''%raw.strip()[:60])
                    put(s,F(a[0]),w,farith(o,w,*[get(s,F(t),w) for t in a[1:n+1]])); return True
                return go
            if o in('fmin','fmax'):
                def go(s,work,mi,m,a,raw):
                    put(s,F(a[0]),w,simp(fminmax(o,w,get(s,F(a[1]),w),get(s,F(a[2]),w)))); return True
                return go
            if o in('feq','flt','fle','fgt','fge'):
                def go(s,work,mi,m,a,raw):
                    e.nops(a,3,raw)
                    x,y=get(s,F(a[1]),w),get(s,F(a[2]),w); oo=o
                    if o=='fgt': x,y,oo=y,x,'flt'
                    if o=='fge': x,y,oo=y,x,'fle'
                    e.setx(s,R(a[0]),fcmp(oo,w,x,y)); return True
                return go
            sg=1<<(w-1)
            def un(fn):
                def go(s,work,mi,m,a,raw):
                    e.nops(a,2,raw)
                    put(s,F(a[0]),w,fn(get(s,F(a[1]),w))); return True
                return go
            if o=='fneg': return un(lambda v:v^sg if isint(v) else v^z3.BitVecVal(sg,w))
            if o=='fabs': return un(lambda v:v&~sg if isint(v) else v&z3.BitVecVal(sg-1,w))
            if o=='fmv':
                def go(s,work,mi,m,a,raw): s.f[F(a[0])]=s.f[F(a[1])] if w==64 else box(get(s,F(a[1]),32)); return True
                return go
            if o in('fsgnj','fsgnjn','fsgnjx'):
                def go(s,work,mi,m,a,raw):
                    e.nops(a,3,raw)
                    if o=='fsgnj' and a[1]==a[2]:
                        s.f[F(a[0])]=s.f[F(a[1])] if w==64 else box(get(s,F(a[1]),32)); return True
                    x=bv(get(s,F(a[1]),w),w); y=bv(get(s,F(a[2]),w),w)
                    sb=y&z3.BitVecVal(sg,w); mag=x&z3.BitVecVal(sg-1,w)
                    if o=='fsgnjn': sb=sb^z3.BitVecVal(sg,w)
                    r=(mag|sb) if o!='fsgnjx' else x^sb
                    put(s,F(a[0]),w,simp(r)); return True
                return go
        if p[0]=='fmv':
            k=p[1:]
            if k in(['x','d'],['x','w'],['x','s']):
                w=64 if k[1]=='d' else 32
                def go(s,work,mi,m,a,raw):
                    e.nops(a,2,raw)
                    v=s.f[F(a[1])]; e.setx(s,R(a[0]),v if w==64 else sext(lo(v,32),32)); return True
                return go
            if k in(['d','x'],['w','x'],['s','x']):
                w=64 if k[0]=='d' else 32
                def go(s,work,mi,m,a,raw):
                    e.nops(a,2,raw)
                    v=s.x[R(a[1])]; s.f[F(a[0])]=v if w==64 else box(lo(v,32)); return True
                return go
        if p[0]=='fcvt' and len(p)==3:
            d,sr=p[1],p[2]
            ity={'w':(32,True),'wu':(32,False),'l':(64,True),'lu':(64,False)}
            if d in ity and sr in wd:
                def go(s,work,mi,m,a,raw):
                    rm=a[2] if len(a)>2 else 'dyn'
                    if rm=='dyn': rm='rne'
                    if rm not in RM: raise AsmError('bad rounding mode '+rm)
                    e.setx(s,R(a[0]),f2i(wd[sr],ity[d][0],ity[d][1],rm,get(s,F(a[1]),wd[sr]))); return True
                return go
            if d in wd and sr in ity:
                def go(s,work,mi,m,a,raw):
                    put(s,F(a[0]),wd[d],i2f(ity[sr][0],ity[sr][1],wd[d],s.x[R(a[1])])); return True
                return go
            if d in wd and sr in wd:
                def go(s,work,mi,m,a,raw):
                    put(s,F(a[0]),wd[d],f2f(wd[sr],wd[d],get(s,F(a[1]),wd[sr]))); return True
                return go
        return None
    def amogen(e,op):
        mt=re.match(r'^(lr|sc|amo\w+)\.(w|d)(\.\w+)?$',op)
        if not mt: return None
        o,w=mt.group(1),mt.group(2); n=4 if w=='w' else 8
        R=e.reg
        def addr(s,t): return s.x[e.reg(re.match(r'^0?\((\w+)\)$',t).group(1))]
        def go(s,work,mi,m,a,raw):
            ad=addr(s,a[-1])
            if o=='sc':
                s.reserved=None
                if e.store(s,ad,n,s.x[R(a[1])]) is None: return False
                e.setx(s,R(a[0]),0); return True
            v=e.load(s,ad,n)
            if v is None: return False
            old=v if n==8 else sext(v,32)
            if o=='lr': s.reserved=True; e.setx(s,R(a[0]),old); return True
            y=s.x[R(a[1])]
            if o=='amoswap': nv=y
            else:
                A=bv(old); Y=bv(y)
                nv=simp({'amoadd':A+Y,'amoand':A&Y,'amoor':A|Y,'amoxor':A^Y}[o])
            if e.store(s,ad,n,nv) is None: return False
            e.setx(s,R(a[0]),old); return True
        return go
