from report import Report
import core, sx, rv, z3, random, itertools
from c09 import Holes, sy
BV=lambda v,w=32: z3.BitVecVal(v,w)
def Z(b): return z3.ZeroExt(24,b) if not isinstance(b,int) else BV(b)
def hexv(b): c=Z(b); return z3.If(z3.ULE(c,57),c-48,(c|32)-87)
class It:
    """one element of a literal: source segments, alternatives [(condition, how)], how: ('unit',v) one code unit as is, ('cp',v) a code point; extra: constraint"""
    def __init__(s,segs,alts,assume=()): s.segs=segs; s.alts=alts; s.assume=list(assume)
cnt=itertools.count()
def nm(): return 'v%d'%next(cnt)
def plain(t): return It([t],[(True,[('cp',BV(ord(c))) for c in t])])
def ascii1():
    n=nm(); return It([{'sym':n,'n':1,'in':[[32,33],[35,38],[40,91],[93,126]]}],[(True,[('cp',Z(sx.B(n)))])])
def quote(c): return It([c],[(True,[('cp',BV(ord(c)))])])
SIMPLE={'a':7,'b':8,'t':9,'n':10,'v':11,'f':12,'r':13,'e':27,'\\':92,"'":39,'"':34,'?':63}
def simple():
    n=nm(); b=Z(sx.B(n)); v=b
    for k,x in SIMPLE.items(): v=z3.If(b==ord(k),BV(x),v)
    return It(['\\',sy(n,1,'abtnvfre'),],[(True,[('unit',v)])])
def simple2():
    n=nm(); return It(['\\',{'sym':n,'n':1,'in':[[34,34],[39,39],[63,63],[92,92]]}],[(True,[('unit',Z(sx.B(n)))])])
def octal(k,lim=0xff):
    n=nm(); v=BV(0)
    for i in range(k): v=v*8+(Z(sx.B(n,i))-48)
    return It(['\\',sy(n,k,'0-7')],[(True,[('unit',v)])],[z3.ULE(v,lim)])
def hexa(k,lim):
    n=nm(); v=BV(0)
    for i in range(k): v=v*16+hexv(sx.B(n,i))
    return It(['\\x',sy(n,k,'0-9a-fA-F')],[(True,[('unit',v)])],[z3.ULE(v,lim)])
def utf8(k):
    lead={2:(0xC2,0xDF,0x1F),3:(0xE0,0xEF,0x0F),4:(0xF0,0xF4,7)}[k]
    # lead byte and continuation bytes have their own ranges: separate names
    m=[nm() for _ in range(k)]; b=[Z(sx.B(x)) for x in m]; c=b[0]&lead[2]
    for i in range(1,k): c=(c<<6)|(b[i]&63)
    a=[] if k==2 else [z3.UGE(c,0x800),z3.Or(z3.ULT(c,0xD800),z3.UGE(c,0xE000))] if k==3 else [z3.UGE(c,0x10000),z3.ULE(c,0x10FFFF)]
    return It([{'sym':m[0],'n':1,'in':[[lead[0],lead[1]]]}]+[{'sym':x,'n':1,'in':[[0x80,0xBF]]} for x in m[1:]],[(True,[('cp',c)])],a)
H='0-9a-fA-F'
UCN=[('00',['a-fA-F',H]),('0',['1-9a-fA-F',H,H]),('',['1-9a-cA-CefEF',H,H,H]),('',['dD','0-7',H,H])]      # every scalar value from A0 to FFFF
def ucn(k,variant=2):
    """variant 0-3: UCN; 4: planes 1-15, 5: plane 16 (8 digits)"""
    head,ds=UCN[variant] if variant<4 else ('000',['1-9a-fA-F',H,H,H,H]) if variant==4 else ('0010',[H,H,H,H])
    if k==8 and variant<4: head='0000'+head
    v=BV(int(head or '0',16)); segs=['\\'+('u' if k==4 else 'U')+head]
    for d in ds: n=nm(); v=v*16+hexv(sx.B(n)); segs.append(sy(n,1,d))
    return It(segs,[(True,[('cp',v)])])
PRE={'':('char',8,1),'u8':('char',8,1),'u':('unsigned short',16,2),'U':('unsigned',32,3),'L':('int',32,4)}
def units(pre,how):
    """-> [(cond, [unit terms of the element width])]"""
    w=PRE[pre][1]; kind,v=how; X=lambda t:z3.Extract(w-1,0,t)
    if kind=='unit' or w==32: return [(True,[X(v)])]
    if w==16:
        c=v-0x10000
        return [(z3.ULT(v,0x10000),[X(v)]),(z3.UGE(v,0x10000),[X(0xD800+z3.LShR(c,10)),X(0xDC00+(c&0x3FF))])]
    return [(z3.ULT(v,0x80),[X(v)]),(z3.And(z3.UGE(v,0x80),z3.ULT(v,0x800)),[X(0xC0|z3.LShR(v,6)),X(0x80|(v&63))]),
            (z3.And(z3.UGE(v,0x800),z3.ULT(v,0x10000)),[X(0xE0|z3.LShR(v,12)),X(0x80|(z3.LShR(v,6)&63)),X(0x80|(v&63))]),
            (z3.UGE(v,0x10000),[X(0xF0|z3.LShR(v,18)),X(0x80|(z3.LShR(v,12)&63)),X(0x80|(z3.LShR(v,6)&63)),X(0x80|(v&63))])]
def T(c): return z3.BoolVal(c) if isinstance(c,bool) else c
def expected(pre,items):
    alts=[(z3.BoolVal(True),[])]
    for it in items:
        for c0,hs in it.alts:
            for h in hs:
                alts=[(z3.And(c,T(c1)),u+u1) for c,u in alts for c1,u1 in units(pre,h)]
                alts=[(z3.simplify(c),u) for c,u in alts]; alts=[(c,u) for c,u in alts if not z3.is_false(c)]
    return alts
def rd(im,name,n,size):
    a=im.sym[name]; out=[]
    for i in range(n):
        bs=[im.init.get(a+i*size+j,0) for j in range(size)]
        bs=[BV(b,8) if isinstance(b,int) else rv.bv(b,8) if not z3.is_bv(b) else (b if b.size()==8 else z3.Extract(7,0,b)) for b in bs]
        out.append(z3.Concat(*reversed(bs)) if size>1 else bs[0])
    return out,im.size[a]
def strcase(key,lits):
    """lits: [(prefix, items)]: adjacent literals"""
    eff=next((p for p,_ in lits if p in('u','U','L')),'u8' if any(p=='u8' for p,_ in lits) else '')
    items=[i for _,its in lits for i in its]
    src=[]
    for j,(p,its) in enumerate(lits):
        src+=[(' ' if j else '')+p+'"']+[s for i in its for s in i.segs]+['"']
    T_,w,code=PRE[eff]
    segs=[T_+' a[]=']+src+['; unsigned long n=sizeof(']+src+['); int t=_Generic(('] + src+[')+0,char*:1,unsigned short*:2,unsigned*:3,int*:4,default:9);\n']
    exp=expected(eff,items)
    def conds(im,exp):
        o=[]
        for c,u in exp:
            k=len(u)+1; sz=w//8
            got,tot=rd(im,'a',k,sz); nn,_=rd(im,'n',1,8); tt,_=rd(im,'t',1,4)
            if tot!=k*sz: o.append(('the array has %d bytes, expected %d'%(tot,k*sz),c)); continue
            o.append(('wrong code unit',z3.And(c,z3.Or(*[g!=x for g,x in zip(got,u+[BV(0,w)])]))))
            o.append(('wrong sizeof',z3.And(c,nn[0]!=k*sz))); o.append(('wrong element type',z3.And(c,tt[0]!=code)))
        return o
    return case(key,segs,[a for i in items for a in i.assume],exp,conds)
def case(key,segs,assume,exp,conds):
    def bad(p):
        if p.status!=0: return [('a valid literal is rejected: '+p.out.get('<stderr>','')[-60:],True)]
        return conds(rv.Image([rv.Module(p.out.get('/o/a.s',''),Holes(p),tag='A')],rv.Layout(),'A'),exp)
    def confirm(txt,m):
        rc,asm,err=core.native_asm(txt)
        if rc: return 'exit %d: %s'%(rc,err[-200:])
        im=rv.Image([rv.Module(asm,None,tag='A')],rv.Layout(),'A')
        sub=[(z3.BitVec(k,8),BV(v&255,8)) for k,v in m.items() if '#' in k]
        for l,c in conds(im,exp):
            c=z3.simplify(z3.substitute(T(c),*sub))
            if z3.is_true(c): return l+'; emitted: '+' '.join(x.strip() for x in asm.split('\n') if '.byte' in x or '.zero' in x)[:300]
        return None
    return dict(key=key,segs=segs,bad=bad,confirm=confirm,assume=assume)
CT={'':('int',32,1),'L':('int',32,1),'u':('unsigned short',16,2),'U':('unsigned',32,3)}
def chcase(key,pre,it):
    lit=[pre+"'"]+it.segs+["'"]
    segs=['long v[3]={']+lit+[',sizeof(']+lit+['),_Generic(']+lit+[',int:1,unsigned short:2,unsigned:3,default:9)};\n']
    (kind,v),=it.alts[0][1]
    if pre=='': val=z3.SignExt(56,z3.Extract(7,0,v))     # char is signed in toycc
    elif pre=='L': val=z3.SignExt(32,v)
    elif pre=='u': val=z3.ZeroExt(48,z3.Extract(15,0,v))
    else: val=z3.ZeroExt(32,v)
    def conds(im,exp):
        g,_=rd(im,'v',3,8)
        return [('wrong value',g[0]!=val),('wrong size',g[1]!=CT[pre][1]//8),('wrong type',g[2]!=CT[pre][2])]
    return case(key,segs,list(it.assume),None,conds)
def run():
    r=Report('C10','bounded_symbolic','the whole compiler (LLVM bitcode) runs on string and character literals whose characters are symbolic; the solver decides, for every value of them, that the emitted array holds exactly the code units, size and element type (and the constant the value and type) C prescribes')
    gs=[]; MX={'':0xff,'u8':0xff,'u':0xffff,'U':0xffffffff,'L':0xffffffff}
    def s1(key,mk,pres=('','u8','u','U','L')):
        for p in pres: gs.append(strcase('%s"%s"'%(p,key),[(p,mk(p))]))
    s1('empty',lambda p:[]); s1('abc',lambda p:[ascii1(),ascii1(),ascii1()]); s1("'",lambda p:[quote("'"),ascii1()])
    s1('\\c',lambda p:[ascii1(),ascii1(),simple(),simple2()])
    for k in (1,2,3):
        s1('octal%d'%k,lambda p:[octal(k,MX[p] if k==3 else 0xff),plain('8' if k<3 else '7'),ascii1()])
        s1('octal%dend'%k,lambda p:[plain('x'),octal(k)]); 
    for k in (1,2,3,4,5,8):
        for p in PRE:
            if k>2 and PRE[p][1]==8: s1('hexlead%d'%k,lambda q:[hexa(k,MX[q]),plain('g')],(p,)); continue
            s1('hex%d'%k,lambda q:[hexa(k,MX[q]),plain('g'),ascii1()],(p,)); s1('hex%dend'%k,lambda q:[hexa(k,MX[q])],(p,))
    for k in (2,3,4):
        s1('utf8-%d'%k,lambda p:[ascii1(),utf8(k),plain('z')]); s1('utf8-%d%d'%(k,2),lambda p:[utf8(k),utf8(2)])
    for v in range(4): s1('u4-%d'%v,lambda p:[ucn(4,v),plain('0')])
    for v in range(6): s1('U8-%d'%v,lambda p:[plain('a'),ucn(8,v)])
    s1('\\\\u',lambda p:[It(['\\\\'],[(True,[('unit',BV(92))])]),plain('u0041')]); s1('nul',lambda p:[plain('a\0'[:1]),It(['\\0'],[(True,[('unit',BV(0))])]),ascii1()] if 0 else [plain('a'),It(['\\0'],[(True,[('unit',BV(0))])]),plain('z'),ascii1()])
    s1('long',lambda p:[plain('0123456789'*12),ascii1()])
    mixes=[('',''),('','u8'),('u8',''),('u8','u8'),('','u'),('u',''),('','U'),('U',''),('','L'),('L',''),('u','u'),('U','U'),('L','L')]
    for a,b in mixes:
        E=next((p for p in (a,b) if p in('u','U','L')),'u8' if 'u8' in (a,b) else '')
        gs.append(strcase('%s".." %s".."'%(a,b),[(a,[ascii1(),utf8(3)]),(b,[utf8(2),ascii1()])]))
        gs.append(strcase('%s"4" %s"\\."'%(a,b),[(a,[utf8(4),simple()]),(b,[octal(2),plain('8')])]))
        gs.append(strcase('%s"\\x" %s"0"'%(a,b),[(a,[hexa(2,0xff)]),(b,[plain('0'),ascii1()])]))
        gs.append(strcase('%s"" %s"a"'%(a,b),[(a,[]),(b,[ascii1()])])); gs.append(strcase('%s"a" %s""'%(a,b),[(a,[ascii1()]),(b,[])]))
        for c in ('',a or b):
            gs.append(strcase('%s %s %s'%(a,b,c),[(a,[ascii1()]),(b,[ucn(4)]),(c,[utf8(4)])]))
    for p in ('','L','u','U'):
        def c1(key,it): gs.append(chcase("%s'%s'"%(p,key),p,it))
        c1('a',ascii1()); c1('\\c',simple()); c1('\\q',simple2()); c1('"',quote('"'))
        for k in (1,2,3): c1('octal%d'%k,octal(k,MX[p]))
        for k in (1,2,3,4,8):
            c1('hex%d'%k,hexa(k,MX[p]))
        if p:
            for k in (2,3,4):
                if not(p=='u' and k==4): c1('utf8-%d'%k,utf8(k))
            for v in range(4): c1('u4-%d'%v,ucn(4,v)); c1('U8-%d'%v,ucn(8,v))
            if p!='u': c1('U8-4',ucn(8,4)); c1('U8-5',ucn(8,5))
    sx.run(r,'literals',gs,abshash=True)
    # concatenation of differently prefixed literals, and malformed literals, are diagnosed
    bads=[]
    def rejected(key,segs):
        def bad(p): return [('a malformed literal is accepted',True)] if p.status==0 else [('no diagnostic',True)] if not p.out.get('<stderr>','').strip() else []
        def confirm(txt,m):
            rc,asm,err=core.native_asm(txt); return 'accepted' if rc==0 else 'exit %d without a diagnostic or by a signal'%rc if sx.crashed(rc) or not err.strip() else None
        bads.append(dict(key=key,segs=segs,bad=bad,confirm=confirm))
    for a,b in itertools.permutations(('u8','u','U','L'),2): rejected('%s %s'%(a,b),['void *p='+a+'"',sy('a',1,'a-z'),'" '+b+'"',sy('b',1,'a-z'),'";\n']); rejected('%s "" %s'%(a,b),['void *p='+a+'"',sy('a',1,'a-z'),'" "x" '+b+'"";\n'])
    for p in ('','u8','u','U','L'):
        rejected(p+'"\\xg',['void *p='+p+'"\\x',sy('a',1,'g-zG-Z'),'";\n'])
        if p!='u8': rejected(p+"'\\xg",['int x='+p+"'\\x",sy('a',1,'g-zG-Z'),"';\n"]); rejected(p+"''",['int x='+p+"'';\n"]); rejected(p+"'''",['int x='+p+"''';\n"]); rejected(p+"''+'a'",['int x='+p+"''+'",sy('a',1,'a-z'),"';\n"])
    sx.run(r,'malformed literals are diagnosed',bads)
    r.bounds=['literals of up to 5 symbolic elements: any printable character, any escape, any octal/hexadecimal digits (values in range), any scalar value as UTF-8 or universal character name, two or three adjacent literals','excluded: multi-character constants, non-ASCII in unprefixed character constants, out-of-range escapes, universal character names below A0 (constraint violations or implementation-defined)']
    r.assume=['char is signed (toycc\'s choice)']
    return r.finish()
