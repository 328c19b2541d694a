"""Linkage, storage and symbol emission: declaration sequences with symbolic choices, reference graphs with symbolic edges."""
from report import Report
import core, sx, z3, os, struct, subprocess, tempfile, shutil, hashlib, itertools
B=sx.B
class NoAsm(Exception): pass
def elf(asm):
    """assemble -> {name: (bind, type, kind, size, align, content)} of the symbol table"""
    d=tempfile.mkdtemp(dir=core.scratch())
    try:
        open(d+'/a.s','w').write(asm)
        p=subprocess.run(['riscv64-linux-gnu-as','-march=rv64g','-o',d+'/a.o',d+'/a.s'],stdout=-1,stderr=-1)
        if p.returncode: raise NoAsm(p.stderr.decode()[-200:])
        b=open(d+'/a.o','rb').read()
    finally: shutil.rmtree(d,ignore_errors=True)
    shoff=struct.unpack_from('<Q',b,40)[0]; n=struct.unpack_from('<H',b,60)[0]
    S=[struct.unpack_from('<IIQQQQIIQQ',b,shoff+64*i) for i in range(n)]
    st=next(s for s in S if s[1]==2); strs=S[st[6]][4]
    rel={}
    for s in S:
        if s[1]==4:
            for o in range(s[4],s[4]+s[5],24): a,i,ad=struct.unpack_from('<QQq',b,o); rel.setdefault(s[7],[]).append((a,i>>32,i&0xffffffff,ad))
    syms={}; names=[]
    raw=[struct.unpack_from('<IBBHQQ',b,o) for o in range(st[4],st[4]+st[5],24)]
    for nm,info,oth,shn,val,size in raw:
        e=b.index(b'\0',strs+nm); names.append(b[strs+nm:e].decode('latin1'))
    used={names[x[1]] for k,v in rel.items() for x in v}
    for (nm,info,oth,shn,val,size),name in zip(raw,names):
        if not name or name.startswith('.L0') or (info&15) in(3,4): continue
        bind='local' if info>>4==0 else 'global'; t={0:'notype',1:'object',2:'func',6:'tls'}.get(info&15,'?')
        if shn==0: syms[name]=(bind,t,'undef',0,0,None,()); continue
        if shn==0xfff2: syms[name]=(bind,t,'common',size,val,b'\0'*size,()); continue
        if shn>=0xff00: continue
        s=S[shn]; fl=s[2]; kind='text' if fl&4 else ('tls' if fl&0x400 else ('data' if fl&1 else 'rodata'))
        end=val+size if size else min([r[4] for r in raw if r[3]==shn and r[4]>val]+[s[5]])
        body=b'\0'*(end-val) if s[1]==8 else b[s[4]+val:s[4]+end]
        al=(val&-val) if val else 1<<30; rr=tuple(sorted((a-val,names[i],t_,ad) for a,i,t_,ad in rel.get(shn,()) if val<=a<end))
        if name in syms: raise NoAsm('two symbols '+name)
        syms[name]=(bind,t,kind,size,min(al,s[8]),body,rr)
    return syms,used
def pathasm(p):
    a=p.out.get('/o/a.s','')
    return a
OBJ=[('','',''),('extern ','',''),('static ','',''),('','=1',''),('extern ','=1',''),('static ','=1',''),('','=0','')]
TYPES={'int':('int x%s',4,4,'=7',b'\7\0\0\0'),'char':('char x%s',1,1,'=7',b'\7'),'long':('long x%s',8,8,'=7',b'\7'+b'\0'*7),'array':('char x[5]%s',5,1,'="ab"',b'ab\0\0\0'),'struct':('struct S{char a;int b;} x%s',None,4,'={1,2}',b'\1\0\0\0\2\0\0\0'),
 'struct9':('struct T x%s',12,4,'={1,2,3}',b'\1\0\0\0\2\0\0\0\3\0\0\0'),'pointer':('char *x%s',8,8,'=(char*)9',b'\t'+b'\0'*7),'double':('double x%s',8,8,'=1.0',struct.pack('<d',1.0)),'aligned':('_Alignas(32) int x%s',4,32,'=7',b'\7\0\0\0'),'short array':('short x[3]%s',6,2,'={1,2}',b'\1\0\2\0\0\0'),'big':('int x[300]%s',1200,4,'={5}',b'\5'+b'\0'*1199),'two-dim':('char x[2][3]%s',6,1,'={1}',b'\1\0\0\0\0\0'),'bool':('_Bool x%s',1,1,'=5',b'\1'),'float':('float x%s',4,4,'=1.0',struct.pack('<f',1.0)),'function pointer':('int (*x)(void)%s',8,8,'=0',b'\0'*8)}
def objspec(seq):
    """-> None when out of scope, else (linkage, 'undef'|'tentative'|'init')"""
    link=None; inits=0; tent=False
    for st,ini in seq:
        if st=='static ':
            if link=='global': return None
            link='local'
        elif st=='extern ':
            if link is None: link='global'
        else:
            if link=='local': return None
            link='global'
        if ini: inits+=1
        elif st!='extern ': tent=True
    if inits>1: return None
    return link,('init' if inits else 'tentative' if tent else 'undef')
def chk(syms,name,link,state,size,align,content,tls=False,common=None):
    s=syms.get(name); o=[]
    if state=='undef':
        if s and s[2]!='undef': o.append('%s is defined though only declared'%name)
        return o
    if not s or s[2]=='undef': return ['%s is not defined'%name]
    if s[0]!=link: o.append('%s has %s binding, C gives it %s linkage'%(name,s[0],link))
    if s[2]=='common' and (state=='init' or common is False or tls or link=='local'): o.append('%s is a common symbol'%name)
    if s[2] not in(('tls',) if tls else ('data','common')): o.append('%s is in a %s section'%(name,s[2]))
    if tls and s[1] not in('tls','notype'): o.append('%s is no TLS symbol'%name)
    if s[3]!=size: o.append('%s has size %d, not %d'%(name,s[3],size))
    if s[4]%align: o.append('%s has alignment %d, not %d'%(name,s[4],align))
    if s[5][:size]!=content: o.append('%s has contents %r, not %r'%(name,s[5][:size],content))
    return o
def fnspec(seq):
    """seq of (specifier, is definition) -> None | (linkage, defined, inline only)"""
    link=None; defs=0; inl=True; anyinl=False
    for sp,d in seq:
        if 'static' in sp:
            if link=='global': return None
            link='local'
        elif link is None: link='global'
        if 'inline' not in sp or 'extern' in sp: inl=False
        if 'inline' in sp: anyinl=True
        defs+=d
    if defs>1: return None
    return link,bool(defs),(inl and link=='global'),anyinl
def groups():
    gs=[]
    def mk(key,alts,judge,opts=(),slots=None):
        """alts: [(text, spec)]"""
        segs=[{'choice':'k','alts':[t for t,_ in alts]}]
        def bad(p):
            k=int(p.choices['k']); t,sp=alts[k]
            return [(m,True) for m in verdict(p.status,pathasm(p),p.out.get('<stderr>',''),sp)]
        def verdict(st,asm,err,sp):
            if st!=0: return ['a valid program is rejected: '+err[-80:]]
            try: sy,used=elf(asm)
            except NoAsm as ex: return ['the assembler rejects the output: %s'%ex]
            return judge(sy,used,sp)
        def confirm(txt,m):
            rc,asm,err=core.native_asm(txt,opts=opts); sp=next(s for t,s in alts if t.encode()==txt)
            v=verdict(rc,asm,err,sp); return '; '.join(v) if v else None
        gs.append(dict(key=key,segs=segs,bad=bad,confirm=confirm,opts=list(opts)))
    def objs(tn,n,opts,tls=False,use=True):
        form,size,al,ini,data=TYPES[tn]
        if tn=='struct': form='struct S x%s'; size=8
        pre={'struct':'struct S{char a;int b;};','struct9':'struct T{char a;int b;char c;};'}.get(tn,'')
        alts=[]
        th='_Thread_local ' if tls else ''
        at=[('',''),('extern ',''),('static ',''),('',ini),('static ',ini),('extern ',ini),('','=Z')]
        for k in range(1,n+1):
            for seq in itertools.product(at,repeat=k):
                sp=objspec([(s,i) for s,i in seq])
                if not sp: continue
                zero=any(i=='=Z' for _,i in seq)
                z='={0}' if tn in('array','struct','struct9','short array','big','two-dim') else '=0'
                if tls and sum(1 for s,i in seq if s!='extern ' or i)>1: continue   # _Thread_local x; is a definition
                ds=[s+th+form%(z if i=='=Z' else i)+';' for s,i in seq]
                for pos in ((None,)+tuple(range(1,k+1)) if use and k<=2 else (k,) if use else (None,)):
                    tx=list(ds)
                    if pos is not None: tx.insert(pos,'void *g(void){return &x;}')
                    cont=b'\0'*size if (sp[1]!='init' or zero) else data
                    alts.append((pre+' '.join(tx)+'\n',(sp[0],sp[1],cont,pos)))
        common=None if '-fno-common' not in opts else False
        def judge(sy,used,sp):
            o=chk(sy,'x',sp[0],sp[1],size,al,sp[2],tls,common)
            if sp[3] is not None and sp[1]=='undef' and (sy.get('x',('','',''))[2]!='undef' or sy['x'][0]!='global'): o.append('the reference to x is not to an undefined external symbol')
            if sp[3] is not None and 'g' not in sy: o.append('g is not defined')
            return o
        mk('object %s%s %s'%('tls ' if tls else '',tn,' '.join(opts)),alts,judge,opts)
    for tn in TYPES:
        n=3 if tn in('int','array') else 2
        objs(tn,n if tn!='int' or not core.THOROUGH else 4,[]); objs(tn,n,['-fno-common']); 
        objs(tn,2,[],tls=True)
    objs('int',2,['-fPIC']); objs('int',2,['-fPIC'],tls=True)
    # incomplete arrays completed later or never
    inc=[]
    for seq,exp in [(['int x[];'],('global','tentative',4)),(['int x[];','int x[3];'],('global','tentative',12)),(['int x[3];','int x[];'],('global','tentative',12)),(['extern int x[];','int x[3];'],('global','tentative',12)),(['extern int x[];'],('global','undef',0)),(['extern int x[];','int x[]={1,2};'],('global','init',8)),(['int x[];','int x[]={1,2};'],('global','init',8)),(['int x[]={1,2};','extern int x[];'],('global','init',8)),(['int x[]={1,2};','int x[];'],('global','init',8)),(['int x[2];','extern int x[];'],('global','tentative',8)),(['struct U x;','struct U{int a,b,c;};'],('global','tentative',12)),(['extern struct U x;','struct U{int a,b,c;};','struct U x;'],('global','tentative',12)),(['extern struct U x;','struct U{int a,b,c;};','struct U x={1,2};'],('global','init',12)),(['typedef int A[];','A x={1,2};','A y={1};'],('global','init',8))]:
        for u in (None,'int *g(void){return &x[0];}'):
            if u and 'struct' in ''.join(seq): u='void *g(void){return &x;}'
            inc.append((' '.join(seq+([u] if u else []))+'\n',exp+(u,)))
    def jinc(sy,used,sp):
        c=b'\1\0\0\0\2'.ljust(sp[2],b'\0') if sp[1]=='init' else b'\0'*sp[2]
        return chk(sy,'x',sp[0],sp[1],sp[2],4,c)
    mk('incomplete',inc,jinc); mk('incomplete -fno-common',inc,jinc,['-fno-common'])
    # functions
    FS=['','extern ','static ','inline ','static inline ','extern inline ']
    at=[(s,d) for s in FS for d in (0,1)]
    def fns(n,key,use):
        alts=[]
        for k in range(1,n+1):
            for seq in itertools.product(at,repeat=k):
                sp=fnspec(seq)
                if not sp: continue
                if sp[0]=='local' and not sp[1]: continue   # static and never defined
                if sp[2] and not sp[1]: continue            # inline and never defined
                ds=[s+'int f(void)'+('{return 3;}' if d else ';') for s,d in seq]
                for pos in range(1,k+1) if use and k<3 else (k,) if use else (None,):
                    tx=list(ds)
                    if use: tx.insert(pos,use)
                    alts.append((' '.join(tx)+'\n',sp+(bool(use),)))
        def judge(sy,used,sp):
            link,df,inl,anyinl,u=sp; s=sy.get('f'); o=[]
            if not df:
                if s and s[2]!='undef': o.append('f is defined though only declared')
                if u and not s: o.append('no reference to f')
                return o
            if inl:
                if s and s[2]!='undef' and s[0]=='global': o.append('an inline definition is an external definition')
                return o
            if link=='local':
                if s and (s[0]!='local' or s[2]=='undef'): o.append('static f is %s %s'%(s[0],s[2]))
                if u and not s: o.append('f is used but not emitted')
                if not s and not u and not anyinl: pass
                return o
            if not s or s[2]!='text': o.append('f is not defined (%s)'%(s and s[2]))
            elif s[0]!='global': o.append('f has %s binding, C gives it external linkage'%s[0])
            elif s[1]!='func': o.append('f is not of type function')
            return o
        mk(key,alts,judge)
    fns(3 if core.THOROUGH else 2,'functions unused',None); fns(2,'functions called','int g(void){return f();}')
    fns(2,'functions address in an initialiser','int (*p)(void)=f;')
    if core.THOROUGH: fns(3,'functions address taken','int (*g(void))(void){return f;}')
    # local statics and block-scope declarations
    loc=[('int f(void){static int x=1; return x++;} int g(void){static int x=2; return x++;}',[1,2]),('int f(void){static int x=1; {static int x=2; x++;} return x++;}',[1,2]),('static int x=3; int f(void){static int x=4; return x++;} int g(void){return x++;}',[3,4]),('int f(int a){ if(a){static int x=5; return x++;} else {static int x=6; return x++;} }',[5,6]),('int f(void){static int x; return x++;} int g(void){static int x=9; return x++;}',[0,9]),
     ('static inline int h(void){static int x=7; return x++;} int f(void){return h();}',[7])]
    def jloc(sy,used,sp):
        vals=sorted(int.from_bytes(s[5][:4],'little') for n,s in sy.items() if s[1] in('object','notype') and s[2] in('data','common') and len(s[5])>=4 and not (s[5][:4] in(b'f\0',b'g\0')) and (n in used or n=='x'))
        o=[]
        if not set(sp)<=set(vals): o.append('local statics hold %s, expected %s'%(vals,sp))
        for n,s in sy.items():
            if s[2] in('data','common') and s[0]!='local' : o.append('the local static %s is not local'%n)
        return o
    mk('local statics',[(t+'\n',v) for t,v in loc],jloc)
    blk=[('int f(void){extern int x; return x;}',{'x':'undef'}),('int f(void){extern int x; return x;} int x=5;',{'x':'global'}),('static int x=5; int f(void){extern int x; return x;}',{'x':'local'}),('int x; int f(void){extern int x; return x;}',{'x':'global'}),('int f(void){int g(void); return g();}',{'g':'undef'}),('int f(void){int g(void); return g();} int g(void){return 1;}',{'g':'global'}),('static int g(void); int f(void){int g(void); return g();} static int g(void){return 1;}',{'g':'local'}),('int f(void){int x=1; {extern int x; return x;}} int x=4;',{'x':'global'}),('int f(void){extern int x; return x;} int h(void){extern int x; return x;}',{'x':'undef'}),
     ('int g(void),h(int); int f(void){return g()+h(1);}',{'g':'undef','h':'undef'}),('int x=1,g(void),y=2; int f(void){return g()+x+y;}',{'g':'undef','x':'global','y':'global'}),('int g(void),x=3; int f(void){return g()+x;} int g(void){return 1;}',{'g':'global','x':'global'}),('static int g(void),x=3; int f(void){return g()+x;} static int g(void){return 1;}',{'g':'local','x':'local'}),('int *g(void),x; int *f(void){x=1; return g();}',{'g':'undef','x':'global'}),('static inline int h(void){return 1;} int f(void){return 0;} int (*p)(void)=h;',{'h':'local'}),('static inline int h(void); int (*p)(void)=h; static inline int h(void){return 1;}',{'h':'local'}),('static inline int h(void){return 1;} static inline int k(void){ static int (*p)(void)=h; return p(); } int f(void){return 1;}',{}),
     ('extern int x; int x; extern int x; int f(void){return x;}',{'x':'global'}),('typedef int F(void); F g; int f(void){return g();}',{'g':'undef'}),('typedef int F(void); static F g; int f(void){return g();} static int g(void){return 2;}',{'g':'local'}),('int x,y=2,*z=&y; extern int w; int *v=&w;',{'x':'global','y':'global','z':'global','w':'undef','v':'global'}),('static int y=2; int *z=&y; int f(void){return *z;}',{'y':'local','z':'global'}),('static int a[3]; int *p[]={a,a+1};',{'a':'local','p':'global'}),('static int h(void){return 1;} int (*t[])(void)={h};',{'h':'local','t':'global'}),('static inline int h(void){return 1;} static int (*t)(void)=h; int f(void){return t();}',{'h':'local','t':'local'}),
     ('static inline int k(void){return 1;} static inline int h(void){return k();} int (*t)(void)=h;',{'h':'local','k':'local'}),('static inline int h(void){return 1;} int f(void){return sizeof(h());}',{}),('static inline int h(void){return 1;} int f(int a){ return a?h():2; }',{'h':'local'}),('static inline int h(void){return 1;} struct S{int (*p)(void);}; int f(void){ struct S s={h}; return s.p(); }',{'h':'local'}),('static inline int h(void){return 1;} int f(void){ static int (*p)(void)=h; return p(); }',{'h':'local'}),('static inline int h(void){return 1;} int f(void){ static int (*p[2])(void)={0,h}; return p[1](); }',{'h':'local'}),('static inline int h(int); int f(void){return h(2);} static inline int h(int a){return a?h(a-1):0;}',{'h':'local'}),('static inline int h(void){return 1;} static int k(void){return h();} int f(void){return k();}',{'h':'local','k':'local'}),('static inline int h(void){return 1;} int f(void){ return ({ h(); }); }',{'h':'local'}),('static inline int h(void){return 1;} int f(int a){ switch(a){ case 1: return h(); } return 0; }',{'h':'local'}),('static inline int h(void){return 1;} int f(int a){ for(;;) if (h()) break; return 0; }',{'h':'local'}),('static inline int h(void){return 1;} void *f(int a){ return (void*)&h; }',{'h':'local'}),('static inline int h(void){return 1;} int f(void){ int h(void); return h(); }',{'h':'local'}),
     ('static inline int h(void){return 1;} int f(int a){ int v[h()]; return sizeof v; }',{'h':'local'}),('static inline int h(void){return 1;} int f(int a){ typeof(h()) x=2; return x; }',{}),('static inline int h(void){return 1;} int f(int a){ return _Generic(a,int:h,default:0)(); }',{'h':'local'})]
    def jblk(sy,used,sp):
        o=[]
        for n,w in sp.items():
            s=sy.get(n)
            if w=='undef':
                if not s or s[2]!='undef' or s[0]!='global': o.append('%s is %s, not an undefined external symbol'%(n,s and s[:3]))
            elif not s or s[2]=='undef' or s[0]!=w: o.append('%s is %s, not a %s definition'%(n,s and s[:3],w))
        und=[n for n,s in sy.items() if s[2]=='undef' and sp.get(n)!='undef' and n not in('alloca',)]
        if und: o.append('undefined references to %s'%und)
        return o
    mk('block scope and references',[(t+'\n',v) for t,v in blk],jblk); mk('block scope and references -fno-common',[(t+'\n',v) for t,v in blk],jblk,['-fno-common'])
    # reference graphs: every edge's target is a symbolic character
    def graph(key,n,edges,roots,form,pre=''):
        """functions a.. (static inline) with symbolic call targets; roots: external functions with symbolic targets"""
        names='abcdefgh'[:n]; rng=[[ord(names[0]),ord(names[-1])]]
        segs=[pre+' '.join('static inline int %s(void);'%c for c in names)+'\n']; tgt={c:[] for c in names}; rt=[]
        k=0
        for c in names:
            segs.append(form[0]%c)
            for _ in range(edges.get(c,1)):
                v='e%d'%k; k+=1; segs+=[form[1],{'sym':v,'n':1,'in':rng},form[2]]; tgt[c].append(v)
            segs.append(form[3])
        for i in range(roots):
            v='r%d'%i; segs+=['int m%d(void){ return '%i,{'sym':v,'n':1,'in':rng},'(); }\n']; rt.append(v)
        # reachability as a formula
        R={c:z3.Or(*[B(v)==ord(c) for v in rt]) for c in names}
        for _ in range(n): R={c:z3.Or(R[c],*[z3.And(R[d],z3.Or(*[B(v)==ord(c) for v in tgt[d]])) for d in names if tgt[d]]) for c in names}
        def defined(asm):
            sy,used=elf(asm); return sy
        def conds(st,asm,err):
            if st: return [('a valid program is rejected: '+err[-60:],z3.BoolVal(True))]
            try: sy=defined(asm)
            except NoAsm as ex: return [('the assembler rejects the output: %s'%ex,z3.BoolVal(True))]
            o=[]
            for c in names:
                s=sy.get(c)
                if not s: o.append(('%s is reachable but not emitted'%c,R[c]))
                elif s[2]=='undef' or s[0]!='local': o.append(('static %s is %s %s'%(c,s[0],s[2]),z3.BoolVal(True)))
            return o
        def bad(p): return conds(p.status,pathasm(p),p.out.get('<stderr>',''))
        def confirm(txt,m):
            rc,asm,err=core.native_asm(txt); sub=[(z3.BitVec(k,8),z3.BitVecVal(v&255,8)) for k,v in m.items() if '#' in k]
            for l,c in conds(rc,asm,err):
                if z3.is_true(z3.simplify(z3.substitute(c,*sub))): return l
        gs.append(dict(key=key,segs=segs,bad=bad,confirm=confirm))
    call=('static inline int %s(void){ return 0',' + ','()','; }\n')
    graph('graph of 3, calls',3,{},1,call); graph('graph of 3, two roots',3,{},2,call); graph('graph of 4, calls',4,{},1,call)
    graph('graph of 3, two edges each',3,{'a':2,'b':1,'c':0},1,call)
    graph('graph of 3, addresses',3,{},1,('static inline int %s(void){ int (*p)(void)=0; if(0) {','  p=',';','} return 1; }\n'))
    graph('graph of 3, local statics',3,{},1,('static inline int %s(void){ static int (*p)(void)',' = ','','; return p(); }\n'))
    if core.THOROUGH: graph('graph of 4, two roots',4,{},2,call); graph('graph of 5, calls',5,{},1,call)
    return gs
def run():
    r=Report('C21','bounded_symbolic','the compiler (LLVM bitcode) runs on translation units whose declarations and reference targets are symbolic; the object file assembled from each path\'s output is compared with the linkage, definition, size, alignment and content C prescribes, and with reachability as a formula over the symbolic targets')
    sx.run(r,'symbols',groups(),abshash=True)
    r.bounds=['sequences of <= 3 declarations (object: 7 specifier/initialiser forms, 15 types, -fcommon/-fno-common/-fPIC/_Thread_local; function: 12 forms, used or not at every position); reference graphs of <= 4 static inline functions with every edge target symbolic (5 in the thorough run)']
    r.assume=['GNU as for RISC-V turns the emitted directives into the object file','sequences whose behaviour C leaves undefined (static after external) are out of scope','unused static functions may be emitted or not']
    return r.finish()
