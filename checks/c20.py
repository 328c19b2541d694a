"""Driver options: the real main() runs on option lists with symbolic argument bytes, symbolic file existence and symbolic child exit statuses."""
from report import Report
import core, sx, z3, os, re, json, itertools, tempfile, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import c24
B=sx.B
class Case:
    """argv template (strings or segment lists), files, judge(view)->[(message, z3 condition)]; replay(model, choices)->view"""
    def __init__(c,key,argv,files,judge,fam,natfiles=None): c.key=key; c.argv=argv; c.files=files; c.judge=judge; c.fam=fam
class View: pass
def text(p,f):
    """a file written by a path as a list of byte terms"""
    t=p.out.get(f)
    if t is None: return None
    out=[]; i=0
    for m in re.finditer('\x01b(\\d+)\x02',t):
        out+=[z3.BitVecVal(b,8) for b in t[i:m.start()].encode('latin-1')]; out.append(p.terms()[p.j['holes'][int(m.group(1))][1]]); i=m.end()
    return out+[z3.BitVecVal(b,8) for b in t[i:].encode('latin-1')]
def explore(c):
    fs={p:({'exists':p,'data':t[0]} if isinstance(t,tuple) else t) for p,t in c.files.items()}
    return core.tcsym({'argv':c.argv,'files':fs},jobs=2,timeout=120,label='driver')
# ---- replay against the native driver in a scratch directory
STUB='#!/bin/sh\n{ printf "%%s" "%(n)s"; for a in "$@"; do printf "\\t%%s" "$a"; done; printf "\\n"; } >> "$LOG"\n[ -e "$D/fail_%(n)s" ] && exit 1\nexit 0\n'
def native(c,model,choices,d):
    """-> View of a native run; files live under d, symbolic argument bytes from the model"""
    exe=d+'/bin/toycc'; os.makedirs(d+'/bin'); os.makedirs(d+'/cwd'); shutil.copy(core.native(),exe); os.makedirs(d+'/path')
    for n in ('riscv64-linux-gnu-as','riscv64-linux-gnu-ld'):
        open(d+'/path/'+n,'w').write(STUB%dict(n=n)); os.chmod(d+'/path/'+n,0o755)
    argv=[]
    for a in c.argv: argv.append(sx.concretize(a,model,choices))
    loc=lambda b: b.replace(b'/s/',(d+'/s/').encode()).replace(b'/o/',(d+'/o/').encode()).replace(b'/i',(d+'/i').encode()) if isinstance(b,bytes) else loc(b.encode()).decode()
    os.makedirs(d+'/s'); os.makedirs(d+'/o')
    for k in range(1,5): os.makedirs(d+'/i%d'%k)
    order=[k for k in sorted(choices) if k.startswith('wait')]
    for p,t in c.files.items():
        if isinstance(t,tuple):
            if choices.get('exists:'+p)!='1': continue
            t=t[0]
        q=d+'/cwd/'+p if p[0]!='/' else (d+'/bin'+p[1:] if p.startswith('//') else d+p)
        os.makedirs(os.path.dirname(q),exist_ok=True); open(q,'w').write(t if isinstance(t,str) else sx.concretize(t,model,choices).decode('latin-1'))
    log=d+'/log'; open(log,'w').close()
    for n in c.fail(choices) if hasattr(c,'fail') else []:
        if n.startswith('cc1:'):
            q=n[4:]; open(d+q if q[0]=='/' else d+'/cwd/'+q,'w').write('int main( {\n')
        else: open(d+'/fail_'+n,'w').close()
    env=dict(os.environ,PATH=d+'/path:'+os.environ['PATH'],LOG=log,D=d)
    r=subprocess.run([exe.encode()]+[loc(a) for a in argv[1:]],stdout=-1,stderr=-1,stdin=subprocess.DEVNULL,timeout=30,cwd=d+'/cwd',env=env)
    v=View(); v.rc=r.returncode; v.err=r.stderr.decode(errors='replace'); v.crash=r.returncode<0 or r.returncode>128; v.native=True
    back=lambda s: s.replace(d+'/bin','').replace(d,'')
    v.out={'<stdout>':back(r.stdout.decode('latin-1'))}
    for dp,_,fn in os.walk(d):
        if dp.startswith((d+'/bin',d+'/path',d+'/s',d+'/i')) : continue
        for f in fn:
            q=os.path.join(dp,f)
            if q==log or '/fail_' in q: continue
            k=q[len(d):] if dp!=d+'/cwd' else f
            if k in c.files: continue
            v.out[k]=back(open(q,encoding='latin-1').read())
    v.log=[back(l).split('\t') for l in open(log).read().split('\n') if l]
    return v
def conc(t): return None if t is None else [z3.BitVecVal(b,8) for b in t.encode('latin-1')]
def eqb(a,b):
    """two lists of byte terms"""
    if a is None or len(a)!=len(b): return z3.BoolVal(False)
    return z3.And(*[x==(y if z3.is_expr(y) else z3.BitVecVal(y,8)) for x,y in zip(a,b)]) if a else z3.BoolVal(True)
def lit(s): return [z3.BitVecVal(b,8) for b in s.encode('latin-1')]
def strip(t):
    """drop trailing newlines of a term list"""
    if t is None: return None
    t=list(t)
    while t and z3.is_bv_value(z3.simplify(t[-1])) and z3.simplify(t[-1]).as_long()==10: t.pop()
    return t
# ---------------------------------------------------------------- families
PR=[[33,126]]
def quoting():
    """-MQ quotes for make exactly as gcc does; -MT is verbatim"""
    cs=[]
    ALPH=[[32,32],[9,9],[35,36],[92,92],[97,98],[58,58],[46,47]]
    def spec(bs):
        """formula-free: list of (condition, output) by case split on the class of each byte"""
        outs=[]
        def go(i,cond,out,sl):
            if i==len(bs): outs.append((z3.And(*cond) if cond else z3.BoolVal(True),out)); return
            b=bs[i]
            go(i+1,cond+[b==36],out+[36,36],0)
            go(i+1,cond+[b==35],out+[92,35],0)
            go(i+1,cond+[z3.Or(b==32,b==9)],out+[92]*(sl+1)+[b],0)
            go(i+1,cond+[b==92],out+[92],sl+1)
            go(i+1,cond+[b!=36,b!=35,b!=32,b!=9,b!=92],out+[b],0)
        go(0,[],[],0); return outs
    def mk(key,opts,n,target):
        bs=[B('q',i) for i in range(n)]
        sp=target(bs)
        def judge(v):
            t=v.bytes('<stdout>')
            if v.rc!=0: return [('exit status %d'%v.rc,z3.BoolVal(True))]
            o=[]
            for c,out in sp:
                exp=[x if z3.is_expr(x) else z3.BitVecVal(x,8) for x in out]+lit(':')
                got=None if t is None else t[:len(exp)]
                o.append(z3.And(c,z3.Not(eqb(got,exp))))
            return [('the rule\'s target is not quoted as make requires',z3.Or(*o))]
        cs.append(Case(key,['/toycc','-cc1','-M']+opts+['-cc1-input','/s/a.c','/s/a.c'],{'/s/a.c':'int x;\n'},judge,'make quoting'))
    for n in (1,2,3,4):
        mk('-MQ %d'%n,['-MQ',{'sym':'q','n':n,'in':ALPH}],n,spec)
    mk('-MQ any byte',['-MQ',{'sym':'q','n':1,'in':[[1,255]]}],1,spec); mk('-MQ any two bytes',['-MQ',{'sym':'q','n':2,'in':[[9,9],[32,126]]}],2,spec)
    mk('-MT 3',['-MT',{'sym':'q','n':3,'in':ALPH}],3,lambda bs:[(z3.BoolVal(True),list(bs))])
    mk('-MT -MQ',['-MT','x','-MQ',{'sym':'q','n':2,'in':ALPH}],2,lambda bs:[(c,[120,32]+o) for c,o in spec(bs)])
    mk('-MQ -MT',['-MQ',{'sym':'q','n':2,'in':ALPH},'-MT','x'],2,lambda bs:[(c,o+[32,120]) for c,o in spec(bs)])
    mk('-MQ -MQ',['-MQ','a$','-MQ',{'sym':'q','n':2,'in':ALPH}],2,lambda bs:[(c,[97,36,36,32]+o) for c,o in spec(bs)])
    return cs
def defines():
    """-D and -U take effect in order; the value's bytes are symbolic"""
    cs=[]
    LET=[[48,57]]
    prog='#ifdef A\n<A>\n#else\nno\n#endif\n#ifdef B\n[B]\n#endif\n'
    alts={'-DA':(['-DA'],lambda k:('A',[49])),'-D A':(['-D','A'],lambda k:('A',[49])),'-DA=':(['-DA='],lambda k:('A',[])),'-DA=v':(None,None),'-D A=v':(None,None),'-UA':(['-UA'],lambda k:('A',None)),'-U A':(['-U','A'],lambda k:('A',None)),'-DB=7':(['-DB=7'],lambda k:('B',[55])),'-UB':(['-UB'],lambda k:('B',None))}
    def seqs():
        yield ()
        for k in (1,2): yield from itertools.product(alts,repeat=k)
        for x in itertools.product(['-DA=v','-UA','-D A'],repeat=3): yield x
    for sq in seqs():
        argv=[]; st={}
        for i,a in enumerate(sq):
            if a=='-DA=v': argv.append(['-DA=',{'sym':'v%d'%i,'n':2,'in':LET}]); st['A']=[B('v%d'%i,0),B('v%d'%i,1)]
            elif a=='-D A=v': argv+=['-D',['A=',{'sym':'v%d'%i,'n':2,'in':LET}]]; st['A']=[B('v%d'%i,0),B('v%d'%i,1)]
            else:
                x,f=alts[a]; argv+=x; k,v=f(i); st[k]=v
        exp=([60]+st['A']+[62] if st.get('A') is not None else [110,111])
        exp2=([91]+st['B']+[93] if st.get('B') is not None else [])
        def judge(v,exp=exp,exp2=exp2):
            if v.rc!=0: return [('exit status %d'%v.rc,z3.BoolVal(True))]
            t=v.bytes('/o/a.i')
            if t is None: return [('no output',z3.BoolVal(True))]
            t=[x for x in t if not (z3.is_bv_value(x) and x.as_long() in(32,10))]
            e=[x if z3.is_expr(x) else z3.BitVecVal(x,8) for x in exp+exp2]
            return [('the macro has another value',z3.Not(eqb(t,e)))]
        for tail in (0,1):
            if tail and len(sq)!=2: continue
            pre,post=(argv,[]) if not tail else ([],argv)
            cs.append(Case('define %s%s'%(' '.join(sq),' (after the input)' if tail else ''),['/toycc','-cc1','-E','-o','/o/a.i']+pre+['-cc1-input','/s/a.c','/s/a.c']+post,{'/s/a.c':prog},judge,'defines'))
    return cs
SYS='//include'
def paths():
    """-I, -idirafter, -include: every candidate exists or not"""
    cs=[]
    def add(key,opts,I,after,incl=()):
        files={'/s/a.c':'#include <x.h>\nmain __FILE__ __LINE__\n'}
        for d in I+[SYS]+after: files[d+'/x.h']=('in_%s\n'%d.strip('/'),)
        for f in incl:
            files[f]=('pre __FILE__ __LINE__\n#define P p\n',)
            for d in I: files[d+'/'+f]=('pre __FILE__ __LINE__\n#define P p\n',)
        if incl: files['/s/a.c']='#ifdef P\nP\n#endif\nmain __FILE__ __LINE__\n'
        dirs=I+[SYS,'/usr/local/include','/usr/riscv64-linux-gnu/include','/usr/include/riscv64-linux-gnu','/usr/include']+after
        cs.append(PathCase(key,['/toycc','-cc1','-E']+opts+['-o','/o/a.i','-cc1-input','/s/a.c','/s/a.c'],files,dirs,list(incl)))
    for k,(o,I,a) in {'-I':(['-I/i1','-I/i2'],['/i1','/i2'],[]),'-I separate':(['-I','/i1','-I','/i2'],['/i1','/i2'],[]),'-I mixed':(['-I/i1','-I','/i2'],['/i1','/i2'],[]),'-idirafter':(['-idirafter','/i1'],[],['/i1']),'-idirafter first':(['-idirafter','/i1','-I/i2'],['/i2'],['/i1']),'two -idirafter':(['-idirafter','/i1','-I/i2','-idirafter','/i3'],['/i2'],['/i1','/i3']),'-I after':(['-I/i3','-idirafter','/i1','-I/i2'],['/i3','/i2'],['/i1'])}.items(): add('search '+k,o,I,a)
    for k,(o,I,f) in {'one':(['-include','p.h'],[],['p.h']),'with -I':(['-include','p.h','-I/i1'],['/i1'],['p.h']),'-I first':(['-I/i1','-I/i2','-include','p.h'],['/i1','/i2'],['p.h']),'two':(['-include','p.h','-I/i1','-include','q.h'],['/i1'],['p.h','q.h'])}.items(): add('-include '+k,o,I,[],f)
    return cs
class PathCase(Case):
    def __init__(c,key,argv,files,dirs,incl):
        c.key=key; c.argv=argv; c.files=files; c.fam='search paths'; c.dirs=dirs; c.incl=incl
        c.tree=c.mktree()
    def mktree(c):
        out=[]
        def go(ex):
            r=c24.Ref(c.files,c.dirs,dict(ex))
            try:
                for f in c.incl:
                    if r.has(f): r.run(f)
                    else: p,i=r.search(f,0); r.run(p,i)
                r.run('/s/a.c'); out.append((dict(ex),r.out))
            except c24.Missing: out.append((dict(ex),None))
            except c24.Need as n:
                for v in (False,True): go({**ex,n.f:v})
        go({}); return out
    def judge(c,v):
        got=c24.TOK.findall(v.out.get('/o/a.i','')) if v.rc==0 else None
        o=[]
        for ex,exp in c.tree:
            if got!=exp: o.append(('expected %s, got %s'%(exp and ' '.join(exp),got and ' '.join(got)),z3.And(*[z3.Bool(k)==x for k,x in ex.items()])))
        return o
# ---- the actions of the driver
class Act(Case):
    """which commands run, in which order, with which inputs and outputs; every child's exit status is symbolic"""
    def __init__(c,opts,inputs,extra=()):
        c.opts=opts; c.inputs=inputs
        argv=['/toycc']+opts+inputs
        files={f:'int main(void){return 0;}\n' for f in inputs if f.endswith('.c')}
        Case.__init__(c,' '.join(opts+inputs),argv,files,None,'driver actions')
        c.steps=c.spec()
    def spec(c):
        """-> 'error' or [(tool, inputs, output)], tmp outputs are named by ('tmp',n)"""
        o={}; it=iter(range(len(c.opts))); out=None; mode='link'; x=None; ldx=[]; inputs=[]
        i=0; a=c.opts+c.inputs
        mode=None
        while i<len(a):
            s=a[i]
            if s=='-o': out=a[i+1]; i+=1
            elif s.startswith('-o'): out=s[2:]
            elif s in('-c','-S','-E','-M'): mode=mode if mode and 'EMSc'.index(mode[1])<'EMSc'.index(s[1]) else s
            elif s=='-x': x=a[i+1]; i+=1
            elif s.startswith('-x'): x=s[2:]
            elif s=='-Xlinker': ldx.append(a[i+1]); i+=1
            elif s=='-L': ldx+=['-L',a[i+1]]; i+=1
            elif s.startswith('-L'): ldx+=['-L',s[2:]]
            elif s in('-s','-static','-shared'): ldx.append(s)
            elif s.startswith('-l') or s.startswith('-Wl,') or not s.startswith('-'): inputs.append(s)
            i+=1
        nf=[f for f in inputs if not f.startswith('-')]
        if not inputs: return 'error'
        if out and mode in('-c','-S','-E') and len(inputs)>1: return 'error'
        st=[]; ld=[]; tmp=0
        base=lambda f,e: os.path.splitext(os.path.basename(f))[0]+e
        for f in inputs:
            if f.startswith('-l'): ld.append(f); continue
            if f.startswith('-Wl,'): ld+=[w for w in f[4:].split(',') if w]; continue
            t={'.c':'c','.s':'s','.o':'o','.a':'o','.so':'o'}.get(os.path.splitext(f)[1])
            if x and x!='none': t={'c':'c','assembler':'s'}[x]
            if mode=='-E': t='c'
            if t is None: st.append(('error',)); return st
            if t=='o': ld.append(f); continue
            if t=='s':
                if mode in('-S','-M'): continue
                if mode=='-c': st.append(('as',f,out or base(f,'.o'))); continue
                tmp+=1; st.append(('as',f,('tmp',tmp))); ld.append(('tmp',tmp)); continue
            if mode in('-E','-M'): st.append(('cc1',f,None)); continue
            if mode=='-S': st.append(('cc1',f,out or base(f,'.s'))); continue
            tmp+=1; a1=('tmp',tmp); st.append(('cc1',f,a1))
            if mode=='-c': st.append(('as',a1,out or base(f,'.o'))); continue
            tmp+=1; a2=('tmp',tmp); st.append(('as',a1,a2)); ld.append(a2)
        if not mode and ld: st.append(('ld',tuple(ld),out or 'a.out',tuple(ldx)))
        return st
    def cmds(c,execs):
        """normalise observed commands; temporaries are numbered in order of appearance"""
        tmp={}; out=[]
        def T(f):
            if f is not None and 'toycc-tmpfile' in f: return ('tmp',tmp.setdefault(f,len(tmp)+1))
            return f
        for a in execs:
            n=os.path.basename(a[0])
            if '-cc1' in a:
                k=len(a)-1-a[::-1].index('-cc1'); r=a[k+1:]; d=dict(zip(r[::2],r[1::2]))
                out.append(('cc1',d.get('-cc1-input'),T(d.get('-cc1-output'))))
            elif n.endswith('-as'):
                r=a[1:]; o=None; ins=[]; i=0
                while i<len(r):
                    if r[i]=='-o': o=r[i+1]; i+=1
                    elif not r[i].startswith('-'): ins.append(r[i])
                    i+=1
                ii=T(ins[0]) if ins else None; out.append(('as',ii,T(o)))
            elif n.endswith('-ld'):
                r=a[1:]; o=None; i=0; items=[]
                while i<len(r):
                    if r[i]=='-o': o=r[i+1]; i+=1
                    elif r[i] in('-m','-dynamic-linker'): i+=1
                    else: items.append(r[i])
                    i+=1
                out.append(('ld',tuple(T(x) for x in items),T(o)))
            else: out.append(('?',tuple(a)))
        return out
    def match(c,got,exp):
        if got[0]!=exp[0]: return False
        if exp[0]!='ld': return got==exp
        if got[2]!=exp[2]: return False
        # the inputs in order, the linker options in order, both as subsequences of the command
        def sub(need,have):
            it=iter(have); return all(any(n==h for h in it) for n in need)
        return sub(exp[1],got[1]) and sub(exp[3],got[1]) and all(got[1].count(f)==exp[1].count(f) for f in exp[1] if isinstance(f,tuple) or f.endswith(('.o','.a','.so')))
    def renumber(c,steps):
        tmp={}; o=[]
        T=lambda x: ('tmp',tmp.setdefault(x,len(tmp)+1)) if isinstance(x,tuple) and x and x[0]=='tmp' else x
        for s in steps:
            if s[0]=='ld': o.append(('ld',tuple(T(x) for x in s[1]),T(s[2]),s[3]))
            elif s[0]=='error': o.append(s)
            else: o.append((s[0],T(s[1]),T(s[2])))
        return o
    def judgerun(c,rc,execs,waits,unl,made,crash):
        """waits: list of exit choices in order"""
        if crash: return ['dies: %s'%crash]
        o=[]; st=c.steps
        if st=='error':
            if rc==0: o.append('accepted')
            if execs: o.append('ran %s'%c.cmds(execs))
        else:
            st=c.renumber(st); g=c.cmds(execs); n=0; failed=False
            for k,e in enumerate(st):
                if e[0]=='error': failed=True; break
                if k>=len(g): o.append('step %s is missing'%(e,)); break
                if not c.match(g[k],e): o.append('step %d is %s, expected %s'%(k+1,g[k],e)); break
                n=k+1
                if waits[k] if k<len(waits) else False: failed=True; break
            if not o and len(g)>n: o.append('unexpected step %s'%(g[n],))
            if not o and (rc!=0)!=failed: o.append('exit status %d although %s'%(rc,'a step failed' if failed else 'every step succeeded'))
        left=[f for f in made if f not in unl]
        if left: o.append('temporary files left behind: %s'%left)
        return o
def actions():
    cs=[]
    I=[['a.c'],['d/a.c'],['a.c','b.c'],['a.c','b.o'],['a.s'],['b.o'],['a.c','-lm'],['-lm','a.c'],['a.c','-Wl,-z,now','b.a'],['a.s','b.c'],['x.so','a.c'],['a.c','a.s'],['/s/a.c'],['a.b.c'],['lib.a','b.o']]
    O=[[],['-c'],['-S'],['-E'],['-M'],['-o','out'],['-oout'],['-c','-o','out.o'],['-S','-o','out.s'],['-E','-o','out.i'],['-o','d/out','-c'],['-static'],['-shared'],['-s','-Xlinker','--foo'],['-L','lib'],['-Llib','-o','out'],['-c','-S'],['-E','-c'],['-S','-E']]
    for o in O:
        for i in I: cs.append(Act(o,i))
    for o in ([],['-c'],['-S']):
        for x in (['-x','c'],['-xc'],['-x','assembler'],['-x','none'],['-x','assembler','-x','none']):
            for i in (['a.c'],['a.txt'],['a.s'],['b.o']): cs.append(Act(o+x,i))
    cs+=[Act(['-c'],[]),Act([],['a.txt']),Act([],['a']),Act(['-c'],['a.h']),Act(['-O2','-Wall','-g','-std=c11'],['a.c'])]
    return [c for c in cs if not any(f=='a.txt' and 'x' not in ' '.join(c.opts) and len(c.inputs)>1 for f in c.inputs)]
def errors():
    """unknown options and missing arguments are diagnosed"""
    cs=[]
    def rej(key,argv,files={'/s/a.c':'int x;\n'},ok=None):
        def judge(v):
            if v.rc==0: return [('accepted',z3.Not(ok) if ok is not None else z3.BoolVal(True))]
            if not v.err.strip() : return [('no diagnostic',z3.BoolVal(True))]
            return []
        cs.append(Case(key,argv,files,judge,'errors'))
    for o in ('-o','-I','-idirafter','-include','-x','-MF','-MT','-MQ','-Xlinker','-D','-U','-L'):
        rej('missing argument '+o,['/toycc','-S','/s/a.c',o]); rej('missing argument, cc1 '+o,['/toycc','-cc1','-E','-cc1-input','/s/a.c','/s/a.c',o])
    rej('no input',['/toycc']); rej('no input -c',['/toycc','-c']); rej('missing file',['/toycc','-cc1','-E','-cc1-input','/s/none.c','/s/none.c'])
    rej('missing -include',['/toycc','-cc1','-E','-include','none.h','-cc1-input','/s/a.c','/s/a.c'])
    # unknown options: every spelling of up to 3 letters that is no known option or prefix form
    known=['std=','###','S','c','E','s','M','g','w','MP','MD','MMD','cc1','L','m64','MF','MT','MQ','idirafter','include','x','Xlinker','fcommon','fno-common','fpic','fPIC','static','shared','D','U','I','o']
    pref=['o','I','D','U','x','l','L','O','W']
    def rng(ex): 
        o=[]; 
        for ch in range(33,127):
            if chr(ch) in ex: continue
            if o and o[-1][1]==ch-1: o[-1][1]=ch
            else: o.append([ch,ch])
        return o
    for n in (1,2,3,4):
        bs=[B('h')]+[B('u',i) for i in range(n-1)]
        ex='-'+(''.join(pref) if n>2 else '')
        ok=z3.Or(*[bs[0]==ord(p) for p in pref],*[z3.And(*[b==ord(ch) for b,ch in zip(bs,k)]) for k in known if len(k)==n])
        rej('unknown option of %d'%n,['/toycc','-cc1','-E','-cc1-input','/s/a.c','/s/a.c',['-',{'sym':'h','n':1,'in':rng(ex)}]+([{'sym':'u','n':n-1,'in':[[33,126]]}] if n>1 else [])],ok=ok)
    rej('argument of -x',['/toycc','-cc1','-E','-x',{'sym':'u','n':2,'in':PR},'-cc1-input','/s/a.c','/s/a.c'])
    rej('argument of -x, one letter',['/toycc','-cc1','-E','-x',{'sym':'u','n':1,'in':PR},'-cc1-input','/s/a.c','/s/a.c'],ok=B('u')==ord('c'))
    for k in ('-foo','-fno-commo','-fcommonx','-stati','--version','-MDx','-shared1','-includefoo','-m32','-Sx','-cx','-Ex','-static-pie','-M1'): rej('unknown '+k,['/toycc','-cc1','-E','-cc1-input','/s/a.c','/s/a.c',k])
    return cs
def outputs():
    """output goes to the named file only; -E/-S/-M/-MD/-MF write what they should"""
    cs=[]
    def add(key,opts,written,src='int x;\n',contains=None,files=None):
        def judge(v):
            if v.rc!=0: return [('exit status %d: %s'%(v.rc,v.err[-80:]),z3.BoolVal(True))]
            w={k for k,t in v.out.items() if t.strip() and k not in('<stderr>',) and k not in (files or {})}; o=[]
            if w!=set(written): o.append(('wrote %s, expected %s'%(sorted(w),sorted(written)),z3.BoolVal(True)))
            for f,c in (contains or {}).items():
                if not c(v.out.get(f,'')): o.append(('contents of %s: %r'%(f,v.out.get(f,'')[:120]),z3.BoolVal(True)))
            return o
        f={'/s/a.c':src}; f.update(files or {})
        cs.append(Case('output '+key,['/toycc','-cc1']+opts+['-cc1-input','/s/a.c']+(['-cc1-output','/o/out.s'])+['/s/a.c'],f,judge,'outputs'))
    asm=lambda t:'x' in t and '.' in t
    isd=lambda *fs: (lambda t: re.sub(r'\s*\\\n\s*',' ',t).split('\n')[0].split()[1:2]==[fs[0]] and set(re.sub(r'\s*\\\n\s*',' ',t).split('\n')[0].split()[1:])==set(fs))
    tgt=lambda n: (lambda t: t.split(':')[0]==n)
    H={'/s/h.h':'int y;\n','/s/k.h':'#include "h.h"\n'}
    add('-S',['-S'],['/o/out.s'],contains={'/o/out.s':asm}); add('-E',['-E'],['<stdout>'],contains={'<stdout>':lambda t:''.join(t.split())=='intx;'}); add('-E -o',['-E','-o','/o/e.i'],['/o/e.i']); add('-E -o -',['-E','-o','-'],['<stdout>'])
    add('-M',['-M'],['<stdout>'],contains={'<stdout>':tgt('a.o')}); add('-M -o',['-M','-o','/o/m.d'],['/o/m.d']); add('-M -MF',['-M','-MF','/o/m.d'],['/o/m.d'],contains={'/o/m.d':isd('/s/a.c')}); add('-M -MF -o',['-M','-MF','/o/m.d','-o','/o/n.d'],['/o/m.d'])
    add('-MD -MF',['-MD','-MF','/o/m.d'],['/o/m.d','/o/out.s'],contains={'/o/m.d':isd('/s/a.c'),'/o/out.s':asm}); add('-MMD -MF',['-MMD','-MF','/o/m.d'],['/o/m.d','/o/out.s']); add('-MD',['-MD'],['a.d','/o/out.s'],contains={'a.d':tgt('a.o')})
    add('-M deps',['-M'],['<stdout>'],'#include "k.h"\n#include "h.h"\n',{'<stdout>':isd('/s/a.c','/s/k.h','/s/h.h')},H)
    S={SYS+'/sys.h':'int s;\n','/s/h.h':'int y;\n'}
    add('-MD system',['-MD','-MF','/o/m.d'],['/o/m.d','/o/out.s'],'#include <sys.h>\n#include "h.h"\n',{'/o/m.d':isd('/s/a.c',SYS+'/sys.h','/s/h.h')},S)
    add('-MMD system',['-MMD','-MF','/o/m.d'],['/o/m.d','/o/out.s'],'#include <sys.h>\n#include "h.h"\n',{'/o/m.d':isd('/s/a.c','/s/h.h')},S)
    add('-MP',['-M','-MP'],['<stdout>'],'#include "k.h"\n',{'<stdout>':lambda t: '/s/k.h:' in t and '/s/h.h:' in t and '/s/a.c:' not in t},H)
    add('-M -MT',['-M','-MT','foo'],['<stdout>'],contains={'<stdout>':tgt('foo')})
    add('spaces in a dependency',['-M'],['<stdout>'],'#include "h h.h"\n',{'<stdout>':lambda t: '/s/h\\ h.h' in t},{'/s/h h.h':'int y;\n'})
    add('dollar in a dependency',['-M'],['<stdout>'],'#include "h$h.h"\n',{'<stdout>':lambda t: '/s/h$$h.h' in t},{'/s/h$h.h':'int y;\n'})
    add('-fno-common',['-S','-fno-common'],['/o/out.s'],contains={'/o/out.s':lambda t:'.comm' not in t}); add('-fcommon last',['-S','-fno-common','-fcommon'],['/o/out.s'],contains={'/o/out.s':lambda t:'.comm' in t}); add('-fno-common last',['-S','-fcommon','-fno-common'],['/o/out.s'],contains={'/o/out.s':lambda t:'.comm' not in t})
    def bad(key,opts,src):
        def judge(v):
            o=[]
            if v.rc==0: o.append(('accepted',z3.BoolVal(True)))
            if not v.err.strip(): o.append(('no diagnostic',z3.BoolVal(True)))
            if v.out.get('/o/out.s','').strip(): o.append(('an output file is written for a rejected program',z3.BoolVal(True)))
            return o
        cs.append(Case('output '+key,['/toycc','-cc1']+opts+['-cc1-input','/s/a.c','-cc1-output','/o/out.s','/s/a.c'],{'/s/a.c':src},judge,'outputs'))
    bad('rejected','-S'.split(),'int f(void){ return y; }\n'); bad('rejected late',['-S'],'int g(void){return 1;}\nint f(void){ goto l; }\n'); bad('#error',['-S'],'int x;\n#error no\n')
    return cs
def work(c,ps):
    """-> result tuple for one case"""
    found=[]; lim=[]; q=0; pcs=[]
    for p in ps:
        if p.kind=='infeasible' or p.kind=='exec': continue
        if p.kind in('engine-limit','budget'): lim.append(p.kind+' '+p.msg[:80]); continue
        s=z3.Solver(); s.set('timeout',20000); s.add(*p.pc()); ex=[z3.Bool(k[7:])==(v=='1') for k,v in p.choices.items() if k.startswith('exists:')]; s.add(*ex)
        if isinstance(c,Act):
            ev=p.events; execs=[e['exec'] for e in ev if 'exec' in e]; w=[p.choices[k]=='1' for k in sorted(p.choices) if k.startswith('wait')]
            ms=c.judgerun(p.status,execs,w,[e['unlink'] for e in ev if 'unlink' in e],[e['mkstemp'] for e in ev if 'mkstemp' in e],None if p.kind=='exit' else p.kind+' '+p.msg)
            conds=[(m,z3.BoolVal(True)) for m in ms]
        elif p.kind!='exit': conds=[('%s %s'%(p.kind,p.msg),z3.BoolVal(True))]
        else:
            v=View(); v.rc=p.status; v.err=p.out.get('<stderr>',''); v.out=dict(p.out); v.out.pop('<stderr>',None); v.bytes=lambda f,p=p: text(p,f); conds=c.judge(v)
        for m,t in conds:
            s.push(); s.add(t); q+=1; k=s.check()
            if k==z3.sat:
                mo=s.model(); ch=dict(p.choices)
                for d in mo.decls():
                    if z3.is_bool(mo[d]): ch['exists:'+d.name()]='1' if z3.is_true(mo[d]) else '0'
                found.append((m,sx.zmodel(mo),ch))
            elif k!=z3.unsat: lim.append('solver gave up')
            s.pop()
    return c,ps,found,lim,q
def confirm(c,model,ch):
    d=tempfile.mkdtemp(dir=core.scratch())
    try:
        if isinstance(c,Act):
            ws=[ch[k]=='1' for k in sorted(ch) if k.startswith('wait')]; st=c.renumber(c.steps) if c.steps!='error' else []
            def fail(_):
                if True in ws:
                    k=ws.index(True)
                    # the k-th command fails: a cc1 on its (broken) input, or a stub
                    if k<len(st): return ['cc1:'+st[k][1]] if st[k][0]=='cc1' else ['riscv64-linux-gnu-'+st[k][0]] if st[k][0]!='error' else []
                return []
            c.fail=fail
            for f in c.inputs:
                if '/' in f and f[0]!='/': os.makedirs(d+'/cwd/'+os.path.dirname(f),exist_ok=True)
            os.makedirs(d+'/cwd/d',exist_ok=True); shutil.rmtree(d+'/cwd')
            v=native(c,model,ch,d)
            stubs=[l for l in v.log]; exp=c.steps
            if v.crash: return 'the driver dies with status %d'%v.rc
            # observable natively: exit status, the as/ld commands, temporary files, files written
            left=[f for f in v.out if 'toycc-tmpfile' in f]
            if left: return 'temporary files left behind: %s'%left
            if exp=='error': return 'accepted' if v.rc==0 else None
            e=[s for s in c.renumber(exp) if s[0]!='error']; fk=ws.index(True)+1 if True in ws else None
            failed=fk is not None and fk<=len(e) or any(s[0]=='error' for s in exp)
            ee=[s for s in (e[:fk] if fk else e)]; g=[x for x in c.cmds(stubs)]
            if (v.rc!=0)!=bool(failed): return 'exit status %d although %s'%(v.rc,'a step failed' if failed else 'every step succeeded')
            want=[s[0] for s in ee if s[0]!='cc1']
            if [x[0] for x in g]!=want: return 'commands run: %s, expected %s'%(g,[s for s in ee if s[0]!='cc1'])
            for x,s in zip(g,[s for s in ee if s[0]!='cc1']):
                a=lambda y: ('tmp',) if isinstance(y,tuple) and y and y[0]=='tmp' else tuple(a(z) for z in y) if isinstance(y,tuple) else y
                if s[0]=='as' and (a(x[1]),a(x[2]))!=(a(s[1]),a(s[2])): return 'ran %s, expected %s'%(x,s)
                if s[0]=='ld' and not c.match(('ld',a(x[1]),x[2]),('ld',a(s[1]),s[2],s[3])): return 'ran %s, expected %s'%(x,s)
            for s in ee:
                if s[0]=='cc1' and isinstance(s[2],str) and s[2] not in v.out and not failed: return '%s is not written (files: %s)'%(s[2],sorted(v.out))
            return None
        v=native(c,model,ch,d)
        if v.crash: return 'the compiler dies with status %d'%v.rc
        v.bytes=lambda f: conc(v.out.get(f))
        sub=[(z3.BitVec(k,8),z3.BitVecVal(x&255,8)) for k,x in model.items() if '#' in k]+[(z3.Bool(k[7:]),z3.BoolVal(x=='1')) for k,x in ch.items() if k.startswith('exists:')]
        for m,t in c.judge(v):
            if z3.is_true(z3.simplify(z3.substitute(t,*sub))): return m
        return None
    finally: shutil.rmtree(d,ignore_errors=True)
WORK=[]
def _w(i):
    c,ps,f,l,q=work(*WORK[i]); return len(ps),f,l,q
def run():
    global WORK
    r=Report('C20','bounded_symbolic','the real main() (LLVM bitcode) runs on option lists: argument bytes, existence of files and the exit status of every child process are symbolic; commands run, files written, macro state and exit status are decided on every path')
    cs=quoting()+defines()+paths()+errors()+outputs()+actions()
    core.engine(); core.native()
    with ThreadPoolExecutor(4) as ex: PS=list(ex.map(explore,cs))
    WORK=list(zip(cs,PS))
    res=core.pmap(_w,range(len(WORK)),lambda i:(0,[],['worker out of memory or time'],0))
    fam={}; nrep={}
    for c,(n,found,lim,q) in zip(cs,res):
        fam.setdefault(c.fam,[0,0]); fam[c.fam][0]+=1
        r.obl+=1; r.programs+=1; r.paths+=n; r.q+=q; r.checked+=n
        hit=False
        for m,mo,ch in found[:3]:
            r.replays+=1
            try: cf=confirm(c,mo,ch)
            except Exception as ex: cf=None; m+=' [replay failed: %r]'%ex
            if cf:
                r.violation('driver:%s'%c.key,'%s\n%s\nargv: %s\nchoices: %s'%(m,cf,[sx.concretize(a,mo,ch) for a in c.argv],ch),{'case.json':json.dumps(dict(argv=c.argv,files=c.files,model=mo,choices=ch),default=str).encode()}); hit=True; break
            r.unconf.append((c.key,m))
        if found: continue
        if lim: r.inconc.append((c.key,lim[0])); continue
        if not n: r.inconc.append((c.key,'no completed path')); continue
        r.disch+=1; fam[c.fam][1]+=1
    for f,(n,ok) in fam.items(): r.family(f,n,ok)
    r.bounds=['-MQ/-MT arguments of up to 4 symbolic bytes, all -D/-U sequences of 2 (selected of 3) with symbolic values, 7 candidate files for -I/-idirafter/-include, 19 option sets x 15 input lists with every child exit status, unknown options of up to 4 symbolic characters']
    r.assume=['children are modelled by their command line and a symbolic exit status','-x applies to every input, as the code has it; make quoting is gcc\'s']
    return r.finish()
