"""#include search, guards, #pragma once, locations: every candidate file may or may not exist (symbolic)."""
from report import Report
import core, sx, z3, re, os, json, tempfile, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
ROOT='/s'; SYS='//include'
class Missing(Exception): pass
class Need(Exception):
    def __init__(n,f): n.f=f
TOK=re.compile(r'"(?:[^"\\]|\\.)*"|\w+|[^\w\s]')
class Ref:
    """the reference: which tokens come out, given which files exist"""
    def __init__(s,files,dirs,exists): s.f=files; s.dirs=dirs; s.ex=exists; s.out=[]; s.m={}; s.once=set(); s.depth=0; s.lo=1
    def has(s,p):
        if p not in s.f: return False
        t=s.f[p]
        if isinstance(t,str): return True
        if p not in s.ex: raise Need(p)
        return s.ex[p]
    def search(s,name,start):
        for i in range(start,len(s.dirs)):
            p=s.dirs[i]+'/'+name
            if s.has(p): return p,i+1
        # test/pragma-once.c pins this last resort: the name as it is, from the working directory
        if s.has(name): return name,0
        raise Missing(name)
    def run(s,path,nxt=0):
        if path in s.once: return
        s.depth+=1
        if s.depth>40: raise Missing('too deep')
        t=s.f[path]; t=t if isinstance(t,str) else t[0]
        cond=[]; disp=path; delta=0
        for ln,l in enumerate(t.split('\n'),1):
            l=re.sub(r'/\*.*?\*/',' ',l).split('//')[0].strip() if 'include' not in l else l.strip()
            live=all(c[0] for c in cond)
            if l.startswith('#'):
                w=l[1:].strip().split(None,1); d=w[0] if w else ''; a=w[1].strip() if len(w)>1 else ''
                if d in('ifndef','ifdef','if'):
                    v=False
                    if live:
                        if d=='ifndef': v=a not in s.m
                        elif d=='ifdef': v=a in s.m
                        else: v={'0':False,'1':True}.get(a) if a in('0','1') else (re.match(r'!defined\(?\s*(\w+)\)?$',a).group(1) not in s.m if a.startswith('!') else re.match(r'defined\(?\s*(\w+)\)?$',a).group(1) in s.m)
                    cond.append([v,v or not live]); continue
                if d=='elif':
                    c=cond[-1]; up=all(x[0] for x in cond[:-1])
                    v=up and not c[1] and (a=='1' or (a.startswith('defined') and re.match(r'defined\(?\s*(\w+)\)?$',a).group(1) in s.m)); c[0]=v; c[1]=c[1] or v; continue
                if d=='else': c=cond[-1]; c[0]=not c[1]; c[1]=True; continue
                if d=='endif': cond.pop(); continue
                if not live: continue
                if d=='define': k=a.split(None,1); s.m[k[0]]=k[1] if len(k)>1 else ''; continue
                if d=='undef': s.m.pop(a,None); continue
                if d=='pragma' and a=='once': s.once.add(path); continue
                if d=='line':
                    k=a.split(None,1); delta=int(k[0])-(ln+1)+s.lo   # test/line.c pins N+1 for the line after #line N (known finding)
                    if len(k)>1: disp=k[1][1:-1]
                    continue
                if d in('include','include_next'):
                    a=a.split('//')[0].strip(); a=s.m.get(a,a)
                    q=a[0]=='"'; name=a[1:-1]
                    if name[0]=='/':
                        if not s.has(name): raise Missing(name)
                        s.run(name); continue
                    if d=='include':
                        here=os.path.dirname(path)+'/'+name
                        if q and s.has(here): s.run(here); continue
                        p,i=s.search(name,0)
                    else: p,i=s.search(name,nxt)
                    s.run(p,i); continue
                if d=='': continue
                raise Missing('directive '+d)
            if not live: continue
            for tk in TOK.findall(l):
                if tk=='__LINE__': s.out.append(str(ln+delta))
                elif tk=='__FILE__': s.out.append('"%s"'%disp)
                elif tk in s.m: s.out+=TOK.findall(s.m[tk])
                else: s.out.append(tk)
        s.depth-=1
def spec(files,dirs,pre,lo=1):
    """-> [(existence assumptions, tokens or None for a diagnostic)]: a decision tree over the existence of files"""
    out=[]
    def go(ex):
        r=Ref(files,dirs,dict(ex))
        r.m=dict(pre); r.lo=lo
        try: r.run('/s/a.c'); out.append((dict(ex),r.out))
        except Missing: out.append((dict(ex),None))
        except Need as n:
            for v in (False,True): go({**ex,n.f:v})
    go({}); return out
def nat(p,d): return d+'/toycc_root'+p[1:] if p.startswith('//') else d+p
def replay(c,ex):
    """the files on disk, the native compiler"""
    d=tempfile.mkdtemp(dir=core.scratch()); src=core.native()
    try:
        top=d+'/toycc_root'; os.makedirs(top); exe=top+'/toycc'; shutil.copy(src,exe); os.makedirs(d+'/s',exist_ok=True); os.makedirs(d+'/cwd',exist_ok=True)
        for x in c['dirs']: os.makedirs(nat(x,d),exist_ok=True)
        for p,t in c['files'].items():
            if not isinstance(t,str) and not ex.get(p,False): continue
            q=nat(p,d) if p[0]=='/' else d+'/cwd/'+p; os.makedirs(os.path.dirname(q),exist_ok=True); open(q,'w').write((t if isinstance(t,str) else t[0]).replace('"/abs','"'+d+'/abs'))
        opts=[o.replace('-I/','-I'+d+'/') if o.startswith('-I') else (d+o if o[:1]=='/' else o) for o in c['opts']]
        r=subprocess.run([exe,'-E']+opts+['-o',d+'/o.i',d+'/s/a.c'],stdout=-1,stderr=-1,timeout=20,cwd=d+'/cwd')
        if sx.crashed(r.returncode): return 'signal',r.stderr.decode(errors='replace')[-200:]
        if r.returncode: return None,r.stderr.decode(errors='replace')[-200:]
        t=open(d+'/o.i').read().replace(d+'/toycc_root','/').replace(d,'')
        return TOK.findall(t),''
    finally: shutil.rmtree(d,ignore_errors=True)
def X(t): return (t,)          # a file that may be missing
def M(tag): return tag+' __FILE__ __LINE__\n'
def cases():
    cs=[]
    def add(key,main,files,opts=('-I/i1','-I/i2'),dirs=None,pre=None,lo=1):
        f={'/s/a.c':main}; f.update(files)
        ds=[o[2:] for o in opts if o.startswith('-I')]+[SYS,'/usr/local/include','/usr/riscv64-linux-gnu/include','/usr/include/riscv64-linux-gnu','/usr/include']
        cs.append(dict(key=key,files=f,opts=list(opts),dirs=ds,pre=pre or {},lo=lo))
    cand={'/s/x.h':X('here\n'+M('S')),'/i1/x.h':X('i1\n'+M('A')),'/i2/x.h':X('i2\n'+M('B')),SYS+'/x.h':X('sys\n'+M('Y'))}
    for q,k in (('"x.h"','quote'),('<x.h>','angle')):
        add('search %s'%k,'#include %s\nend __FILE__ __LINE__\n'%q,cand)
        add('search %s macro'%k,'#define H %s\n#include H\nend __FILE__ __LINE__\n'%q,cand)
        add('search %s, order swapped'%k,'#include %s\nend\n'%q,cand,('-I/i2','-I/i1'))
        add('no -I %s'%k,'#include %s\nend\n'%q,cand,())
        for q2,k2 in (('"x.h"','quote'),('<x.h>','angle')):
            add('twice %s %s'%(k,k2),'#include %s\nmid __LINE__\n#include %s\nend __FILE__ __LINE__\n'%(q,q2),cand)
    for q,k in (('"x.h"','quote'),('<x.h>','angle')): add('working directory last %s'%k,'#include %s\nmid\n#include %s\nend\n'%(q,q),{'/s/x.h':X('s\n'),'/i1/x.h':X('i1\n'),SYS+'/x.h':X('sys\n'),'x.h':X('cwd __FILE__\n')})
    add('working directory, sub-directory','#include <d/x.h>\nend\n',{'/i1/d/x.h':X('i1\n'),'d/x.h':X('cwd\n#include "y.h"\n'),'d/y.h':X('dy\n'),'/i2/y.h':X('i2y\n'),'y.h':X('cy\n')})
    sub={'/s/sub/y.h':X('yin __LINE__\n#include "x.h"\nyout __FILE__ __LINE__\n'),'/i1/y.h':X('y1in\n#include "x.h"\ny1out __LINE__\n'),'/s/sub/x.h':X('subx\n'),'/s/x.h':X('sx\n'),'/i1/x.h':X('i1x\n'),'/i2/x.h':X('i2x\n')}
    add('nested quote','#include "sub/y.h"\n#include "x.h"\nend __FILE__ __LINE__\n',{k:v for k,v in sub.items() if k!='/i1/y.h'})
    add('nested in a search directory','#include <y.h>\n#include <x.h>\n#include "x.h"\nend __LINE__\n',{k:v for k,v in sub.items() if 'sub' not in k})
    add('nested angle','#include "sub/y.h"\n#include <x.h>\nend\n',{'/s/sub/y.h':'#include <x.h>\ny\n#include "x.h"\n','/s/sub/x.h':X('subx\n'),'/i1/x.h':X('i1x\n'),'/i2/x.h':X('i2x\n')})
    add('sub-directory names','#include <d/x.h>\n#include "d/x.h"\nend\n',{'/s/d/x.h':X('s\n'),'/i1/d/x.h':X('i1\n'),'/i2/d/x.h':X('i2\n')})
    add('same name in two directories','#include "d/p.h"\n#include "e/p.h"\nend\n',{'/s/d/p.h':X('dp\n#include "x.h"\n'),'/s/e/p.h':'ep\n#include "x.h"\n','/s/d/x.h':X('dx\n'),'/s/e/x.h':X('ex\n'),'/i1/x.h':X('i1x\n'),'/i1/d/p.h':X('i1dp\n#include "x.h"\n')})
    add('absolute','#include "/abs/x.h"\nend __LINE__\n',{'/abs/x.h':X('abs __FILE__\n#include "y.h"\n'),'/abs/y.h':X('absy\n'),'/i1/y.h':X('i1y\n')})
    nx='#include_next <x.h>\n'
    ch={'/s/x.h':X('s[\n'+nx+']s\n'),'/i1/x.h':X('a[\n'+nx+']a __LINE__\n'),'/i2/x.h':X('b[\n'+nx+']b\n'),'/i3/x.h':X('c[\n'+nx+']c\n'),SYS+'/x.h':X('y __FILE__\n')}
    I3=('-I/i1','-I/i2','-I/i3')
    add('include_next chain','#include <x.h>\nend __LINE__\n',ch,I3); add('include_next chain quote','#include "x.h"\nend\n',ch,I3); add('include_next chain twice','#include <x.h>\nmid\n#include <x.h>\nend\n',ch,I3)
    add('include_next in the main file','#include_next <x.h>\nend\n',{'/i1/x.h':X('i1\n'),'/i2/x.h':X('i2\n')})
    add('include_next quote form','#include <x.h>\nend\n',{'/i1/x.h':'a\n#include_next "x.h"\n','/i1/y.h':'q\n','/i2/x.h':X('b\n'),SYS+'/x.h':X('y\n')})
    add('include_next after another header','#include <x.h>\nend\n',{'/i1/x.h':X('a[\n#include <z.h>\n'+nx+']a\n'),'/i2/x.h':X('b\n'),'/i3/x.h':X('c\n'),'/i1/z.h':X('z1\n'),'/i2/z.h':X('z2\n'),'/i3/z.h':X('z3\n')},I3)
    add('include_next of another name','#include <x.h>\nend\n',{'/i1/x.h':X('a[\n#include_next <z.h>\n]a\n'),'/i2/x.h':X('b[\n#include_next <z.h>\n]b\n'),'/i1/z.h':X('z1\n'),'/i2/z.h':X('z2\n'),'/i3/z.h':X('z3\n')},I3)
    add('include_next after a cached header','#include <z.h>\n#include <x.h>\n#include <z.h>\n#include <x.h>\nend\n',{'/i1/x.h':X('a[\n'+nx+']a\n'),'/i2/x.h':X('b\n'),'/i2/z.h':X('z2\n'),'/i1/z.h':X('z1\n'),'/i3/x.h':X('c\n')},I3)
    add('include_next two names','#include <x.h>\n#include <z.h>\nend\n',{'/i1/x.h':X('a[\n#include_next <x.h>\n]a\n'),'/i2/x.h':X('b[\n#include <z.h>\n]b\n'),'/i1/z.h':X('z1[\n#include_next <z.h>\n]z1\n'),'/i2/z.h':X('z2\n'),'/i3/z.h':X('z3\n'),'/i3/x.h':X('c\n')},I3)
    # guards: each shape, included repeatedly, with the guard macro changed in between
    shapes={
     'plain':'#ifndef G\n#define G\nbody __LINE__\n#endif\n','plain with comment':'/* c */\n#ifndef G // c\n#define G 1 /* d */\nbody\n#endif // G\n','text after':'#ifndef G\n#define G\nbody\n#endif\nafter\n','text before':'before\n#ifndef G\n#define G\nbody\n#endif\n',
     'else':'#ifndef G\n#define G\nbody\n#else\nagain\n#endif\n','elif':'#ifndef G\n#define G\nbody\n#elif 1\nagain\n#endif\n','elif defined':'#ifndef G\n#define G\nbody\n#elif defined(G)\nagain\n#endif\n','nested if':'#ifndef G\n#define G\n#ifdef Q\nq\n#endif\nbody\n#if 0\nno\n#else\nyes\n#endif\n#endif\n',
     'nested else at end':'#ifndef G\n#define G\nbody\n#ifdef Q\nq\n#else\nnq\n#endif\n#endif\n','two blocks':'#ifndef G\n#define G\nbody\n#endif\n#ifndef Q\nsecond\n#endif\n','two blocks, text':'#ifndef G\n#define G\nbody\n#endif\ntext\n#ifdef G\nsecond\n#endif\n','trailing ifdef':'#ifndef G\n#define G\nbody\n#endif\n#ifdef G\nafter\n#endif\n',
     'other macro':'#ifndef G\n#define K\nbody\n#endif\n','if !defined':'#if !defined(G)\n#define G\nbody\n#endif\n','ifdef':'#ifdef G\nbody\n#endif\n','pragma once':'#pragma once\nbody\n','pragma once late':'body\n#pragma once\nmore\n','pragma once conditional':'#ifdef Q\n#pragma once\n#endif\nbody\n','undef inside':'#ifndef G\n#define G\nbody\n#undef G\n#endif\n',
     'define not second':'#ifndef G\nbody\n#define G\n#endif\n','no body':'#ifndef G\n#define G\n#endif\n','empty':'','guard of guard':'#ifndef G\n#define G\n#ifndef Q\n#define Q\nbody\n#endif\nb2\n#endif\n','else in nested':'#ifndef G\n#define G\n#if 1\nx1\n#else\nx2\n#endif\n#else\nagain\n#endif\n','define elsewhere':'#ifndef G\n#define G\nbody\n#endif\n#define Z z\n','directive after':'#ifndef G\n#define G\nbody\n#endif\n#undef G\n','null directive':'#\n#ifndef G\n#define G\nbody\n#endif\n',
     'include inside':'#ifndef G\n#define G\nbody\n#include "y.h"\n#endif\n','prefix macro':'#ifndef G\n#define GG\nbody\n#endif\n'}
    for k,t in shapes.items():
        seps=['','#undef G\n','#define G\n','#define Q\n','#undef G\n#define Q\n']
        for i,a in enumerate(seps):
            for j,b in enumerate(seps if core.THOROUGH else seps[:2]):
                add('guard %s %d%d'%(k,i,j),'#include "x.h"\nm1\n%s#include "x.h"\nm2 __LINE__\n%s#include <x.h>\nend __FILE__ __LINE__\n'%(a.replace('#define G','#undef G\n#define G 1'),b),{'/s/x.h':t,'/s/y.h':'y\n','/i1/x.h':X('other\n')})
        add('guard pre-defined %s'%k,'#define G 1\n#include "x.h"\nm\n#undef G\n#include "x.h"\nend\n',{'/s/x.h':t,'/s/y.h':'y\n'})
    add('guard macro shared by two files','#include "x.h"\n#include "y.h"\n#undef G\n#include "y.h"\n#include "x.h"\nend\n',{'/s/x.h':X('#ifndef G\n#define G\nxb\n#endif\n'),'/s/y.h':X('#ifndef G\n#define G\nyb\n#endif\n'),'/i1/x.h':X('i1x\n'),'/i1/y.h':'i1y\n'})
    add('pragma once by file','#include "x.h"\n#include <x.h>\n#include "x.h"\nend\n',{'/s/x.h':X('#pragma once\ns\n'),'/i1/x.h':X('#pragma once\ni1\n'),'/i2/x.h':'i2\n'})
    add('mutual inclusion','#include "x.h"\n#include "y.h"\nend __LINE__\n',{'/s/x.h':'#ifndef X\n#define X\nx1\n#include "y.h"\nx2\n#endif\n','/s/y.h':'#ifndef Y\n#define Y\ny1\n#include "x.h"\ny2\n#endif\n'})
    add('mutual inclusion once','#include "x.h"\n#include "y.h"\nend\n',{'/s/x.h':'#pragma once\nx1\n#include "y.h"\nx2\n','/s/y.h':'#pragma once\ny1\n#include "x.h"\ny2\n'})
    # locations
    loc='a __LINE__ __FILE__\n#line 100\nb __LINE__ __FILE__\n\nc __LINE__\n#line 7 "q.h"\nd __LINE__ __FILE__\n#include "x.h"\ne __LINE__ __FILE__\n#include "x.h"\nf __LINE__\n'
    add('locations',loc,{'/s/x.h':X('x __LINE__ __FILE__\n#line 50 "in.h"\ny __LINE__ __FILE__\n#include "y.h"\nz __LINE__ __FILE__\n'),'/s/y.h':X('yy __LINE__ __FILE__\n'),'/i1/x.h':X('i1 __LINE__ __FILE__\n'),'/i1/y.h':'i1y __FILE__ __LINE__\n'})
    add('#line does not change the search','#line 3 "/i2/foo.c"\n#include "x.h"\nend __LINE__ __FILE__\n',{'/s/x.h':X('s __FILE__\n'),'/i1/x.h':X('i1 __FILE__\n'),'/i2/x.h':X('i2\n')})
    add('#line in a header and once','#include "x.h"\n#include "x.h"\nend __LINE__ __FILE__\n',{'/s/x.h':'#line 9 "z.h"\n#pragma once\nx __LINE__ __FILE__\n'})
    add('line number after #line','#line 100\na __LINE__\n#include "x.h"\nb __LINE__\n',{'/s/x.h':X('x\n')},lo=0)
    add('macro defined in a header','#include "x.h"\nV __LINE__\n#include "y.h"\nV\n',{'/s/x.h':X('#define V v1\n'),'/s/y.h':X('#undef V\n#define V v2\nV\n'),'/i1/x.h':'#define V w1\n','/i1/y.h':'#define Q\n'})
    add('header without a final newline','#include "x.h"\nb __LINE__\n',{'/s/x.h':X('x __LINE__'),'/i1/x.h':'#define K k'})
    add('conditional include','#ifdef Q\n#include "none.h"\n#else\n#include "x.h"\n#endif\nend __LINE__\n',{'/s/x.h':X('s\n'),'/i1/x.h':X('i\n')})
    add('deep nesting','#include "n0.h"\nend __LINE__ __FILE__\n',dict([('/s/n%d.h'%i,'in%d\n#include "n%d.h"\nout%d __LINE__ __FILE__\n'%(i,i+1,i)) for i in range(12)]+[('/s/n12.h',X('deep __FILE__\n')),('/i1/n12.h',X('i1 __FILE__\n'))]))
    return cs
def one(c):
    fs={p:({'exists':p,'data':t[0]} if not isinstance(t,str) else t) for p,t in c['files'].items()}
    ps=core.tcsym({'argv':['/toycc','-cc1','-E']+c['opts']+['-o','/o/a.i','-cc1-input','/s/a.c','/s/a.c'],'files':fs},jobs=2,timeout=120,label='include')
    return ps
def run():
    r=Report('C24','bounded_symbolic','the compiler\'s preprocessor (LLVM bitcode) runs on programs of headers each of which may or may not exist (symbolic existence); the token sequence with __FILE__ and __LINE__ is compared, for every combination, with a reference include model')
    cs=cases()
    with ThreadPoolExecutor(4) as ex: res=list(ex.map(one,cs))
    fam={}
    for c,ps in zip(cs,res):
        f=c['key'].split()[0]; fam.setdefault(f,[0,0]); fam[f][0]+=1
        r.obl+=1; r.programs+=1; r.paths+=len(ps)
        tree=spec(c['files'],c['dirs'],c['pre'],c['lo']); bv={p:z3.Bool(p) for p,t in c['files'].items() if not isinstance(t,str)}
        s=z3.Solver(); bad=None; lim=None; pcs=[]
        for p in ps:
            if p.kind in('engine-limit','budget'): lim=p.kind+' '+p.msg[:80]; continue
            if p.kind=='infeasible': continue
            pc=[bv[k[7:]]==(v=='1') for k,v in p.choices.items() if k.startswith('exists:')]; pcs.append(z3.And(*pc) if pc else z3.BoolVal(True))
            if p.kind!='exit': got=p.kind+' '+p.msg
            else: got=TOK.findall(p.out.get('/o/a.i','')) if p.status==0 else None
            r.checked+=1
            for ex,exp in tree:
                if got==exp: continue
                s.push(); s.add(*pc); s.add(*[bv[k]==v for k,v in ex.items()]); r.q+=1; k=s.check()
                if k==z3.sat:
                    m=s.model(); full={q:bool(z3.is_true(m.eval(b,model_completion=True))) for q,b in bv.items()}
                    bad=bad or (full,exp,got)
                s.pop()
        if not bad and not lim:
            # the explored paths cover every combination
            s.push(); s.add(z3.Not(z3.Or(*pcs)) if pcs else z3.BoolVal(True)); r.q+=1
            if s.check()!=z3.unsat: lim='paths do not cover every combination'
            s.pop()
        if bad:
            full,exp,got=bad; nv,err=replay(c,full); r.replays+=1
            e2=next(o for ex,o in tree if all(full[k]==v for k,v in ex.items()))
            if nv!=e2:
                d='existing files: %s\nexpected: %s\ngot:      %s %s\n'%([k for k,v in full.items() if v],'a diagnostic' if e2 is None else ' '.join(e2),'a diagnostic' if nv is None else nv if isinstance(nv,str) else ' '.join(nv),err)
                r.violation('include:%s'%c['key'],d,{'case.json':json.dumps(c,default=str).encode()})
            else: r.unconf.append((c['key'],'not reproduced natively: %s'%(got,)))
        elif lim: r.inconc.append((c['key'],lim))
        else: r.disch+=1; fam[f][1]+=1
    for f,(n,ok) in fam.items(): r.family(f,n,ok)
    r.bounds=['up to 7 candidate headers each existing or not (all combinations), 3 -I directories plus the built-in one, nesting <= 13, 29 guard shapes with up to 3 inclusions and the guard macro redefined in between']
    r.assume=['existence does not change during a run; the same file under two spellings (symbolic links, "a/../b") counts as two files']
    return r.finish()
