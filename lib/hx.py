"""Checks driven by a C harness linked with the compiler's bitcode (symbolic) and natively (replay)."""
import core, sx, os, json, z3, tempfile, shutil
STUB='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void __sym_assume(int c){}
long __sym_choose(const char*n,int k){ char b[64]; snprintf(b,64,"SYM_%%s",n); char*v=getenv(b); return v?atol(v):0; }
unsigned long __sym_var(const char*n,int w){ char b[64]; snprintf(b,64,"SYM_%%s",n); char*v=getenv(b); return v?strtoul(v,0,0):0; }
void __sym_assert(int c,const char*s){ if(!c){ printf("assertion failed: %%s\\n",s); fflush(stdout); _Exit(77);} }
void __sym_event(const char*k,const char*v){ printf("event %%s %%s\\n",k,v); fflush(stdout); }
int __sym_noholes; int toycc_main(int,char**); static FILE*cap; static int ofd;
#include <unistd.h>
int __sym_toycc(int c,char**v){ fflush(stdout); ofd=dup(1); cap=tmpfile(); dup2(fileno(cap),1); int r=toycc_main(c,v); fflush(stdout); dup2(ofd,1); return r; }
long __sym_stdout(char**p){ long n=lseek(fileno(cap),0,SEEK_END); *p=malloc(n+1); pread(fileno(cap),*p,n,0); return n; }
int h_main(void); int main(){ return h_main(); }
'''.replace('%%','%')
_nat={}
def native_harness(harness):
    """the compiler's sources and the harness built natively with ASan (main renamed), file paths /s/a.c redirected"""
    if harness in _nat: return _nat[harness]
    d=tempfile.mkdtemp(dir=core.scratch()); objs=[]
    for i,(f,fl) in enumerate(core.sources()):
        o='%s/%d.o'%(d,i)
        r=core.sh(['gcc','-w','-std=c2x','-g','-fsanitize=address','-Dmain=toycc_main']+fl+['-c',f,'-o',o],cwd=core.REPO)
        if r.returncode: raise core.BuildError(r.stderr.decode()[-400:])
        objs.append(o)
    open(d+'/stub.c','w').write(STUB)
    h=open(harness).read().replace('"/s/a.c"','getenv("SYM_FILE")')
    open(d+'/h.c','w').write('#include <stdlib.h>\n'+h)
    r=core.sh(['gcc','-w','-std=gnu2x','-g','-fsanitize=address','-DDEBUG','-I.','-Iparser','-Ipreprocessor',d+'/h.c',d+'/stub.c']+objs+['-o',d+'/h'],cwd=core.REPO)
    if r.returncode: raise core.BuildError(r.stderr.decode()[-400:])
    _nat[harness]=d+'/h'; return d+'/h'
def run_native(harness,txt,env=None):
    exe=native_harness(harness); d=tempfile.mkdtemp(dir=core.scratch()); open(d+'/a.c','wb').write(txt)
    try: r=core.sh([exe],timeout=20,env=dict(os.environ,SYM_FILE=d+'/a.c',ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:strict_memcmp=0',**(env or {})),cwd=d); rc,o,e=r.returncode,r.stdout.decode(errors='replace'),r.stderr.decode(errors='replace')
    except Exception as ex: rc,o,e=-99,'',repr(ex)
    shutil.rmtree(d,ignore_errors=True)
    return rc,o,e
def run(r,fam,harness,groups,timeout=300,max_paths=400000):
    """groups: (key, segs[, assume]); the harness asserts, and announces with event 'expect' ok/error/soft/any what the outcome must be"""
    for b in range(0,len(groups),40):
        part=groups[b:b+40]
        segs=[{'choice':'@','alts':[g[1] for g in part]}] if len(part)>1 else part[0][1]
        ps=core.tcsym({'entry':'h_main','argv':[],'files':{'/s/a.c':segs}},harness=harness,timeout=timeout,max_paths=max_paths,label=fam)
        by=[[] for _ in part]
        for p in ps:
            i=int(p.choices.get('@',-1)) if len(part)>1 else 0
            if i>=0: by[i].append(p)
        if os.environ.get('SLOW'): print(fam,len(part),len(ps),'%.1f'%core.TS.wall,sorted(((len(x),g[0]) for g,x in zip(part,by)),reverse=True)[:5],flush=True)
        ok=0
        for g,pp in zip(part,by):
            r.obl+=1; r.programs+=1; r.paths+=len(pp); r.checked+=len(pp); bad=None; lim=None; done=0; nconf=0
            for p in pp:
                if p.kind=='infeasible': continue
                if p.kind in('engine-limit','budget'): lim=p.kind+' '+p.msg[:80]; continue
                ev={k:v for e in p.events for k,v in (e.items() if isinstance(e,dict) else [])}
                why=None
                if p.kind in('assert','crash','memory-error','abort','timeout'): why='%s: %s'%(p.kind,p.msg)
                elif p.kind=='exit' and 'returned' not in ev:
                    if ev.get('expect')=='ok': why='well-formed input is rejected: '+p.out.get('<stderr>','')[-80:]
                    elif p.status==0: why='exit status 0 without a result'
                    elif not p.out.get('<stderr>','').strip(): why='no diagnostic'
                done+=1
                if why and not bad and nconf<5:
                    txt=sx.concretize(g[1],p.model(),p.choices if len(part)==1 else dict(p.choices)); nconf+=1; r.replays+=1
                    rc,o,e=run_native(harness,txt,{'SYM_'+k:str(v) for k,v in list(p.choices.items())+[(k,v) for k,v in p.model().items() if '#' not in k]})
                    nev='event returned' in o
                    if rc==77 or rc==99 or rc<0 or (why.startswith('well-formed') and rc and not nev and 'event expect ok' in o) or (why=='no diagnostic' and rc and not e.strip()):
                        bad=(why,txt,'natively: exit %d %s %s'%(rc,o[-300:],e[-400:]))
                    else: r.unconf.append((g[0],why+' on %r'%txt))
            if bad: r.violation('%s:%s'%(fam,g[0]),'%s\ninput: %r\n%s'%bad,{'input.c':bad[1]})
            elif nconf: pass
            elif lim: r.inconc.append((g[0],lim))
            elif not done: r.inconc.append((g[0],'no completed path'))
            else:
                r.disch+=1; ok+=1
                if r.obl%17==1: r.sample({'family':fam,'input':json.dumps(g[1])[:250],'paths':len(pp)})
        r.family(fam,len(part),ok)
