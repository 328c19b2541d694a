from gen import *
from report import Report
import core, itertools, random, os
def run_hash(r):
    rnd=random.Random(core.SEED*7+13)
    sc=[]
    n=6 if not core.THOROUGH else 7
    for k in range(1,n+1): sc+=[''.join(x) for x in itertools.product('pd',repeat=k) if x[0]=='p']
    for k in range(1,5 if not core.THOROUGH else 6): sc+=[''.join(x) for x in itertools.product('qe',repeat=k) if x[0]=='q']
    for k in range(1,3): sc+=[''.join(x) for x in itertools.product('rx',repeat=k)]
    for k in range(1,4 if not core.THOROUGH else 5): sc+=[''.join(x) for x in itertools.product('uvwy',repeat=k) if 'w' in x]
    # around each growth threshold, with and without tombstones
    for f in ([10,11,12,13,22,23,24,44,45,46] if not core.THOROUGH else list(range(8,60))):
        for t in ['ppd','pdp','ppp']: sc.append('F'*f+t)
    for _ in range(40 if not core.THOROUGH else 400):
        s=''.join(rnd.choice(['F','F','F','G','H','O']) for _ in range(rnd.randint(5,60)))
        s='F'+s; sc.append(s+''.join(rnd.choice('pd') for _ in range(rnd.randint(1,3))))
        sc.append(s+'FF'+'p'+s[:10]+rnd.choice(['p','d'])+'F')
    for k in [4,8,11,12]:   # many tombstones, then reuse
        sc.append('F'*k+'G'*k+'pp'+'F'*k+'pd'); sc.append(('FG'*14)+'pdp'); sc.append('p'+('FH'*30)+'pd')
    d=core.scratch()+'/hm'; os.makedirs(d,exist_ok=True)
    src=open(core.VERIF+'/harness/hashmap.c').read()
    done=0
    for b in range(0,len(sc),400):
        part=sc[b:b+400]
        f='%s/h%d.c'%(d,b)
        open(f,'w').write(src.replace('#include "scripts.inc"',','.join('"%s"'%s for s in part)))
        ps=core.tcsym({'entry':'h_main','argv':[],'files':{}},harness=f,timeout=500,max_paths=3000000,label='histories')
        by={}
        for p in ps: by.setdefault(int(p.choices.get('S',-1)),[]).append(p)
        for i,s in enumerate(part):
            pp=by.get(i,[]); r.obl+=1; r.paths+=len(pp); r.programs+=1; r.checked+=len(pp)
            bad=[p for p in pp if p.kind in('assert','abort','crash','memory-error','timeout')]
            lim=[p for p in pp if p.kind in('engine-limit','budget')]
            if bad:
                p=bad[0]; r.replays+=1; m=p.model()
                c=replay(f,i,m,d)
                if c: r.violation('history %s'%s,'%s %s\nkeys: %s\nreplayed natively: %s'%(p.kind,p.msg,m,c),{'harness.c':open(f).read(),'keys.txt':repr((i,s,m))})
                else: r.unconf.append((s,p.kind+' '+p.msg))
            elif lim: r.inconc.append((s,lim[0].kind+' '+lim[0].msg[:80]))
            elif not [p for p in pp if p.kind=='exit']: r.inconc.append((s,'no completed path'))
            else:
                r.disch+=1; done+=1
                if i%60==3: r.sample({'history':s,'paths':len(pp)})
    r.family('hash map histories',len(sc),done)
def replay(f,i,m,d):
    """run the same history natively with the solver's keys"""
    stub=d+'/stub.c'
    open(stub,'w').write('#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\nstatic struct{const char*n;unsigned long v;}t[]={%s{0,0}};\nunsigned long __sym_var(const char*n,int w){for(int i=0;t[i].n;i++)if(!strcmp(t[i].n,n))return t[i].v;return 0;}\nvoid __sym_assume(int c){}\nlong __sym_choose(const char*n,int k){return %d;}\nvoid __sym_assert(int c,const char*s){if(!c){printf("assertion failed: %%s\\n",s);exit(7);}}\nint h_main(void);int main(){return h_main();}\nchar *format(const char*f,...){return 0;}\nvoid error(const char*f,...){printf("error() called\\n");exit(8);}'%(''.join('{"%s",%d},'%(k,int(v)) for k,v in m.items()),i))
    r=core.sh(['gcc','-w','-std=gnu2x','-DDEBUG','-fsanitize=address','-I.','-Iparser','-Ipreprocessor','-o',d+'/rp',stub,f,'hashmap.c'],cwd=core.REPO)
    if r.returncode: return None
    r=core.sh([d+'/rp'],timeout=20,env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0'))
    return (r.stdout.decode()+r.stderr.decode())[:300] or 'exit %d'%r.returncode if r.returncode else None
def run():
    r=Report('C13','bounded_symbolic','hashmap.c (LLVM bitcode) driven through operation histories: the operation string is enumerated, every key byte is symbolic (which keys coincide, and whether they collide, is left to the solver), and lookups of every key are compared with the finite-map model; concrete prefixes bring the table to each growth threshold and to tombstone-rich states; macro definition histories run through the whole preprocessor')
    run_hash(r)
    r.bounds=['histories of up to %d symbolic operations on one home bucket, %d on two, plus concrete prefixes of up to 64 operations'%((7,5) if core.THOROUGH else (6,4))]
    r.assume=['malloc succeeds','the engine\'s model of memcmp/strlen/calloc']
    return r.finish()
