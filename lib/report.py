"""Verdict, evidence and replay bookkeeping shared by all checks."""
import os, sys, json, time, shutil, re
import core, tv, replay as rp
KF=os.path.join(core.VERIF,'known_findings.txt')
class Report:
    def __init__(r, prop, level, rule):
        r.prop=prop; r.level=level; r.rule=rule; r.t0=time.time()
        r.programs=0; r.obl=0; r.disch=0; r.checked=0; r.samples=[]; r.viol=[]; r.known=[]; r.inconc=[]; r.bounds=[]; r.assume=[]
        r.q=0; r.solver=0.0; r.insts=0; r.paths=0; r.fam={}; r.vac={}; r.extra={}; r.replays=0; r.unconf=[]; r.partial=0
        r.kf=[]
        if os.path.exists(KF):
            for l in open(KF):
                m=re.match(r'^KNOWN-FINDING: property=(\S+) key=(\S+)\s*(.*)$',l.strip())
                if m and m.group(1)==prop: r.kf.append((m.group(2),m.group(3)))
        r.dir=os.path.join(core.VERIF,'evidence','replay',prop)
        shutil.rmtree(r.dir,ignore_errors=True)
    def sample(r,s):
        if len(r.samples)<8: r.samples.append(s)
    def family(r,name,n,ok): 
        f=r.fam.setdefault(name,[0,0]); f[0]+=n; f[1]+=ok
    def violation(r,key,text,files=None):
        """a confirmed violation; files: {name: content} for the replay directory"""
        key=key.replace(' ','_')
        for k,why in r.kf:
            if k==key:
                r.known.append((key,why or text)); return
        d=os.path.join(r.dir,re.sub(r'[^\w.-]','_',key)[:80]); os.makedirs(d,exist_ok=True)
        for n,c in (files or {}).items():
            open(os.path.join(d,n),'wb').write(c if isinstance(c,bytes) else c.encode('utf-8','surrogateescape'))
        open(os.path.join(d,'WHAT.txt'),'w').write(text+'\n')
        r.viol.append((key,text,d))
    def tv(r, cases, family='tv', maxreplay=6, reject_ok=False):
        """run translation-validation cases and fold in the results"""
        if not cases: return
        res=tv.run_cases(cases)
        n=ok=0
        if os.environ.get('SLOW'):
            for t,nm in sorted(((x['t'],c.name) for c,rs in zip(cases,res) for x in rs),reverse=True)[:12]: print('slow %.1f %s'%(t,nm))
        for c,rs in zip(cases,res):
            r.programs+=1
            for x in rs:
                n+=1; r.obl+=1
                r.q+=x['stats'][0]; r.solver+=x['stats'][1]; r.insts+=x['stats'][2]; r.paths+=x['stats'][3]
                if x['status']=='ok' and x['info'].get('cut'):
                    r.checked+=x['info']['cmp']; r.partial+=1; continue
                if x['status']=='ok':
                    ok+=1; r.disch+=1; r.checked+=x['info']['cmp']
                    if n%97==1: r.sample({'family':family,'case':c.name,'source':(c.src if isinstance(c.src,str) else '\n/* next translation unit */\n'.join(c.src))[:400],'paths_toycc':x['info']['pathsA'],'path_pairs_compared':x['info']['cmp'],'verdict':'unsat (equal on all inputs)'})
                    continue
                key='%s:%s:%s'%(family,c.name,x['mix'])
                d=os.path.join(r.dir,re.sub(r'[^\w.-]','_',key)[:80])
                kk=key.replace(' ','_')
                if any(k==kk for k,_ in r.kf) and x['status'] in('diff','asm','reject'):
                    r.violation(key,x['what']); continue
                if x['status'] in('diff','asm','limit') and r.replays>=maxreplay and r.viol and x['status']!='limit':
                    r.viol.append((key.replace(' ','_'),x['what']+' (not replayed: replay budget)',None)); continue
                if x['status']=='limit' and not x.get('abs'):
                    r.inconc.append((key,x['what'])); continue
                if x['status']=='reject':
                    # the compiler rejected / crashed on a well-formed program: confirm natively
                    bad=None
                    for s in (c.src if isinstance(c.src,(list,tuple)) else [c.src]):
                        rc,asm,err=core.native_asm(s,opts=c.opts)
                        if rc: bad=(s,rc,err)
                    r.replays+=1
                    if bad: r.violation(key,'well-formed program rejected (exit %d): %s'%(bad[1],bad[2][-300:]),{'prog.c':bad[0],'run.sh':'# toycc -S -o /dev/null prog.c  must succeed\n'})
                    else: r.unconf.append((key,x['what'][:200]))
                    continue
                r.replays+=1
                try: conf,rep=rp.replay(c,x['mix'],x.get('model',{}),x.get('layout',{}),x.get('sizes',{}),d)
                except Exception as ex: conf,rep=False,'replay failed: %r'%ex
                if conf:
                    shutil.rmtree
                    r.violation(key,'%s\ncounterexample: %s\n%s'%(x['what'],json.dumps({k:v for k,v in x.get('model',{}).items() if not k.startswith(('u_','c','g'))})[:600],rep[:3000]))
                else:
                    shutil.rmtree(d,ignore_errors=True)
                    r.unconf.append((key,x['what'][:160]+' | '+rep[:200]))
        r.family(family,n,ok)
    def finish(r):
        T=core.TS
        cov=dict(programs=r.programs,disagreements_checked=r.checked,obligations=r.obl,discharged=r.disch,
            families={k:{'obligations':v[0],'discharged':v[1]} for k,v in r.fam.items()},
            rule=r.rule,bounds=r.bounds,samples=r.samples,
            functions_encoded=len(T.functions),functions=sorted(T.functions)[:400],
            tcsym={'runs':T.runs,'paths':T.paths,'forks':T.forks,'smt_queries':T.queries,'domain_decisions':T.domain,'solver_s':round(T.solver_s,2),'unknown':T.unknown,'notes':T.incomplete[:20]},
            rvsym={'instructions_executed':r.insts,'paths':r.paths,'smt_queries':r.q,'solver_s':round(r.solver,2)},
            queries=r.q+T.queries,solver_s=round(r.solver+T.solver_s,2),
            inconclusive=[list(x) for x in r.inconc[:40]],inconclusive_count=len(r.inconc),unconfirmed=[list(x) for x in r.unconf[:20]],
            partially_explored=r.partial,vacuity=r.vac,replayed=r.replays,known_findings=[k for k,_ in r.known])
        cov.update(r.extra)
        if r.level=='model_checking':
            cov['states']=T.paths+r.paths; cov['transitions']=T.forks+r.insts; cov['traces_validated_against_impl']=r.extra.get('validated',r.replays)
        if r.level=='other': cov['explanation']=r.rule
        ev=dict(property=r.prop,tier=core.TIER,seed=core.SEED,level=r.level,coverage=cov,assumptions=r.assume,wall_s=round(time.time()-core.T0,2),violations=len(r.viol))
        os.makedirs(os.path.join(core.VERIF,'evidence'),exist_ok=True)
        json.dump(ev,open(os.path.join(core.VERIF,'evidence',r.prop+'.json'),'w'),indent=1,default=str)
        for k,w in r.known: print('KNOWN-FINDING: property=%s %s %s'%(r.prop,k,w[:160].replace('\n',' ')))
        for k,w in r.inconc[:5]: print('note: inconclusive %s: %s'%(k,w[:120].replace('\n',' ')))
        for k,w in r.unconf[:5]: print('note: solver difference not reproduced by replay, not reported: %s: %s'%(k,w[:200].replace('\n',' ')))
        print('%s %s: %d obligations, %d discharged, %d partial, %d inconclusive, %d queries, %.1fs solver, %.1fs wall'%(r.prop,core.TIER,r.obl,r.disch,r.partial,len(r.inconc),cov['queries'],cov['solver_s'],time.time()-core.T0))
        for k,w,d in r.viol[:int(os.environ.get('VIOLMAX','10'))]:
            print('  %s: %s'%(k,w[:300].replace('\n',' | ')))
        if r.viol:
            d=next((d for _,_,d in r.viol if d),r.dir)
            print('VIOLATION property=%s replay=%s'%(r.prop,d)); return 1
        return 0
