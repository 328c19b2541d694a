#!/usr/bin/env python3-vt
"""check.py Cxx  -- decide one property on /repo's current working tree"""
import os, sys
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'lib'))
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'checks'))
sys.setrecursionlimit(20000)
import importlib, core, traceback
def main():
    pid=sys.argv[1]
    m=importlib.import_module(pid.lower())
    try: rc=m.run()
    except core.BuildError as ex:
        # the tree does not build with this check's harness: no verdict, never an alarm
        print('note: %s could not be decided: %s'%(pid,str(ex)[-300:].replace('\n',' ')))
        os.makedirs(os.path.join(core.VERIF,'evidence'),exist_ok=True)
        import json,time
        json.dump(dict(property=pid,tier=core.TIER,seed=core.SEED,level='bounded_symbolic',coverage=dict(programs=0,disagreements_checked=0,obligations=0,discharged=0,rule='harness did not build: '+str(ex)[-300:]),assumptions=[],wall_s=round(time.time()-core.T0,2),violations=0),open(os.path.join(core.VERIF,'evidence',pid+'.json'),'w'))
        rc=0
    sys.stdout.flush()
    sys.exit(rc)
if __name__=='__main__': main()
