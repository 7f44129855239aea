import os, sys, json, time
sys.path.insert(0,'/tmp/mut/verif')
for name in ('OMP_NUM_THREADS','OPENBLAS_NUM_THREADS'): os.environ[name]='1'
from pbt import boot
boot.start()
from pbt import core
import importlib
import hypothesis
orig=core.evaluate
cur=['']
real=os.dup(1)
def ev(sub,spec,stats=None):
    try:
        return orig(sub,spec,stats)
    except Exception as e:
        os.write(real,('KILL %s/%s %s\n'%(cur[0],sub.name,repr(e)[:150].replace('\n',' '))).encode())
        os._exit(1)
core.evaluate=ev
count=int(sys.argv[1]); props=sys.argv[2].split(',')
deadline=time.time()+float(sys.argv[3])
mods={}
for enum in (False,True):
    for p in props:
        try:
            mod=mods.get(p) or importlib.import_module('pbt.'+p.lower())
        except Exception as e:
            os.write(real,('KILL %s import %r\n'%(p,e)).encode()); os._exit(1)
        mods[p]=mod
        for i,s in enumerate(mod.SUBS):
            if (s.cases is not None)!=enum: continue
            cur[0]=p
            if enum:
                r=core.run_sub(p,p.lower(),i,'0',max(1,s.shards if count<1000 else 1))
            else:
                r=core.run_sub(p,p.lower(),i,'1',min(count if s.name!='new process' else 3,s.quick))
            if r['error']:
                os.write(real,('ERR %s/%s %s\n'%(p,s.name,r['error'][-200:].replace('\n',' '))).encode())
                os._exit(3)
            if time.time()>deadline:
                os.write(real,b'TIME\n'); os._exit(2)
os.write(real,b'ALIVE\n')
os._exit(0)
