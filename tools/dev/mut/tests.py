import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import threading
idx=json.load(open('/tmp/mut/index.json'))
N=8
loc=threading.local(); lock=threading.Lock(); cnt=[0]
def work(m):
    if not hasattr(loc,'d'):
        with lock:
            cnt[0]+=1; loc.d='/tmp/mut/w%d'%cnt[0]
        shutil.rmtree(loc.d,ignore_errors=True)
        subprocess.run(['cp','-a','/repo',loc.d],check=True)
    p=os.path.join(loc.d,'quantities',m['file'])
    shutil.copy('/tmp/mut/m/%04d.py'%m['id'],p)
    try:
        r=subprocess.run(['timeout','60','/opt/venv/bin/python','-m','pytest','-q','-x','-p','no:cacheprovider','--doctest-glob=README.rst','--ignore=conda.recipe'],cwd=loc.d,capture_output=True,text=True,env=dict(os.environ,PYTHONPATH=loc.d,PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0',PY_IGNORE_IMPORTMISMATCH='1',OMP_NUM_THREADS='1',OPENBLAS_NUM_THREADS='1'))
        m['survives']=r.returncode==0
    finally:
        shutil.copy(os.path.join('/repo/quantities',m['file']),p)
    return m
done=0
with ThreadPoolExecutor(N) as ex:
    for m in ex.map(work,idx):
        done+=1
        if done%200==0:
            json.dump([x for x in idx if x.get('survives')],open('/tmp/mut/surv.json','w'))
            print(done,sum(1 for x in idx if x.get('survives')),flush=True)
json.dump([x for x in idx if x.get('survives')],open('/tmp/mut/surv.json','w'))
print('end',flush=True)
