import json, os, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
TOP=int(sys.argv[6]); N=int(sys.argv[1]); src=sys.argv[2]; out=sys.argv[3]; count=sys.argv[4]
ORDER={'quantity.py':'09 10 04 05 02 22 01 24 14 21 07 06 27 03 19 07 24 14 21 12 23 15 03 19 25 26 08 11 18 20 13 16 17',
'dimensionality.py':'11 07 05 04 27 12 06 12 10 08 09 24 21 01 02 03 14 15 16 17 18 19 20 22 23 25 26 13',
'unitquantity.py':'18 20 03 14 10 12 04 05 22 11 11 16 17 22 24 21 01 02 06 07 08 09 13 15 19 23 25 26',
'uncertainquantity.py':'23 15 14 24 21 09 01 02 12 10 09 22 03 04 05 06 07 08 11 13 16 17 18 19 20 25 26',
'registry.py':'13 18 22 01 16 17 20 14 12 03 19 02 04 05 06 07 08 09 10 11 15 21 23 24 25 26',
'markup.py':'12 11 19 13 14 16 17 25 26 20 18 01 02 03 04 05 06 07 08 09 10 15 21 22 23 24',
'decorators.py':'26 01 02 03 04 08 11 12 25 05 06 07 09 10 13 14 15 16 17 18 19 20 21 22 23 24',
'umath.py':'08 21 25 07 26 09 04 05 06 01 02 03 10 11 12 13 14 15 16 17 18 19 20 22 23 25',
'constants/_utils.py':'17 16 20 15 23 14 12 01','units/prefixes.py':'16 20 18 13 12 01 17'}
ms=json.load(open(src))
import random
ms.sort(key=lambda m:(m['file']=='umath.py',m['id']%97))
done={}
if os.path.exists(out):
    done={m['id']:m for m in map(json.loads,open(out))}
loc=threading.local(); lock=threading.Lock(); cnt=[0]
f=open(out,'a')
def work(m):
    if m['id'] in done: return
    if not hasattr(loc,'d'):
        with lock:
            cnt[0]+=1; loc.d='/tmp/mut/k%s%d'%(sys.argv[5],cnt[0])
        shutil.rmtree(loc.d,ignore_errors=True)
        subprocess.run(['cp','-a','/repo',loc.d],check=True)
    p=os.path.join(loc.d,'quantities',m['file'])
    shutil.copy('/tmp/mut/m/%04d.py'%m['id'],p)
    try:
        r=subprocess.run(['timeout','-k','5','700','/opt/venv/bin/python','/tmp/mut/kill1.py',count,','.join('C'+x for x in ORDER[m['file']].split()[:{'quantity.py':12,'umath.py':3,'uncertainquantity.py':5}.get(m['file'],8)]),'600'],capture_output=True,text=True,cwd='/verif',env=dict(os.environ,VERIF_REPO=loc.d,PYTHONHASHSEED='0',PYTHONDONTWRITEBYTECODE='1'))
        m['res']=(r.stdout.strip().splitlines() or ['rc %d %s'%(r.returncode,r.stderr[-200:])])[-1]
    finally:
        shutil.copy(os.path.join('/repo/quantities',m['file']),p)
    with lock:
        f.write(json.dumps(m)+'\n'); f.flush()
with ThreadPoolExecutor(N) as ex: list(ex.map(work,ms))
print('end')
