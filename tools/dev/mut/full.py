import sys,json,subprocess,os,shutil,tempfile
ms={m['id']:m for m in json.load(open('/tmp/mut/all2.json'))}
checks=sys.argv[1].split(',')
for i in map(int,sys.argv[2:]):
    m=ms[i]; d=tempfile.mkdtemp(prefix='full-',dir='/tmp')
    subprocess.run(['cp','-a','/repo',d+'/repo'],check=True)
    shutil.copy('/tmp/mut/m/%04d.py'%i,d+'/repo/quantities/'+m['file'])
    res=[]
    for c in checks:
        r=subprocess.run(['/opt/venv/bin/python','/verif/run.py',c,'--seed','1'],env=dict(os.environ,VERIF_REPO=d+'/repo'),capture_output=True,text=True)
        res.append((c,r.returncode))
    print(i,m['file'],m['line'],m['desc'][:80],res,flush=True)
    shutil.rmtree(d)
