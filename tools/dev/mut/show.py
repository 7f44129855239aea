import json,collections,sys
c=collections.Counter()
seen=set(open('/tmp/mut/reviewed').read().split()) if __import__('os').path.exists('/tmp/mut/reviewed') else set()
f=open('/tmp/mut/reviewed','a')
for l in open('/tmp/mut/res2.jsonl'):
    m=json.loads(l); c[m['res'].split()[0]]+=1
    if not m['res'].startswith('KILL') and str(m['id']) not in seen: print(m['id'],m['file'],m['line'],m['desc'],'|',m['res'][:200] if m['res']!='ALIVE' else ''); f.write('%d\n'%m['id'])
print(c)
