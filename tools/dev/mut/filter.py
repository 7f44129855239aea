import json,re,sys
s=json.load(open('/tmp/mut/surv.json'))
def dull(m):
    d=m['desc']
    if re.search(r"with_doc|Error\(|Exception\(|LookupError|_np_version|warnings\.|\.split\(|getLogger|use_header|__all__|Notes|use ``|_QWrap|__doc__|np\.__version__|copy=False| % \(|'%s|can not|units must|DeprecationWarning|weakref|^del import", d): return True
    if m['file']=='quantity.py' and m['line'] in (): return True
    if m['file']=='umath.py' and 'scipy' in d: return True
    return False
k=[m for m in s if not dull(m)]
import random
print(len(s),len(k))
json.dump(k,open('/tmp/mut/s1.json','w'))
