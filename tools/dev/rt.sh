bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 -c "
import json;o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'));
print(len(o['passed']),o['failed']);
l=b if isinstance(b,list) else b.get('passed') or b.get('stable') or list(b.values())[0]
print('missing',set(l)-set(o['passed']))"
