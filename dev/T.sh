bash /opt/vp/test.sh /tmp/v/t.json >/tmp/v/t.log 2>&1; python3 - <<'E'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/v/t.json'))
p=t.get('passed') or t.get('pass'); 
print('missing',set(b['stable'])-set(p), len(p))
E
