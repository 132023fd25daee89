cd /tmp/v
/verif/build/extract/release/extract --src ${SRC:-/repo/src} --types w/t.tsv --contracts ${1:-/verif/contracts} --out w/gen.rs --report w/rep.json && python3 - <<'P'
import json
r=json.load(open('/tmp/v/w/rep.json'))
for f in r['functions']:
    if f.get('status')!='verified' : print(f.get('name'),f.get('status'),f.get('reason'))
for k in ('dropped','unused_contracts'): print(k,r[k])
P
