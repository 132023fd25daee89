#!/usr/bin/env python3
"""Quick bug patches (not packaged as seeds): writes /tmp/v/nb/ID.patch + .props, each built and tested in a scratch copy.
batch.py FILE.py [ID...]: FILE.py defines B(id, prop, (file, old, new)...)."""
import subprocess, os, sys, re, json
L = []
def B(i, p, *e): L.append((i, p, e))
exec(open(sys.argv[1]).read())
R = '/tmp/v/nbrepo'; O = os.environ.get('OUT', '/tmp/v/nb')
os.makedirs(O, exist_ok=True)
if not os.path.isdir(R): subprocess.check_call(['cp', '-a', '/repo', R])
subprocess.check_call(f'git -C {R} fetch -q /repo HEAD && git -C {R} checkout -q -f FETCH_HEAD', shell=True)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=R + '/target')
for i, p, es in L:
    if sys.argv[2:] and i not in sys.argv[2:]: continue
    subprocess.check_call(['git', '-C', R, 'checkout', '-q', '-f', 'FETCH_HEAD'])
    bad = 0
    for f, old, new in es:
        s = open(f'{R}/{f}').read()
        if s.count(old) != 1: print(i, 'EDIT', f, s.count(old)); bad = 1; break
        open(f'{R}/{f}', 'w').write(s.replace(old, new))
    if bad: continue
    q = subprocess.run('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', shell=True, cwd=R, env=env, capture_output=True, text=True)
    ok = set(re.findall(r'^test (\S+) \.\.\. ok', q.stdout, re.M))
    miss = {s for s in stable if not any(s.endswith(o) for o in ok)}
    if miss or 'could not compile' in q.stderr:
        print(i, 'FAILS', sorted(miss)[:5] if ok else q.stderr[-1500:]); continue
    d = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
    open(f'{O}/{i}.patch', 'w').write(d); open(f'{O}/{i}.props', 'w').write(p)
    print(i, p, 'ok', flush=True)
subprocess.check_call(['git', '-C', R, 'checkout', '-q', '-f', 'FETCH_HEAD'])
