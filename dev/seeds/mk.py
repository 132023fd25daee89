#!/usr/bin/env python3
"""mk.py [ID ...]: builds /verif/seeded/ID from bugs.py and confirms it in a scratch copy of /repo."""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from bugs import BUGS
H = os.path.dirname(os.path.abspath(__file__))
S = '/tmp/seedwork'
R = S + '/repo'
if not os.path.isdir(R):
    os.makedirs(S, exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', R])
subprocess.check_call(['git', '-C', R, 'fetch', '-q', '/repo', 'HEAD'])
subprocess.check_call(['git', '-C', R, 'checkout', '-q', '-f', 'FETCH_HEAD'])
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=R + '/target')
def tests():
    shutil.rmtree(R + '/target/debug/.fingerprint', ignore_errors=True) if False else None
    p = subprocess.run('rm -rf %s/target/debug/.fingerprint/mvdparser-*; cargo test --workspace --no-fail-fast --offline -- --test-threads 8' % R, shell=True, cwd=R, env=env, capture_output=True, text=True)
    ok = set(re.findall(r'^test (\S+) \.\.\. ok', p.stdout, re.M))
    return {s for s in stable if not any(s.endswith(o) for o in ok)}, p
def demo(d):
    p = subprocess.run(['bash', d + '/demo.sh'], cwd=R, capture_output=True, text=True)
    return p.returncode, (p.stdout + p.stderr)[-600:]
want = sys.argv[1:]
for b in BUGS:
    if want and b['id'] not in want: continue
    if not want and os.path.exists('/verif/seeded/%s/patch.diff' % b['id']): continue
    subprocess.check_call(['git', '-C', R, 'checkout', '-q', '-f', 'FETCH_HEAD'])
    d = '/verif/seeded/' + b['id']
    os.makedirs(d, exist_ok=True)
    shutil.copy(H + '/demo.sh', d + '/demo.sh')
    open(d + '/main.rs', 'w').write(open(H + '/prelude.rs').read() + b['main'])
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what']), open(d + '/meta.json', 'w'), indent=1)
    good, t0 = demo(d)
    for f, old, new in b['edits']:
        s = open(R + '/' + f).read()
        if s.count(old) != 1: print(b['id'], 'EDIT', f, s.count(old)); break
        open(R + '/' + f, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    missing, p = tests()
    bad, t1 = demo(d)
    state = 'OK' if good == 0 and bad not in (0,) and not missing and 'error[' not in t1 and 'could not compile' not in t1 else 'PROBLEM'
    print(b['id'], b['property'], state, 'demo', good, bad, 'missing tests', missing or '')
    if state != 'OK':
        print(t0 if good else t1); print((p.stdout+p.stderr)[-1500:] if missing else '')
        shutil.rmtree(d)
subprocess.check_call(['git', '-C', R, 'checkout', '-q', '-f', 'FETCH_HEAD'])
