#!/usr/bin/env python3
"""run.py [-w N] [-p C01,C02] DIR-or-patch ... : runs checks against patches, each in a private view of /repo and /verif.
Default: every /verif/seeded/*/patch.diff against its own property.  -a: all properties."""
import json, os, shutil, subprocess, sys, threading, queue, argparse, time
ap = argparse.ArgumentParser()
ap.add_argument('-w', type=int, default=3)
ap.add_argument('-p', default='')
ap.add_argument('what', nargs='*')
ap.add_argument('-r', default='/tmp/vw')
a = ap.parse_args()
ROOT = a.r
todo = queue.Queue()
for w in a.what or sorted('/verif/seeded/' + d for d in os.listdir('/verif/seeded')):
    patch = w if w.endswith(('.diff', '.patch')) else w + '/patch.diff'
    meta = os.path.dirname(patch) + '/meta.json'
    pf = os.path.splitext(patch)[0] + '.props'
    props = a.p.split(',') if a.p else open(pf).read().split(',') if os.path.exists(pf) else [json.load(open(meta))['property']]
    for p in props: todo.put((os.path.abspath(patch), p))
lock = threading.Lock()
def worker(k):
    base = f'{ROOT}/{k}'
    os.makedirs(base, exist_ok=True)
    subprocess.check_call(['rsync', '-a', '--delete', '--exclude', '/target', '/repo/', base + '/repo/']) if shutil.which('rsync') else subprocess.check_call(f'mkdir -p {base}/repo && cd /repo && find {base}/repo -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {{}} + && tar c --exclude=./target . | tar x -C {base}/repo', shell=True)
    subprocess.check_call(f'mkdir -p {base}/verif && cd /verif && for x in check.py contracts tools replay MANIFEST.json known_findings.txt; do rm -rf {base}/verif/$x; cp -a $x {base}/verif/; done; [ -d {base}/verif/build ] || cp -a build {base}/verif/', shell=True)
    while True:
        try: patch, p = todo.get_nowait()
        except queue.Empty: return
        subprocess.check_call(['git', '-C', base + '/repo', 'checkout', '-q', '-f', '--', '.'])
        r = subprocess.run(['git', '-C', base + '/repo', 'apply', patch], capture_output=True, text=True)
        if r.returncode: print(patch, 'DOES NOT APPLY', r.stderr); continue
        t = time.time()
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {base}/repo /repo; mount --bind {base}/verif /verif; cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py {p}'], capture_output=True, text=True)
        with lock:
            os.makedirs('/tmp/v/runlog', exist_ok=True)
            n = os.path.basename(os.path.dirname(patch)) if patch.endswith('/patch.diff') else os.path.basename(patch)
            open(f'/tmp/v/runlog/{n}.{p}.log', 'w').write(r.stdout + r.stderr)
            last = r.stdout.strip().split('\n')[-1]
            und = len([l for l in r.stdout.split('\n') if l.startswith('undischarged')])
            print(f'{n:28} {p} rc={r.returncode} {time.time()-t:.0f}s {"proof-fails:%d" % und} {last[:110]}', flush=True)
        subprocess.check_call(['git', '-C', base + '/repo', 'checkout', '-q', '-f', '--', '.'])
ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.w)]
[t.start() for t in ts]; [t.join() for t in ts]
