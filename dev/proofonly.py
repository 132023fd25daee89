#!/usr/bin/env python3
"""proofonly.py [-q] PATCH-or-DIR ... (-q: only the modules of the files it touches): what the verifier alone says about each patch (no replay).
Prints, per patch, the labelled failures that speak (they alone would be reported) and the others."""
import sys, json, os, shutil, subprocess
R = '/tmp/v/po'
os.environ['VERIF_REPO'] = R
sys.path.insert(0, '/verif')
args, sys.argv = sys.argv[1:], ['x']
import check, re
quick = '-q' in args
args = [a for a in args if a != '-q']
mods = []
full = check.verus
check.verus = lambda w, extra=(): full(w, list(extra) + ['--multiple-errors', '4'] + mods) if quick else full(w, extra)
check.build_tools()
base = json.load(open('/verif/contracts/baseline.json'))
for a in args:
    a = os.path.abspath(a)
    p = a if a.endswith(('.diff', '.patch')) else a + '/patch.diff'
    subprocess.check_call(f'rm -rf {R} && mkdir -p {R} && cd /repo && tar c --exclude=./target . | tar x -C {R}', shell=True)
    if subprocess.run(['git', '-C', R, 'apply', p]).returncode: continue
    w = '/tmp/v/pow'
    mods[:] = sum([['--verify-module', m.replace('/', '::')] for m in re.findall(r'^\+\+\+ b/src/(\S+)\.rs', open(p).read(), re.M)], [])
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    v = check.verify(w)
    name = os.path.basename(a) if not a.endswith('.diff') else os.path.basename(os.path.dirname(a))
    if not v:
        print(name, 'NO VERDICT', flush=True); continue
    st = {f['name']: check.structure(f, check.exits(v['src'])) for f in v['rep']['functions']}
    sh = check.used_shims(v['src'])
    lost = check.lost_contracts(v['rep'], base)
    named = {f['fn'].split('#')[0] for f in v['fails'] if f['label'] and f['kind'] != 'hint'}
    say, weak = set(), set()
    for f in v['fails']:
        k = f['fn'].split('#')[0]
        ls = {f['label']} if f['label'] else {l for l, n, _, _ in v['labels'] if n == f['fn']} if f['kind'] == 'hint' and k not in named else {'-'}
        ok = f['kind'] not in ('rlimit', 'front') and k not in v['opaque'] and check.speaks(k, st, base, lost)
        for l in ls:
            (say if ok and l != '-' else weak).add((l, k, f['kind']))
    print(name, 'SAYS', ','.join(sorted({l for l, _, _ in say})) or '-', 'WEAK', sorted(weak), 'OPAQUE', v['opaque'], flush=True)
