#!/usr/bin/env python3
"""Mechanical mutants of the code under contract.
mutate.py gen OUTDIR [N]  : writes mutants that build and pass the stable tests
mutate.py run OUTDIR [-w K]: verifies and replays every property on each (private views), appends to OUTDIR/results.jsonl"""
import os, re, sys, random, subprocess, json, threading, queue, shutil, time
SRC = '/repo/src'
def code(f):
    t = open(f).read()
    i = t.find('#[cfg(test)]')
    return t if i < 0 else t[:i]
def ops(line):
    o = []
    s = line
    if s.strip().startswith(('//', 'use ', 'pub use', '#[', 'mod ', 'pub mod')): return o
    def sub(pat, rep, tag):
        for m in re.finditer(pat, s):
            n = s[:m.start()] + m.expand(rep) + s[m.end():]
            if n != s: o.append((tag, n))
    sub(r' < ', ' <= ', 'lt'); sub(r' <= ', ' < ', 'le'); sub(r' > ', ' >= ', 'gt'); sub(r' >= ', ' > ', 'ge')
    sub(r' == ', ' != ', 'eq'); sub(r' != ', ' == ', 'ne'); sub(r' && ', ' || ', 'and'); sub(r' \|\| ', ' && ', 'or')
    sub(r'(?<![=!<>-])!(?=[a-z(])', '', 'not') if 'vec!' not in s and 'e!(' not in s and 'format!' not in s else None
    sub(r'\btrue\b', 'false', 'true'); sub(r'\bfalse\b', 'true', 'false')
    sub(r'\.find\(', '.rfind(', 'find'); sub(r'\.rfind\(', '.find(', 'rfind'); sub(r'\.min\(', '.max(', 'min')
    sub(r' \+ ', ' - ', 'plus'); sub(r' - ', ' + ', 'minus'); sub(r'\+= ', '-= ', 'pluseq'); sub(r'-= ', '+= ', 'minuseq')
    sub(r'\bbreak;', 'continue;', 'break'); sub(r'\bcontinue;', 'break;', 'continue')
    sub(r'\.is_some\(\)', '.is_none()', 'some'); sub(r'\.is_empty\(\)', '.len() == 1', 'empty')
    sub(r'\.is_some_and\(', '.is_none_or(', 'someand'); sub(r'\bas u8\b', 'as i8 as u8', 'u8')
    sub(r'\bOk\((\w+)\)$', r'Ok(\1)', 'x')
    sub(r'\ba\.(\w+)\.cmp\(&b', r'b.\1.cmp(&a', 'cmp')
    sub(r'\.unwrap_or\(0\)', '.unwrap_or(1)', 'or0')
    for m in re.finditer(r'(?<![\w."\'x])(\d+)(?![\w."\'])', s):
        if not re.search(r'0x', s):
            for d in (1, -1):
                v = int(m.group(1)) + d
                if v >= 0: o.append(('int%+d' % d, s[:m.start()] + str(v) + s[m.end():]))
    for m in re.finditer(r'"([^"\\]{3,})"', s):
        if 'e!(' in s or 'err_other' in s: continue
        w = m.group(1)
        o.append(('str-cut', s[:m.start()] + '"' + w[:-1] + '"' + s[m.end():]))
        o.append(('str-cut1', s[:m.start()] + '"' + w[1:] + '"' + s[m.end():]))
    if re.search(r'0x[0-9A-F]{2},', s) and 'const' not in s:
        ms = list(re.finditer(r'0x([0-9A-F]{2})', s))
        m = ms[len(ms) // 2]
        o.append(('hex', s[:m.start()] + '0x%02X' % (int(m.group(1), 16) ^ 0x20) + s[m.end():]))
    st = s.strip()
    if st.endswith(';') and not st.startswith(('let', 'return', 'const', 'pub', '}', ')', '.', 'break', 'continue')) and st.count('(') == st.count(')'):
        o.append(('delete', ''))
    if re.match(r'\s*\("?[A-Z0-9]+"?, ".*"\),', s) or re.match(r'\s*"[^"]*",$', s):
        o.append(('drop-entry', ''))
    return o
def gen(out, n):
    W = '/tmp/mutwork'
    if not os.path.isdir(W): subprocess.check_call(['cp', '-a', '/repo', W])
    os.makedirs(out, exist_ok=True)
    allm = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.join(d, f); t = code(p).split('\n')
            r = os.path.relpath(p, '/repo')
            per = []
            for i, l in enumerate(t):
                for tag, nl in ops(l): per.append((r, i, tag, l, nl))
            allm.append(per)
    rnd = random.Random(int(os.environ.get('MUTSEED', '7')))
    pick = []
    for per in allm:
        rnd.shuffle(per)
        big = per and per[0][0] in ('src/timezone.rs', 'src/qw/fragprint.rs', 'src/qw/prot.rs')
        k = 6 if big else max(4, len(per) // 3)
        pick += per[:k]
    rnd.shuffle(pick)
    made = 0
    for j, (f, i, tag, old, new) in enumerate(pick):
        if made >= n: break
        subprocess.check_call(['git', '-C', W, 'checkout', '-q', '-f', '--', '.'])
        t = open(f'{W}/{f}').read().split('\n')
        assert t[i] == old
        t[i] = new
        open(f'{W}/{f}', 'w').write('\n'.join(t))
        try:
            r = subprocess.run(['cargo', 'test', '--offline', '-q', '--lib'], cwd=W, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            subprocess.run(['pkill', '-f', 'mutwork/target/debug/deps/mvdparser']); continue
        if '30 passed' not in r.stdout: continue
        d = subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout
        nm = '%03d-%s-%d-%s' % (made, f[4:-3].replace('/', '_'), i + 1, tag)
        open(f'{out}/{nm}.patch', 'w').write(d)
        made += 1
    print(made, 'mutants')
ONE = r'''
import sys, json, os
sys.path.insert(0, '/verif'); sys.argv = ['x']
os.environ['VERIF_SEED'] = '1'
import check
w = check.B + '/work'
import shutil; shutil.rmtree(w, ignore_errors=True); os.makedirs(w, exist_ok=True); os.makedirs(check.B + '/found', exist_ok=True)
check.build_tools(); exe = check.build_replay()
v = check.verify(w)
base = json.load(open('/verif/contracts/baseline.json'))
r = dict(proof=[], weak=[], opaque={}, replay=[])
if v:
    st = {f['name']: check.structure(f, check.exits(v['src'])) for f in v['rep']['functions']}
    sh = check.used_shims(v['src'])
    r['opaque'] = v['opaque']
    for f in v['fails']:
        k = f['fn'].split('#')[0]
        ok = f['label'] and f['kind'] not in ('hint', 'rlimit', 'front') and k not in v['opaque'] and check.speaks(k, st, base, sh, check.lost_contracts(v['rep'], base))
        (r['proof'] if ok else r['weak']).append([f['label'], f['fn'], f['kind'], f['clause'][:80]])
if exe:
    for i in range(1, 21):
        p = 'C%02d' % i
        found, text, n = check.replay(exe, p, float(os.environ.get('SECS', '2')), check.B + '/found/m.json', 1, False)
        if found: r['replay'].append(p)
print('@@' + json.dumps(r))
'''
def run(out, w, which):
    res = out + '/results.jsonl'
    done = set()
    if os.path.exists(res): done = {json.loads(l)['m'] for l in open(res)}
    q = queue.Queue()
    for p in sorted(os.listdir(out)):
        if p.endswith('.patch') and p[:-6] not in done and (not which or p[:-6] in which): q.put(p)
    lock = threading.Lock()
    def worker(k):
        base = f'/tmp/vw/m{k}'
        os.makedirs(base, exist_ok=True)
        subprocess.check_call(f'mkdir -p {base}/repo && cd /repo && find {base}/repo -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {{}} + && tar c --exclude=./target . | tar x -C {base}/repo', shell=True)
        subprocess.check_call(f'mkdir -p {base}/verif && cd /verif && for x in check.py contracts tools replay MANIFEST.json known_findings.txt; do rm -rf {base}/verif/$x; cp -a $x {base}/verif/; done; [ -d {base}/verif/build ] || cp -a build {base}/verif/', shell=True)
        open(base + '/verif/one.py', 'w').write(ONE)
        while True:
            try: p = q.get_nowait()
            except queue.Empty: return
            subprocess.check_call(['git', '-C', base + '/repo', 'checkout', '-q', '-f', '--', '.'])
            subprocess.check_call(['git', '-C', base + '/repo', 'apply', f'{out}/{p}'])
            t = time.time()
            r = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {base}/repo /repo; mount --bind {base}/verif /verif; cd /verif; timeout 600 python3 one.py'], capture_output=True, text=True)
            j = [l[2:] for l in r.stdout.split('\n') if l.startswith('@@')]
            d = dict(m=p[:-6], s=round(time.time() - t), **(json.loads(j[0]) if j else dict(error=(r.stdout + r.stderr)[-500:])))
            with lock:
                open(res, 'a').write(json.dumps(d) + '\n')
                print(d['m'], 'replay:', ','.join(d.get('replay', [])), 'proof:', ','.join(sorted({x[0] for x in d.get('proof', [])})), 'weak:', len(d.get('weak', [])), list(d.get('opaque', {}))[:3], d.get('error', ''), flush=True)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(w)]
    [t.start() for t in ts]; [t.join() for t in ts]
if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'gen': gen(a[1], int(a[2]) if len(a) > 2 else 10 ** 6)
    else:
        w = int(a[a.index('-w') + 1]) if '-w' in a else 2
        run(a[1], w, set())
