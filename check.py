#!/usr/bin/env python3
"""check.py PROPERTY | --setup | --rebaseline | --status

Decides one property of /repo's current working tree: extracts every function of the crate into the verifier's
dialect, has the verifier discharge every obligation against the contracts in contracts/, and replays undischarged
ones on the real code.  DESIGN.md explains the verdict rule."""
import fcntl, json, os, re, shutil, signal, struct, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = V + '/build'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'RUSTUP_TOOLCHAIN'):
    ENV.pop(k, None)
NOTES = []


def note(s):
    NOTES.append(s)
    print('note: ' + s, flush=True)


def sh(cmd, timeout=600, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env or ENV, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 124, '', 'timed out: ' + ' '.join(cmd)[:200]


class Lock:
    def __enter__(s):
        os.makedirs(B, exist_ok=True)
        s.f = open(B + '/.lock', 'w')
        fcntl.flock(s.f, fcntl.LOCK_EX)

    def __exit__(s, *a):
        s.f.close()


# ---------------------------------------------------------------- tools
def build_tools():
    """the typemap compiler driver and the extractor; independent of /repo"""
    ok = True
    for name, tc in (('typemap', ['+nightly']), ('extract', [])):
        rc, o, e = sh(['cargo'] + tc + ['build', '--release', '--offline', '-q'], timeout=800,
                      env=dict(ENV, CARGO_TARGET_DIR=f'{B}/{name}'), cwd=f'{V}/tools/{name}')
        if rc != 0:
            note(f'building {name} failed: {e[-600:]}')
            ok = False
    return ok


def build_replay():
    for d in (f'{B}/replay/release/.fingerprint',):
        if os.path.isdir(d):
            for x in os.listdir(d):
                if x.startswith('mvdparser-'):
                    shutil.rmtree(f'{d}/{x}', ignore_errors=True)
    rc, o, e = sh(['cargo', 'build', '--release', '--offline', '-q'], timeout=800, env=dict(ENV, CARGO_TARGET_DIR=f'{B}/replay'), cwd=V + '/replay')
    if rc != 0:
        note('the replay program does not build against the tree: ' + e[-800:])
        return None
    return f'{B}/replay/release/vreplay'


# ---------------------------------------------------------------- extraction and verification
DEPS = ('quake_text', 'quake_infostring', 'quake_clientinfo', 'quake_serverinfo')


def typemap(work):
    """types of every expression of the crate, from the compiler itself"""
    rc, sysroot, e = sh(['rustc', '+nightly', '--print', 'sysroot'])
    tgt = B + '/tmtarget'
    for d in ('debug/.fingerprint', 'debug/incremental', 'debug/deps'):
        if os.path.isdir(f'{tgt}/{d}'):
            for x in os.listdir(f'{tgt}/{d}'):
                if x.startswith(('mvdparser', 'libmvdparser')):
                    p = f'{tgt}/{d}/{x}'
                    shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.remove(p)
    shutil.rmtree(f'{tgt}/debug/build/mvdparser', ignore_errors=True)
    out = work + '/types.tsv'
    if os.path.exists(out):
        os.remove(out)
    # the types of the dependencies are written when they are compiled, which cargo does not repeat
    if not all(os.path.exists(f'{tgt}/deps/{d}.tsv') for d in DEPS):
        shutil.rmtree(tgt, ignore_errors=True)
        os.makedirs(tgt + '/deps')
    env = dict(ENV, LD_LIBRARY_PATH=sysroot.strip() + '/lib', TYPEMAP_OUT=out, TYPEMAP_DEPS=','.join(DEPS), TYPEMAP_DEPDIR=tgt + '/deps',
               RUSTC_WRAPPER=B + '/typemap/release/typemap')
    rc, o, e = sh(['cargo', '+nightly', 'check', '--lib', '--offline', '-q', '--target-dir', tgt], timeout=600, env=env, cwd=REPO)
    if rc != 0 or not os.path.exists(out):
        note('typing the crate failed: ' + e[-600:])
        return None
    return out


def extract(work, types, opaque, roles):
    cmd = [B + '/extract/release/extract', '--src', REPO + '/src', '--types', types, '--contracts', V + '/contracts',
           '--out', work + '/gen.rs', '--report', work + '/rep.json']
    for f in sorted(opaque):
        cmd += ['--opaque', f]
    for r in roles:
        cmd += ['--role', r]
    rc, o, e = sh(cmd, timeout=120)
    if rc != 0:
        note('extraction failed: ' + e[-600:])
        return None
    return json.load(open(work + '/rep.json'))


def dependencies(work):
    """the contracts assumed of the quake_* crates, as obligations on their sources -> dict, or None without an answer.
    Says nothing about /repo: a failure here only means that the contract stays an assumption."""
    cmd = [B + '/extract/release/extract', '--contracts', V + '/contracts', '--out', work + '/deps.rs', '--report', work + '/deps.json']
    for d in DEPS:
        cmd += ['--dep', f'{d}={B}/tmtarget/deps/{d}.tsv']
    rc, o, e = sh(cmd, timeout=60)
    if rc == 0:
        rc, o, e = sh(['verus', work + '/deps.rs', '--output-json', '--time-expanded', '--triggers-mode', 'silent', '--rlimit', '100', '--num-threads', '8'], timeout=180, cwd=work)
    try:
        js = json.loads(o)
        res = js['verification-results']
        src = open(work + '/deps.rs').read()
        rep = load(work + '/deps.json', {'functions': []})
    except (ValueError, KeyError, OSError):
        note('the dependencies could not be checked against the contracts assumed of them: ' + e[-300:])
        return None
    bound = re.findall(r'// @BOUND (\S+)', src)
    ok = rc == 0 and res.get('errors') == 0 and not res.get('encountered-vir-error')
    if not ok:
        note('a dependency does not verify against the contract assumed of it: ' + e[-400:])
    return dict(ok=ok, bound=bound, units=res.get('verified'), functions=[f['name'] for f in rep['functions'] if f['contracted']],
                clauses=len(re.findall(r'//@L C00 ', src)), solver_ms=js.get('times-ms', {}).get('smt', {}).get('total'))


LABEL = re.compile(r'//@L (\S+) (\S+) (.*)$')


def verus(work, extra=()):
    # the solver does not always notice that its resources are used up: each query has a limit in time as well, far from
    # what any of them takes; a query that reaches it is undecided
    for errs, ms, limit in (('4', 60000, 300), ('1', 15000, 200)):
        cmd = ['verus', work + '/gen.rs'] + ([] if extra else ['--multiple-errors', errs]) + ['--error-format=json', '--output-json', '--time-expanded',
               '--triggers-mode', 'silent', '--rlimit', '100', '--num-threads', '8', '--smt-option', f'timeout={ms}'] + list(extra)
        rc, o, e = sh(cmd, timeout=420 if extra else limit, cwd=work)
        if o or extra:
            break
    src = open(work + '/gen.rs').read().split('\n')
    fn = {}
    cur = ''
    for i, l in enumerate(src, 1):
        if l.startswith('// @FN '):
            cur = l[7:].strip()
        fn[i] = cur
        if l.startswith('// @ENDFN'):
            cur = ''
    fails = []
    for l in e.split('\n'):
        if not l.startswith('{'):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('level') != 'error' or d['message'].startswith('aborting'):
            continue
        sp = d.get('spans', [])
        pr = [s for s in sp if s.get('is_primary')] or sp
        line = pr[0]['line_start'] if pr else 0
        labs = []
        for s in sp:
            m = LABEL.search(src[s['line_start'] - 1]) if 0 < s['line_start'] <= len(src) else None
            if m:
                labs.append((m.group(1), m.group(2), m.group(3), src[s['line_start'] - 1].split('//@L')[0].strip()))
        msg = d['message']
        f = fn.get(line, '')
        # a function whose clause fails: the primary span may lie in the trait or comparator
        kind = 'implicit'
        label = 'C01'
        clause = ''
        if labs:
            label, lf, what, clause = labs[0]
            mark = lf + ' ' + what
            kind = what
            f = f or lf
        elif msg.startswith('assertion'):
            kind, label = 'hint', ''
        elif 'resource limit' in msg or 'rlimit' in msg.lower():
            kind, label = 'rlimit', ''
        elif not msg.startswith(('precondition', 'postcondition', 'possible', 'invariant', 'decreases', 'loop invariant', 'unable to', 'could not prove', 'index', 'failed', 'assert')):
            kind, label = 'front', ''
        fails.append(dict(clause_of=mark if labs else '', fn=f, msg=msg, label=label, kind=kind, clause=clause, line=line, text=(src[line - 1].strip()[:300] if 0 < line <= len(src) else ''), rendered=d.get('rendered', '')[:3000]))
    try:
        js = json.loads(o)
    except ValueError:
        js = {}
    return rc, fails, js, e, src


def verify(work):
    """-> dict or None when the verifier cannot be brought to an answer at all"""
    types = typemap(work)
    if not types:
        return None
    opaque, why = set(), {}
    for rnd in range(8):
        rep = extract(work, types, opaque, [])
        if not rep:
            return None
        rc, fails, js, err, src = verus(work)
        res = js.get('verification-results', {})
        if 'verified' in res and not [f for f in fails if f['kind'] == 'front'] and not res.get('encountered-vir-error'):
            break
        # the front end rejects some function: that one is left out (and reported)
        bad = {f['fn'].split('#')[0] for f in fails if f['kind'] == 'front' and f['fn']} - opaque
        if not bad:
            bad = {f['fn'].split('#')[0] for f in fails if f['fn']} - opaque
        if not bad:
            note('the verifier gave no answer: ' + (fails[0]['rendered'] if fails else err[-800:]))
            return None
        for b in bad:
            why[b] = [f['msg'] for f in fails if f['fn'].split('#')[0] == b][0]
        opaque |= bad
    else:
        return None
    labels = []
    for l in src:
        m = LABEL.search(l)
        if m:
            labels.append((m.group(1), m.group(2), m.group(3), l.split('//@L')[0].strip()))
    return dict(rep=rep, fails=fails, js=js, labels=labels, opaque={f['name']: why.get(f['name'], f['reason']) for f in rep['functions'] if f['status'] == 'opaque'},
                src=src, work=work)


def reachable(work, types, only):
    """-> (places marked, undecided ones, unreachable ones): a marked place carries a false claim, which must fail"""
    def run(only, extra=()):
        ENV['VX_MARK'] = '\n'.join(only)
        try:
            rep = extract(work, types, set(), [])
        finally:
            del ENV['VX_MARK']
        if not rep:
            return set(), set(), set()
        rc, fails, js, err, src = verus(work, ('--multiple-errors', '60') + tuple(extra))
        marks = {m.group(2) + ' ' + m.group(3) for m in map(LABEL.search, src) if m and m.group(1) == 'MARK'}
        hit = {f['clause_of'] for f in fails if f['label'] == 'MARK'}
        slow = {f['fn'] for f in fails if f['kind'] == 'rlimit'}
        return marks, hit, slow
    marks, hit, slow = run(only)
    if not marks:
        return None
    bad, open_ = [], []
    for m in sorted(marks - hit)[:12]:
        fn = m.split(' ')[0]
        if fn in slow and time.time() - T0 > 650:
            open_.append(m)
            continue
        if fn in slow:
            # one at a time, with nothing else in the way
            _, h, s = run([m])
            if m in h:
                hit.add(m)
                continue
            if fn in s:
                open_.append(m)
                continue
        bad.append(m)
    return len(marks), open_, bad


def structure(f, ex):
    """what has to stay the same for a failed obligation to speak about behaviour and not about the text: loops, types
    of the locals, callees, and (in a function with loops) the number of ways out of a loop or an iteration and the
    library calls"""
    return [f['loops'], sorted(t for n, t in f['locals'] if t != 'param'), sorted(f['calls']), ex.get(f['name'], []) if f['loops'] else []]


def exits(src):
    n, cur = {}, ''
    for l in src:
        if l.startswith('// @FN '):
            cur = l[7:].strip()
        elif l.startswith('// @ENDFN'):
            cur = ''
        elif cur:
            d = n.setdefault(cur, {})
            for w in re.findall(r'\b(?:break|continue|return|v_[a-z0-9_]+(?=\())', l.split('//')[0]):
                w = w if w.startswith('v_') else 'exit'
                d[w] = d.get(w, 0) + 1
    return {k: [f'{w} {c}' for w, c in sorted(d.items())] for k, d in n.items()}


def speaks(k, st, base, lost=()):
    """does an undischarged obligation of k speak about what k does?  Its contract was written for a text with these
    loops, local types and callees; without loops nothing has to be invariant, so there only the callees count.
    lost: functions whose contract did not apply this time"""
    if k not in base or not base[k]['contracted'] or k not in st or k in lost:
        return False
    new = set(st[k][2]) - set(base[k]['structure'][2])
    if any(c in lost for c in st[k][2]) or any(c not in base or not base[c]['contracted'] for c in new):
        return False
    if st[k] == base[k]['structure']:
        return True
    return st[k][0] == 0 and base[k]['structure'][0] == 0


def lost_contracts(rep, base):
    now = {f['name'] for f in rep['functions'] if f['contracted']}
    return {k for k in base if base[k]['contracted'] and k not in now}


def used_shims(src):
    by, cur = {}, ''
    for l in src:
        if l.startswith('// @FN '):
            cur = l[7:].strip().split('#')[0]
        elif l.startswith('// @ENDFN'):
            cur = ''
        elif cur:
            by.setdefault(cur, set()).update(re.findall(r'\bv_[a-z0-9_]+', l))
            for t in ('HashMap', 'BTreeMap', 'Cursor', 'Clientinfo', 'Settings', 'KtxstatsV3', 'Duration'):
                if t in l:
                    by[cur].add(t)
    return by


# ---------------------------------------------------------------- replay on the real code
def limited(cmd, timeout):
    pre = ['bash', '-c', 'ulimit -v 20000000; ulimit -c 0; exec "$@"', 'x']
    return sh(pre + cmd, timeout=timeout)


def replay(exe, p, secs, out, seed, big=False):
    """-> (found, text, cases)"""
    infl = out + '.inflight'
    for x in (out, infl):
        if os.path.exists(x):
            os.remove(x)
    rc, o, e = limited([exe, 'fuzz', p, '--seed', str(seed), '--secs', str(secs), '--out', out, '--inflight', infl, '--big', 'true' if big else 'false'], secs + 200)
    cases = 0
    if rc == 0:
        try:
            cases = json.loads(o.strip().split('\n')[-1])['cases']
        except (ValueError, IndexError, KeyError):
            pass
        return False, o, cases
    if rc == 1 and os.path.exists(out):
        return True, o, cases
    # the program itself died: find the input that does it
    try:
        b = open(infl, 'rb').read()
    except OSError:
        b = b''
    for k in range(0, len(b) - 7, 8):
        n = struct.unpack('<Q', b[k:k + 8])[0]
        if n == 0:
            continue
        rc2, o2, e2 = limited([exe, 'one', p, str(seed), str(n - 1), 'true' if big else 'false'], 60)
        if rc2 != 0:
            json.dump(dict(property=p, query='a query', expected='an ordinary result', actual=f'the program ends with status {rc2}: {(o2 + e2)[-600:]}',
                           case=dict(seed=seed, index=n - 1, big=big), replay='vreplay one PROPERTY SEED INDEX BIG'), open(out, 'w'), indent=1)
            return True, f'case {n - 1} ends the program with status {rc2}\n{(o2 + e2)[-600:]}', cases
    note(f'the replay program ended with status {rc} and the end is not reproducible: {(o + e)[-300:]}')
    return False, o + e, cases


# ---------------------------------------------------------------- verdict
def cone(rep, roots):
    by = {f['name']: f for f in rep['functions']}
    seen, todo = set(), list(roots)
    while todo:
        x = todo.pop()
        if x in seen or x not in by:
            continue
        seen.add(x)
        todo += by[x]['calls']
        todo += [k for k in by if k.startswith(x + '#')]
    return seen


def load(path, default):
    try:
        return json.load(open(path))
    except (OSError, ValueError):
        return default


TRUSTED = [
    'the extractor (tools/extract) and the typing driver (tools/typemap): the verified text is their translation of the source, what they drop is listed in DESIGN.md',
    'contracts/shim.rs: contracts assumed for std, bstr, chrono, ktxstats, anyhow (bodies not verified); those for quake_text, quake_serverinfo and quake_clientinfo are discharged against the sources of these crates (where dependency_contracts says so)',
    'Verus, vstd, rustc and Z3',
    'usize is 64 bits; every allocation succeeds; the stack suffices',
]


def main(p):
    os.makedirs(B + '/found', exist_ok=True)
    work = f'{B}/work'
    thorough = TIER == 'thorough'
    with Lock():
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        tools = build_tools()
        exe = build_replay()
        v = verify(work) if tools else None
        base = load(V + '/contracts/baseline.json', {})
        out = f'{B}/found/{p}.json'
        mine, undis, roots, cn = [], [], set(), set()
        if v:
            roots = {f.split('#')[0] for (l, f, w, c) in v['labels'] if l == p}
            if p == 'C01':
                roots |= {f['name'] for f in v['rep']['functions']}
            cn = cone(v['rep'], roots)
            undis = [f for f in v['fails'] if f['fn'].split('#')[0] in cn or f['fn'] in cn or f['label'] == p]
            ex = exits(v['src'])
            st = {f['name']: structure(f, ex) for f in v['rep']['functions']}
            shims = used_shims(v['src'])
            lost = lost_contracts(v['rep'], base)
            named = {f['fn'].split('#')[0] for f in v['fails'] if f['label'] and f['kind'] != 'hint'}
            for f in v['fails']:
                # a step of the argument that fails where every clause goes through speaks for the clauses after it
                step = f['kind'] == 'hint' and f['fn'].split('#')[0] not in named and p in {l for l, n, w, c in v['labels'] if n == f['fn']}
                if not step and (f['label'] != p or f['kind'] in ('hint', 'rlimit', 'front')):
                    continue
                k = f['fn'].split('#')[0]
                if k not in v['opaque'] and speaks(k, st, base, lost):
                    mine.append(f)
                else:
                    note(f"undischarged, but {k} is not built the way its contract was written for: {f['kind']} {f['clause'] or f['text']}")
            for k, r in v['opaque'].items():
                if k in cn:
                    note(f'{k} is out of the verifier\'s reach ({r}); its contract is assumed and only tried on inputs')
            for k in sorted(cn):
                if k in st and k in base and st[k] != base[k]['structure']:
                    note(f'{k} was restructured')
        global DEPSTATE
        if v and set().union(*[shims.get(k, set()) for k in cn]) & {'v_to_unicode', 'v_to_utf8', 'v_unicode_sort', 'Clientinfo', 'Settings'}:
            DEPSTATE = dependencies(work)
        global TRIED
        if exe:
            TRIED = assumptions(exe)
        # the real code on concrete inputs: the search for a failing input when an obligation is undischarged or
        # out of reach, and otherwise a short conformance run for what the contracts assume
        hard = (not v) or undis or [k for k in v['opaque'] if k in cn]
        cases, found, text = 0, False, ''
        if exe:
            plan = ([(SEED, 60, False), (SEED + 1, 180, True)] if thorough else [(SEED, 6, False)])
            if hard and not thorough:
                plan += [(SEED + 1, 15, True), (SEED + 2, 20, False)]
            for s, secs, big in plan:
                found, text, n = replay(exe, p, secs, out, s, big)
                cases += n
                if found:
                    break
            if mine and not found and time.time() - T0 < 500:
                for s, secs, big in [(SEED + 3, 60, True), (SEED + 4, 60, False)]:
                    if not found:
                        found, text, n = replay(exe, p, secs, out, s, big)
                        cases += n
        global REACH
        if v and thorough and not found:
            os.makedirs(work + '/marks', exist_ok=True)
            REACH = reachable(work + '/marks', work + '/types.tsv', sorted(cn))
            if REACH and REACH[2]:
                note('places the contracts make unreachable: ' + ', '.join(REACH[2]))
    rc = 0
    line = ''
    if found:
        rep_ = load(out, {})
        rep_['undischarged'] = [dict(function=f['fn'], obligation=f['kind'], clause=f['clause'], message=f['msg'], at=f['text']) for f in undis]
        json.dump(rep_, open(out, 'w'), indent=1)
        print(text)
        for f in undis[:8]:
            print(f"undischarged: {f['fn']}: {f['msg']} [{f['label'] or f['kind']}] {f['clause'] or f['text']}")
        line = f'VIOLATION property={p} replay={out}'
        rc = 1
    elif mine:
        json.dump(dict(property=p, undischarged=[dict(function=f['fn'], obligation=f['kind'], clause=f['clause'], message=f['msg'], at=f['text'], verifier_output=f['rendered']) for f in mine]),
                  open(out, 'w'), indent=1)
        for f in mine[:8]:
            print(f"undischarged: {f['fn']}: {f['msg']} [{f['label']} {f['kind']}] {f['clause'] or f['text']}")
        line = f'VIOLATION property={p} replay={out} no-failing-input-found'
        rc = 1
    elif undis:
        note(f'{len(undis)} obligations in reach of {p} are undischarged; {cases} replayed inputs show no failure')
    evidence(p, v, cn, roots, undis, cases, rc, exe)
    if line:
        print(line)
    else:
        print(f'{p}: holds on everything explored ({cases} replayed inputs, {time.time() - T0:.0f} s)')
    return rc


def assumptions(exe):
    """the contracts assumed of std and bstr, tried against the real functions over small exhaustive domains (bounded)"""
    rc, o, e = limited([exe, 'shims'], 60)
    try:
        r = json.loads(o.strip().split('\n')[-1])
    except (ValueError, IndexError):
        note('the assumed contracts could not be tried: ' + (o + e)[-300:])
        return None
    if r['disagreements']:
        note('an assumed contract disagrees with the library it stands for: ' + '; '.join(r['disagreements'])[:600])
    return r


REACH = None
DEPSTATE = None
TRIED = None


def tried(used):
    have = {n.split('::')[-1] for n in TRIED['contracts']}
    bound = {x.split('::')[-1] for x in DEPSTATE['bound']} if DEPSTATE and DEPSTATE['ok'] else set()
    # proved in shim.rs, or a mark of the translation without a function behind it
    proved = {'v_err', 'v_io_err', 'v_assert', 'v_cmp_int', 'v_then', 'v_reverse', 'v_bool_and', 'v_bool_or', 'v_bool_xor'}
    u = {x for x in used if x.startswith('v_')} - proved - bound
    return dict(kind='bounded: small exhaustive domains, not proved', cases=TRIED['cases'], agree=sorted(u & have), only_assumed=sorted(u - have), disagreements=TRIED['disagreements'])


def evidence(p, v, cn, roots, undis, cases, rc, exe):
    cov = dict(evaluations=cases, rule='the replayed inputs are generated recordings with the features the property talks about (replay/src/gen.rs)')
    ass = list(TRUSTED)
    level = 'other'
    man = load(V + '/MANIFEST.json', {})
    for c in man.get('checks', []):
        if c['property'] == p:
            level = c['level']
    if v:
        fs = {f['name']: f for f in v['rep']['functions']}
        under = [k for k in cn if k in fs and fs[k]['contracted'] and k not in v['opaque']]
        free = [k for k in cn if k in fs and not fs[k]['contracted'] and fs[k]['status'] == 'verified']
        lab = [l for l in v['labels'] if l[1].split('#')[0] in cn and (l[0] == p or p == 'C01' or True)]
        own = [l for l in v['labels'] if l[0] == p]
        # named clauses, and per function the implicit ones (overflow, bounds, callee preconditions, termination) as one
        obligations = len(lab) + len(under) + len(free)
        bad = {(f['fn'], f['kind'], f['clause']) for f in undis if f['clause']} | {(f['fn'], 'implicit') for f in undis if not f['clause']}
        opq = [k for k in v['opaque'] if k in cn]
        nopq = len([l for l in lab if l[1].split('#')[0] in opq])
        smt = v['js'].get('times-ms', {}).get('smt', {})
        sh_ = used_shims(v['src'])
        used = sorted(set().union(*[sh_.get(k, set()) for k in cn]) if cn else [])
        cov.update(obligations=obligations, discharged=max(0, obligations - len(bad) - nopq),
                   clauses_of_this_property=[f'{l[1]} {l[2]}: {l[3]}' for l in own],
                   functions_under_contract=sorted(under), functions_without_contract=sorted(free), functions_out_of_reach={k: v['opaque'][k] for k in opq},
                   verified_units=v['js'].get('verification-results', {}).get('verified'), failed_units=v['js'].get('verification-results', {}).get('errors'),
                   backend='Verus 0.2026.09.13 with Z3', solver_ms=smt.get('total'), solver_run_ms=smt.get('smt-run'),
                   checker_cmd='verus build/work/gen.rs --rlimit 100 (gen.rs extracted from /repo/src on this run)',
                   dependency_contracts=(dict(discharged_against_their_sources=DEPSTATE['bound'] if DEPSTATE['ok'] else [], functions=DEPSTATE['functions'], clauses=DEPSTATE['clauses'],
                                              verified_units=DEPSTATE['units'], solver_ms=DEPSTATE['solver_ms']) if DEPSTATE else 'none in this cone'),
                   trusted_base=TRUSTED + ['assumed contracts used in this cone: ' + ', '.join(used)],
                   assumed_contracts_tried=(tried(used) if TRIED else 'not run'),
                   undischarged=[f"{f['fn']}: {f['msg']} {f['clause'] or f['text']}" for f in undis][:20],
                   reachability=(dict(places=REACH[0], undecided=REACH[1], unreachable=REACH[2]) if REACH else 'thorough tier only'),
                   explanation='obligations: every named clause of every function the property depends on, plus one per function for the implicit ones')
    else:
        cov.update(obligations=0, discharged=0, checker_cmd='verus', trusted_base=TRUSTED, explanation='the verifier gave no answer on this tree; bounded run on concrete inputs only')
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(dict(property=p, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level, coverage=cov,
                   assumptions=ass + NOTES, wall_s=round(time.time() - T0, 2), violations=rc), open(f'{V}/evidence/{p}.json', 'w'), indent=1)


def rebaseline():
    work = f'{B}/work'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    build_tools()
    v = verify(work)
    sh_, ex_ = used_shims(v["src"]), exits(v["src"])
    json.dump({f['name']: dict(contracted=f['contracted'], status=f['status'], structure=structure(f, ex_), shims=sorted(sh_.get(f['name'], []))) for f in v['rep']['functions']},
              open(V + '/contracts/baseline.json', 'w'), indent=0, sort_keys=True)
    status(v)


def status(v=None):
    if not v:
        work = f'{B}/work'
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        v = verify(work)
    fs = v['rep']['functions']
    print('functions', len(fs), 'contracted', len([f for f in fs if f['contracted']]), 'opaque', v['opaque'])
    print('without contract:', [f['name'] for f in fs if not f['contracted'] and f['status'] == 'verified'])
    print(v['js'].get('verification-results'))
    for f in v['fails']:
        print(f['fn'], f['msg'], f['label'], f['kind'], f['clause'] or f['text'])


if __name__ == '__main__':
    a = sys.argv[1:]
    if a == ['--setup']:
        with Lock():
            ok = build_tools() and build_replay()
        sys.exit(0 if ok else 1)
    if a == ['--rebaseline']:
        sys.exit(rebaseline())
    if a == ['--status']:
        sys.exit(status())
    if len(a) != 1 or not re.fullmatch(r'C\d\d', a[0]):
        print(__doc__)
        sys.exit(2)
    sys.exit(main(a[0]))
