#!/usr/bin/env python3
"""Runs the solver-based check of one property.

    check.py ID [quick|thorough]     decide property ID on /repo's current working tree
    check.py setup                   build the engine and the harness
    check.py replay FILE             run one recorded counterexample against the native build

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken, with a counterexample that was
replayed against the native build of the same tree.  Anything else is an error of the check.
"""
import fcntl, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
REPO = '/repo'
B = os.path.join(V, 'build')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true')
ENV.pop('RUSTFLAGS', None)
NAT = os.path.join(B, 'target/release/harness')
T0 = time.time()

def die(msg):
    print('ERROR: ' + msg)
    sys.exit(2)

def files(root, skip):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.isfile(p) and not os.path.islink(p): out.append(p)
    return out

def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0' + hashlib.sha256(open(p, 'rb').read()).digest())
    return h.hexdigest()

def run(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: die('%s failed:\n%s' % (' '.join(cmd[:4]), r.stdout[-4000:]))

def build():
    """Engine, native harness and LLVM IR of the harness with the library linked in, from the current sources."""
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    run(['cargo', 'build', '--release', '--offline'], V + '/symex', dict(ENV, CARGO_TARGET_DIR=B + '/symex'))
    want = digest(files(REPO, {'target', '.git'}) + files(V + '/harness', {'target'}))
    stamp = os.path.join(B, 'stamp')
    ll = os.path.join(B, 'harness.ll')
    if os.path.exists(stamp) and open(stamp).read() == want and os.path.exists(ll) and os.path.exists(NAT):
        return ll, want
    if os.path.exists(stamp): os.remove(stamp)
    env = dict(ENV, CARGO_TARGET_DIR=B + '/target')
    deps = B + '/target/release/deps'
    if os.path.isdir(deps):
        subprocess.run(['cargo', 'clean', '--offline', '--release', '-p', 'dxf', '-p', 'harness'], cwd=V + '/harness', env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for f in os.listdir(deps):
            if f.startswith('harness-') and f.endswith('.ll'): os.remove(os.path.join(deps, f))
    run(['cargo', 'rustc', '--offline', '--release', '--', '--emit=llvm-ir,link', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'], V + '/harness', env)
    got = [f for f in os.listdir(deps) if f.startswith('harness-') and f.endswith('.ll')]
    if len(got) != 1: die('expected one .ll file, found %s' % got)
    os.replace(os.path.join(deps, got[0]), ll)
    if digest(files(REPO, {'target', '.git'}) + files(V + '/harness', {'target'})) == want:
        open(stamp, 'w').write(want)
    return ll, want

def native(entry, case, inputs, path, timeout=20):
    """-> (outcome, list of failed assertion labels); outcome: ok, assert, panic, hang, error"""
    with open(path, 'w') as f:
        for w, v in inputs: f.write('%d %d\n' % (w, v))
    try:
        r = subprocess.run(['bash', '-c', 'ulimit -v 6000000 -c 0; exec "$@"', 'x', NAT, entry, str(case), path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(os.environ, TZ='UTC', RUST_BACKTRACE='0'), cwd=B)
    except subprocess.TimeoutExpired:
        return 'hang', []
    out = r.stdout.decode('utf8', 'replace')
    labels = re.findall(r'^SX-ASSERT (.*)$', out, re.M)
    if r.returncode == 0 and 'SX-DONE' in out: return 'ok', labels
    if r.returncode == 3: return 'assert', labels
    if r.returncode in (77, 78): return 'error', labels
    if r.returncode < 0 or r.returncode in (101, 134, 139): return 'panic', labels
    return 'error', labels

def known(pid):
    """open findings of this property: [(what, compiled pattern of violation keys)]"""
    out = []
    p = os.path.join(V, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)$', l.strip())
        if m and m.group(1) == pid:
            k, what = m.group(2), m.group(3)
            m2 = re.match(r'^(.*)@([\w,*]+)$', k)
            if m2:
                vs = '[\\w.]+' if m2.group(2) == '*' else '(?:%s)' % '|'.join(re.escape(x) for x in m2.group(2).split(','))
                rx = re.escape(m2.group(1)).replace('\\*', '.*') + '@' + vs + '$'
            else: rx = re.escape(k) + '$'
            out.append((k, what, re.compile(rx)))
    return out

def main():
    if sys.argv[1] == 'setup':
        build()
        print('setup done in %.0f s' % (time.time() - T0))
        return 0
    if sys.argv[1] == 'replay':
        build()
        j = json.load(open(sys.argv[2]))
        p = os.path.join(B, 'replay.in')
        oc, labels = native(j['entry'], j['case'], j['inputs'], p)
        print('%s %s: %s %s' % (j['entry'], j['case'], oc, labels))
        return 0 if oc == 'ok' else 1
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import props
    P = props.P[pid]
    ll, want = build()
    tb = time.time() - T0
    jobs = P['jobs'](tier)
    limit = 480 if tier == 'quick' else P.get('thorough_s', 6000)
    jf = os.path.join(B, 'jobs-%s.txt' % pid)
    open(jf, 'w').write(''.join('%s %d\n' % j for j in jobs))
    opt = dict(time=300 if tier == 'quick' else 1800, total=max(60, limit - tb))
    opt.update({'max-violations': 2000, 'samples': 1 if len(jobs) > 24 else 4, 'mem': 6, 'query-timeout': 10000 if tier == 'quick' else 60000})
    opt.update(P.get('opts', {}).get(tier, {}))
    cmd = [B + '/symex/release/symex', '--ll', ll, '-j', os.environ.get('VJ') or str(os.cpu_count() or 4)]
    for k, v in opt.items(): cmd += ['--' + k, str(v)]
    r = subprocess.run(cmd + ['--jobs', jf], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode: die('engine failed: ' + r.stderr.decode('utf8', 'replace')[-2000:])
    res, module = [], None
    for l in r.stdout.decode('utf8', 'replace').splitlines():
        try: j = json.loads(l)
        except ValueError: die('unreadable engine output: ' + l[:20])
        if 'module' in j: module = j['module']
        else: res.append(j)
    if module is None or len(res) != len(jobs): die('engine output incomplete (%d of %d jobs)' % (len(res), len(jobs)))
    # ---- aggregate
    tot = {k: 0 for k in 'paths done panics forks branches concretizations instrs queries sat unsat unknown cache_hits cex_hits asserts assert_queries assumed_away'.split()}
    solver = 0.0; maxq = 0.0; inc = {}; funcs = set(); reach = {}; viol = {}; samples = []; errors = []; incjobs = []
    for j in res:
        tag = '%s/%d' % (j.get('entry'), j.get('case', -1))
        if 'error' in j or 'skipped' in j:
            inc[j.get('error') or j.get('skipped')] = inc.get(j.get('error') or j.get('skipped'), 0) + 1
            incjobs.append(tag)
            if j.get('error') == 'no such entry': errors.append(tag + ': no such entry')
            continue
        for k in tot: tot[k] += j[k]
        solver += j['solver_s']; maxq = max(maxq, j['max_query_s'])
        for k, v in j['incomplete'].items(): inc[k] = inc.get(k, 0) + v
        if j['incomplete']: incjobs.append(tag)
        for k, v in j['reach'].items(): reach[k] = reach.get(k, 0) + v
        funcs |= set(j['funcs'])
        for v in j['violations']: viol.setdefault('%s %s' % (v['key'], tag) if v['key'] in ('hang', 'panic huge allocation') else v['key'], []).append((j['entry'], j['case'], v['inputs'], v['msg'], v.get('stack', [])))
        for s in j['samples']: samples.append((j['entry'], j['case'], s))
        # vacuity: a finished job must have reached its final statement
        if not j['incomplete'] and not j['violations'] and 'end' not in j['reach']: errors.append(tag + ': the harness never reached its end')
        if j['mismatches']: errors.append(tag + ': %d solver models disagree with concrete evaluation' % j['mismatches'])
    # ---- sampled paths, replayed natively
    rd = os.path.join(V, 'replay', pid)
    os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd): os.remove(os.path.join(rd, f))
    keyset = set(viol)
    def rs(a):
        i, (e, c, s) = a
        return (e, c, s) + native(e, c, s, os.path.join(B, 's-%s-%d.in' % (pid, i)))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex: rr = list(ex.map(rs, enumerate(samples)))
    for i in range(len(samples)):
        try: os.remove(os.path.join(B, 's-%s-%d.in' % (pid, i)))
        except OSError: pass
    validated = 0; notes = []
    for e, c, s, oc, labels in rr:
        if oc == 'ok' or (oc == 'assert' and all('assert ' + l in keyset for l in labels)): validated += 1
        elif oc == 'assert':
            # the engine missed it, the real code shows it: a counterexample all the same
            for l in labels:
                if 'assert ' + l not in viol: viol['assert ' + l] = [(e, c, s, l + ' (shown by the native run of a sampled path)', [])]
        else: notes.append('sampled path of %s/%d: the native run says %s %s' % (e, c, oc, labels[:3]))
    # ---- counterexamples, replayed natively
    kn = known(pid)
    seen_known, new, unrep = {}, [], []
    todo = []
    for key, lst in sorted(viol.items()):
        k = next((x for x in kn if x[2].match(key)), None)
        if k: seen_known.setdefault(k[0], []).append(key)
        else: todo.append((key, lst))
    def rv(a):
        n, (key, lst) = a
        last = None
        for e, c, inp, msg, st in lst[:6]:
            oc, labels = native(e, c, inp, os.path.join(B, 'v-%s-%d.in' % (pid, n)), 30)
            last = (oc, labels)
            good = (key.startswith('assert ') and key[7:] in labels) or (key.startswith('panic') and oc == 'panic') or (key.startswith('hang') and oc in ('hang', 'panic'))
            if good: return key, (e, c, inp, msg, st, oc, labels), last
        return key, None, last
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex: vv = list(ex.map(rv, enumerate(todo[:2000])))
    for n in range(len(todo)):
        try: os.remove(os.path.join(B, 'v-%s-%d.in' % (pid, n)))
        except OSError: pass
    for n, (key, g, last) in enumerate(vv):
        if g is None: unrep.append('%s (native: %s)' % (key, last)); continue
        p = os.path.join(rd, 'cex-%d.json' % n)
        json.dump(dict(property=pid, key=key, entry=g[0], case=g[1], inputs=g[2], message=g[3], stack=g[4], native=g[5], failed=g[6], replay='python3 tools/check.py replay ' + p), open(p, 'w'), indent=1)
        new.append((key, p, g))
    # a path cut by the instruction limit that the native run finishes is incompleteness, not a hang
    for u in unrep:
        if u.startswith('hang '): inc['path instruction limit'] = inc.get('path instruction limit', 0) + 1
        else:
            # the engine is wrong about this path: nothing is decided there
            inc['counterexample that the real code does not show'] = inc.get('counterexample that the real code does not show', 0) + 1
            notes.append('counterexample does not reproduce natively: ' + u)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - T0, 1),
        coverage=dict(states=tot['paths'], transitions=tot['instrs'], traces_validated_against_impl=validated, samples=[dict(entry=e, case=c, inputs=s[:40], native=oc) for e, c, s, oc, _ in rr[:8]],
            jobs=len(jobs), paths_completed=tot['done'], paths_excluded_by_assumptions=tot['assumed_away'], forks=tot['forks'], assertions_evaluated=tot['asserts'], assertion_queries=tot['assert_queries'],
            queries=tot['queries'], queries_sat=tot['sat'], queries_unsat=tot['unsat'], queries_unknown=tot['unknown'], solver_s=round(solver, 2), max_query_s=round(maxq, 2),
            complete=not inc and not notes, incomplete=inc, notes=notes[:20], incomplete_jobs=incjobs[:40], reachability_witnesses=reach,
            functions_encoded=sorted(module['names'].get(str(i), '?') for i in funcs), functions_encoded_count=len(funcs), module_functions=module['functions'], module_instructions=module['instructions'], solver='z3 ' + str(module['z3']),
            bounds=P['bounds'](tier) if callable(P['bounds']) else P['bounds'], known_findings=[k for k in seen_known], sources=want[:16]),
        assumptions=props.COMMON + P.get('assume', []), violations=[dict(key=k, replay=p) for k, p, _ in new])
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    print('%s %s: %d jobs, %d paths, %d assertions, %d queries (%.1f s solver), %d native replays, %.0f s%s' % (pid, tier, len(jobs), tot['paths'], tot['asserts'], tot['queries'], solver, validated, time.time() - T0, '' if not inc else ', INCOMPLETE: %s' % inc))
    for k, what, _ in kn: print('KNOWN-FINDING: property=%s %s (%s)%s' % (pid, what, k, '' if k in seen_known else ' [not exercised in this run]'))
    for key, p, g in new[:20]: print('VIOLATION property=%s replay=%s' % (pid, p)); print('  %s: %s' % (key, g[3]))
    for n in notes[:10]: print('NOTE: ' + n)
    if new: return 1
    if errors:
        for e in errors[:10]: print('ERROR: ' + e)
        return 2
    return 0

sys.exit(main())
