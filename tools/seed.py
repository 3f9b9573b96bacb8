#!/usr/bin/env python3
"""Planted bugs: seed.py verify ID.. (builds, tests and demonstration in a scratch copy) | run ID.. (the property's check with the bug applied to /repo)."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd, env=None): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
def verify(i):
    sd = os.path.join(V, 'seeded', i)
    w = '/tmp/seedwork'
    if os.path.exists(w): shutil.rmtree('/tmp/seedwork')
    sh('git worktree prune; git worktree add -f --detach %s HEAD' % w, '/repo')
    try:
        env = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TARGET_DIR='/tmp/seedtarget', CARGO_NET_OFFLINE='true')
        os.makedirs('/tmp/seedtarget', exist_ok=True)
        sh('cp -n /repo/Cargo.lock .', w)
        ok0 = sh('bash %s/demo.sh' % sd, w, env)
        a = sh('git apply %s/patch.diff' % sd, w)
        if a.returncode: return 'patch does not apply: ' + a.stdout
        ok1 = sh('bash %s/demo.sh' % sd, w, env)
        t = sh('cargo test --no-fail-fast --offline -- --test-threads 8 > /tmp/seedtarget/log 2>&1; cargo build --offline --manifest-path dxf2json/Cargo.toml 2>&1 | tail -3; python3 /opt/vp/results.py /tmp/seedtarget/out.json cargo:/tmp/seedtarget/log', w, env)
        out = json.load(open('/tmp/seedtarget/out.json'))
        passed = set(out.get('passed', []))
        names = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = [n for n in names if n not in passed]
        return 'demo unchanged rc=%d, demo with bug rc=%d, tests passed %d of %d, missing %s%s' % (ok0.returncode, ok1.returncode, len(passed), len(names), miss[:5], '' if ok0.returncode == 0 and ok1.returncode else '\n' + ok0.stdout[-1500:] + '\n----\n' + ok1.stdout[-1500:])
    finally:
        sh('git worktree remove --force %s' % w, '/repo')
def run(i):
    sd = os.path.join(V, 'seeded', i)
    pid = json.load(open(sd + '/meta.json'))['property']
    a = sh('git apply %s/patch.diff' % sd, '/repo')
    if a.returncode: return 'patch does not apply: ' + a.stdout
    try:
        t = time.time()
        r = sh('python3 tools/check.py %s quick' % pid, V)
        o = [l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
        return '%s rc=%d %.0fs\n    %s' % (pid, r.returncode, time.time() - t, '\n    '.join(x[:200] for x in o[:6]))
    finally: sh('git checkout -- .', '/repo')
for i in sys.argv[2:]:
    print(i, (verify if sys.argv[1] == 'verify' else run)(i), flush=True)
