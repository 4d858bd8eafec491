#!/usr/bin/env python3
"""Runs a sweep of all properties (RUNS each, default 4000) on edits that change no behaviour. usage: refactor.py FILE [id ...]"""
import sys, os, subprocess
L = []
def ref(id, edits): L.append((id, edits))
exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), {'ref': ref})
w = '/tmp/refactor'
def sh(c, t=3000): r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t); return r.returncode, r.stdout
ENV = 'export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true; '
sh('rm -rf %s/repo %s/sim; mkdir -p %s; cp -a /repo %s/repo; cp -a /verif/sim %s/sim; sed -i "s#/repo#%s/repo#" %s/sim/Cargo.toml' % ((w,) * 7))
for id, edits in L:
    if sys.argv[2:] and id not in sys.argv[2:]: continue
    sh('git -C %s/repo checkout -q -- .' % w)
    bad = None
    for f, a, b in edits:
        p = '%s/repo/%s' % (w, f); s = open(p).read()
        if s.count(a) != 1: bad = '%s: %d matches' % (f, s.count(a)); break
        open(p, 'w').write(s.replace(a, b))
    if bad: print(id, 'EDIT', bad, flush=True); continue
    rc, o = sh(ENV + 'cd %s/repo && cargo test --offline --tests' % w)
    if rc != 0: print(id, 'TESTS', [l for l in o.split('\n') if 'error' in l or 'FAILED' in l or 'failed' in l][:3], flush=True); continue
    rc, o = sh(ENV + 'cd %s/sim && cargo build -q --offline --profile checked --target-dir %s/t' % (w, w))
    if rc != 0: print(id, 'SIMBUILD', o[-300:], flush=True); continue
    rc, o = sh('%s/t/checked/svgsim sweep %s %s' % (w, os.environ.get('SEED', '1'), os.environ.get('RUNS', '4000')))
    print(id, 'quiet' if rc == 0 else 'ALARM', o.strip()[-300:] if rc else '', flush=True)
