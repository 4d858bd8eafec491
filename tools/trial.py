#!/usr/bin/env python3
"""Tries edits (file with try_(id, prop, [(file, old, new), ...]) calls) in a scratch copy: builds, stable tests, then the property's
quick check of the simulator built against the copy.  usage: trial.py FILE [id ...]   env: RUNS, SEED"""
import sys, os, subprocess, shutil, time
L = []
def try_(id, prop, edits): L.append((id, prop, edits))
exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), {'try_': try_})
ids = sys.argv[2:]
w = os.environ.get('TRIAL_DIR', '/tmp/trial')
def sh(c, t=1200):
    try: r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t); return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 'hang', ''
ENV = 'export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true; '
sh('rm -rf %s/repo %s/sim; mkdir -p %s; cp -a /repo %s/repo; cp -a /verif/sim %s/sim; sed -i "s#/repo#%s/repo#" %s/sim/Cargo.toml; rm -rf %s/v; mkdir -p %s/v; cp /verif/known_findings.txt /verif/properties.jsonl %s/v/' % ((w,) * 10))
for id, prop, edits in L:
    if ids and id not in ids: continue
    sh('git -C %s/repo checkout -q -- .' % w)
    bad = None
    for f, a, b in edits:
        p = '%s/repo/%s' % (w, f); s = open(p).read()
        if s.count(a) != 1: bad = '%d matches' % s.count(a); break
        open(p, 'w').write(s.replace(a, b))
    if bad: print(id, prop, 'EDIT', bad, flush=True); continue
    rc, o = sh(ENV + 'cd %s/repo && cargo test --offline --tests' % w, 300)
    if rc != 0: print(id, prop, 'TESTS', [l for l in o.split('\n') if 'error' in l or 'FAILED' in l or 'failed' in l][:3], flush=True); continue
    rc, o = sh(ENV + 'cd %s/sim && cargo build -q --offline --profile checked --target-dir %s/target; cargo build -q --offline --release --target-dir %s/target' % (w, w, w))
    if rc != 0: print(id, prop, 'SIMBUILD', o[-500:], flush=True); continue
    for q in prop.split():
        t = time.time()
        rc, o = sh('mkdir -p %s/v/target; for p in release checked; do mkdir -p %s/v/target/$p; cp %s/target/$p/svgsim %s/v/target/$p/; done; export SVGSIM_ROOT=%s/v VERIF_TIER=quick VERIF_SEED=%s; timeout 900 %s/v/target/release/svgsim check %s' % (w, w, w, w, w, os.environ.get('SEED', '1'), w, q))
        print(id, q, {0: 'missed', 1: 'CAUGHT'}.get(rc, rc), '%ds' % (time.time() - t), (o if rc not in (0,) else '')[:400].replace('\n', ' | '), flush=True)
