#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the bugs in tools/bugs/*.py, against /repo's HEAD, and confirms each in a scratch copy:
it applies, builds, passes the stable tests, and its demonstration passes without and fails with the change.
usage: mkseeded.py [id ...]"""
import sys, os, subprocess, json, shutil, glob, importlib.util
BUGS = {}
def bug(id, prop, needs, breaks, edits, demo, tool=False):
    BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, tool=tool)
DEMO = '''#!/bin/bash
# exit 0: the property holds in the demonstrated history; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
svgdom = { path = "$repo" }
log = "0.4"
[workspace]
T
cp "$repo/Cargo.lock" "$d/" 2>/dev/null
cd "$d" && cargo build -q --offline --target-dir "$d/target" 2>"$d/err" || { cat "$d/err"; exit 3; }
timeout 60 "$d/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def load():
    for f in sorted(glob.glob('/verif/tools/bugs/*.py')):
        exec(compile(open(f).read(), f, 'exec'), {'bug': bug})
W = '/tmp/plant/repo'
def fresh():
    shutil.rmtree('/tmp/plant', ignore_errors=True)
    os.makedirs('/tmp/plant')
    sh('cp -a /repo /tmp/plant/repo')
    sh('git -C %s checkout -q -- . && git -C %s clean -fdq' % (W, W))
def build_test():
    # /opt/vp scripts name /repo: do the same things here
    env = 'export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true; cd %s; touch -c src/lib.rs codegen/main.rs; ' % W
    r = sh(env + 'cargo test --workspace --offline 2>&1 && cargo build --offline --manifest-path codegen/Cargo.toml')
    return r.returncode == 0, r.stdout[-3000:]
def main():
    load()
    ids = sys.argv[1:] or sorted(BUGS)
    fresh()
    bad = 0
    for id in ids:
        b = BUGS[id]
        out = '/verif/seeded/' + id
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        if b['tool']:
            open(out + '/demo.sh', 'w').write(b['demo'])
        else:
            open(out + '/demo.sh', 'w').write(DEMO)
            open(out + '/demo.rs', 'w').write(b['demo'])
        os.chmod(out + '/demo.sh', 0o755)
        ok = True; why = ''
        for f, old, new in b['edits']:
            p = W + '/' + f
            s = open(p).read()
            if s.count(old) != 1: ok = False; why = 'edit matches %d times in %s' % (s.count(old), f); break
            open(p, 'w').write(s.replace(old, new))
        if ok:
            d = sh('git -C %s diff' % W).stdout
            open(out + '/patch.diff', 'w').write(d)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            ok, log = build_test()
            if not ok: why = 'build or tests fail:\n' + log
        if ok:
            r = sh('cd %s && bash %s/demo.sh' % (W, out))
            if r.returncode in (0, 3): ok = False; why = 'demo with the patch: %d\n%s' % (r.returncode, r.stdout[-1500:])
        sh('git -C %s checkout -q -- .' % W)
        if ok:
            if b['tool']: build_test()
            r = sh('cd %s && bash %s/demo.sh' % (W, out))
            if r.returncode != 0: ok = False; why = 'demo without the patch: %d\n%s' % (r.returncode, r.stdout[-1500:])
        print(id, b['prop'], 'ok' if ok else 'REJECTED ' + why[-700:], flush=True)
        if not ok: shutil.rmtree(out, ignore_errors=True); bad += 1
    shutil.rmtree('/tmp/plant', ignore_errors=True)
    return 1 if bad else 0
sys.exit(main())
