#!/usr/bin/env python3
"""Mutation survey: small mechanical changes of /repo's sources, each in a scratch copy. A change that builds and passes
the stable tests is run through a short sweep of every property. Survivors are candidates for gaps (or change nothing).
usage: mutate.py OUT WORKERS [file-substring ...]"""
import sys, os, re, subprocess, shutil, random, json, threading, queue
FILES = ['src/tree.rs', 'src/node.rs', 'src/document.rs', 'src/attributes.rs', 'src/attribute.rs', 'src/attribute_value.rs',
         'src/name.rs', 'src/writer.rs', 'src/parser/mod.rs', 'src/parser/text.rs']
SWAPS = [(' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '), ('is_none()', 'is_some()'), ('is_some()', 'is_none()'),
    ('first_child', 'last_child'), ('last_child', 'first_child'), ('next_sibling', 'previous_sibling'), ('previous_sibling', 'next_sibling'),
    ('true', 'false'), ('false', 'true'), ('continue', 'break'), ('Preserve', 'Default'), ('Default', 'Preserve'), (' < ', ' <= '), (' > ', ' >= '),
    ('remove_first', 'remove_last'), ('remove_last', 'remove_first'), ('.first()', '.last()'), ('.last()', '.first()'), ('Start(', 'End('), ('End(', 'Start('),
    ('.rev()', ''), ('?;', ';'), ('.remove(', '.swap_remove('), ('next_item', 'previous_item'), ('previous_item', 'next_item'), ('None => None', 'None => panic!()'),
    ('starts_with', 'contains'), ('ends_with', 'contains'), ('.any(', '.all('), ('.trim()', ''), ('is_text()', 'is_comment()'), ('is_comment()', 'is_text()'),
    ('is_element()', 'is_text()'), ('Inherit', 'None'), ('.clone()', ''), (' 0', ' 1'), (' 1', ' 0'), (' 1', ' 2'), ('descendants()', 'children()'),
    ('.cloned()', ''), ('.contains(', '.starts_with('), ('FuncLink', 'Link'), ('node1', 'node2'), ('node2', 'node1'), ('xmlspace1', 'xmlspace2'), ('c2', 'c3'), ('c1', 'c2'),
    ('is_first', 'is_last'), ('is_last', 'is_first'), ('.take()', '.clone()'), ('self_borrow', 'new_sibling_borrow'), ('set_attribute(', 'set_attribute_if_none('),
    ('set_attribute_checked(', 'set_attribute_if_none('), ('unwrap()', 'unwrap_or_default()')]
def mutants(path, text):
    lines = text.split('\n')
    out = []
    skip = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith(('//', 'use ', 'pub use', '#', 'mod ', 'type ', 'debug_assert', 'impl', '*', 'pub fn default_value')) or not s: continue
        def put(new, why):
            if new != l: out.append((i, new, why))
        code = l.split('//')[0]
        if s.endswith(';') and not s.startswith(('let ', 'return', 'pub ', 'const', 'static', 'warn!')) and s not in (');', '};', '});'):
            put('', 'delete')
        if re.match(r'\s*(\} else )?if (?!let )(.*) \{$', l):
            m = re.match(r'^(\s*(?:\} else )?if )(?!let )(.*)( \{)$', l)
            put(m[1] + '!(' + m[2] + ')' + m[3], 'negate'); put(m[1] + 'false && (' + m[2] + ')' + m[3], 'never'); put(m[1] + 'true || (' + m[2] + ')' + m[3], 'always')
        if re.match(r'^\s*\|? ?(AId|ElementId|AttributeId|AttributeValue|Some)[:(].*[^{;]$', l) and '=>' not in l: put('', 'drop-arm')
        for a, b in SWAPS:
            k = code.find(a)
            n = 0
            while k >= 0 and n < 3:
                put(l[:k] + b + l[k + len(a):], '%s->%s' % (a.strip(), b.strip()))
                k = code.find(a, k + 1); n += 1
    return [(path, i, new, why) for i, new, why in out]
def sh(c, t=600):
    try: r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, start_new_session=True); return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 'hang', ''
ENV = 'export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_BUILD_JOBS=2; '
RUNS = int(os.environ.get('RUNS', '1500'))
def one(w, m):
    path, i, new, why = m
    f = w + '/repo/' + path
    orig = open(f).read()
    L = orig.split('\n'); old = L[i]; L[i] = new
    open(f, 'w').write('\n'.join(L))
    try:
        rc, o = sh(ENV + 'cd %s/repo && cargo check -q --offline' % w)
        if rc != 0: return 'nobuild', ''
        rc, o = sh(ENV + 'cd %s/repo && timeout -k 2 120 cargo test --offline --tests -- --test-threads 2' % w, 200)
        if rc != 0: return 'tests', ''
        rc, o = sh(ENV + 'cd %s/sim && cargo build -q --offline --profile checked --target-dir %s/t' % (w, w))
        if rc != 0: return 'simbuild', o[-300:]
        rc, o = sh('timeout -k 2 150 %s/t/checked/svgsim sweep 1 %d' % (w, RUNS), 200)
        if rc == 0: return 'SURVIVED', ''
        return 'caught', (o.strip().split('\n')[-1] if rc == 1 else 'rc=%s' % rc)
    finally:
        open(f, 'w').write(orig)
def main():
    out, nw, only = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    ms = []
    for f in FILES:
        if only and not any(o in f for o in only): continue
        ms += mutants(f, open('/repo/' + f).read())
    done = set()
    if os.path.exists(out):
        for l in open(out): j = json.loads(l); done.add((j['file'], j['line'], j['new']))
    random.seed(7); random.shuffle(ms)
    ms = [m for m in ms if (m[0], m[1] + 1, m[2]) not in done]
    print(len(ms), 'mutants'); sys.stdout.flush()
    q = queue.Queue()
    for m in ms: q.put(m)
    lock = threading.Lock()
    def work(k):
        w = '/tmp/mut/%d' % k
        shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        sh('cp -a /repo %s/repo; cp -a /verif/sim %s/sim; sed -i "s#/repo#%s/repo#" %s/sim/Cargo.toml' % (w, w, w, w))
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            r, d = one(w, m)
            with lock:
                with open(out, 'a') as f: f.write(json.dumps(dict(file=m[0], line=m[1] + 1, why=m[3], new=m[2], old=open('/repo/' + m[0]).read().split('\n')[m[1]], result=r, detail=d)) + '\n')
        shutil.rmtree(w, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
