//! C15: the real name-table generator, run as a process on simulated storage (sim/shim/shim.c).
//! One (seed, run index) fixes word lists, leftover output, random bytes and every injected fault.
use crate::rng::Rng;
use crate::run::js;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const KINDS: &[&str] = &["eintr", "short", "enospc", "eio", "zero", "eacces", "enoent", "emfile", "kill", "edquot"];
pub const CLASSES: &[&str] = &["open_in", "open_out", "read", "write", "rename", "sync"];

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Fault { cls: usize, n: u64, kind: usize, arg: u64, count: u64 }

#[derive(Clone, PartialEq, Debug)]
pub struct CgPlan { variant: u64, size: u64, stale: u64, rnd: u64, faults: Vec<Fault> }

struct Env { bin: PathBuf, shim: PathBuf, real: (String, String), rlib: Option<PathBuf>, names: PathBuf }

/// From here on the name table is also compiled and asked for every word.
const COMPILED: u64 = 1000;
const COMPILED_REAL: u64 = 2000;

const ASK: &str = r#"
#[allow(dead_code)] #[path = "names.rs"] mod names;
fn main() {
    let rd = |f: &str| std::fs::read_to_string(f).unwrap();
    let mut seen = std::collections::HashSet::new();
    for w in rd("elements.txt").lines().filter(|w| !w.is_empty()) {
        match names::ElementId::from_str(w) { Some(i) if i.as_str() == w && i.to_string() == w && seen.insert(i as usize) => {} _ => { println!("the element {:?} cannot be looked up", w); std::process::exit(7) } }
    }
    seen.clear();
    for w in rd("attributes.txt").lines().filter(|w| !w.is_empty()) {
        match names::AttributeId::from_str(w) { Some(i) if i.as_str() == w && i.to_string() == w && seen.insert(i as usize) => {} _ => { println!("the attribute {:?} cannot be looked up", w); std::process::exit(7) } }
    }
}
"#;

/// None: the table compiles and knows every word.
fn ask(e: &Env, dir: &Path, l: &(String, String), table: &[u8]) -> Option<String> {
    let rlib = e.rlib.as_ref()?;
    let d = dir.join("ask");
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).expect("scratch");
    fs::write(d.join("names.rs"), table).expect("scratch");
    fs::write(d.join("elements.txt"), &l.0).expect("scratch");
    fs::write(d.join("attributes.txt"), &l.1).expect("scratch");
    fs::write(d.join("ask.rs"), ASK).expect("scratch");
    let o = Command::new("rustc").current_dir(&d).args(["--edition", "2018", "-Awarnings", "--extern"]).arg(format!("siphasher={}", rlib.display()))
        .arg("-L").arg(rlib.parent().unwrap()).arg("ask.rs").stdin(Stdio::null()).output();
    let r = match o {
        Ok(o) if o.status.success() => match Command::new(d.join("ask")).current_dir(&d).stdin(Stdio::null()).output() {
            Ok(o) if o.status.success() => None,
            Ok(o) if o.status.code() == Some(7) => Some(String::from_utf8_lossy(&o.stdout).trim().to_string()),
            _ => Some("asking the name table for its words crashed".into()),
        },
        Ok(o) => Some(format!("the name table does not compile: {}", String::from_utf8_lossy(&o.stderr).lines().find(|l| l.starts_with("error")).unwrap_or("error"))),
        Err(_) => None,
    };
    let _ = fs::remove_dir_all(&d);
    r
}

/// Word lists of a variant. 0: the repository's own.
fn lists(e: &Env, seed: u64, variant: u64, size: u64) -> (String, String) {
    if variant == 0 || variant == COMPILED_REAL { return e.real.clone(); }
    let mut r = Rng::from2(seed ^ 0xc0de, variant);
    if variant >= COMPILED {
        // Words that make identifiers of their own.
        let mut seen = HashSet::new();
        let mut make = |lead: &str| {
            let n = match size { 0 => match r.below(4) { 0 => r.range(1, 9), 1 => r.range(10, 90), _ => r.range(100, 600) }, k => k as usize };
            let mut out = String::new();
            for k in 0..n {
                let w = loop {
                    let mut w = if r.chance(1, 30) { format!("{}", r.below(5000)) } else { lead.to_string() };
                    let most = if r.chance(1, 20) { 40 } else { 8 };
                    for _ in 0..r.range(1, most) {
                        if r.chance(1, 8) { w.push(*r.pick(&['-', '_', ':'])) }
                        w.push(match r.below(8) { 0 => (b'0' + r.below(10) as u8) as char, 1 => (b'A' + r.below(26) as u8) as char, _ => (b'a' + r.below(26) as u8) as char });
                    }
                    let bare: String = w.chars().filter(|c| c.is_alphanumeric()).collect::<String>().to_lowercase();
                    if seen.insert(bare) { break w; }
                };
                out.push_str(&w);
                if k + 1 < n || r.chance(1, 2) { out.push('\n') }
            }
            out
        };
        let a = make("e");
        let b = make("q");
        return (a, b);
    }
    let mut seen = HashSet::new();
    let mut make = |lead: char| {
        let n = match size { 0 => match r.below(6) { 0 => 1, 1 => r.range(2, 9), 2 | 3 => r.range(10, 90), 4 => r.range(100, 400), _ => r.range(500, 1500) }, k => k as usize };
        let mut out = String::new();
        let blanks = r.chance(1, 3);
        let end = !r.chance(1, 3);
        for k in 0..n {
            let w = loop {
                let mut w = String::from(lead);
                let most = if r.chance(1, 20) { 60 } else { 12 };
                for _ in 0..r.range(1, most) {
                    match r.below(14) {
                        0 => w.push('-'), 1 => w.push('_'), 2 => w.push(':'),
                        3 => w.push((b'0' + r.below(10) as u8) as char),
                        4 => w.push((b'A' + r.below(26) as u8) as char),
                        5 if r.chance(1, 8) => w.push_str("é日"),
                        _ => w.push((b'a' + r.below(26) as u8) as char),
                    }
                }
                if seen.insert(w.clone()) { break w; }
            };
            out.push_str(&w);
            if k + 1 < n || end { out.push('\n') }
            if blanks && r.chance(1, 10) { out.push('\n') }
        }
        out
    };
    // Disjoint, so that every word of either list has to show up in the output on its own account.
    let a = make('e');
    let b = make('1');
    (a, b)
}

struct Res { code: Option<i32>, out: Option<Vec<u8>>, calls: Vec<u64>, fired: Vec<u64>, hang: bool }

fn reset(dir: &Path, l: &(String, String), stale: u64, reference: Option<&[u8]>) {
    let _ = fs::remove_dir_all(dir);
    fs::create_dir_all(dir.join("codegen")).expect("scratch");
    fs::create_dir_all(dir.join("src")).expect("scratch");
    fs::write(dir.join("codegen/elements.txt"), &l.0).expect("scratch");
    fs::write(dir.join("codegen/attributes.txt"), &l.1).expect("scratch");
    let out = dir.join("src/names.rs");
    match (stale, reference) {
        (1, Some(r)) => { let mut v = r.to_vec(); v.extend_from_slice(b"\nleft over from a longer list\n"); v.extend_from_slice(r); fs::write(out, v).expect("scratch") }
        (2, Some(r)) => fs::write(out, &r[..r.len() / 2]).expect("scratch"),
        (3, Some(r)) => fs::write(out, vec![0u8; r.len() + 4096]).expect("scratch"),
        _ => {}
    }
}

fn launch(e: &Env, dir: &Path, rnd: u64, faults: &[Fault]) -> Res {
    let state = dir.join("state");
    fs::write(&state, [0u8; 512]).expect("scratch");
    let plan: Vec<String> = faults.iter().map(|f| format!("{}:{}:{}:{}:{}", f.cls, f.n, f.kind, f.arg, f.count)).collect();
    let mut c = Command::new(&e.bin).current_dir(dir.join("codegen")).env_clear()
        .env("LD_PRELOAD", &e.shim).env("SHIM_STATE", &state).env("SHIM_SEED", rnd.to_string()).env("SHIM_PLAN", plan.join(";"))
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("generator");
    let t = Instant::now();
    let mut hang = false;
    let st = loop {
        if let Ok(Some(s)) = c.try_wait() { break Some(s); }
        if t.elapsed() > Duration::from_secs(40) { let _ = c.kill(); let _ = c.wait(); hang = true; break None; }
        std::thread::sleep(Duration::from_micros(if t.elapsed().as_millis() < 20 { 300 } else { 5000 }));
    };
    let b = fs::read(&state).unwrap_or_default();
    let v: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let g = |i: usize| v.get(i).cloned().unwrap_or(0);
    Res { code: st.and_then(|s| s.code()), out: fs::read(dir.join("src/names.rs")).ok(),
        calls: (0..16).map(g).collect(), fired: (16..64).map(g).collect(), hang }
}

struct Ref { out: Vec<u8>, calls: Vec<u64> }

/// The fault-free run, and what it must contain.
fn reference(e: &Env, dir: &Path, l: &(String, String), compile: bool) -> Result<Ref, String> {
    reset(dir, l, 0, None);
    let r = launch(e, dir, 1, &[]);
    if r.code != Some(0) { return Err(format!("without any fault the generator ended with {:?}", r.code)); }
    let out = r.out.ok_or("the generator reported success without writing the name table")?;
    let text = String::from_utf8_lossy(&out).to_string();
    let mut need: BTreeMap<&str, usize> = BTreeMap::new();
    for w in l.0.split('\n').chain(l.1.split('\n')).filter(|w| !w.is_empty()) { *need.entry(w).or_default() += 1; }
    for (w, n) in need {
        let got = text.matches(&format!("{:?}", w)).count();
        if got < n { return Err(format!("the generator reported success, but the word {:?} is in the name table {} times instead of {}", w, got, n)); }
    }
    if compile { if let Some(m) = ask(e, dir, l, &out) { return Err(format!("the generator reported success, but {}", m)); } }
    Ok(Ref { out, calls: r.calls })
}

/// One simulated run: None when the property held.
fn run_one(e: &Env, dir: &Path, l: &(String, String), rf: &Ref, p: &CgPlan) -> (Option<String>, Res) {
    reset(dir, l, p.stale, Some(&rf.out));
    let r = launch(e, dir, p.rnd, &p.faults);
    let fired: Vec<&Fault> = p.faults.iter().enumerate().filter(|(i, _)| r.fired[*i] > 0).map(|(_, f)| f).collect();
    let names = fired.iter().map(|f| format!("{} {} #{}", KINDS[f.kind], CLASSES[f.cls], f.n)).collect::<Vec<_>>().join(", ");
    let after = if names.is_empty() { "without faults".to_string() } else { format!("under [{}]", names) };
    if r.hang { return (Some(format!("{} the generator did not end", after)), r); }
    let same = |o: &Option<Vec<u8>>| o.as_deref() == Some(&rf.out[..]);
    let how = |o: &Option<Vec<u8>>| match o {
        None => "no name table was written".to_string(),
        Some(o) => format!("the name table differs from the fault-free one ({} bytes instead of {}, first difference at {})", o.len(), rf.out.len(),
            o.iter().zip(rf.out.iter()).position(|(a, b)| a != b).unwrap_or(o.len().min(rf.out.len()))),
    };
    if r.code == Some(0) && !same(&r.out) { return (Some(format!("{} the generator reported success, but {}", after, how(&r.out))), r); }
    if fired.iter().all(|f| f.kind <= 1) && r.code != Some(0) {
        return (Some(format!("{} the generator failed ({:?}); interruptions and short transfers must be transparent", after, r.code)), r);
    }
    // Restart after the crash or failure: the next attempt, on healthy storage, completes.
    if r.code != Some(0) {
        let again = launch(e, dir, p.rnd ^ 5, &[]);
        if again.code != Some(0) { return (Some(format!("after a run {} the next one, without faults, ended with {:?}", after, again.code)), r); }
        if !same(&again.out) { return (Some(format!("after a run {} the next one, without faults, reported success, but {}", after, how(&again.out))), r); }
    }
    (None, r)
}

fn generate(seed: u64, idx: u64, variants: &BTreeMap<u64, Ref>) -> CgPlan {
    let mut r = Rng::from2(seed ^ 0x15_15, idx);
    let keys: Vec<u64> = variants.keys().cloned().collect();
    let variant = if r.chance(1, 4) { 0 } else { *r.pick(&keys) };
    let calls = &variants[&variant].calls;
    let mut faults = Vec::new();
    for _ in 0..[1, 1, 1, 2, 2, 3, 4, 0][r.below(8)] {
        let cls = *r.pick(&[3usize, 3, 3, 3, 2, 2, 2, 0, 1, 4, 5]);
        let have = calls[cls];
        if have == 0 { continue; }
        let n = match r.below(6) { 0 => 1, 1 => have, 2 => have.saturating_sub(r.below(3) as u64).max(1), _ => 1 + r.below(have as usize) as u64 };
        let kind = match cls {
            0 => *r.pick(&[0usize, 5, 6, 7, 3, 8]),
            1 => *r.pick(&[0usize, 5, 2, 7, 3, 8]),
            2 => *r.pick(&[0usize, 0, 1, 1, 1, 3, 3, 8]),
            3 => *r.pick(&[0usize, 0, 1, 1, 2, 2, 3, 4, 9, 8]),
            _ => *r.pick(&[2usize, 3, 8]),
        };
        let count = match kind { 8 => 1, _ => match r.below(4) { 0 => 1, 1 => r.range(2, 8) as u64, 2 if kind != 0 => 1 << 40, _ => 1 } };
        let arg = match r.below(3) { 0 => 1, 1 => r.range(1, 40) as u64, _ => r.range(1, 4000) as u64 };
        faults.push(Fault { cls, n, kind, arg, count });
    }
    let stale = [0, 0, 0, 1, 2, 3][r.below(6)];
    CgPlan { variant, size: 0, stale, rnd: r.next() % 1_000_000, faults }
}

fn to_text(seed: u64, idx: u64, msg: &str, p: &CgPlan) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "svgdom-sim replay v1\nproperty C15\norigin seed={} run={}\nmessage {}\ntool seed={} variant={} size={} stale={} rnd={}", seed, idx, msg, seed, p.variant, p.size, p.stale, p.rnd);
    for f in &p.faults { let _ = writeln!(s, "fault {} {} {} {} {}", CLASSES[f.cls], f.n, KINDS[f.kind], f.arg, f.count); }
    s
}

fn from_text(t: &str) -> Option<(u64, CgPlan)> {
    let line = t.lines().find(|l| l.starts_with("tool "))?;
    let get = |k: &str| line.split_whitespace().find_map(|w| w.strip_prefix(k).and_then(|v| v.strip_prefix('=')).and_then(|v| v.parse::<u64>().ok()));
    let mut p = CgPlan { variant: get("variant")?, size: get("size")?, stale: get("stale")?, rnd: get("rnd")?, faults: vec![] };
    for l in t.lines().filter(|l| l.starts_with("fault ")) {
        let w: Vec<&str> = l.split_whitespace().collect();
        p.faults.push(Fault { cls: CLASSES.iter().position(|c| *c == w[1])?, n: w[2].parse().ok()?, kind: KINDS.iter().position(|c| *c == w[3])?, arg: w[4].parse().ok()?, count: w[5].parse().ok()? });
    }
    Some((get("seed")?, p))
}

fn env(root: &Path, repo: &Path) -> Env {
    let rd = |f: &str| fs::read_to_string(repo.join("codegen").join(f)).unwrap_or_default();
    let deps = fs::read_dir(root.join("target/release/deps")).ok().map(|d| d.filter_map(|f| f.ok()).map(|f| f.path()).collect::<Vec<_>>()).unwrap_or_default();
    let rlib = deps.into_iter().find(|f| f.file_name().and_then(|n| n.to_str()).map_or(false, |n| n.starts_with("libsiphasher-") && n.ends_with(".rlib")));
    Env { bin: root.join("target/cg/release/codegen"), shim: root.join("target/shim.so"), real: (rd("elements.txt"), rd("attributes.txt")), rlib, names: repo.join("src/names.rs") }
}

/// Whether tables can be compiled here at all: the one the library uses can.
fn can_ask(e: &mut Env, dir: &Path) {
    let own = fs::read(&e.names).unwrap_or_default();
    if own.is_empty() || ask(e, dir, &(String::new(), String::new()), &own).is_some() { e.rlib = None; }
}

fn judge(e: &Env, dir: &Path, seed: u64, p: &CgPlan) -> Option<String> {
    let l = lists(e, seed, p.variant, p.size);
    match reference(e, dir, &l, p.variant >= COMPILED) {
        Err(m) => Some(m),
        Ok(rf) => run_one(e, dir, &l, &rf, p).0,
    }
}

fn minimise(e: &Env, dir: &Path, seed: u64, p: &CgPlan) -> CgPlan {
    let mut best = p.clone();
    let mut tries = 0;
    loop {
        let before = best.clone();
        let mut cand: Vec<CgPlan> = Vec::new();
        for i in 0..best.faults.len() { let mut q = best.clone(); q.faults.remove(i); cand.push(q); }
        if best.stale != 0 { let mut q = best.clone(); q.stale = 0; cand.push(q); }
        if best.variant != 0 { for k in [1, 2, 5] { if best.size == 0 || best.size > k { let mut q = best.clone(); q.size = k; cand.push(q); } } }
        for i in 0..best.faults.len() {
            if best.faults[i].count > 1 { let mut q = best.clone(); q.faults[i].count = 1; cand.push(q); }
            for n in [1, best.faults[i].n / 2, best.faults[i].n - 1] { if n >= 1 && n < best.faults[i].n { let mut q = best.clone(); q.faults[i].n = n; cand.push(q); } }
        }
        for q in cand {
            tries += 1;
            if tries > 300 { return best; }
            if judge(e, dir, seed, &q).is_some() { best = q; break; }
        }
        if best == before { return best; }
    }
}

pub fn replay(root: &Path, repo: &Path, text: &str) -> i32 {
    let (seed, p) = match from_text(text) { Some(x) => x, None => { eprintln!("bad replay file"); return 2; } };
    let mut e = env(root, repo);
    let dir = root.join("target").join(format!("run-C15-replay-{}", std::process::id()));
    can_ask(&mut e, &dir);
    let r = judge(&e, &dir, seed, &p);
    let _ = fs::remove_dir_all(&dir);
    match r { Some(m) => { println!("REPRODUCED {}", m); 1 } None => { println!("NOT-REPRODUCED"); 0 } }
}

pub fn check(root: &Path, repo: &Path, seed: u64, tier: &str, runs: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let mut e = env(root, repo);
    let total = runs.unwrap_or(if tier == "thorough" { 600_000 } else { 12_000 });
    let limit = Duration::from_secs(if tier == "thorough" { 760 } else { 120 });
    let dir = root.join("target").join(format!("run-C15-{}", std::process::id()));
    let mut hit: Option<(CgPlan, u64, String)> = None;
    let mut variants: BTreeMap<u64, Ref> = BTreeMap::new();
    let nv = if tier == "thorough" { 120 } else { 28 };
    can_ask(&mut e, &dir.join("ref"));
    let asked = if tier == "thorough" { 24 } else { 5 };
    for v in (0..nv).chain(COMPILED..COMPILED + asked).chain(Some(COMPILED_REAL)) {
        if v >= COMPILED && e.rlib.is_none() { break; }
        match reference(&e, &dir.join("ref"), &lists(&e, seed, v, 0), v >= COMPILED) {
            Ok(r) => { variants.insert(v, r); }
            Err(m) => { hit = Some((CgPlan { variant: v, size: 0, stale: 0, rnd: 1, faults: vec![] }, 0, m)); break; }
        }
    }
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let bad: Mutex<Vec<(u64, CgPlan, String)>> = Mutex::new(vec![]);
    let acc: Mutex<(BTreeMap<String, u64>, HashSet<u64>, u64, Vec<String>)> = Mutex::new(Default::default());
    if hit.is_none() {
        std::thread::scope(|s| {
            for k in 0..8 {
                let (e, variants, dir, next, stop, bad, acc) = (&e, &variants, &dir, &next, &stop, &bad, &acc);
                s.spawn(move || {
                    let d = dir.join(format!("w{}", k));
                    let mut cnt: BTreeMap<String, u64> = BTreeMap::new();
                    let mut seen = HashSet::new();
                    let mut samples = Vec::new();
                    let mut n = 0u64;
                    let mut cached: Option<(u64, (String, String))> = None;
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= total || stop.load(Ordering::SeqCst) || t0.elapsed() > limit { break; }
                        let p = generate(seed, i, variants);
                        if cached.as_ref().map(|c| c.0) != Some(p.variant) { cached = Some((p.variant, lists(e, seed, p.variant, 0))); }
                        let (v, r) = run_one(e, &d, &cached.as_ref().unwrap().1, &variants[&p.variant], &p);
                        n += 1;
                        let mut key = format!("{} {} {:?}", p.variant, p.stale, r.code);
                        for (j, f) in p.faults.iter().enumerate() {
                            if r.fired[j] > 0 {
                                *cnt.entry(format!("fault_{}_{}", CLASSES[f.cls], KINDS[f.kind])).or_default() += r.fired[j].min(1 << 30);
                                let _ = write!(key, " {:?} {}", f, r.fired[j]);
                            }
                        }
                        *cnt.entry(match r.code { Some(0) => "exit_success", Some(_) => "exit_failure", None => "killed" }.to_string()).or_default() += 1;
                        if p.stale != 0 { *cnt.entry("fault_stale_output".into()).or_default() += 1 }
                        if r.fired.iter().any(|f| *f > 0) || p.stale != 0 { seen.insert({ let mut d = crate::rng::Digest::new(); d.s(&key); d.0 }); }
                        if i < 3 { samples.push(to_text(seed, i, "sample", &p)) }
                        if let Some(m) = v { bad.lock().unwrap().push((i, p, m)); stop.store(true, Ordering::SeqCst); }
                    }
                    let mut a = acc.lock().unwrap();
                    for (k, v) in cnt { *a.0.entry(k).or_default() += v }
                    a.1.extend(seen);
                    a.2 += n;
                    a.3.extend(samples);
                });
            }
        });
    }
    let mut bad = bad.into_inner().unwrap();
    bad.sort_by_key(|b| b.0);
    if let Some((i, p, m)) = bad.into_iter().next() { hit = Some((p, i, m)); }
    let mut report = None;
    if let Some((p, i, m)) = hit {
        let d = dir.join("min");
        if judge(&e, &d, seed, &p).is_some() {
            let q = minimise(&e, &d, seed, &p);
            let m = judge(&e, &d, seed, &q).unwrap_or(m);
            let rp = root.join("replays");
            let _ = fs::create_dir_all(&rp);
            let f = rp.join(format!("C15-seed{}.txt", seed));
            let _ = fs::write(&f, to_text(seed, i, &m, &q));
            report = Some((f, m));
        } else {
            println!("note: a violation of run {} did not reproduce and is not reported: {}", i, m);
        }
    }
    let (cnt, seen, n, samples) = acc.into_inner().unwrap();
    let _ = fs::remove_dir_all(&dir);
    let wall = t0.elapsed().as_secs_f64();
    let pick = |f: bool| cnt.iter().filter(|(k, _)| k.starts_with("fault_") == f).map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
    let mut j = String::new();
    let _ = write!(j, "{{\n \"property\": \"C15\",\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", js(tier), seed, n, seen.len());
    let _ = write!(j, "  \"rule\": {},\n", js("A case is one run of the real generator process on simulated storage: word lists, leftover output, random bytes and a list of faults at the n-th open, read or write, all from (seed, run index); the fault-free run on the same lists is the oracle. Non-trivial: a fault fired or output was left over. Distinct: lists, leftovers, faults fired and exit status."));
    let _ = write!(j, "  \"word_list_variants\": {},\n  \"tables_compiled_and_asked_for_every_word\": {},\n  \"file_operations_of_the_fault_free_run\": {:?},\n", variants.len(), variants.keys().filter(|v| **v >= COMPILED).count(), variants.get(&0).map(|r| r.calls[..6].to_vec()).unwrap_or_default());
    let _ = write!(j, "  \"faults_injected\": {{{}}},\n  \"reached\": {{{}}},\n  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n", pick(true), pick(false), (n as f64 / wall * 3600.0) as u64, (n as f64 / wall * 3600.0) as u64);
    let _ = write!(j, "  \"simulated_time\": {},\n", js("the tool has no clock: time is counted in file operations"));
    let _ = write!(j, "  \"real_components\": [\"codegen (the whole tool) with phf_codegen and itertools, as its own process\", \"kernel file system for the calls no fault was planned for\"],\n  \"simulated_components\": [\"open, read, write, rename and sync results\", \"random bytes\"],\n");
    let _ = write!(j, "  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        js("word lists without duplicates; errors that appear only at close are not injected"), wall, report.is_some() as u32);
    let ev = root.join("evidence");
    let _ = fs::create_dir_all(&ev);
    let _ = fs::write(ev.join("C15.json"), j);
    println!("C15: {} runs of the generator, {} distinct fault histories, {:.1} s", n, seen.len(), wall);
    match report {
        Some((f, m)) => { println!("{}", m); println!("VIOLATION property=C15 replay={}", f.display()); 1 }
        None => 0,
    }
}
