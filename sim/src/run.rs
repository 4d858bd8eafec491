//! Search: workers, minimisation, replay files, evidence.
use crate::exec;
use crate::plan::{self, Mode, Plan};
use crate::stats::{self, K};
use crate::world::{self, Op, Viol};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub fn prop_no(s: &str) -> Option<u32> { s.strip_prefix('C')?.parse().ok().filter(|n| (1..=18).contains(n)) }
pub fn prop_id(n: u32) -> String { format!("C{:02}", n) }
fn build_name() -> &'static str { if cfg!(debug_assertions) { "checked" } else { "release" } }

// ---------------------------------------------------------------- minimisation

fn fails(p: &Plan, class: &str, tag: u32) -> Option<Viol> {
    world::FOCUS.with(|f| f.set(tag));
    let o = if tag == world::C10 { exec::exec_attributed(p) } else { exec::exec(p) };
    o.viol.filter(|v| v.class == class && (tag == 0 || v.tags & tag != 0))
}

/// Delta debugging over the steps of all participants, then over the schedule and the configuration.
pub fn shrink(p: &Plan, class: &'static str, tag: u32, budget: usize, beat: &mut dyn FnMut()) -> Plan {
    let mut best = p.clone();
    let mut left = budget;
    let mut try_one = |q: &Plan, left: &mut usize| -> bool {
        if *left == 0 { return false; }
        *left -= 1;
        beat();
        fails(q, class, tag).is_some()
    };
    // Cut everything after the failing step first.
    if best.mode == Mode::Single {
        if let Some(v) = fails(&best, class, tag) {
            let mut q = best.clone();
            q.parts[0].steps.truncate(v.step);
            if try_one(&q, &mut left) { best = q; }
        }
    }
    loop {
        let before = size(&best);
        for k in 0..best.parts.len() {
            let mut chunk = (best.parts[k].steps.len() + 1) / 2;
            while chunk >= 1 {
                let mut i = 0;
                while i < best.parts[k].steps.len() {
                    let mut q = best.clone();
                    let e = (i + chunk).min(q.parts[k].steps.len());
                    q.parts[k].steps.drain(i..e);
                    if try_one(&q, &mut left) { best = q; } else { i += chunk; }
                }
                if chunk == 1 { break; }
                chunk /= 2;
            }
        }
        let mut n = best.choices.len();
        while n > 0 {
            n /= 2;
            let mut q = best.clone();
            q.choices.truncate(n);
            if try_one(&q, &mut left) { best = q; } else { break; }
        }
        if size(&best) == before || left == 0 { break; }
    }
    for k in 0..best.parts.len() {
        let mut q = best.clone();
        q.parts[k].cfg.ballast = 0;
        q.parts[k].cfg.observe = false;
        q.parts[k].cfg.sink = false;
        q.parts[k].cfg.keep = world::Keep::All;
        if q != best && try_one(&q, &mut left) { best = q; }
        // Small arguments read better.
        for i in 0..best.parts[k].steps.len() {
            for f in 0..4 {
                let mut q = best.clone();
                let s = &mut q.parts[k].steps[i];
                let slot = match f { 0 => &mut s.a, 1 => &mut s.b, 2 => &mut s.c, _ => &mut s.d };
                if *slot == 0 { continue; }
                let old = *slot;
                *slot = 0;
                if try_one(&q, &mut left) { best = q; continue; }
                if old > 15 {
                    let mut q = best.clone();
                    let s = &mut q.parts[k].steps[i];
                    let slot = match f { 0 => &mut s.a, 1 => &mut s.b, 2 => &mut s.c, _ => &mut s.d };
                    *slot = old % 16;
                    if try_one(&q, &mut left) { best = q; }
                }
            }
        }
    }
    best
}
fn size(p: &Plan) -> usize { p.parts.iter().map(|q| q.steps.len()).sum::<usize>() + p.choices.len() }

// ---------------------------------------------------------------- replay files

pub fn replay_text(prop: u32, seed: u64, idx: u64, class: &str, msg: &str, extra: &str, p: &Plan) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "svgdom-sim replay v1");
    let _ = writeln!(s, "property {}", prop_id(prop));
    let _ = writeln!(s, "build {}", build_name());
    let _ = writeln!(s, "origin seed={} run={}", seed, idx);
    let _ = writeln!(s, "class {}", class);
    let _ = writeln!(s, "message {}", msg.replace('\n', "\\n"));
    s.push_str(extra);
    plan::to_text(p, &mut s);
    s
}

fn field<'a>(text: &'a str, key: &str) -> Option<&'a str> {
    text.lines().find_map(|l| l.strip_prefix(key).and_then(|r| r.strip_prefix(' ')))
}

/// Child side of a replay: executes the file once, in this process.
pub fn replay_child(path: &str) -> i32 {
    let text = match fs::read_to_string(path) { Ok(t) => t, Err(e) => { eprintln!("{}: {}", path, e); return 2; } };
    let prop = field(&text, "property").and_then(prop_no).unwrap_or(1);
    let tag = world::p(prop);
    world::FOCUS.with(|f| f.set(tag));
    exec::warm_up();
    exec::TRACE.with(|t| *t.borrow_mut() = fs::File::create(format!("{}.trace", path)).ok());
    if let Some(h) = field(&text, "history") {
        let n: Vec<u64> = h.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let (seed, start, stride, end) = (n[0], n[1], n[2], n[3]);
        let mut i = start;
        loop {
            let o = exec::exec_attributed(&plan::generate(seed, prop, i));
            if i >= end {
                return match o.viol {
                    Some(v) if v.tags & tag != 0 => { println!("REPRODUCED class={} {}", v.class, v.msg); 1 }
                    _ => { println!("NOT-REPRODUCED"); 0 }
                };
            }
            i += stride;
        }
    }
    let p = match plan::from_text(&text) { Some(p) => p, None => { eprintln!("bad replay file"); return 2; } };
    if let Some(d) = field(&text, "expect-digest") {
        let o = exec::exec(&p);
        let got = format!("{:016x}", o.digest);
        if got != d { println!("REPRODUCED class=digest-process digest {} instead of {}", got, d); return 1; }
        println!("NOT-REPRODUCED");
        return 0;
    }
    let o = exec::exec_attributed(&p);
    match o.viol {
        Some(v) if v.tags & tag != 0 || field(&text, "class") == Some(v.class) => {
            println!("REPRODUCED class={} step={} {}", v.class, v.step, v.msg);
            1
        }
        Some(v) => { println!("OTHER class={} {}", v.class, v.msg); 0 }
        None => { println!("NOT-REPRODUCED"); 0 }
    }
}

pub enum Ran { Done(i32, String), Signal(String), Hang }

pub fn run_child(bin: &Path, args: &[&str], secs: u64) -> Ran {
    let mut c = match Command::new(bin).args(args).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c, Err(e) => return Ran::Done(2, e.to_string()) };
    let t = Instant::now();
    let out = c.stdout.take();
    let rd = std::thread::spawn(move || { let mut s = String::new(); if let Some(mut o) = out { use std::io::Read; let _ = o.read_to_string(&mut s); } s });
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                let s = rd.join().unwrap_or_default();
                return match st.code() { Some(k) => Ran::Done(k, s), None => Ran::Signal(format!("{}", st)) };
            }
            Ok(None) => {}
            Err(e) => return Ran::Signal(e.to_string()),
        }
        if t.elapsed() > Duration::from_secs(secs) { let _ = c.kill(); let _ = c.wait(); let _ = rd.join(); return Ran::Hang; }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// Properties to blame when an operation of this name hangs or takes the process down.
fn op_tags(name: &str) -> u32 {
    use world::*;
    let n = name.trim();
    match n {
        "close" => return C10 | C11,
        "iso" => return C12,
        _ => {}
    }
    match Op::parse(n) {
        Some(Op::Remove | Op::RemoveAgain | Op::Drain) => C05 | C01,
        Some(Op::PSinkRemove | Op::PDrain) => C05 | C14,
        Some(Op::Copy | Op::CopyDeep) => C06,
        Some(Op::SetAttr | Op::RemoveAttr | Op::SetId | Op::SetTag | Op::SetText | Op::AttrMut) => C04,
        Some(Op::Format) => C16 | C04,
        Some(Op::PPrint) => C16 | C14,
        Some(Op::PSinkSave) => C14 | C13,
        Some(Op::Refused) => C01 | C04,
        Some(Op::SetLink) => C03 | C04,
        Some(Op::CurOpen | Op::CurStep | Op::CurFinish | Op::CurDrop) => C02,
        Some(Op::GuardShared | Op::GuardWrite | Op::GuardDrop) => C07,
        Some(Op::Crash) => C07 | C14,
        Some(Op::PConv) => C14,
        Some(Op::PSinkLoad) => C14 | C09,
        Some(Op::Save) => C08 | C13,
        Some(Op::Load | Op::SDamage | Op::SForeign) => C09,
        Some(Op::CloseDoc | Op::DropHandle) => C11 | C10,
        Some(Op::Churn) => C10 | C05,
        Some(Op::SSave | Op::SRestart) => C08 | C09,
        Some(Op::SRecord) => C17,
        Some(Op::SPeer) => C18,
        Some(_) => C01,
        None => 0,
    }
}

// ---------------------------------------------------------------- worker

pub struct WArgs { pub prop: u32, pub seed: u64, pub start: u64, pub stride: u64, pub end: u64, pub dir: String, pub k: usize, pub secs: u64 }

pub fn worker(a: &WArgs) -> i32 {
    exec::warm_up();
    let t0 = Instant::now();
    let tag = world::p(a.prop);
    let base = format!("{}/w{}", a.dir, a.k);
    let mut hb = fs::File::create(format!("{}.hb", base)).expect("hb");
    let mut tick = 0u64;
    let mut beat = |idx: u64| {
        use std::os::unix::fs::FileExt;
        tick += 1;
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&idx.to_le_bytes());
        b[8..].copy_from_slice(&tick.to_le_bytes());
        let _ = hb.write_all_at(&b, 0);
    };
    let mut digs: Vec<u64> = Vec::new();
    let mut states: HashSet<u64> = HashSet::new();
    let (mut runs, mut other) = (0u64, 0u64);
    let mut other_classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = a.start;
    let mut vline = String::new();
    while i < a.end {
        if t0.elapsed().as_secs() >= a.secs { break; }
        beat(i);
        let p = plan::generate(a.seed, a.prop, i);
        world::FOCUS.with(|f| f.set(tag));
        let o = exec::exec_attributed(&p);
        runs += 1;
        digs.push(i);
        digs.push(o.digest);
        exec::STATES.with(|s| for h in s.borrow().iter() { if states.len() < 400_000 { states.insert(*h); } });
        if let Some(v) = o.viol {
            let mut v = v;
            let mut p = p;
            let st = stats::take();
            // A violation that only guards or crashing callers bring about belongs to C07 / C14 too: decide on a minimal schedule.
            let mut shrunk = false;
            if v.tags & tag == 0 && (tag == world::C07 || tag == world::C14) && p.parts.iter().any(|q| q.steps.iter().any(|s| needs(tag, s))) {
                let q = shrink(&p, v.class, 0, 1200, &mut || beat(i));
                if q.parts.iter().any(|q| q.steps.iter().any(|s| needs(tag, s))) {
                    let mut z = q.clone();
                    for part in &mut z.parts { part.steps.retain(|s| !needs(tag, s)) }
                    if exec::exec(&z).viol.is_none() { v.tags |= tag; p = q; shrunk = true; }
                }
            }
            if v.tags & tag == 0 {
                other += 1;
                if let Ok(f) = std::env::var("SVGSIM_OTHER") { let _ = append(&f, replay_text(a.prop, a.seed, i, v.class, &v.msg, "", &p).as_bytes()); }
                *other_classes.entry(v.class.to_string()).or_default() += 1;
                stats::restore(st);
                if other >= (if tag & (world::C07 | world::C14) != 0 { 60 } else { 1500 }) { break; }
                i += a.stride;
                continue;
            }
            let path = format!("{}.replay", base);
            let msg = format!("step {}: {}", v.step, v.msg);
            let _ = fs::write(&path, replay_text(a.prop, a.seed, i, v.class, &msg, "", &p));
            vline = format!("V {} {}", i, v.class);
            let _ = fs::write(format!("{}.v", base), &vline);
            let q = if shrunk { p } else { shrink(&p, v.class, tag, 3000, &mut || beat(i)) };
            let again = if shrunk { Some(v.clone()) } else { fails(&q, v.class, tag) };
            if let Some(w) = again {
                let msg = format!("step {}: {}", w.step, w.msg);
                let _ = fs::write(&path, replay_text(a.prop, a.seed, i, w.class, &msg, "", &q));
            }
            stats::take();
            stats::restore(st);
            break;
        }
        i += a.stride;
    }
    let st = stats::take();
    let mut out = String::new();
    let _ = writeln!(out, "runs {}", runs);
    let _ = writeln!(out, "other {}", other);
    for (c, n) in &other_classes { let _ = writeln!(out, "oclass {} {}", c, n); }
    for (n, v) in stats::NAMES.iter().zip(st.iter()) { if *v > 0 { let _ = writeln!(out, "stat {} {}", n, v); } }
    let _ = writeln!(out, "next {}", i);
    if !vline.is_empty() { let _ = writeln!(out, "{}", vline); }
    let bytes: Vec<u8> = digs.iter().flat_map(|x| x.to_le_bytes()).collect();
    let _ = append(&format!("{}.dig", base), &bytes);
    let bytes: Vec<u8> = states.iter().flat_map(|x| x.to_le_bytes()).collect();
    let _ = append(&format!("{}.st", base), &bytes);
    let _ = append(&format!("{}.out", base), out.as_bytes());
    0
}

fn needs(tag: u32, s: &world::Step) -> bool { if tag == world::C07 { s.op.is_guard() } else { s.op.is_crash() } }

fn append(path: &str, b: &[u8]) -> std::io::Result<()> {
    fs::OpenOptions::new().create(true).append(true).open(path)?.write_all(b)
}

/// A short look at every property in one process; for judging many changes of the code quickly.
pub fn sweep(seed: u64, runs: u64) -> i32 {
    exec::warm_up();
    let mut found = String::new();
    for prop in (1..=18).filter(|&p| p != 15) {
        let tag = world::p(prop);
        world::FOCUS.with(|f| f.set(tag));
        let n = if prop == 12 { runs / 5 } else { runs };
        let mut other = 0;
        for i in 0..n {
            let o = exec::exec_attributed(&plan::generate(seed, prop, i));
            match o.viol {
                Some(v) if v.tags & tag != 0 => { let _ = write!(found, " {}:{}@{}", prop_id(prop), v.class, i); break; }
                Some(_) => { other += 1; if other > 60 { break; } }
                None => {}
            }
        }
    }
    println!("SWEEP{}", found);
    if found.is_empty() { 0 } else { 1 }
}

/// Digests of some runs, in reverse order, from another process (C13).
pub fn digests(prop: u32, seed: u64, start: u64, stride: u64, end: u64) -> i32 {
    exec::warm_up();
    let mut v = Vec::new();
    let mut i = start;
    while i < end { v.push(i); i += stride; }
    let mut out = String::new();
    for &i in v.iter().rev() {
        let p = plan::generate(seed, prop, i);
        let o = exec::exec(&p);
        let _ = writeln!(out, "{} {}", i, o.digest);
    }
    print!("{}", out);
    0
}

// ---------------------------------------------------------------- parent

pub struct Check { pub prop: u32, pub seed: u64, pub tier: String, pub bins: [PathBuf; 2], pub root: PathBuf, pub runs: Option<u64>, pub jobs: usize }

pub struct Found { pub replay: PathBuf, pub what: String }

/// Runs per property: (quick, thorough).
fn budget(prop: u32) -> (u64, u64) {
    // Thorough is bounded by time.
    let quick = match prop {
        8 => 250_000,
        9 => 160_000,
        17 => 130_000,
        18 => 110_000,
        10 => 200_000,
        12 | 13 => 60_000,
        _ => 300_000,
    };
    (quick, 40_000_000)
}

struct W { k: usize, child: Child, last: u64, since: Instant, start: u64 }

fn read_u64s(p: &str) -> Vec<u64> {
    fs::read(p).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

impl Check {
    fn bin(&self, idx: u64) -> &Path { &self.bins[(idx % 2) as usize] }

    fn spawn(&self, dir: &str, k: usize, start: u64, end: u64, secs: u64) -> W {
        let bin = self.bin(k as u64);
        let child = Command::new(bin).args(["worker", &prop_id(self.prop), &self.seed.to_string(), &start.to_string(), &self.jobs.to_string(),
            &end.to_string(), dir, &k.to_string(), &secs.to_string()]).stdout(Stdio::null()).stderr(Stdio::inherit()).spawn().expect("spawn worker");
        W { k, child, last: 0, since: Instant::now(), start }
    }

    pub fn run(&self) -> i32 {
        let t0 = Instant::now();
        let (quick, thorough) = budget(self.prop);
        let total = self.runs.unwrap_or(if self.tier == "thorough" { thorough } else { quick });
        let secs = if self.tier == "thorough" { 780 } else { 150 };
        let dir = self.root.join("target").join(format!("run-{}-{}", prop_id(self.prop), std::process::id()));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).expect("run dir");
        let dirs = dir.to_string_lossy().to_string();
        let mut ws: Vec<W> = (0..self.jobs).map(|k| self.spawn(&dirs, k, k as u64, total, secs)).collect();
        let mut crashes: Vec<(u64, usize, bool)> = Vec::new(); // idx, worker, hang
        let mut broken = 0;
        while !ws.is_empty() {
            std::thread::sleep(Duration::from_millis(20));
            let mut i = 0;
            while i < ws.len() {
                let hb = read_u64s(&format!("{}/w{}.hb", dirs, ws[i].k));
                let (idx, tick) = (hb.first().cloned().unwrap_or(ws[i].start), hb.get(1).cloned().unwrap_or(0));
                if tick != ws[i].last { ws[i].last = tick; ws[i].since = Instant::now(); }
                let st = ws[i].child.try_wait().ok().flatten();
                let mut dead = None;
                if let Some(st) = st {
                    if st.code() == Some(0) { ws.swap_remove(i); continue; }
                    dead = Some(false);
                } else if ws[i].since.elapsed() > Duration::from_secs(25) {
                    let _ = ws[i].child.kill();
                    let _ = ws[i].child.wait();
                    dead = Some(true);
                }
                if let Some(hang) = dead {
                    let k = ws[i].k;
                    ws.swap_remove(i);
                    // A violation already written by this worker stands; otherwise the run itself is the suspect.
                    if !Path::new(&format!("{}/w{}.v", dirs, k)).exists() {
                        crashes.push((idx, k, hang));
                        broken += 1;
                        if broken < 24 && !hang && t0.elapsed().as_secs() < secs {
                            ws.push(self.spawn(&dirs, k, idx + self.jobs as u64, total, secs));
                        }
                    }
                    continue;
                }
                i += 1;
            }
        }
        let search_s = t0.elapsed().as_secs_f64();

        // collect
        let mut m = Merged::default();
        for k in 0..self.jobs { m.read(&dirs, k); }
        let mut found: Vec<(u64, PathBuf)> = Vec::new();
        for k in 0..self.jobs {
            if let Ok(v) = fs::read_to_string(format!("{}/w{}.v", dirs, k)) {
                let idx: u64 = v.split_whitespace().nth(1).and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
                found.push((idx, PathBuf::from(format!("{}/w{}.replay", dirs, k))));
            }
        }
        found.sort();
        crashes.sort();
        let mut hit: Option<Found> = None;
        for (idx, path) in &found {
            hit = self.confirm(*idx, path);
            if hit.is_some() || t0.elapsed().as_secs() > 500 { break; }
        }
        if hit.is_none() {
            for (idx, _, _) in crashes.iter().take(6) { hit = self.post_mortem(*idx, &dir); if hit.is_some() { break; } }
        }
        if hit.is_none() && self.prop == 13 { hit = self.cross_process(&m, &dir, total); }
        let crashed_elsewhere = if hit.is_none() { crashes.len() } else { 0 };
        let wall = t0.elapsed().as_secs_f64();
        let known = crate::known::report(&self.root, &prop_id(self.prop));
        self.evidence(&m, wall, search_s, hit.as_ref(), crashed_elsewhere, &known);
        let _ = fs::remove_dir_all(&dir);
        let id = prop_id(self.prop);
        println!("{}: {} runs, {} steps, {} distinct executions, {} distinct states, {:.1} s", id, m.runs, m.stat("steps"), m.digests.len(), m.states.len(), wall);
        if m.other > 0 { println!("{}: {} runs stopped early by violations of other properties: {:?}", id, m.other, m.oclass); }
        for k in &known { println!("KNOWN-FINDING: property={} {}", id, k); }
        match hit {
            Some(f) => {
                println!("{}", f.what);
                println!("VIOLATION property={} replay={}", id, f.replay.display());
                1
            }
            None => 0,
        }
    }

    fn keep(&self, text: &str) -> PathBuf {
        let d = self.root.join("replays");
        let _ = fs::create_dir_all(&d);
        let p = d.join(format!("{}-seed{}.txt", prop_id(self.prop), self.seed));
        let _ = fs::write(&p, text);
        p
    }

    /// Replays a worker's violation in fresh processes before it is reported.
    fn confirm(&self, idx: u64, path: &Path) -> Option<Found> {
        let text = fs::read_to_string(path).ok()?;
        let msg = field(&text, "message").unwrap_or("").to_string();
        let bin = self.bin(idx);
        let kept = self.keep(&text);
        let ks = kept.to_string_lossy().to_string();
        for _ in 0..2 {
            match run_child(bin, &["replay-child", &ks], 60) {
                Ran::Done(1, out) => return Some(Found { replay: kept, what: format!("{} | {}", msg, out.trim()) }),
                Ran::Signal(s) => return Some(Found { replay: kept, what: format!("{} | process ended: {}", msg, s) }),
                _ => {}
            }
        }
        // The failure needs what the process did before: replay a stretch of the worker's history.
        let k = idx % self.jobs as u64;
        let mut back = 1u64;
        loop {
            let start = if back * self.jobs as u64 > idx { k } else { idx - back * self.jobs as u64 };
            let mut t = String::new();
            let _ = writeln!(t, "svgdom-sim replay v1\nproperty {}\nbuild {}\norigin seed={} run={}\nclass {}\nmessage {}\nhistory {} {} {} {}",
                prop_id(self.prop), if idx % 2 == 0 { "release" } else { "checked" }, self.seed, idx, field(&text, "class").unwrap_or("?"), msg, self.seed, start, self.jobs, idx);
            let kept = self.keep(&t);
            if let Ran::Done(1, out) = run_child(bin, &["replay-child", &kept.to_string_lossy()], 300) {
                return Some(Found { replay: kept, what: format!("{} | {}", msg, out.trim()) });
            }
            if start == k { break; }
            back *= 4;
        }
        println!("note: a violation of run {} did not reproduce and is not reported: {}", idx, msg);
        let _ = fs::remove_file(self.root.join("replays").join(format!("{}-seed{}.txt", prop_id(self.prop), self.seed)));
        None
    }

    /// A run that hung or took its process down: run it again with tracing, attribute it, minimise it.
    fn post_mortem(&self, idx: u64, dir: &Path) -> Option<Found> {
        let p = plan::generate(self.seed, self.prop, idx);
        let bin = self.bin(idx);
        let tag = world::p(self.prop);
        let file = dir.join("pm.txt");
        let fs_ = file.to_string_lossy().to_string();
        let bad = |q: &Plan, secs: u64| -> Option<(String, String)> {
            let _ = fs::write(&file, self.pm_text(idx, "abort", "", q));
            let _ = fs::remove_file(format!("{}.trace", fs_));
            let how = match run_child(bin, &["replay-child", &fs_], secs) {
                Ran::Signal(s) => format!("the process was ended by {}", s),
                Ran::Hang => format!("no progress for {} s", secs),
                Ran::Done(c, _) if c != 0 && c != 1 => format!("the process ended with code {}", c),
                _ => return None,
            };
            Some((how, fs::read_to_string(format!("{}.trace", fs_)).unwrap_or_default().trim().to_string()))
        };
        let (how, op) = bad(&p, 45)?;
        if op_tags(&op) & tag == 0 {
            println!("note: run {} ended badly in {} ({}), which belongs to another property", idx, op, how);
            return None;
        }
        let hang = how.starts_with("no progress");
        let mut best = p;
        let mut left = if hang { 10 } else { 250 };
        if best.parts.len() == 1 {
            let mut chunk = best.parts[0].steps.len() / 2;
            while chunk >= 1 && left > 0 {
                let mut i = 0;
                while i < best.parts[0].steps.len() && left > 0 {
                    let mut q = best.clone();
                    let e = (i + chunk).min(q.parts[0].steps.len());
                    q.parts[0].steps.drain(i..e);
                    left -= 1;
                    match bad(&q, 8) {
                        Some((h, o)) if o == op && h.starts_with("no progress") == hang => best = q,
                        _ => i += chunk,
                    }
                }
                chunk /= 2;
            }
        }
        let msg = format!("{} during {}", how, op);
        let kept = self.keep(&self.pm_text(idx, if hang { "hang" } else { "abort" }, &msg, &best));
        Some(Found { replay: kept, what: msg })
    }

    fn pm_text(&self, idx: u64, class: &str, msg: &str, p: &Plan) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "svgdom-sim replay v1\nproperty {}\nbuild {}\norigin seed={} run={}\nclass {}\nmessage {}",
            prop_id(self.prop), if idx % 2 == 0 { "release" } else { "checked" }, self.seed, idx, class, msg);
        plan::to_text(p, &mut s);
        s
    }

    fn cross_process(&self, m: &Merged, _dir: &Path, total: u64) -> Option<Found> {
        let stride = 14u64; // even: starts of both parities are used below
        let mut bad = None;
        let mut n = 0u64;
        for start in [0u64, 1, 2, 3] {
            // the other build, other order, other process
            let bin = self.bin(start + 1);
            let (s, st, e) = (start.to_string(), stride.to_string(), total.to_string());
            if let Ran::Done(0, out) = run_child(bin, &["digests", &prop_id(self.prop), &self.seed.to_string(), &s, &st, &e], 200) {
                for l in out.lines() {
                    let mut w = l.split(' ').filter_map(|x| x.parse::<u64>().ok());
                    if let (Some(i), Some(d)) = (w.next(), w.next()) {
                        if let Some(&d0) = m.by_idx.get(&i) {
                            n += 1;
                            if d0 != d && bad.map(|b: (u64, u64)| i < b.0).unwrap_or(true) { bad = Some((i, d0)); }
                        }
                    }
                }
            }
        }
        println!("C13: {} runs repeated in another process", n);
        let (i, d0) = bad?;
        let p = plan::generate(self.seed, self.prop, i);
        let mut t = self.pm_text(i, "digest-process", "the same history gave different results or bytes in another process", &p);
        let _ = writeln!(t, "expect-digest {:016x}", d0);
        let t = t.replace(&format!("build {}", if i % 2 == 0 { "release" } else { "checked" }), &format!("build {}", if i % 2 == 0 { "checked" } else { "release" }));
        let kept = self.keep(&t);
        Some(Found { replay: kept, what: format!("run {}: the same history gave different results or bytes in another process", i) })
    }

    fn evidence(&self, m: &Merged, wall: f64, search_s: f64, hit: Option<&Found>, crashed: usize, known: &[String]) {
        let id = prop_id(self.prop);
        let mut faults = Vec::new();
        let mut ops = Vec::new();
        let mut reach = Vec::new();
        for (k, v) in &m.stats {
            let e = format!("{}: {}", js(k), v);
            if k.starts_with("fault_") { faults.push(e) } else if k.starts_with("op_") { ops.push(e) } else { reach.push(e) }
        }
        let mut samples = Vec::new();
        for i in [0u64, 1, 2] {
            let p = plan::generate(self.seed, self.prop, i);
            let mut s = String::new();
            plan::to_text(&p, &mut s);
            let short: String = s.lines().take(14).collect::<Vec<_>>().join("\n");
            samples.push(format!("{{\"run\": {}, \"steps\": {}, \"digest\": {}, \"schedule_head\": {}}}", i,
                p.parts.iter().map(|q| q.steps.len()).sum::<usize>(), js(&format!("{:016x}", m.by_idx.get(&i).cloned().unwrap_or(0))), js(&short)));
        }
        let steps = m.stat("steps");
        let nontrivial = m.digests.len();
        let mut j = String::new();
        let _ = write!(j, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n", js(&id), js(&self.tier), self.seed);
        let _ = write!(j, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", m.runs, nontrivial);
        let _ = write!(j, "  \"rule\": {},\n", js("A case is one simulated run: a schedule of operations, cursor and guard lifetimes, crashes and faults expanded from (seed, property, run index) and executed against the real library next to the reference model. Distinct: the digest over everything the run returned and saved differs from every other run's. Trivial runs (no step applicable) share one digest and count once."));
        let _ = write!(j, "  \"distinct_model_states\": {},\n  \"state_measure\": {},\n", m.states.len(), js("hash of tree shape, node kinds, attribute names, link edges and open cursors/guards, taken every fourth step (at most 400000 kept per worker)"));
        let _ = write!(j, "  \"simulated_steps\": {},\n  \"simulated_time\": {},\n", steps, js("the library has no clock: time is counted in scheduler steps"));
        let _ = write!(j, "  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n", (m.runs as f64 / search_s.max(0.001) * 3600.0) as u64, (m.runs as f64 / wall.max(0.001) * 3600.0) as u64);
        let _ = write!(j, "  \"oracle_evaluations\": {},\n", m.stat("checks_full"));
        let _ = write!(j, "  \"faults_injected\": {{{}}},\n  \"operations_done\": {{{}}},\n  \"reached\": {{{}}},\n", faults.join(", "), ops.join(", "), reach.join(", "));
        let _ = write!(j, "  \"runs_stopped_by_other_properties\": {},\n  \"runs_ended_badly_elsewhere\": {},\n", m.other, crashed);
        let _ = write!(j, "  \"real_components\": [\"svgdom (whole crate, public API), built twice: optimised, and with debug assertions and overflow checks\", \"roxmltree, simplecss, svgtypes, xmlwriter, slab, siphasher\"],\n");
        let _ = write!(j, "  \"simulated_components\": [\"callers (clients, cursors, guards)\", \"storage (sectors, cache, sync, rename)\", \"log sink\", \"allocator accounting\", \"thread scheduling (baton)\"],\n");
        let _ = write!(j, "  \"known_findings\": [{}],\n", known.iter().map(|k| js(k)).collect::<Vec<_>>().join(", "));
        let _ = write!(j, "  \"samples\": [{}]\n }},\n", samples.join(",\n   "));
        let _ = write!(j, " \"assumptions\": [{}],\n", js("single-threaded use of one document (the types are not Send); no allocation failure below the 2 GB cap; recursion depth of generated documents stays small"));
        let _ = write!(j, " \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, hit.is_some() as u32);
        let d = self.root.join("evidence");
        let _ = fs::create_dir_all(&d);
        let _ = fs::write(d.join(format!("{}.json", id)), j);
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Merged { runs: u64, other: u64, oclass: BTreeMap<String, u64>, stats: BTreeMap<String, u64>, digests: HashSet<u64>, states: HashSet<u64>, by_idx: BTreeMap<u64, u64> }

impl Merged {
    fn stat(&self, k: &str) -> u64 { self.stats.get(k).cloned().unwrap_or(0) }
    fn read(&mut self, dir: &str, k: usize) {
        for l in fs::read_to_string(format!("{}/w{}.out", dir, k)).unwrap_or_default().lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            let n = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            match w.first() {
                Some(&"runs") => self.runs += n(1),
                Some(&"other") => self.other += n(1),
                Some(&"oclass") => *self.oclass.entry(w[1].into()).or_default() += n(2),
                Some(&"stat") => *self.stats.entry(w[1].into()).or_default() += n(2),
                _ => {}
            }
        }
        for c in read_u64s(&format!("{}/w{}.dig", dir, k)).chunks_exact(2) { self.digests.insert(c[1]); self.by_idx.insert(c[0], c[1]); }
        self.states.extend(read_u64s(&format!("{}/w{}.st", dir, k)));
    }
}

/// `svgsim replay FILE`: parent side, with a time limit.
pub fn replay(bins: &[PathBuf; 2], path: &str) -> i32 {
    let text = match fs::read_to_string(path) { Ok(t) => t, Err(e) => { eprintln!("{}: {}", path, e); return 2; } };
    let bin = if field(&text, "build") == Some("checked") { &bins[1] } else { &bins[0] };
    let prop = field(&text, "property").unwrap_or("?").to_string();
    let r = run_child(bin, &["replay-child", path], 60);
    let _ = fs::remove_file(format!("{}.trace", path));
    let what = match r {
        Ran::Done(1, o) => o,
        Ran::Done(c, o) => { println!("{}", o.trim()); return if c == 0 { 0 } else { 2 }; }
        Ran::Signal(s) => format!("the process was ended by {}", s),
        Ran::Hang => "no progress for 60 s".into(),
    };
    println!("{}", what.trim());
    println!("VIOLATION property={} replay={}", prop, path);
    1
}

#[allow(dead_code)]
fn _k(_: K) {}
