//! Executing plans.
use crate::alloc;
use crate::bystander;
use crate::plan::{Mode, Part, Plan};
use crate::rng::Digest;
use crate::seam::{self, call, SinkMode};
use crate::stats::{self, hit, K};
use crate::world::*;
use std::cell::{Cell, RefCell};
use std::sync::{Arc, Condvar, Mutex};

thread_local! {
    /// Hashes of model states reached in this run (bounded, preallocated).
    pub static STATES: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    /// Where the last step is noted for post-mortem attribution.
    pub static TRACE: RefCell<Option<std::fs::File>> = const { RefCell::new(None) };
}

pub struct Outcome { pub viol: Option<Viol>, pub digest: u64 }

fn note_state(w: &World) {
    STATES.with(|s| {
        let mut s = s.borrow_mut();
        if s.len() < s.capacity() { s.push(w.state_hash()) }
    })
}

pub fn trace(text: &str) {
    TRACE.with(|t| if let Some(f) = t.borrow_mut().as_mut() {
        use std::io::{Seek, Write};
        let _ = f.rewind();
        let _ = f.write_all(format!("{:<40}", text).as_bytes());
    })
}

fn sink_of(p: &Part) {
    seam::set_sink(if p.cfg.sink { SinkMode::Format } else { SinkMode::Off }, 0);
    log::set_max_level(if p.cfg.sink { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}

/// One world from start to end: its violation, if any, and the digest of everything it returned.
fn run_world(p: &Part) -> (Option<Viol>, Digest) {
    let mut w = World::new(p.cfg);
    for (i, s) in p.steps.iter().enumerate() {
        trace(s.op.name());
        if matches!(s.op, Op::PSinkLoad | Op::PSinkRemove | Op::PSinkSave) { log::set_max_level(log::LevelFilter::Trace); }
        let r = w.step(s);
        if let Err(v) = r {
            let d = w.dig;
            abandon(w);
            return (Some(v), d);
        }
        if i % 4 == 3 { note_state(&w) }
    }
    trace("close");
    let d = w.dig;
    let n = w.step_no;
    match w.finish() {
        Ok(()) => (None, d),
        Err(mut v) => { v.step = n + 1; (Some(v), d) }
    }
}

/// After a violation the documents may be in any state: give them up without running their destructors.
fn abandon(w: World) { std::mem::forget(w) }

fn single(p: &Part) -> Outcome {
    STATES.with(|s| { let mut s = s.borrow_mut(); s.clear(); s.reserve(128) });
    sink_of(p);
    let before = alloc::live();
    let (viol, d) = run_world(p);
    let after = alloc::live();
    seam::set_sink(SinkMode::Off, 0);
    if viol.is_none() && after != before {
        let v = Viol { tags: C10, class: "leak", step: p.steps.len() + 1,
            msg: format!("{} bytes are still allocated after everything was closed and dropped", after - before) };
        return Outcome { viol: Some(v), digest: d.0 };
    }
    Outcome { viol, digest: d.0 }
}

fn twice(p: &Part) -> Outcome {
    let a = single(p);
    if a.viol.is_some() { return a; }
    let mut q = p.clone();
    q.cfg.observe = true;
    q.cfg.ballast = 0x5eed | 1;
    let b = single(&q);
    if let Some(mut v) = b.viol { v.tags |= C13; return Outcome { viol: Some(v), digest: a.digest }; }
    if a.digest != b.digest {
        let v = Viol { tags: C13, class: "digest", step: 0,
            msg: "the same history gave different results or bytes with another memory layout and passive observers".into() };
        return Outcome { viol: Some(v), digest: a.digest };
    }
    a
}

// ---------------------------------------------------------------- isolation

struct Chooser { choices: Vec<u8>, at: usize }
impl Chooser {
    fn next(&mut self) -> Option<u8> { let c = self.choices.get(self.at).cloned(); self.at += 1; c }
}

struct Slot<'a> { part: &'a Part, w: Option<World>, pos: usize, res: Option<(Option<Viol>, Digest)> }

impl<'a> Slot<'a> {
    /// Runs the participant's next step. True when it is finished.
    fn advance(&mut self) {
        if self.res.is_some() { return; }
        let mut w = match self.w.take() { Some(w) => w, None => return };
        if self.pos < self.part.steps.len() {
            let s = self.part.steps[self.pos];
            self.pos += 1;
            trace(s.op.name());
            match w.step(&s) {
                Ok(()) => self.w = Some(w),
                Err(v) => { let d = w.dig; abandon(w); self.res = Some((Some(v), d)) }
            }
        } else {
            let d = w.dig;
            self.res = Some(match w.finish() { Ok(()) => (None, d), Err(v) => (Some(v), d) });
        }
    }
}

fn apply_sink(sink: u8) -> SinkMode {
    let m = match sink % 10 { 0 => SinkMode::Off, 1 => SinkMode::Format, _ => SinkMode::Yield };
    use log::LevelFilter::*;
    log::set_max_level([Trace, Trace, Debug, Info, Warn, Error][(sink / 10) as usize % 6]);
    m
}

type Mixed = (Vec<(Option<Viol>, Digest)>, Option<String>);

fn iso_same(plan: &Plan, nested: bool) -> Mixed {
    let odd: RefCell<Option<String>> = RefCell::new(None);
    let bystand = |k: usize| if odd.borrow().is_none() { if let Some(m) = bystander::run(k) { *odd.borrow_mut() = Some(m) } };
    let mode = apply_sink(plan.sink);
    seam::set_sink(mode, 0);
    let slots: Vec<RefCell<Slot>> = plan.parts.iter()
        .map(|p| RefCell::new(Slot { part: p, w: Some(World::new(p.cfg)), pos: 0, res: None })).collect();
    let ch = RefCell::new(Chooser { choices: plan.choices.clone(), at: 0 });
    let mut last = usize::MAX;
    loop {
        let open: Vec<usize> = (0..slots.len()).filter(|&i| slots[i].borrow().res.is_none()).collect();
        if open.is_empty() { break; }
        let c = ch.borrow_mut().next();
        if let Some(c) = c { if c >= 224 { bystand(c as usize) } }
        let i = match c { Some(c) => open[c as usize % open.len()], None => open[0] };
        if i != last { hit(K::sched_switches); last = i; }
        if nested {
            let mut y = |_kind: u32| {
                let c = match ch.borrow_mut().next() { Some(c) => c, None => return };
                if c % 3 == 1 { return bystand(c as usize / 3); }
                if c % 3 != 0 { return; }
                let others: Vec<usize> = (0..slots.len()).filter(|&j| j != i && slots[j].try_borrow().map(|s| s.res.is_none()).unwrap_or(false)).collect();
                if others.is_empty() { return; }
                let j = others[(c as usize / 3) % others.len()];
                hit(K::sched_nested_in_callout);
                for _ in 0..1 + (c as usize / 9) % 3 { slots[j].borrow_mut().advance(); }
            };
            seam::with_yield(&mut y, || slots[i].borrow_mut().advance());
        } else {
            slots[i].borrow_mut().advance();
        }
    }
    seam::set_sink(SinkMode::Off, 0);
    let odd = odd.take();
    (slots.into_iter().map(|s| s.into_inner().res.unwrap()).collect(), odd)
}

struct Baton { turn: usize, done: Vec<bool>, ch: Chooser, switches: u64 }
impl Baton {
    fn choose(&mut self) {
        let open: Vec<usize> = (0..self.done.len()).filter(|&i| !self.done[i]).collect();
        if open.is_empty() { self.turn = usize::MAX; return; }
        let t = match self.ch.next() { Some(c) => open[c as usize % open.len()], None => open[0] };
        if t != self.turn { self.switches += 1 }
        self.turn = t;
    }
}
type Shared = Arc<(Mutex<Baton>, Condvar)>;

fn wait_turn(b: &Shared, me: usize) {
    let mut g = b.0.lock().unwrap();
    while g.turn != me { g = b.1.wait(g).unwrap(); }
}
fn pass(b: &Shared, me: usize, done: bool) {
    {
        let mut g = b.0.lock().unwrap();
        if done { g.done[me] = true; }
        g.choose();
        b.1.notify_all();
        if done || g.turn == me { return; }
    }
    wait_turn(b, me);
}

fn iso_threads(plan: &Plan) -> Mixed {
    let mode = apply_sink(plan.sink);
    let n = plan.parts.len();
    let mut baton = Baton { turn: 0, done: vec![false; n], ch: Chooser { choices: plan.choices.clone(), at: 0 }, switches: 0 };
    baton.choose();
    let b: Shared = Arc::new((Mutex::new(baton), Condvar::new()));
    let mut joins = Vec::new();
    for (me, p) in plan.parts.iter().cloned().enumerate() {
        let b = b.clone();
        let th = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            wait_turn(&b, me);
            seam::set_sink(mode, 0);
            let odd = Cell::new(None);
            // Some threads had a life before this; some help others out in the middle of an operation.
            let bystand = || {
                let c = b.0.lock().unwrap().ch.next().unwrap_or(0) as usize;
                if c % 4 == 1 { if let Some(m) = bystander::run(c / 4) { odd.set(Some(m)) } }
            };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut slot = Slot { part: &p, w: Some(World::new(p.cfg)), pos: 0, res: None };
                bystand();
                let mut y = |_k: u32| { hit(K::sched_switch_in_callout); bystand(); pass(&b, me, false) };
                while slot.res.is_none() {
                    seam::with_yield(&mut y, || slot.advance());
                    if slot.res.is_none() { pass(&b, me, false) }
                }
                slot.res.take().unwrap()
            }));
            seam::set_sink(SinkMode::Off, 0);
            let st = stats::take();
            pass(&b, me, true);
            (r.unwrap_or_else(|_| (Some(Viol { tags: 0, class: "harness", msg: "harness panic".into(), step: 0 }), Digest::new())), st, odd.take())
        }).expect("thread");
        joins.push(th);
    }
    let mut out = Vec::new();
    let mut odd = None;
    hit(K::sched_threads);
    for j in joins {
        let (r, st, o) = j.join().unwrap();
        odd = odd.or(o);
        stats::merge(&st);
        out.push(r);
    }
    stats::add(K::sched_switches, b.0.lock().unwrap().switches);
    (out, odd)
}

/// A participant by itself, on a thread on which the library has never run before.
fn run_alone(p: &Part) -> (Option<Viol>, Digest) {
    let q = p.clone();
    let file = TRACE.with(|t| t.borrow().as_ref().and_then(|f| f.try_clone().ok()));
    let focus = FOCUS.with(|f| f.get());
    let th = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        TRACE.with(|t| *t.borrow_mut() = file);
        FOCUS.with(|f| f.set(focus));
        seam::set_sink(SinkMode::Off, 0);
        STATES.with(|s| s.borrow_mut().reserve(128));
        let r = run_world(&q);
        (r, stats::take(), STATES.with(|s| s.take()))
    }).expect("thread");
    match th.join() {
        Ok((r, st, states)) => {
            stats::merge(&st);
            STATES.with(|s| { let mut s = s.borrow_mut(); for x in states { if s.len() < s.capacity() { s.push(x) } } });
            r
        }
        Err(_) => (Some(Viol { tags: 0, class: "harness", msg: "harness panic".into(), step: 0 }), Digest::new()),
    }
}

fn iso(plan: &Plan) -> Outcome {
    let mut dig = Digest::new();
    let mut alone = Vec::new();
    STATES.with(|s| { let mut s = s.borrow_mut(); s.clear(); s.reserve(256) });
    for p in &plan.parts {
        seam::set_sink(SinkMode::Off, 0);
        log::set_max_level(log::LevelFilter::Off);
        let (v, d) = run_alone(p);
        if v.is_some() { return Outcome { viol: v, digest: d.0 }; }
        alone.push(d);
        dig.u(d.0);
    }
    trace("iso");
    let (mixed, odd) = match plan.mode {
        Mode::IsoThreads => iso_threads(plan),
        m => iso_same(plan, m == Mode::IsoNested),
    };
    if let Some(m) = odd {
        let v = Viol { tags: C12, class: "iso-bystander", step: 0, msg: format!("a document next to the others went differently: {}", m) };
        return Outcome { viol: Some(v), digest: dig.0 };
    }
    for (i, (v, d)) in mixed.into_iter().enumerate() {
        if let Some(mut v) = v {
            v.msg = format!("participant {}: only when others run in between: {}", i, v.msg);
            v.tags |= C12;
            return Outcome { viol: Some(v), digest: dig.0 };
        }
        if d != alone[i] {
            let v = Viol { tags: C12, class: "iso-digest", step: 0,
                msg: format!("participant {} got different results or bytes when other documents or a log sink were active ({:?})", i, plan.mode) };
            return Outcome { viol: Some(v), digest: dig.0 };
        }
    }
    Outcome { viol: None, digest: dig.0 }
}

pub fn exec(plan: &Plan) -> Outcome {
    match plan.mode {
        Mode::Single => single(&plan.parts[0]),
        Mode::Twice => twice(&plan.parts[0]),
        _ => iso(plan),
    }
}

/// Executes a plan and works out which properties a violation belongs to, by leaving faults out.
pub fn exec_attributed(plan: &Plan) -> Outcome {
    let keep = stats::take();
    let mut o = exec(plan);
    let mine = stats::take();
    if let Some(v) = &mut o.viol {
        if v.class == "leak" || v.class == "failed-load-leak" {
            // Something allocated once per process is not a leak: it has to happen again and again.
            let class = v.class;
            let leaks = || exec(plan).viol.map(|w| w.class) == Some(class);
            let mut real = (0..2).all(|_| leaks());
            // Nor is it one when only what it keys on is new each time, unless that goes on for ever: the same history
            // with other names and texts has to leave something behind every time.
            if !real {
                real = (1..=24).all(|k| { crate::values::SALT.with(|c| c.set(k)); leaks() });
                crate::values::SALT.with(|c| c.set(0));
            }
            if !real { o.viol = None; }
        }
    }
    stats::take();
    stats::restore(keep);
    stats::merge(&mine);
    o
}

pub fn warm_up() {
    bystander::warm_up();
    STATES.with(|s| s.borrow_mut().reserve(4096));
    for _ in 0..3 {
        let _ = call(|| seam::boom());
    }
    let _ = std::thread::Builder::new().spawn(|| {}).map(|t| t.join());
}
