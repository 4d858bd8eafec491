//! Plans: what one simulated run does. A plan is expanded from (seed, property, index) and nothing else,
//! and can be written to and read from a replay file.
use crate::rng::Rng;
use crate::world::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode { Single, Twice, IsoSame, IsoNested, IsoThreads }

#[derive(Clone, PartialEq, Debug)]
pub struct Part { pub cfg: Cfg, pub steps: Vec<Step> }

#[derive(Clone, PartialEq, Debug)]
pub struct Plan {
    pub mode: Mode,
    pub parts: Vec<Part>,
    /// Scheduling decisions, consumed one per decision point (iso modes).
    pub choices: Vec<u8>,
    /// What the log sink does in the disturbed run (iso modes): 0 off, 1 formats, 2 yields; level in the tens.
    pub sink: u8,
}

const STRUCT: &[(Op, u32)] = &[
    (Op::NewEl, 4), (Op::NewElIn, 12), (Op::NewText, 4), (Op::NewComment, 4),
    (Op::Append, 8), (Op::Prepend, 6), (Op::Before, 7), (Op::After, 7), (Op::Shuffle, 6), (Op::Detach, 5),
    (Op::Remove, 5), (Op::RemoveAgain, 1), (Op::Drain, 3), (Op::Copy, 2), (Op::CopyDeep, 3),
];
const DATA: &[(Op, u32)] = &[
    (Op::SetAttr, 8), (Op::SetLink, 14), (Op::RemoveAttr, 4), (Op::SetId, 3), (Op::SetTag, 2), (Op::SetText, 2), (Op::AttrMut, 2), (Op::Format, 1), (Op::Refused, 1),
];
const LIFE: &[(Op, u32)] = &[
    (Op::CurOpen, 3), (Op::CurStep, 5), (Op::CurFinish, 2), (Op::CurDrop, 1), (Op::GuardShared, 2), (Op::GuardWrite, 1), (Op::GuardDrop, 3), (Op::Crash, 1),
    (Op::Save, 2), (Op::Load, 1), (Op::OpenDoc, 1), (Op::CloseDoc, 1), (Op::DropHandle, 1),
];
const PANICS: &[(Op, u32)] = &[(Op::PConv, 2), (Op::PDrain, 4), (Op::PSinkLoad, 1), (Op::PSinkRemove, 1), (Op::PSinkSave, 2), (Op::PPrint, 3)];
const SESSION: &[(Op, u32)] = &[
    (Op::SNewEl, 26), (Op::SNewText, 10), (Op::SNewComment, 4), (Op::SSetAttr, 34), (Op::SRemoveAttr, 4), (Op::SSetLink, 14),
    (Op::SSetId, 16), (Op::SRemove, 5), (Op::SMove, 6), (Op::SCustom, 3), (Op::SSave, 9), (Op::SRestart, 5),
    (Op::GuardShared, 1), (Op::GuardDrop, 2), (Op::CurOpen, 1), (Op::CurStep, 1), (Op::Format, 1),
];

fn base(prop: u32) -> Vec<(Op, u32)> {
    let mut w: Vec<(Op, u32)> = Vec::new();
    let add = |w: &mut Vec<(Op, u32)>, l: &[(Op, u32)], k: u32| for &(o, n) in l {
        match w.iter_mut().find(|x| x.0 == o) { Some(x) => x.1 += n * k, None => w.push((o, n * k)) }
    };
    match prop {
        8 => { add(&mut w, SESSION, 1); }
        9 => { add(&mut w, SESSION, 1); add(&mut w, &[(Op::SDamage, 26), (Op::SForeign, 30), (Op::SSave, 8)], 1); }
        17 => { add(&mut w, SESSION, 1); add(&mut w, &[(Op::SRecord, 40), (Op::SSave, 14), (Op::SSetLink, 30), (Op::SSetId, 8), (Op::SMove, 6)], 1); }
        18 => { add(&mut w, SESSION, 1); add(&mut w, &[(Op::SPeer, 40), (Op::SSave, 14), (Op::SSetLink, 10)], 1); }
        _ => { add(&mut w, STRUCT, 2); add(&mut w, DATA, 2); add(&mut w, LIFE, 1); add(&mut w, &[(Op::PConv, 1), (Op::PDrain, 1)], 1); }
    }
    let boost: &[(Op, u32)] = match prop {
        1 => &[(Op::Append, 14), (Op::Prepend, 12), (Op::Before, 16), (Op::After, 16), (Op::Shuffle, 16), (Op::Detach, 10), (Op::Refused, 3)],
        2 => &[(Op::CurOpen, 22), (Op::CurStep, 36), (Op::CurFinish, 14), (Op::CloseDoc, 1), (Op::Shuffle, 6), (Op::Remove, 4)],
        3 => &[(Op::SetLink, 40), (Op::Remove, 8), (Op::Drain, 4), (Op::RemoveAttr, 8), (Op::CopyDeep, 6), (Op::SetId, 6), (Op::Load, 8)],
        4 => &[(Op::SetAttr, 30), (Op::SetLink, 24), (Op::RemoveAttr, 12), (Op::AttrMut, 10), (Op::SetId, 6), (Op::SetTag, 6), (Op::SetText, 10), (Op::Format, 4), (Op::Refused, 3)],
        5 => &[(Op::Remove, 16), (Op::RemoveAgain, 8), (Op::Drain, 24), (Op::SetLink, 20), (Op::NewElIn, 30), (Op::NewText, 8), (Op::NewComment, 8)],
        6 => &[(Op::Copy, 14), (Op::CopyDeep, 24), (Op::SetLink, 20), (Op::SetAttr, 12), (Op::AttrMut, 8), (Op::Append, 10), (Op::SetText, 8)],
        7 => &[(Op::GuardShared, 26), (Op::GuardWrite, 8), (Op::GuardDrop, 16), (Op::Crash, 3), (Op::CurStep, 8), (Op::CopyDeep, 6), (Op::Save, 8), (Op::Drain, 6)],
        10 => &[(Op::Churn, 6), (Op::SetLink, 30), (Op::Remove, 8), (Op::Load, 12), (Op::CloseDoc, 4), (Op::OpenDoc, 4), (Op::PDrain, 4), (Op::PConv, 4), (Op::PSinkLoad, 6), (Op::CurOpen, 4), (Op::Detach, 6)],
        11 => &[(Op::CloseDoc, 8), (Op::OpenDoc, 6), (Op::Load, 6), (Op::CurOpen, 8), (Op::CurStep, 10), (Op::CurFinish, 8), (Op::SetLink, 24), (Op::Detach, 8), (Op::NewEl, 8), (Op::DropHandle, 4)],
        12 => &[(Op::Load, 24), (Op::Save, 10), (Op::Drain, 8), (Op::RemoveAgain, 4), (Op::SetLink, 14), (Op::Format, 6), (Op::OpenDoc, 4), (Op::CloseDoc, 3), (Op::Remove, 6)],
        13 => &[(Op::Save, 24), (Op::Load, 14), (Op::SetAttr, 20), (Op::SetLink, 20), (Op::Format, 12), (Op::Drain, 6), (Op::CurOpen, 4), (Op::CurStep, 8)],
        14 => &[(Op::PConv, 14), (Op::PDrain, 30), (Op::PSinkLoad, 8), (Op::PSinkRemove, 6), (Op::PSinkSave, 8), (Op::PPrint, 8), (Op::Crash, 6), (Op::GuardShared, 6), (Op::NewElIn, 20), (Op::SetLink, 16), (Op::Remove, 4), (Op::Save, 3)],
        16 => &[(Op::Format, 60), (Op::PPrint, 6), (Op::SetAttr, 20), (Op::SetLink, 20), (Op::NewText, 6), (Op::NewComment, 6), (Op::SetText, 6), (Op::GuardShared, 4)],
        _ => &[],
    };
    add(&mut w, boost, 1);
    if prop == 14 || prop == 10 { add(&mut w, PANICS, 1) }
    w
}

fn steps(r: &mut Rng, prop: u32, n: usize, c: &Cfg) -> Vec<Step> {
    let mut w = base(prop);
    // Swarm: every run leaves some operations out and leans on others.
    for x in w.iter_mut() {
        let k = r.below(10);
        let create = matches!(x.0, Op::NewElIn | Op::SNewEl | Op::SSave | Op::SRestart);
        x.1 *= match k { 0 | 1 if !create => 0, 2 => 5, 3 => 3, _ => 2 };
    }
    let total: u32 = w.iter().map(|x| x.1).sum();
    let mut out = Vec::with_capacity(n + 12);
    let sess = matches!(prop, 8 | 9 | 17 | 18);
    let first = if c.max_nodes > 60 { r.range(c.max_nodes / 3, c.max_nodes) } else { r.range(2, 12) };
    for _ in 0..first {
        out.push(Step { client: r.below(3) as u8, op: if sess { Op::SNewEl } else { Op::NewElIn }, a: r.u32(), b: r.u32(), c: r.u32(), d: r.u32() });
    }
    for _ in 0..n {
        let mut k = (r.next() % total as u64) as u32;
        let mut op = w[0].0;
        for x in &w { if k < x.1 { op = x.0; break; } k -= x.1; }
        out.push(Step { client: r.below(3) as u8, op, a: r.u32(), b: r.u32(), c: r.u32(), d: r.u32() });
    }
    if r.chance(1, 50) {
        let at = r.range(first.min(out.len()), out.len());
        out.insert(at, Step { client: 0, op: Op::Bulk, a: r.u32(), b: r.u32(), c: r.u32(), d: r.u32() });
    }
    if !sess && r.chance(1, if matches!(prop, 1 | 11) { 3 } else { 12 }) {
        let at = r.below(out.len() + 1);
        out.insert(at, Step { client: 0, op: Op::Loose, a: r.u32(), b: r.u32(), c: r.u32(), d: r.u32() });
    }
    if sess {
        out.push(Step { client: 0, op: Op::SSave, a: r.u32(), b: 0, c: 1, d: 0 });
        out.push(Step { client: 0, op: Op::SRestart, a: 0, b: 0, c: 0, d: 0 });
    }
    out
}

fn cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::base();
    c.keep = *r.pick(&[Keep::All, Keep::All, Keep::Some, Keep::None]);
    c.max_nodes = *r.pick(&[8, 16, 30, 30, 60]);
    c.max_docs = *r.pick(&[1, 1, 2, 3]);
    c.sink = r.chance(1, 3);
    c.observe = r.chance(1, 4);
    c.ballast = if r.chance(1, 4) { r.u32() | 1 } else { 0 };
    c.sector = *r.pick(&[1, 8, 16, 64, 512]);
    c.shape = *r.pick(&[0, 0, 0, 0, 0, 1, 2, 3, 4]);
    c.names = *r.pick(&[6, 12, 18, 18, NAMES.len()]);
    if (c.shape == 1 || c.shape == 2) && r.chance(1, 4) { c.max_nodes = *r.pick(&[60, 100, 150]) }
    c
}

pub fn generate(seed: u64, prop: u32, idx: u64) -> Plan {
    let mut r = Rng::from2(seed.wrapping_mul(31).wrapping_add(prop as u64), idx);
    let r = &mut r;
    let len = |r: &mut Rng| match r.below(10) { 0 => r.range(3, 12), 1..=6 => r.range(15, 70), 7 | 8 => r.range(70, 160), _ => r.range(160, 320) };
    if prop == 12 {
        let k = r.range(2, 3);
        let mode = *r.pick(&[Mode::IsoSame, Mode::IsoNested, Mode::IsoNested, Mode::IsoThreads]);
        let mut parts = Vec::new();
        for _ in 0..k {
            let mut c = cfg(r);
            c.observe = false;
            c.ballast = 0;
            c.sink = false;
            c.blind = r.chance(1, 3);
            let n = len(r).min(90);
            let p = if r.chance(1, 4) { 9 } else { 12 };
            let st = steps(r, p, n, &c);
            parts.push(Part { cfg: c, steps: st });
        }
        let nc = r.range(20, 600);
        let choices = (0..nc).map(|_| r.below(256) as u8).collect();
        let sink = match mode { Mode::IsoNested | Mode::IsoThreads => *r.pick(&[2u8, 2, 2, 1]), _ => *r.pick(&[0u8, 1]) } + 10 * r.below(6) as u8;
        return Plan { mode, parts, choices, sink };
    }
    let mut c = cfg(r);
    let n = len(r);
    let p = if prop == 13 && r.chance(1, 3) { *r.pick(&[8, 9]) } else if (prop == 10 || prop == 14) && r.chance(1, 8) { 9 } else { prop };
    if matches!(prop, 10 | 11 | 13 | 16) { c.blind = r.chance(1, 2) }
    if matches!(prop, 3 | 4) && r.chance(1, 3) { c.shape = 3; }
    if prop == 5 && r.chance(1, 5) { c.shape = 4; }
    if c.shape == 4 { c.max_nodes = c.max_nodes.max(60); c.max_docs = 1 }
    if prop == 4 && r.chance(1, 3) { c.names = NAMES.len() }
    if prop == 3 && r.chance(1, 3) { c.max_docs = 3 }
    if prop == 2 || prop == 11 { c.max_nodes = c.max_nodes.min(30) }
    let st = steps(r, p, n, &c);
    let mode = if prop == 13 { c.observe = false; c.ballast = 0; Mode::Twice } else { Mode::Single };
    Plan { mode, parts: vec![Part { cfg: c, steps: st }], choices: Vec::new(), sink: 0 }
}

// ---------------------------------------------------------------- text form

pub fn to_text(p: &Plan, out: &mut String) {
    use std::fmt::Write;
    let _ = writeln!(out, "mode {:?}", p.mode);
    if !p.choices.is_empty() {
        let _ = writeln!(out, "choices {}", p.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","));
    }
    let _ = writeln!(out, "sink {}", p.sink);
    for q in &p.parts {
        let c = &q.cfg;
        let _ = writeln!(out, "part keep={:?} max_nodes={} max_docs={} sink={} observe={} ballast={} sector={} blind={} shape={} names={}",
            c.keep, c.max_nodes, c.max_docs, c.sink, c.observe, c.ballast, c.sector, c.blind, c.shape, c.names);
        for s in &q.steps {
            let _ = writeln!(out, "step {} {} {} {} {} {}", s.client, s.op.name(), s.a, s.b, s.c, s.d);
        }
    }
}

pub fn from_text(text: &str) -> Option<Plan> {
    let mut p = Plan { mode: Mode::Single, parts: Vec::new(), choices: Vec::new(), sink: 0 };
    for l in text.lines() {
        let mut w = l.split_whitespace();
        match w.next() {
            Some("mode") => p.mode = match w.next()? { "Single" => Mode::Single, "Twice" => Mode::Twice, "IsoSame" => Mode::IsoSame,
                "IsoNested" => Mode::IsoNested, "IsoThreads" => Mode::IsoThreads, _ => return None },
            Some("choices") => p.choices = w.next()?.split(',').filter_map(|x| x.parse().ok()).collect(),
            Some("sink") => p.sink = w.next()?.parse().ok()?,
            Some("part") => {
                let mut c = Cfg::base();
                for kv in w {
                    let (k, v) = kv.split_once('=')?;
                    match k {
                        "keep" => c.keep = match v { "All" => Keep::All, "Some" => Keep::Some, _ => Keep::None },
                        "max_nodes" => c.max_nodes = v.parse().ok()?,
                        "max_docs" => c.max_docs = v.parse().ok()?,
                        "sink" => c.sink = v == "true",
                        "observe" => c.observe = v == "true",
                        "ballast" => c.ballast = v.parse().ok()?,
                        "shape" => c.shape = v.parse().ok()?,
                        "names" => c.names = v.parse().ok()?,
                        "blind" => c.blind = v == "true",
                        "sector" => c.sector = v.parse().ok()?,
                        _ => return None,
                    }
                }
                p.parts.push(Part { cfg: c, steps: Vec::new() });
            }
            Some("step") => {
                let client = w.next()?.parse().ok()?;
                let op = Op::parse(w.next()?)?;
                let mut n = || -> Option<u32> { w.next()?.parse().ok() };
                let s = Step { client, op, a: n()?, b: n()?, c: n()?, d: n()? };
                p.parts.last_mut()?.steps.push(s);
            }
            _ => {}
        }
    }
    if p.parts.is_empty() { None } else { Some(p) }
}
