//! Other programs that use the same stored file: they lose, repeat, move or bring back elements (records), add
//! records of their own, and write the same content in another form.
use crate::rng::Rng;
use crate::sess::{SNode, SVal, Snap};
use crate::stats::{hit, K};
use crate::values;
use crate::world::{Kind, Lk, Tg};
use svgdom::*;

#[derive(Clone)]
pub enum WVal { Plain(AttributeValue), Link(Lk, String, Option<PaintFallback>) }
#[derive(Clone)]
pub struct Want { kind: Kind, tag: Tg, id: String, text: String, attrs: Vec<(AttributeId, WVal)> }
#[derive(Clone)]
pub struct El { pub name: String, pub attrs: Vec<(String, String)>, pub kids: Vec<Kid>, want: Option<Want> }
#[derive(Clone)]
pub enum Kid { El(El), Text(String, Option<Want>), Comment(String, Option<Want>), Raw(String) }

// ---------------------------------------------------------------- reading saved text

pub fn parse(text: &str) -> Option<Vec<Kid>> {
    let mut stack: Vec<El> = vec![El { name: String::new(), attrs: Vec::new(), kids: Vec::new(), want: None }];
    let mut s = text;
    while !s.is_empty() {
        if let Some(r) = s.strip_prefix("<!--") {
            let e = r.find("-->")?;
            stack.last_mut()?.kids.push(Kid::Comment(r[..e].to_string(), None));
            s = &r[e + 3..];
        } else if let Some(r) = s.strip_prefix("</") {
            let e = r.find('>')?;
            let el = stack.pop()?;
            if el.name != r[..e].trim_end() { return None; }
            stack.last_mut()?.kids.push(Kid::El(el));
            s = &r[e + 1..];
        } else if let Some(r) = s.strip_prefix('<') {
            let stop = |c: char| c.is_ascii_whitespace() || c == '>' || c == '/' || c == '=';
            let e = r.find(stop)?;
            let mut el = El { name: r[..e].to_string(), attrs: Vec::new(), kids: Vec::new(), want: None };
            let mut t = &r[e..];
            loop {
                t = t.trim_start_matches(|c: char| c.is_ascii_whitespace());
                if let Some(u) = t.strip_prefix("/>") { stack.last_mut()?.kids.push(Kid::El(el)); s = u; break; }
                if let Some(u) = t.strip_prefix('>') { stack.push(el); s = u; break; }
                let e = t.find(stop)?;
                let name = t[..e].to_string();
                t = t[e..].trim_start().strip_prefix('=')?.trim_start();
                let q = t.chars().next()?;
                if q != '"' && q != '\'' { return None; }
                let e = t[1..].find(q)?;
                el.attrs.push((name, t[1..1 + e].to_string()));
                t = &t[e + 2..];
            }
        } else {
            let e = s.find('<').unwrap_or(s.len());
            stack.last_mut()?.kids.push(Kid::Text(s[..e].to_string(), None));
            s = &s[e..];
        }
    }
    if stack.len() != 1 { return None; }
    Some(stack.pop()?.kids)
}

/// What a piece of saved text stands for.
pub fn decode(t: &str) -> String {
    let mut o = String::new();
    let mut s = t;
    while let Some(i) = s.find('&') {
        o.push_str(&s[..i]);
        s = &s[i..];
        let e = s.find(';').map(|e| &s[1..e]);
        let c = match e {
            Some("amp") => Some('&'), Some("lt") => Some('<'), Some("gt") => Some('>'), Some("quot") => Some('"'), Some("apos") => Some('\''),
            Some(n) if n.starts_with("#x") => u32::from_str_radix(&n[2..], 16).ok().and_then(std::char::from_u32),
            Some(n) if n.starts_with('#') => n[1..].parse().ok().and_then(std::char::from_u32),
            _ => None,
        };
        match c { Some(c) => { o.push(c); s = &s[e.unwrap().len() + 2..] } None => { o.push('&'); s = &s[1..] } }
    }
    o.push_str(s);
    o
}

pub fn is_text_el(n: &str) -> bool { matches!(n, "text" | "tspan" | "tref") }

/// Says for every part of the text which node it has to come back as.
fn attach(kids: &mut Vec<Kid>, parent: usize, snap: &Snap, at: &mut usize, in_text: bool) -> Option<()> {
    let mut left = snap.0[parent].kids;
    let want = |i: usize| -> Want {
        let n: &SNode = &snap.0[i];
        Want { kind: n.kind, tag: n.tag, id: n.id.clone(), text: n.text.clone(), attrs: n.attrs.iter().map(|(a, v)| (*a, match v {
            SVal::Plain(v) => WVal::Plain(v.clone()),
            SVal::Link(k, t, f) => WVal::Link(*k, snap.0[*t].id.clone(), *f),
        })).collect() }
    };
    for k in kids.iter_mut() {
        match k {
            Kid::El(e) if e.name == "custom" => {}
            Kid::El(e) => {
                let i = *at;
                if left == 0 || snap.0.get(i)?.kind != Kind::Element { return None; }
                left -= 1;
                *at += 1;
                e.want = Some(want(i));
                attach(&mut e.kids, i, snap, at, in_text || is_text_el(&e.name))?;
            }
            Kid::Comment(_, w) => {
                if left == 0 || snap.0.get(*at)?.kind != Kind::Comment { return None; }
                left -= 1;
                *w = Some(want(*at));
                *at += 1;
            }
            Kid::Text(t, w) => {
                if !in_text && t.trim().is_empty() { continue; }
                if left == 0 || snap.0.get(*at)?.kind != Kind::Text { return None; }
                left -= 1;
                *w = Some(want(*at));
                *at += 1;
            }
            Kid::Raw(_) => {}
        }
    }
    if left == 0 { Some(()) } else { None }
}

pub fn read(text: &str, snap: &Snap) -> Option<Vec<Kid>> {
    let mut k = parse(text)?;
    let mut at = 1;
    attach(&mut k, 0, snap, &mut at, false)?;
    if at == snap.0.len() { Some(k) } else { None }
}

// ---------------------------------------------------------------- what must come back

fn flat(kids: &[Kid], out: &mut Vec<(Want, usize)>) -> usize {
    let mut n = 0;
    for k in kids {
        let w = match k { Kid::El(e) => e.want.as_ref(), Kid::Text(_, w) | Kid::Comment(_, w) => w.as_ref(), Kid::Raw(_) => None };
        if let Some(w) = w {
            n += 1;
            let i = out.len();
            out.push((w.clone(), 0));
            if let Kid::El(e) = k { let c = flat(&e.kids, out); out[i].1 = c; }
        }
    }
    n
}

/// References find the first element with the id; without one they fall back; of two that cross the first one stays.
pub fn expect(kids: &[Kid], root: &SNode) -> Option<Snap> {
    let mut all = Vec::new();
    let n = flat(kids, &mut all);
    let mut out = vec![SNode { kids: n, ..root.clone() }];
    for (w, kids) in &all {
        out.push(SNode { kind: w.kind, tag: w.tag, id: w.id.clone(), text: w.text.clone(), attrs: Vec::new(), kids: *kids });
    }
    for (i, (w, _)) in all.iter().enumerate() {
        let i = i + 1;
        for (a, v) in &w.attrs {
            let v = match v {
                WVal::Plain(v) => SVal::Plain(v.clone()),
                WVal::Link(k, id, fb) => match out.iter().position(|x| x.id == *id) {
                    Some(t) => {
                        // Two elements of one id, one referring to the other by it: is that a reference to itself? Either answer will do.
                        if t != i && out[t].id == out[i].id { return None; }
                        if t == i || out[t].attrs.iter().any(|x| matches!(x.1, SVal::Link(_, q, _) if q == i)) { hit(K::peer_crossing); continue; }
                        SVal::Link(*k, t, *fb)
                    }
                    None => {
                        hit(K::peer_dangling);
                        SVal::Plain(match (fb, k) {
                            (Some(PaintFallback::None), _) => AttributeValue::None,
                            (Some(PaintFallback::CurrentColor), _) => AttributeValue::CurrentColor,
                            (Some(PaintFallback::Color(c)), _) => AttributeValue::Color(*c),
                            (None, _) if *a == AttributeId::Fill => AttributeValue::None,
                            (None, Lk::Link) => AttributeValue::String(format!("#{}", id)),
                            (None, _) => AttributeValue::String(format!("url(#{})", id)),
                        })
                    }
                },
            };
            out[i].attrs.push((*a, v));
        }
    }
    for n in &mut out { n.attrs.sort_by_key(|a| a.0 as usize) }
    Some(Snap(out))
}

// ---------------------------------------------------------------- records

fn each<'a>(kids: &'a [Kid], path: &mut Vec<usize>, f: &mut dyn FnMut(&'a El, &[usize])) {
    for (i, k) in kids.iter().enumerate() {
        if let Kid::El(e) = k {
            path.push(i);
            f(e, path);
            each(&e.kids, path, f);
            path.pop();
        }
    }
}
fn get<'a>(kids: &'a [Kid], path: &[usize]) -> &'a El {
    match &kids[path[0]] { Kid::El(e) if path.len() == 1 => e, Kid::El(e) => get(&e.kids, &path[1..]), _ => unreachable!() }
}
fn get_mut<'a>(kids: &'a mut Vec<Kid>, path: &[usize]) -> &'a mut El {
    match &mut kids[path[0]] { Kid::El(e) => if path.len() == 1 { e } else { get_mut(&mut e.kids, &path[1..]) }, _ => unreachable!() }
}
fn has_text(e: &El) -> bool { e.kids.iter().any(|k| match k { Kid::Text(_, w) => w.is_some(), Kid::El(e) => has_text(e), _ => false }) }
fn spacey(kids: &[Kid], path: &[usize]) -> bool {
    (1..=path.len()).any(|n| get(kids, &path[..n]).attrs.iter().any(|a| a.0 == "xml:space"))
}
fn in_text(kids: &[Kid], path: &[usize]) -> bool { (1..=path.len()).any(|n| is_text_el(&get(kids, &path[..n]).name)) }
fn captioned(e: &El) -> bool { e.kids.iter().any(|k| matches!(k, Kid::Text(_, Some(_)))) }

/// Elements that can be lost or moved as a whole: everything below the outermost element and outside of text.
fn records(kids: &[Kid]) -> Vec<Vec<usize>> {
    let mut v = Vec::new();
    each(kids, &mut Vec::new(), &mut |e, p| if p.len() > 1 && e.want.is_some() && !in_text(kids, &p[..p.len() - 1]) { v.push(p.to_vec()) });
    v
}
fn places(kids: &[Kid]) -> Vec<Vec<usize>> {
    let mut v = Vec::new();
    each(kids, &mut Vec::new(), &mut |e, p| if e.want.is_some() && !in_text(kids, p) && !captioned(e) { v.push(p.to_vec()) });
    v
}

pub fn record_faults(kids: &mut Vec<Kid>, older: Option<&[Kid]>, arg: u32) -> usize {
    let mut r = Rng::from2(arg as u64, 717);
    let mut n = 0;
    for _ in 0..r.range(1, 4) {
        let recs = records(kids);
        if recs.is_empty() { break; }
        // Prefer elements that something refers to.
        let used: Vec<Vec<usize>> = recs.iter().filter(|p| { let id = &get(kids, p).want.as_ref().unwrap().id; !id.is_empty() && refers(kids, id) }).cloned().collect();
        let pick = |r: &mut Rng| if !used.is_empty() && r.chance(2, 3) { r.pick(&used).clone() } else { r.pick(&recs).clone() };
        let path = pick(&mut r);
        let (up, i) = (path[..path.len() - 1].to_vec(), *path.last().unwrap());
        match r.below(8) {
            7 => {
                // An element that goes by another name now: one that looks much like the old one.
                let id = get(kids, &path).want.as_ref().unwrap().id.clone();
                if !safe(&id) { continue; }
                let mut ids: Vec<String> = Vec::new();
                each(kids, &mut Vec::new(), &mut |e, _| if let Some(w) = &e.want { if safe(&w.id) && refers(kids, &w.id) { ids.push(w.id.clone()) } });
                let to = if !ids.is_empty() && r.chance(1, 2) { r.pick(&ids).clone() } else { String::new() };
                // Or by the name of another one, which it must not refer to itself.
                let to = if !to.is_empty() && !get(kids, &path).want.as_ref().unwrap().attrs.iter().any(|a| matches!(&a.1, WVal::Link(_, t, _) if *t == to)) { to } else { match r.below(6) { 0 => format!(" {} ", id), 1 => format!("{}\u{a0}", id), 2 => id.to_uppercase(), 3 => format!("{}0", id), 4 => format!("#{}", id), _ => String::new() } };
                let e = get_mut(kids, &path);
                let at = match e.attrs.iter().position(|a| a.0 == "id") { Some(i) => i, None => continue };
                if to.is_empty() { e.attrs.remove(at); } else { e.attrs[at].1 = to.clone(); }
                e.want.as_mut().unwrap().id = to;
                hit(K::fault_record_renamed);
                n += 1;
            }
            5 | 6 => {
                // A reference that belongs to another element.
                let mut ids: Vec<String> = Vec::new();
                let mut mine: Vec<Vec<usize>> = Vec::new();
                each(kids, &mut Vec::new(), &mut |e, p| if let Some(w) = &e.want {
                    if safe(&w.id) { ids.push(w.id.clone()) }
                    if w.attrs.iter().any(|a| matches!(a.1, WVal::Link(..))) { mine.push(p.to_vec()) }
                });
                if mine.is_empty() || ids.is_empty() { continue; }
                let p = r.pick(&mine).clone();
                // Preferably one that refers back.
                let own = get(kids, &p).want.as_ref().unwrap().id.clone();
                let mut back: Vec<String> = vec![own.clone()];
                each(kids, &mut Vec::new(), &mut |e, _| if let Some(w) = &e.want {
                    if safe(&w.id) && w.attrs.iter().any(|a| matches!(&a.1, WVal::Link(_, t, _) if *t == own)) { back.push(w.id.clone()) }
                });
                let to = if safe(&own) && r.chance(1, 2) { r.pick(&back).clone() } else { r.pick(&ids).clone() };
                let e = get_mut(kids, &p);
                let w = e.want.as_mut().unwrap();
                let links: Vec<usize> = (0..w.attrs.len()).filter(|&i| matches!(w.attrs[i].1, WVal::Link(..))).collect();
                let i = *r.pick(&links);
                let name = w.attrs[i].0.to_string();
                let at = match e.attrs.iter().position(|a| a.0 == name || (name == "href" && a.0 == "xlink:href")) { Some(i) => i, None => continue };
                if let WVal::Link(_, t, _) = &mut w.attrs[i].1 {
                    if !safe(t) { continue; }
                    let old = format!("#{}", t);
                    let raw = &e.attrs[at].1;
                    let k = match raw.find(&old) { Some(k) => k, None => continue };
                    e.attrs[at].1 = format!("{}#{}{}", &raw[..k], to, &raw[k + old.len()..]);
                    *t = to;
                    hit(K::fault_record_misdirected);
                    n += 1;
                }
            }
            0 => { get_mut(kids, &up).kids.remove(i); hit(K::fault_record_lost); n += 1; }
            1 => {
                let e = get(kids, &path).clone();
                let all = places(kids);
                let to = if r.chance(1, 2) || (has_text(&e) && all.is_empty()) { up.clone() } else { r.pick(&all).clone() };
                if to != up && has_text(&e) && (spacey(kids, &up) || spacey(kids, &to)) { continue; }
                if size(kids) > 400 { continue; }
                let k = get_mut(kids, &to);
                let at = r.below(k.kids.len() + 1);
                k.kids.insert(at, Kid::El(e));
                hit(K::fault_record_duplicated);
                n += 1;
            }
            2 => {
                let all: Vec<Vec<usize>> = places(kids).into_iter().filter(|p| !p.starts_with(&path)).collect();
                if all.is_empty() { continue; }
                let to = r.pick(&all).clone();
                let e = get(kids, &path).clone();
                if to != up && has_text(&e) && (spacey(kids, &up) || spacey(kids, &to)) { continue; }
                let k = get_mut(kids, &to);
                let at = r.below(k.kids.len() + 1);
                // Put it there first: then take out the original, wherever that now is.
                let mut path = path.clone();
                if to == up { if at <= i { let l = path.len() - 1; path[l] += 1 } }
                else if path.starts_with(&to) { let l = to.len(); if at <= path[l] { path[l] += 1 } }
                k.kids.insert(at, Kid::El(e));
                let l = path.len() - 1;
                get_mut(kids, &path[..l].to_vec()).kids.remove(path[l]);
                hit(K::fault_record_reordered);
                n += 1;
            }
            3 => {
                // An element as an older generation of the file had it.
                let old = match older { Some(o) => o, None => continue };
                let id = get(kids, &path).want.as_ref().unwrap().id.clone();
                if id.is_empty() { continue; }
                let mut v = Vec::new();
                for p in records(old) { if get(old, &p).want.as_ref().unwrap().id == id { v.push(p) } }
                if v.is_empty() { continue; }
                let p = r.pick(&v).clone();
                let e = get(old, &p).clone();
                if has_text(&e) && (spacey(kids, &up) || spacey(old, &p[..p.len() - 1])) { continue; }
                get_mut(kids, &up).kids[i] = Kid::El(e);
                hit(K::fault_record_stale);
                n += 1;
            }
            _ => {
                // Something an older generation had and this one has not.
                let old = match older { Some(o) => o, None => continue };
                let v = records(old);
                let all = places(kids);
                if v.is_empty() || all.is_empty() || size(kids) > 400 { continue; }
                let p = r.pick(&v).clone();
                let e = get(old, &p).clone();
                let to = r.pick(&all).clone();
                if has_text(&e) && (spacey(kids, &to) || spacey(old, &p[..p.len() - 1])) { continue; }
                let k = get_mut(kids, &to);
                let at = r.below(k.kids.len() + 1);
                k.kids.insert(at, Kid::El(e));
                hit(K::fault_record_back);
                n += 1;
            }
        }
    }
    n
}

fn safe(id: &str) -> bool { !id.is_empty() && id.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-') }

fn size(kids: &[Kid]) -> usize { let mut n = 0; each(kids, &mut Vec::new(), &mut |_, _| n += 1); n }

fn refers(kids: &[Kid], id: &str) -> bool {
    let mut yes = false;
    each(kids, &mut Vec::new(), &mut |e, _| if let Some(w) = &e.want { yes |= w.attrs.iter().any(|a| matches!(&a.1, WVal::Link(_, t, _) if t == id)) });
    yes
}

// ---------------------------------------------------------------- the same in another form

/// The presentation attributes of SVG 1.1 that have no shorthand meaning.
const PRESENTATION: &[&str] = &["alignment-baseline", "baseline-shift", "clip-path", "clip-rule", "clip", "color-interpolation-filters", "color-interpolation",
    "color-profile", "color-rendering", "color", "cursor", "direction", "display", "dominant-baseline", "enable-background", "fill-opacity", "fill-rule", "fill",
    "filter", "flood-color", "flood-opacity", "font-family", "font-size-adjust", "font-size", "font-stretch", "font-style", "font-variant", "font-weight",
    "glyph-orientation-horizontal", "glyph-orientation-vertical", "image-rendering", "kerning", "letter-spacing", "lighting-color", "marker-end", "marker-mid",
    "marker-start", "mask", "opacity", "overflow", "pointer-events", "shape-rendering", "stop-color", "stop-opacity", "stroke-dasharray", "stroke-dashoffset",
    "stroke-linecap", "stroke-linejoin", "stroke-miterlimit", "stroke-opacity", "stroke-width", "stroke", "text-anchor", "text-decoration", "text-rendering",
    "unicode-bidi", "visibility", "word-spacing", "writing-mode", "transform"];

/// Values whose spelling is the same in a style sheet: words, numbers with units, colours, references, transforms.
fn css_safe(v: &str) -> bool {
    if v.is_empty() || v.trim() != v || v.contains("  ") { return false; }
    let word = |t: &str| t.chars().next().map(|c| c.is_ascii_alphabetic()) == Some(true) && t.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') && !t.contains("--");
    let number = |t: &str| {
        let t = t.trim_end_matches('%');
        let t = t.trim_end_matches(|c: char| c.is_ascii_lowercase());
        t.parse::<f64>().is_ok() && t.chars().all(|c| c.is_ascii_digit() || c == '.' || c == '-')
    };
    let colour = |t: &str| t.len() > 1 && t.starts_with('#') && t[1..].chars().all(|c| c.is_ascii_hexdigit());
    let iri = |t: &str| t.strip_prefix("url(#").and_then(|t| t.strip_suffix(')')).map(|t| plain_id(t)) == Some(true);
    let args = |t: &str| t.split(|c| c == ' ' || c == ',').all(|t| t.is_empty() || number(t));
    for f in ["matrix(", "rgb(", "scale(", "translate(", "rotate(", "skewX(", "skewY("] {
        if let Some(t) = v.strip_prefix(f) { return t.ends_with(')') && args(&t[..t.len() - 1]); }
    }
    v.split(' ').all(|t| { let t = t.strip_suffix(',').unwrap_or(t); word(t) || number(t) || colour(t) || iri(t) })
}
fn plain_id(v: &str) -> bool { v.chars().next().map(|c| c.is_ascii_alphabetic()) == Some(true) && v.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') }

/// A value that would be there if it did not lose against another one.
fn loser(r: &mut Rng, e: &El, name: &str, ids: &[String], css: bool) -> Option<String> {
    let w = e.want.as_ref()?;
    let eid = match w.tag { Tg::Id(e) => e, _ => return None };
    let aid = AttributeId::from_str(name)?;
    if matches!(name, "fill" | "stroke") && r.chance(1, 3) && !ids.is_empty() { return Some(format!("url(#{}){}", r.pick(ids), r.pick(&["", " none", " red"]))); }
    if matches!(name, "filter" | "mask" | "clip-path" | "marker-start") && r.chance(1, 3) && !ids.is_empty() { return Some(format!("url(#{})", r.pick(ids))); }
    if !css && r.chance(1, 6) { return Some(r.pick(&["bogus(", "-", "url(#", "1e", "#xyz"]).to_string()); }
    let v = values::typed_value(aid, eid, r.u32()).to_string();
    if css_safe(&v) { Some(v) } else { None }
}

const MARKERS: &[&str] = &["marker-start", "marker-mid", "marker-end"];
const FOREIGN: &[&str] = &["<q:meta xmlns:q='urn:q' id='i1' fill='url(#i2)'><rect id='i2'/>text</q:meta>", "<unknown id='i3' style='fill:red'><g id='i1'/><text>x</text></unknown>",
    "<?edit view=\"1\"?>", "<q:svg xmlns:q='urn:q'/>", "<Rect id='i4'/>", "<html xmlns='http://www.w3.org/1999/xhtml'><title>t</title></html>", "<q:a xmlns:q='urn:q'><!-- no --></q:a>",
    "<style type='text/x-css'>* { fill: red; opacity: 0.5 }</style>", "<style type='text/css'/>", "<style type='text/css' fill='url(#i1)' mask='url(#i2)'/>", "<style>/* nothing */</style>", "<linearGradients/>"];
const FOREIGN_AT: &[(&str, &str)] = &[("q:fill", "red"), ("q:id", "i1"), ("data-zoom", "1"), ("Fill", "blue"), ("q:style", "fill:red"), ("q:href", "#i1"), ("unknown", "url(#i2)"), ("class", "k0 k00"), ("style", ""), ("style", ";"), ("style", "bogus:1;zoom:2"), ("q:transform", "scale(2)")];

pub struct Form { entities: Vec<String>, prefix: bool, xlink: &'static str, order: bool, crlf: bool, decl: bool, dtd: bool, close: bool }

pub fn rewrite(kids: &mut Vec<Kid>, arg: u32) -> (Form, usize) {
    let mut r = Rng::from2(arg as u64, 919);
    let r = &mut r;
    let on = |r: &mut Rng| r.chance(2, 5);
    let (style, css, refs, cdata, foreign, foreign_at, space, pad, notation) = (on(r), on(r), on(r), on(r), on(r), on(r), on(r), r.chance(1, 4), r.chance(1, 3));
    let mut form = Form { entities: Vec::new(), prefix: r.chance(1, 6), xlink: *r.pick(&["xlink", "xlink", "xl", "a"]), order: on(r), crlf: false, decl: on(r), dtd: on(r), close: on(r) };
    let entity = r.chance(1, 5);
    let mut ids: Vec<String> = Vec::new();
    each(kids, &mut Vec::new(), &mut |e, _| if let Some(w) = &e.want { if plain_id(&w.id) { ids.push(w.id.clone()) } });
    let mut sheet: Vec<String> = Vec::new();
    let mut late: Vec<String> = Vec::new();
    let mut n = 0;
    let mut class = 0;
    let mut paths = Vec::new();
    each(kids, &mut Vec::new(), &mut |e, p| if e.want.is_some() { paths.push(p.to_vec()) });
    if space {
        for p in &paths {
            if get(kids, p).name == "text" && !in_text(kids, &p[..p.len() - 1]) && !spacey(kids, p) && r.chance(1, 2) && surround(r, get_mut(kids, p)) {
                n += 1;
                hit(K::peer_surrounded);
            }
        }
    }
    for p in &paths {
        let parent = if p.len() > 1 { Some(get(kids, &p[..p.len() - 1]).name.clone()) } else { None };
        let keep = spacey(kids, p);
        let e = get_mut(kids, p);
        let id = e.want.as_ref().unwrap().id.clone();
        if notation {
            let w = e.want.as_ref().unwrap().attrs.clone();
            for a in e.attrs.iter_mut() {
                let aid = match AttributeId::from_str(&a.0) { Some(x) => x, None => continue };
                let v = match w.iter().find(|x| x.0 == aid) { Some((_, WVal::Plain(v))) => v, _ => continue };
                if !r.chance(1, 3) { continue; }
                if let Some(t) = renote(r, &a.0, v, &a.1) { if t != a.1 { a.1 = t; n += 1; hit(K::peer_notation); } }
            }
        }
        let mut decls: Vec<String> = Vec::new();
        // The shorthand stands for all three markers, and loses against (or wins over) each of them as they would.
        let marks: Vec<String> = MARKERS.iter().filter_map(|m| e.attrs.iter().find(|a| a.0 == *m).map(|a| a.1.clone())).collect();
        if marks.len() == 3 && marks.iter().all(|v| css_safe(v)) {
            let same = marks.iter().all(|v| *v == marks[0]);
            if style && r.chance(1, 2) {
                n += 1;
                hit(K::peer_marker);
                let lead = if same { marks[0].clone() } else { r.pick(&["none", "inherit"]).to_string() };
                if same && r.chance(1, 2) { decls.push(format!("{}:none", r.pick(MARKERS))); }
                decls.push(format!("marker:{}", lead));
                if !same { for (m, v) in MARKERS.iter().zip(&marks) { decls.push(format!("{}:{}", m, v)); } }
                for m in MARKERS {
                    match if r.chance(1, 2) { loser(r, e, m, &ids, false) } else { None } {
                        Some(x) => { hit(K::peer_overridden); for a in e.attrs.iter_mut() { if a.0 == *m { a.1 = x.clone() } } }
                        None => e.attrs.retain(|a| a.0 != *m),
                    }
                }
            } else if css && plain_id(&id) && r.chance(1, 2) {
                n += 1;
                hit(K::peer_marker);
                if same {
                    if r.chance(1, 2) { sheet.push(format!("#{} {{ {}: none }}", id, r.pick(MARKERS))); }
                    sheet.push(format!("#{} {{ marker: {} }}", id, marks[0]));
                } else {
                    sheet.push(format!("#{} {{ marker: {} }}", id, r.pick(&["none", "inherit"])));
                    for (m, v) in MARKERS.iter().zip(&marks) { sheet.push(format!("#{} {{ {}: {} }}", id, m, v)); }
                }
                for m in MARKERS {
                    match if r.chance(1, 2) { loser(r, e, m, &ids, false) } else { None } {
                        Some(x) => { hit(K::peer_overridden); for a in e.attrs.iter_mut() { if a.0 == *m { a.1 = x.clone() } } }
                        None => e.attrs.retain(|a| a.0 != *m),
                    }
                }
            }
        }
        let mut i = 0;
        while i < e.attrs.len() {
            let (name, v) = e.attrs[i].clone();
            if MARKERS.contains(&name.as_str()) && marks.len() == 3 { i += 1; continue; }
            if !PRESENTATION.contains(&name.as_str()) || !css_safe(&v) { i += 1; continue; }
            if style && r.chance(1, 2) {
                // into the style attribute, above whatever else says something about it
                n += 1;
                hit(K::peer_style);
                if r.chance(1, 4) { if let Some(x) = loser(r, e, &name, &ids, true) { decls.push(format!("{}:{}", name, x)); } }
                decls.push(format!("{}{}:{}{}", r.pick(&["", " ", "\t"]), name, r.pick(&["", " "]), v));
                if css && r.chance(1, 3) { if let Some(x) = loser(r, e, &name, &ids, true) { if plain_id(&id) { late.push(format!("#{} {{ {}: {} }}", id, name, x)) } } }
                match if r.chance(1, 2) { loser(r, e, &name, &ids, false) } else { None } { Some(x) => { hit(K::peer_overridden); e.attrs[i].1 = x; i += 1 } None => { e.attrs.remove(i); } }
                continue;
            }
            if css && r.chance(1, 2) {
                let byclass = !plain_id(&id) || r.chance(1, 3);
                let sel = if byclass {
                    class += 1;
                    let k = format!("k{}", class);
                    match e.attrs.iter_mut().find(|a| a.0 == "class") { Some(a) => { a.1.push(' '); a.1.push_str(&k) } None => { e.attrs.push(("class".into(), k.clone())) } }
                    match r.below(3) { 0 => format!("{}.{}", e.name, k), _ => format!(".{}", k) }
                } else {
                    match r.below(6) { 0 => format!("{}#{}", e.name, id), 1 if parent.is_some() => format!("{} > #{}", parent.as_ref().unwrap(), id), 2 if p.len() > 1 => format!("svg #{}", id),
                        3 => format!("[id=\"{}\"]", id), 4 => { class += 1; format!("\u{2}+{}\u{2}{}\u{2}", id, class) } _ => format!("#{}", id) }
                };
                n += 1;
                hit(K::peer_css);
                if !byclass && !sel.starts_with('[') && r.chance(1, 3) {
                    // weaker rules, before or after
                    if let Some(x) = loser(r, e, &name, &ids, true) {
                        class += 1;
                        let k = format!("k{}", class);
                        match e.attrs.iter_mut().find(|a| a.0 == "class") { Some(a) => { a.1.push(' '); a.1.push_str(&k) } None => { e.attrs.push(("class".into(), k.clone())) } }
                        let rule = format!(".{} {{ {}: {} }}", k, name, x);
                        if r.chance(1, 2) { sheet.push(rule) } else { late.push(rule) }
                    }
                }
                if r.chance(1, 3) { if let Some(x) = loser(r, e, &name, &ids, true) { sheet.push(format!("{} {{ {}: {} }}", sel, name, x)); } }
                if plain_id(&id) && r.chance(1, 2) {
                    // rules for elements that are not there, in states and places this one is not in
                    if let Some(x) = loser(r, e, &name, &ids, true) {
                        class += 1;
                        let rule = format!("\u{2}-{}\u{2}{}\u{2} {{ {}: {} }}", id, r.below(1000), name, x);
                        if r.chance(1, 2) { sheet.push(rule) } else { late.push(rule) }
                    }
                }
                let sel = if r.chance(1, 6) { format!("nosuch, {}", sel) } else { sel };
                sheet.push(format!("{}{}{{{}{}: {}{}}}", sel, r.pick(&["", " "]), r.pick(&["", " ", "\n"]), name, v, r.pick(&["", ";", " ; "])));
                match if r.chance(1, 2) { loser(r, e, &name, &ids, false) } else { None } { Some(x) => { hit(K::peer_overridden); e.attrs[i].1 = x; i += 1 } None => { e.attrs.remove(i); } }
                continue;
            }
            i += 1;
        }
        if !decls.is_empty() { let d = decls.join(r.pick(&[";", "; ", " ;\n"])) + r.pick(&["", ";"]); e.attrs.push(("style".into(), d)); }
        if pad {
            for a in e.attrs.iter_mut() {
                let free = matches!(a.0.as_str(), "unicode" | "id" | "xml:space" | "class") || a.0.starts_with("xmlns") || a.0.starts_with("q:") || AttributeId::from_str(a.0.trim_start_matches("xlink:")).is_none();
                if free || !r.chance(1, 4) { continue; }
                n += 1;
                hit(K::peer_padded);
                a.1 = format!("{}{}{}", r.pick(&["", " ", "\n", "\t ", "&#10;"]), a.1, r.pick(&["", " ", "\n  ", "\t", "&#x20;"]));
            }
        }
        if refs {
            for a in e.attrs.iter_mut() {
                if a.0 == "unicode" || a.0.starts_with("xmlns") || !r.chance(1, 3) { continue; }
                if let Some(s) = charref(r, &a.1) { a.1 = s; n += 1; hit(K::peer_charref); }
            }
        }
        if entity {
            for a in e.attrs.iter_mut() {
                if a.0 == "unicode" || a.0.starts_with("xmlns") || a.0.starts_with("xml:") || !r.chance(1, 4) { continue; }
                if let Some(s) = entityref(r, &a.1, &mut form.entities) { a.1 = s; n += 1; hit(K::peer_entity); }
            }
        }
        if foreign_at && r.chance(1, 3) {
            let a = r.pick(FOREIGN_AT);
            if !e.attrs.iter().any(|x| x.0 == a.0) {
                e.attrs.push((a.0.into(), a.1.into()));
                if a.0.starts_with("q:") && !e.attrs.iter().any(|x| x.0 == "xmlns:q") { e.attrs.push(("xmlns:q".into(), "urn:q".into())) }
                n += 1;
                hit(K::peer_foreign_attr);
            }
        }
        let single = e.kids.len() == 1;
        let textual = is_text_el(&e.name);
        for k in e.kids.iter_mut() {
            if let Kid::Text(t, Some(_)) = k {
                if space && !keep && r.chance(1, 2) {
                    let mut o = String::new();
                    for c in t.chars() {
                        if c == ' ' && r.chance(1, 4) { o.push_str(r.pick(&["\t", "\n", "  ", "&#9;"])); n += 1; hit(K::peer_white_space); }
                        if c == ' ' && r.chance(1, 4) { o.push_str(r.pick(&["\t", "\n", "&#10;", "\r\n", "&#13;"])); n += 1; hit(K::peer_white_space); } else { o.push(c); }
                        if c == ' ' && r.chance(1, 2) { o.push_str(r.pick(&[" ", "\t", "\n", "   ", "\n\t", "&#x20;", "&#9;", "\r\n"])); n += 1; hit(K::peer_white_space); }
                    }
                    // What surrounds all of the text goes away.
                    if single && !textual && r.chance(1, 2) { o = format!("\n  {}\n ", o) }
                    *t = o;
                }
                if refs && r.chance(1, 2) { if let Some(s) = charref(r, t) { *t = s; n += 1; hit(K::peer_charref); } }
                if entity && r.chance(1, 2) { if let Some(s) = entityref(r, t, &mut form.entities) { *t = s; n += 1; hit(K::peer_entity); } }
                if cdata && r.chance(1, 2) && !t.contains('&') && !t.contains("]]>") && !t.contains('<') { *t = format!("<![CDATA[{}]]>", t); n += 1; hit(K::peer_cdata); }
            }
        }
    }
    if !sheet.is_empty() || !late.is_empty() {
        sheet.extend(late);
        // One sheet, or several in order of appearance.
        let mut pl = places(kids);
        pl.retain(|p| !spacey(kids, p));
        let top = pl.iter().find(|p| p.len() == 1).cloned();
        if let Some(top) = top {
            let parts = r.range(1, 3).min(sheet.len());
            let per = (sheet.len() + parts - 1) / parts;
            let mut pos = 0;
            for c in sheet.chunks(per) {
                let t = c.join(r.pick(&["\n", " ", "/* c */"]));
                let t = if r.chance(1, 3) { format!("<![CDATA[{}]]>", t) } else { t.replace('>', "&gt;") };
                if parts == 1 && r.chance(1, 3) {
                    // Wherever there is room for it.
                    let at = r.pick(&pl).clone();
                    let k = get_mut(kids, &at);
                    let i = r.below(k.kids.len() + 1);
                    k.kids.insert(i, Kid::Raw(format!("<{}style{}>{}</{}style>", "\u{1}", r.pick(&["", " type=\"text/css\""]), t, "\u{1}")));
                    hit(K::peer_nested_sheet);
                    break;
                }
                let k = get_mut(kids, &top);
                pos = r.range(pos, k.kids.len());
                k.kids.insert(pos, Kid::Raw(format!("<{}style{}>{}</{}style>", "\u{1}", r.pick(&["", " type=\"text/css\""]), t, "\u{1}")));
                pos += 1;
            }
        } else { return (form, 0); }
    }
    if foreign {
        for _ in 0..r.range(1, 3) {
            let pl = places(kids);
            if pl.is_empty() { break; }
            let to = r.pick(&pl).clone();
            let k = get_mut(kids, &to);
            let at = r.below(k.kids.len() + 1);
            let f = *r.pick(FOREIGN);
            // without a prefix these would be in no namespace at all, which is as good
            k.kids.insert(at, Kid::Raw(f.to_string()));
            n += 1;
            hit(K::peer_foreign);
        }
    }
    let mut before = Vec::new();
    neighbours(kids, &mut before);
    resolve(kids, &before);
    if form.prefix || form.order || form.decl || form.dtd || form.close || form.xlink != "xlink" { n += 1 }
    (form, n)
}

/// A style element with references of its own, which loading drops.
pub fn bystyle(kids: &mut Vec<Kid>, arg: u32) {
    let mut r = Rng::from2(arg as u64, 929);
    let pl = places(kids);
    if pl.is_empty() { return; }
    let k = get_mut(kids, r.pick(&pl));
    let at = r.below(k.kids.len() + 1);
    let f = *r.pick(&["<style mask='url(#i1)'/>", "<style type='text/css' id='i2' fill='url(#i1) red' filter='url(#nowhere)'/>", "<style style='fill:url(#i3)'> rect.none { fill: red } </style>"]);
    k.kids.insert(at, Kid::Raw(f.to_string()));
    hit(K::peer_style_element);
}

/// White space around all of what a text element says.
fn surround(r: &mut Rng, e: &mut El) -> bool {
    fn runs<'a>(e: &'a mut El, v: &mut Vec<&'a mut String>) -> bool {
        for k in e.kids.iter_mut() {
            match k {
                Kid::Text(t, Some(_)) => v.push(t),
                Kid::El(e) => if e.attrs.iter().any(|a| a.0 == "xml:space") || !runs(e, v) { return false },
                _ => return false,
            }
        }
        true
    }
    let mut v = Vec::new();
    if !runs(e, &mut v) || v.is_empty() { return false; }
    let edge = |c: Option<char>| c.map_or(true, |c| c.is_whitespace() || c == '&' || c == ';');
    let end = v.len() - 1;
    let (lead, trail) = (!edge(v[0].chars().next()) && r.chance(2, 3), !edge(v[end].chars().last()) && r.chance(2, 3));
    let ws = ["\n    ", " ", "\t", "  ", "\n", "&#32;", " &#10;"];
    if lead { let t = format!("{}{}", r.pick(&ws), v[0]); *v[0] = t; }
    if trail { let t = format!("{}{}", v[end], r.pick(&ws)); *v[end] = t; }
    lead || trail
}

/// The same value in another notation.
fn renote(r: &mut Rng, name: &str, v: &AttributeValue, t: &str) -> Option<String> {
    use AttributeValue as V;
    let clamped = name.ends_with("opacity") || matches!(name, "k1" | "k2" | "k3" | "k4");
    match v {
        V::Color(_) => {
            let h = t.strip_prefix('#')?;
            if h.len() != 6 { return None; }
            let b = |i: usize| u8::from_str_radix(&h[i..i + 2], 16).ok();
            let (x, y, z) = (b(0)?, b(2)?, b(4)?);
            Some(match r.below(6) {
                5 if [x, y, z].iter().all(|c| *c == 0 || *c == 255) => { let p = |c: u8| if c == 0 { "0%" } else { "100%" }; format!("rgb({}, {},{})", p(x), p(y), p(z)) }
                0 => format!("#{}", h.to_uppercase()),
                1 => format!("rgb({},{}{})", x, y, format!(", {}", z)),
                2 if [x, y, z].iter().all(|c| c % 17 == 0) => format!("#{:x}{:X}{:x}", x / 17, y / 17, z / 17),
                _ => match h { "ff0000" => "red".into(), "000000" => "black".into(), "ffffff" => "white".into(), "008000" => "green".into(), "0000ff" => "blue".into(),
                    _ => format!("rgb( {} ,{},{} )", x, y, z) },
            })
        }
        V::Number(n) if clamped && *n == 1.0 && r.chance(1, 2) => Some(r.pick(&["1.5", "2", "1.0", "100"]).to_string()),
        V::Number(n) if clamped && *n == 0.0 && r.chance(1, 2) => Some(r.pick(&["-0.5", "-1", "0.0", "-100"]).to_string()),
        V::Transform(_) => {
            let f: Vec<&str> = t.strip_prefix("matrix(")?.strip_suffix(')')?.split(|c| c == ' ' || c == ',').collect();
            if f.len() != 6 || f.iter().any(|x| x.parse::<f64>().is_err()) { return None; }
            Some(if f[..4] == ["1", "0", "0", "1"] { match r.below(3) { 0 if f[5] == "0" => format!("translate({})", f[4]), 1 => format!("translate({}, {})", f[4], f[5]), _ => format!("scale(1)translate( {} {} )", f[4], f[5]) } }
            else if f[1] == "0" && f[2] == "0" && f[4] == "0" && f[5] == "0" { if f[0] == f[3] && r.chance(1, 2) { format!("scale({})", f[0]) } else { format!("scale({},{})", f[0], f[3]) } }
            else { format!("matrix ({})", f.join(r.pick(&[", ", ",", "  ", "\n"]))) })
        }
        V::AspectRatio(_) => {
            let w: Vec<&str> = t.split(' ').collect();
            Some(match (w.as_slice(), r.below(3)) {
                ([.., "meet"], 0) => w[..w.len() - 1].join(" "),
                ([.., "slice"], _) | ([.., "meet"], _) => w.join(r.pick(&["  ", "\n", " "])),
                (_, 0) => w.join("  "),
                _ => format!("{} meet", w.join(" ")),
            })
        }
        V::Path(_) => {
            // other separators between numbers, more or less space around commands
            let c: Vec<char> = t.chars().collect();
            let num = |c: char| c.is_ascii_digit() || c == '.' || c == '-';
            let mut o = String::new();
            for (i, x) in c.iter().enumerate() {
                let (a, b) = (if i > 0 { c[i - 1] } else { 'x' }, *c.get(i + 1).unwrap_or(&'x'));
                if *x == ' ' {
                    o.push_str(if num(a) && num(b) { r.pick(&[" ", ",", "\n", "  ", ", "]) } else { r.pick(&["", " ", "\n", "  "]) });
                } else {
                    o.push(*x);
                    if x.is_ascii_alphabetic() && *x != 'e' && b != ' ' && r.chance(1, 4) { o.push(' ') }
                }
            }
            Some(o)
        }
        V::Number(_) | V::Angle(_) | V::Length(_) | V::LengthList(_) | V::NumberList(_) | V::ViewBox(_) | V::Points(_) => {
            // numbers, one by one, and what stands between them
            let mut o = String::new();
            let mut first = true;
            for x in t.split(|c: char| c == ' ' || c == ',').filter(|x| !x.is_empty()) {
                if !first { o.push_str(r.pick(&[" ", ", ", ",", "\n", "  "])) }
                first = false;
                let k = x.find(|c: char| !(c.is_ascii_digit() || c == '.' || c == '-')).unwrap_or(x.len());
                let (num, unit) = x.split_at(k);
                if num.parse::<f64>().is_err() || unit.starts_with('e') && !matches!(unit, "em" | "ex") { return None; }
                let (sign, digits) = match num.strip_prefix('-') { Some(d) => ("-", d), None => (if r.chance(1, 6) { "+" } else { "" }, num) };
                let digits = match r.below(4) {
                    0 if digits.contains('.') => format!("{}0", digits),
                    0 => format!("{}.0", digits),
                    1 if digits.starts_with("0.") => digits[1..].to_string(),
                    1 if digits.starts_with('.') => format!("0{}", digits),
                    2 if !unit.starts_with('e') => format!("{}{}", digits, r.pick(&["e0", "E+0", "e-0"])),
                    3 => format!("0{}", digits),
                    _ => digits.to_string(),
                };
                o.push_str(sign);
                o.push_str(&digits);
                o.push_str(unit);
            }
            Some(o)
        }
        _ => None,
    }
}

/// For each element with an id that is its own: the name of the element before it.
fn neighbours(kids: &[Kid], out: &mut Vec<(String, Option<String>)>) {
    let mut prev: Option<String> = None;
    for k in kids {
        match k {
            Kid::El(e) => {
                if let Some(w) = &e.want { out.push((w.id.clone(), prev.clone())) }
                neighbours(&e.kids, out);
                prev = Some(e.name.clone());
            }
            Kid::Raw(t) if !t.starts_with("<?") => {
                let n: String = t[1..].chars().take_while(|c| !matches!(c, ' ' | '/' | '>')).filter(|c| *c != '\u{1}').collect();
                prev = Some(n.rsplit(':').next().unwrap().to_string());
            }
            _ => {}
        }
    }
}
/// Selectors that depend on where everything ended up.
fn resolve(kids: &mut Vec<Kid>, before: &[(String, Option<String>)]) {
    for k in kids.iter_mut() {
        match k {
            Kid::El(e) => resolve(&mut e.kids, before),
            Kid::Raw(t) if t.contains('\u{2}') => {
                let parts: Vec<&str> = t.split('\u{2}').collect();
                let mut o = String::new();
                for c in parts.chunks(3) {
                    o.push_str(c[0]);
                    if c.len() < 3 { break; }
                    let (id, v) = (&c[1][1..], c[2].parse::<usize>().unwrap_or(0));
                    let prev = before.iter().find(|b| b.0 == id).and_then(|b| b.1.clone());
                    hit(K::peer_selector);
                    let sel = if c[1].starts_with('+') {
                        match (prev, v % 4) {
                            (_, 0) => format!("#{}[id]", id),
                            (_, 1) => format!("*#{}[id|='{}']", id, id),
                            (None, _) => format!("#{}:first-child", id),
                            (Some(_), 2) => format!("* + #{}", id),
                            (Some(p), _) => format!("{} + #{}", p, id),
                        }
                    } else {
                        match (prev, v % 8) {
                            (_, 0) => format!("#{}:hover", id),
                            (_, 1) => format!("#{}[nosuch]", id),
                            (_, 2) => format!("nosuch #{}", id),
                            (_, 3) => format!("nosuch + #{}", id),
                            (_, 4) => format!("nosuch#{}", id),
                            (_, 5) => format!("#{}.none", id),
                            (None, _) => format!("* + #{}", id),
                            (Some(_), _) => format!("#{}:first-child", id),
                        }
                    };
                    o.push_str(&sel);
                }
                *t = o;
            }
            _ => {}
        }
    }
}

/// Part of a value said by an entity of the document type.
fn entityref(r: &mut Rng, raw: &str, table: &mut Vec<String>) -> Option<String> {
    let ok = |c: char| c.is_ascii_alphanumeric() || " #().,:-+".contains(c);
    let c: Vec<char> = raw.chars().collect();
    if c.is_empty() || raw.contains('&') || raw.contains('<') { return None; }
    let (from, to) = if r.chance(1, 2) { (0, c.len()) } else { let a = r.below(c.len()); (a, r.range(a + 1, c.len())) };
    if !c[from..to].iter().all(|x| ok(*x)) { return None; }
    let part: String = c[from..to].iter().collect();
    let k = match table.iter().position(|e| *e == part) { Some(k) => k, None => { table.push(part); table.len() - 1 } };
    let (a, b): (String, String) = (c[..from].iter().collect(), c[to..].iter().collect());
    Some(format!("{}&e{};{}", a, k, b))
}

fn charref(r: &mut Rng, raw: &str) -> Option<String> {
    let mut o = String::new();
    let mut done = false;
    let mut skip = false;
    for c in raw.chars() {
        if c == '&' { skip = true }
        if !skip && !c.is_whitespace() && c != '<' && c != '>' && r.chance(1, 6) {
            done = true;
            if r.chance(1, 2) { o.push_str(&format!("&#{};", c as u32)) } else { o.push_str(&format!("&#x{:x};", c as u32)) }
        } else { o.push(c) }
        if c == ';' { skip = false }
    }
    if done { Some(o) } else { None }
}

// ---------------------------------------------------------------- writing

pub fn plain_form() -> Form { Form { entities: Vec::new(), prefix: false, xlink: "xlink", order: false, crlf: false, decl: false, dtd: false, close: false } }

fn put(kids: &[Kid], f: &Form, r: &mut Rng, out: &mut String) {
    for k in kids {
        match k {
            Kid::Raw(t) => out.push_str(&t.replace('\u{1}', if f.prefix { "s:" } else { "" })),
            Kid::Comment(t, _) => { out.push_str("<!--"); out.push_str(t); out.push_str("-->") }
            Kid::Text(t, _) => out.push_str(t),
            Kid::El(e) => {
                let pre = if f.prefix { "s:" } else { "" };
                out.push('<');
                out.push_str(pre);
                out.push_str(&e.name);
                let mut at: Vec<&(String, String)> = e.attrs.iter().collect();
                if f.order { for i in (1..at.len()).rev() { let j = r.below(i + 1); at.swap(i, j); } }
                for (n, v) in at {
                    out.push_str(if f.order { r.pick(&[" ", "  ", "\n", "\t"]) } else { " " });
                    let n = if n == "xmlns" && f.prefix { "xmlns:s".to_string() }
                        else if n == "xmlns:xlink" { format!("xmlns:{}", f.xlink) }
                        else if n == "xlink:href" { format!("{}:href", f.xlink) }
                        else if f.prefix && f.close && AttributeId::from_str(n).is_some() && !matches!(n.as_str(), "id" | "style" | "class" | "type" | "space") && r.chance(1, 2) { hit(K::peer_attr_prefix); format!("s:{}", n) }
                        else { n.clone() };
                    let q = if f.order && r.chance(1, 2) { '\'' } else { '"' };
                    let v = if q == '"' { v.replace('"', "&quot;") } else { v.replace('\'', "&apos;") };
                    out.push_str(&format!("{}{}{}{}{}", n, if f.order { *r.pick(&["=", " = "]) } else { "=" }, q, v, q));
                }
                if e.kids.is_empty() && !f.close { out.push_str("/>"); continue; }
                out.push('>');
                put(&e.kids, f, r, out);
                out.push_str(&format!("</{}{}>", pre, e.name));
            }
        }
    }
}

pub fn write(kids: &[Kid], f: &Form, arg: u32) -> String {
    let mut r = Rng::from2(arg as u64, 313);
    let mut out = String::new();
    if f.decl { out.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\n"); }
    if !f.entities.is_empty() {
        out.push_str("<!DOCTYPE svg [\n");
        for (i, e) in f.entities.iter().enumerate() { out.push_str(&format!("  <!ENTITY e{} {}{}{}>\n", i, if i % 2 == 0 { '"' } else { '\'' }, e, if i % 2 == 0 { '"' } else { '\'' })); }
        out.push_str("]>\n");
    }
    else if f.dtd { out.push_str("<!DOCTYPE svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \"http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd\">\n"); }
    let mut kids = kids.to_vec();
    for k in kids.iter_mut() {
        if let Kid::El(e) = k {
            if !e.attrs.iter().any(|a| a.0 == "xmlns:xlink") { e.attrs.push(("xmlns:xlink".into(), "http://www.w3.org/1999/xlink".into())) }
        }
    }
    put(&kids, f, &mut r, &mut out);
    if f.crlf { out = out.replace('\n', "\r\n") }
    out
}
