//! Bystanders: small fixed workloads on documents of their own. Whatever happens to other documents, before or in the
//! middle of them, their outcome must be the one they have on a thread where the library never ran before.
use crate::seam::call;
use crate::stats::{hit, K};
use std::fmt::Write;
use std::sync::OnceLock;
use svgdom::*;
use svgdom::{AttributeId as AId, ElementId as EId};

pub const COUNT: usize = 12;
static BASE: OnceLock<Vec<String>> = OnceLock::new();

const NS: &str = "xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' xmlns:foo='urn:foo'";
/// The same names are missing, present and crossing in different bystanders, and used by the other participants.
const WORDS: &[&str] = &["a", "b", "c", "x1", "é", "element", "linear-gradient-17", "n0", "n1", "日本", "zz", "i1", "i2", "i5", "i9"];

fn wrap(body: &str) -> String { format!("<svg {}>{}</svg>", NS, body) }

fn describe(doc: &Document, out: &mut String) {
    for n in doc.root().descendants() {
        let _ = write!(out, "{:?}/{}/{:?};", n.node_type(), n.uses_count(), n);
        if n.is_text() { let _ = write!(out, "{:?}", *n.text()); }
    }
    out.push_str(&doc.to_string());
}

fn load(text: &str, out: &mut String) {
    match Document::from_str(text) {
        Ok(d) => describe(&d, out),
        Err(e) => { let _ = write!(out, "{:?}", e); }
    }
}

fn build() -> (Document, Node) {
    let mut doc = Document::new();
    let mut svg = doc.create_element(EId::Svg);
    doc.root().append(svg.clone());
    for (i, w) in WORDS.iter().enumerate() {
        let mut n = doc.create_element(*[EId::Rect, EId::G, EId::LinearGradient, EId::Glyph].get(i % 4).unwrap());
        n.set_id(*w);
        n.set_attribute((AId::X, i as f64));
        n.set_attribute(("data-k", "v"));
        if i % 3 == 0 { svg.append(n) } else { svg.prepend(n) }
    }
    (doc, svg)
}

fn workload(k: usize, out: &mut String) {
    let each = |f: &dyn Fn(&str) -> String| wrap(&WORDS.iter().map(|w| f(w)).collect::<String>());
    match k {
        // references to elements that are not there
        0 => load(&each(&|w| format!("<use xlink:href='#{0}'/><rect fill='url(#{0})' stroke='url(#{0}) red' mask='url(#{0})'/>", w)), out),
        // the same references, resolved
        1 => load(&each(&|w| format!("<use xlink:href='#{0}'/><linearGradient id='{0}'/><rect fill='url(#{0})' stroke='url(#{0}) red' mask='url(#{0})'/>", w)), out),
        // crossing and own references
        2 => load(&each(&|w| format!("<pattern id='{0}' xlink:href='#q{0}' mask='url(#{0})'/><pattern id='q{0}' xlink:href='#{0}' fill='url(#{0}) none'/>", w)), out),
        // values that cannot be used
        3 => load(&wrap("<rect x='bad' fill='nope' d='M 1 2 zz' transform='x' opacity='q' style='fill:bad;stroke:url(' viewBox='0'/><path d='M 1 2 L 3 z5'/><glyph unicode='q'/>"), out),
        // style sheets
        4 => load(&wrap("<style>rect{fill:red}.c{stroke:url(#a)}#b{fill:url(#c) blue}*{marker:url(#zz)}</style><style type='text/other'>rect{fill:blue}</style><g id='a'/><rect id='b' class='c' fill='url(#zz)' style='opacity:0.5'/><g id='c'/>"), out),
        // text
        5 => load(&wrap("<text> a  <tspan xml:space='preserve'>  b </tspan>\n c <tspan>  d</tspan>  </text><text xml:space='preserve'> x\ty </text><text>\n  one  two\n</text><g><text><tspan/>a\n b</text></g>"), out),
        // rejected
        6 => for t in &["<g xmlns='http://www.w3.org/2000/svg'><rect fill='url(#a)'/></g>", "<a", "", "<svg/>", "<svg xmlns='http://www.w3.org/2000/svg'><g><g><g>"] { load(t, out); out.push('|'); },
        // deep, and empty elements on the way
        7 => { let t = format!("{} {}", "<g> <g/>".repeat(40), "</g>".repeat(40)); load(&wrap(&t), out) }
        // saving with complaints, several options
        8 => {
            let (doc, svg) = build();
            let mut g = svg.first_child().unwrap();
            g.set_attribute((AId::Unicode, 1.0));
            let mut h = svg.last_child().unwrap();
            h.set_attribute((AId::Unicode, "a😀"));
            describe(&doc, out);
            let mut o = WriteOptions::default();
            o.indent = Indent::None;
            o.use_single_quote = true;
            out.push_str(&doc.to_string_with_opt(&o));
        }
        // links, refusals, renames, removal
        9 => {
            let (mut doc, svg) = build();
            let v: Vec<Node> = svg.children().collect();
            for i in 0..v.len() {
                let mut n = v[i].clone();
                let r = n.set_attribute_checked((AId::Fill, v[(i * 3 + 1) % v.len()].clone()));
                let _ = write!(out, "{:?}", r);
                let r = n.set_attribute_checked((AId::Href, v[(i + 1) % v.len()].clone()));
                let _ = write!(out, "{:?}", r);
            }
            v[2].clone().set_id("renamed");
            describe(&doc, out);
            doc.remove_node(v[3].clone());
            doc.remove_node(v[3].clone());
            describe(&doc, out);
        }
        // copies, moves and drains
        10 => {
            let (mut doc, mut svg) = build();
            let mut c = doc.copy_node_deep(svg.clone());
            c.append(svg.first_child().unwrap());
            svg.append(c.clone());
            let root = doc.root();
            let k = doc.drain(root, |n| n.has_tag_name(EId::G));
            let _ = write!(out, "{}", k);
            c.detach();
            describe(&doc, out);
        }
        // cursors
        _ => {
            let (doc, svg) = build();
            let mut i = svg.children();
            while let Some(n) = i.next() { out.push_str(&n.id()); if let Some(n) = i.next_back() { out.push_str(&n.id()); } }
            for e in doc.root().traverse() { match e { NodeEdge::Start(n) => { out.push('+'); out.push_str(&n.id()) } NodeEdge::End(n) => { out.push('-'); out.push_str(&n.id()) } } }
            for n in svg.last_child().unwrap().preceding_siblings() { out.push_str(&n.id()) }
        }
    }
}

fn outcome(k: usize) -> String {
    let mut out = String::new();
    match call(|| { let mut s = String::new(); workload(k, &mut s); s }) { Ok(s) => out.push_str(&s), Err(e) => { let _ = write!(out, "panic {}", e); } }
    out
}

/// Takes down how each goes by itself, each on a thread of its own.
pub fn warm_up() {
    BASE.get_or_init(|| (0..COUNT).map(|k| std::thread::spawn(move || outcome(k)).join().unwrap_or_default()).collect());
}

/// Runs one; says what went differently.
pub fn run(k: usize) -> Option<String> {
    let k = k % COUNT;
    hit(K::bystanders);
    let got = outcome(k);
    let want = &BASE.get()?[k];
    if got == *want { return None; }
    let i = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let cut = |s: &str| s.chars().skip(s.char_indices().take_while(|x| x.0 + 20 < i).count()).take(60).collect::<String>();
    Some(format!("bystander {}: {:?} instead of {:?}", k, cut(&got), cut(want)))
}
