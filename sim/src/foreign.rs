//! Files this library did not write: generated foreign SVG text, and damage to text.
use crate::rng::Rng;
use crate::stats::K;
use crate::values::{ATTRIBUTES, ELEMENTS};

const COMMON_EL: &[&str] = &["g", "rect", "path", "text", "tspan", "tref", "use", "linearGradient", "stop", "clipPath", "mask",
    "defs", "filter", "marker", "svg", "style", "animate", "altGlyph", "title", "textPath", "a", "switch"];
const COMMON_AT: &[&str] = &["fill", "stroke", "clip-path", "mask", "filter", "marker-start", "xlink:href", "href", "x", "y", "width",
    "d", "points", "transform", "style", "class", "id", "xml:space", "opacity", "font-size", "unicode", "viewBox",
    "preserveAspectRatio", "stroke-dasharray", "stdDeviation", "orient", "color", "letter-spacing", "offset", "marker",
    "baseline-shift", "glyph-orientation-vertical", "stop-color", "k1", "font-size-adjust"];
const VALUES: &[&str] = &["none", "inherit", "currentColor", "red", "#fff", "#12345", "rgb(1,2,3)", "rgb(300%, 1, x)", "10", "-1.5e3", "1e400", "10px", "5%",
    "1 2 3", "1,2,,3", "10px 20em", "", " ", "auto", "normal", "sub", "M 10 20 L 30 40", "M 1 2 z l 1", "m0-0.5.5.5a1 1 0 00 1 1",
    "L 1 2", "10,20 30,40", "10 20 30", "translate(10)", "matrix(1 0 0 1 0 0)", "rotate(30 10 20)scale(2)", "skewX(30", "0 0 10 20", "0 0 -1 5",
    "xMidYMid slice", "defer xMinYMax meet", "bold", "url(", "url()", "url(#)", "url(# )", "#", "url(#a) none", "url(#a) #f00", "url(#zz) currentColor",
    "url(#b) bogus", "&lt;&amp;&quot;", "&#x41;", "&#0;", "a&#xA;b", "9999999999999999999", "-", ".", "+5", "NaN", "inf", "1E", "٣", "😀", "&e;", "&f;"];
const IDS: &[&str] = &["a", "b", "c", "d", "a b", "é", "x1", "", "a", "#a", "zz)"];
const LINK_IDS: &[&str] = &["a", "b", "c", "d", "e"];
const LINK_AT: &[&str] = &["xlink:href", "fill", "stroke", "clip-path", "mask", "filter", "marker-start", "marker-mid"];
const TEXTS: &[&str] = &["text", " text ", "\n  text\n  more ", "  ", "\n", "\t\t", "a  b", "é", "日本", "&#x20;", "&amp;", "&lt;x", "&e;", "&f;", "a\r\nb",
    "<![CDATA[ c&d<e ]]>", "x&#xA;y", "\u{a0}", "&#9;", "<?pi some?>", "😀"];
const CSS: &[&str] = &["rect { fill: red }", ".c1 { stroke: url(#a); opacity: 0.5 }", "#a { fill: url(#b) }", "* { marker: url(#a) }",
    "g > rect { fill:none }", "rect:first-child { x: 10; fill: currentColor }", "[id=b] { stroke:#000 }", "bad {", "}", "a{b", "@import url(x);",
    "/* c */", "/*", "rect, path { transform: scale(2) }", "g { fill: bogus; font-size: 10px !important }", "text { font: 12px serif }", "é { }", ":hover{fill:red}", "\\",
    "* > svg { fill: red }", "* > * > * { fill: red }", "svg g rect { x: 1 }", "svg > * { stroke: red }", "rect + path { fill: url(#c) }", "* + svg { y: 2 }", "[class~=c1] { fill: red }",
    "[id|=a] { fill: red }", "[x^=\"1\"] { y: 3 }", "[x] [y] { fill: blue }", "svg:first-child { fill: red }", "#a.c1 > .c2 { fill: url(#d) red }", "g :first-child > path { d: M 1 2 }"];
const STYLES: &[&str] = &["fill:red", "fill: url(#a)", "stroke:url(#b) none", "marker:url(#c)", "bad", ":", ";;", "fill", "opacity:2", "-x:1", "fill:red !important", "font:1px x",
    "/*c*/fill:blue", "transform:scale(2)", "clip-path:url(#d)", "mask:none", "filter:url(#zz)", "color:é", "fill:\"q"];

fn list(s: &'static str) -> Vec<&'static str> { s.lines().filter(|l| !l.is_empty()).collect() }

use crate::values::salt;

struct Gen { r: Rng, out: String, budget: usize, els: Vec<&'static str>, ats: Vec<&'static str>, pre: &'static str, rich: bool, linky: bool, ids: usize }

impl Gen {
    fn value(&mut self) -> String {
        let r = &mut self.r;
        match r.below(8) {
            0 | 1 => format!("url(#{})", r.pick(IDS)),
            2 => format!("#{}{}", salt(), r.pick(IDS)),
            3 => format!("{}", crate::values::num(r)),
            4 => format!("{} {}", r.pick(VALUES), r.pick(VALUES)),
            _ => r.pick(VALUES).to_string(),
        }
    }
    fn attrs(&mut self) {
        let mut used: Vec<&str> = Vec::new();
        if self.linky {
            // references that overlap: attribute, style and sheet say different things about the same property
            if self.ids < IDS.len() && self.r.chance(1, 2) { used.push("id"); self.out.push_str(&format!(" id='{}{}'", salt(), LINK_IDS[self.ids % LINK_IDS.len()])); self.ids += 1; }
            for _ in 0..self.r.below(4) {
                let n = *self.r.pick(LINK_AT);
                if used.contains(&n) { continue; }
                used.push(n);
                let v = self.link(n);
                self.out.push_str(&format!(" {}='{}'", n, v));
            }
            if self.r.chance(1, 2) {
                used.push("style");
                let k = self.r.range(1, 3);
                self.out.push_str(" style='");
                for _ in 0..k { let n = *self.r.pick(&LINK_AT[1..]); let v = self.link(n); self.out.push_str(&format!("{}:{};", n, v)); }
                self.out.push('\'');
            }
        }
        for _ in 0..self.r.below(5) {
            let n = if self.r.chance(4, 5) { *self.r.pick(COMMON_AT) } else { *self.r.pick(&self.ats) };
            if used.contains(&n) && !self.r.chance(1, 60) { continue; }
            used.push(n);
            let v = match n {
                "id" => format!("{}{}", salt(), self.r.pick(IDS)),
                "class" => self.r.pick(&["c1", "c1 c2", " "]).to_string(),
                "xml:space" => self.r.pick(&["preserve", "default", "bogus"]).to_string(),
                "style" => (0..self.r.range(1, 3)).map(|_| *self.r.pick(STYLES)).collect::<Vec<_>>().join(";"),
                _ => self.value(),
            };
            let q = if self.r.chance(1, 4) { '\'' } else { '"' };
            let v: String = v.chars().map(|c| if c == q { ' ' } else { c }).collect();
            self.out.push_str(&format!(" {}={}{}{}", n, q, v, q));
        }
        if self.rich && self.r.chance(1, 8) { self.out.push_str(" foo:bar='1' data-x='2'"); }
    }
    fn link(&mut self, name: &str) -> String {
        let id = *self.r.pick(LINK_IDS);
        match (name, self.r.below(8)) {
            ("xlink:href", _) => format!("#{}{}", salt(), id),
            (_, 0) => self.r.pick(&["none", "inherit", "url(#gone)", "bogus"]).to_string(),
            ("fill", k) | ("stroke", k) if k < 4 => format!("url(#{}) {}", id, self.r.pick(&["none", "red", "currentColor"])),
            _ => format!("url(#{})", id),
        }
    }
    fn text(&mut self) {
        for _ in 0..self.r.range(1, 2) { let t = *self.r.pick(TEXTS); self.out.push_str(t); self.out.push_str(&salt()); }
    }
    fn element(&mut self, depth: usize) {
        if self.budget == 0 { return; }
        self.budget -= 1;
        let n = match self.r.below(20) {
            0 if self.rich => "unknown",
            1 if self.rich => "foo:el",
            2..=4 => *self.r.pick(&self.els),
            5..=8 => *self.r.pick(&["text", "tspan", "text", "tspan", "tref"]),
            _ => *self.r.pick(COMMON_EL),
        };
        let name = if n.contains(':') { n.to_string() } else { format!("{}{}", self.pre, n) };
        self.out.push('<');
        self.out.push_str(&name);
        self.attrs();
        if n == "style" {
            self.out.push('>');
            for _ in 0..self.r.range(0, 3) {
                if self.linky && self.r.chance(2, 3) {
                    let sel = *self.r.pick(&["*", "rect", "g", "#a", "#b", "svg > *", ".c1", "#c, #d"]);
                    let n = *self.r.pick(&["fill", "stroke", "clip-path", "mask", "filter", "marker-start", "marker"]);
                    let v = self.link(n);
                    self.out.push_str(&format!("{} {{ {}: {} }}\n", sel.replace('>', "&gt;"), n, v));
                    continue;
                }
                let c = *self.r.pick(CSS);
                if self.r.chance(1, 5) { self.out.push_str(&format!("<![CDATA[{}]]>", c)) } else { self.out.push_str(c) }
                self.out.push('\n');
            }
            if self.r.chance(1, 12) { self.element(depth + 1); }
            self.out.push_str(&format!("</{}>", name));
            return;
        }
        if self.r.chance(1, 4) || depth > 7 { self.out.push_str("/>"); return; }
        self.out.push('>');
        self.children(depth, n);
        self.out.push_str(&format!("</{}>", name));
    }
    fn children(&mut self, depth: usize, n: &str) {
        for _ in 0..self.r.below(5) {
            match self.r.below(10) {
                0 => { let c = *self.r.pick(&["<!-- c -->", "<!---->", "<!--a-b-->", "<!--\n-->"]); self.out.push_str(c) }
                1 | 2 => self.text(),
                3 if n == "text" || n == "tspan" => self.text(),
                4 => self.out.push_str("\n    "),
                _ => self.element(depth + 1),
            }
        }
        if (n == "text" || n == "tspan") && self.r.chance(2, 3) { self.text(); }
    }
}

pub fn document(arg: u32, rich: bool) -> String {
    let mut r = Rng::from2(arg as u64, 1234);
    let budget = r.range(1, if rich { 30 } else { 12 });
    let pre = if rich && r.chance(1, 10) { "s:" } else { "" };
    let mut g = Gen { r, out: String::new(), budget, els: list(ELEMENTS), ats: list(ATTRIBUTES), pre, rich, linky: false, ids: 0 };
    g.linky = g.r.chance(1, 3);
    if g.r.chance(1, 4) { g.out.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"); }
    let dtd = g.r.chance(2, 3);
    if dtd {
        g.out.push_str("<!DOCTYPE svg [\n<!ENTITY e \"ent\">\n<!ENTITY f \"<rect fill='url(#a)'/>x\">\n]>\n");
    }
    if g.r.chance(1, 5) { g.out.push_str("<!-- first -->\n"); }
    let ns = if g.r.chance(1, 40) { "http://www.w3.org/2000/sv" } else { "http://www.w3.org/2000/svg" };
    let colon = if pre.is_empty() { "" } else { ":s" };
    let top = if g.r.chance(1, 40) { "g" } else { "svg" };
    g.out.push_str(&format!("<{}{} xmlns{}='{}'", pre, top, colon, ns));
    g.out.push_str(" xmlns:xlink='http://www.w3.org/1999/xlink' xmlns:foo='urn:foo'");
    if g.r.chance(1, 2) { g.attrs(); }
    g.out.push('>');
    for _ in 0..g.r.range(1, 4) { g.children(0, "svg"); if g.budget > 0 { g.element(1) } }
    g.out.push_str(&format!("</{}{}>", pre, top));
    if g.r.chance(1, 8) { g.out.push_str("<!-- last -->"); }
    if g.r.chance(1, 60) { g.out.push_str("<x/>"); }
    let salt = salt();
    if !salt.is_empty() { g.out = g.out.replace("url(#", &format!("url(#{}", salt)); }
    g.out
}

/// Damages text the way storage does. `note` is told what was done.
pub fn damage(text: &str, arg: u32, note: &mut dyn FnMut(K)) -> String {
    let mut r = Rng::from2(arg as u64, 4321);
    let mut b = text.as_bytes().to_vec();
    for _ in 0..r.range(1, 3) {
        if b.is_empty() { break; }
        let at = r.below(b.len());
        let len = r.range(1, 1 + b.len().min(64)).min(b.len() - at);
        match r.below(8) {
            0 => { b.truncate(at); note(K::fault_truncate) }
            1 => { b[at] ^= 1 << r.below(8); note(K::fault_bit_flip) }
            2 => { for _ in 0..r.range(1, 4) { let i = r.below(b.len()); b[i] ^= 1 << r.below(7); } note(K::fault_bit_flip) }
            3 => { for x in &mut b[at..at + len] { *x = 32 + r.below(95) as u8 } note(K::fault_byte_garble) }
            4 => { for x in &mut b[at..at + len] { *x = 0 } note(K::fault_zero_fill) }
            5 => {
                let part = b[at..at + len].to_vec();
                let to = r.below(b.len());
                b.splice(to..to, part);
                note(K::fault_dup_range)
            }
            6 => { b.drain(at..at + len); note(K::fault_splice) }
            _ => {
                // swap one token's characters: keeps the text plausible
                let c = *r.pick(b"<>/\"'=&;# ()-:.0aM");
                b[at] = c;
                note(K::fault_byte_garble)
            }
        }
    }
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(e) => { note(K::fault_invalid_utf8); String::from_utf8_lossy(e.as_bytes()).into_owned() }
    }
}
