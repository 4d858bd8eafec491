//! Editing sessions over a simulated disk: edit, save, crash, restart, load, compare, repeat.
use crate::peer;
use crate::rng::Rng;
use crate::seam::call;
use crate::stats::{add, hit, K};
use crate::values::{self, Tables};
use crate::world::*;
use svgdom::*;

macro_rules! ensure {
    ($c:expr, $tags:expr, $class:expr, $($arg:tt)*) => { if !$c { return viol($tags, $class, format!($($arg)*)); } }
}

// ---------------------------------------------------------------- snapshots

#[derive(Clone, Debug)]
pub enum SVal { Plain(AttributeValue), Link(Lk, usize, Option<PaintFallback>) }

#[derive(Clone, Debug)]
pub struct SNode { pub kind: Kind, pub tag: Tg, pub id: String, pub text: String, pub attrs: Vec<(AttributeId, SVal)>, pub kids: usize }

/// What a saved document must come back as: its nodes in document order.
#[derive(Clone, Debug)]
pub struct Snap(pub Vec<SNode>);

fn snapshot(w: &World, d: usize) -> Snap {
    let keep = |m: usize| !matches!(w.n[m].tag, Tg::Cu(_));
    let order: Vec<usize> = w.subtree(w.docs[d].root).into_iter().filter(|&m| keep(m)).collect();
    let at = |m: usize| order.iter().position(|&x| x == m).unwrap_or(usize::MAX);
    Snap(order.iter().map(|&m| {
        let n = &w.n[m];
        let mut attrs: Vec<(AttributeId, SVal)> = n.attrs.iter().filter_map(|(nm, v)| match nm {
            Nm::Id(i) => Some((*i, match v { MVal::Plain(v) => SVal::Plain(v.clone()), MVal::Link(k, t, f) => SVal::Link(*k, at(*t), *f) })),
            _ => None,
        }).collect();
        attrs.sort_by_key(|a| a.0 as usize);
        SNode { kind: n.kind, tag: n.tag, id: n.id.clone(), text: n.text.clone(), attrs, kids: n.children.iter().filter(|&&c| keep(c)).count() }
    }).collect())
}

fn compare(want: &Snap, got: &Snap) -> Result<(), String> {
    for (i, (a, b)) in want.0.iter().zip(got.0.iter()).enumerate() {
        let name = || format!("node #{} {:?} id={:?}", i, a.tag, a.id);
        if a.kind != b.kind || a.tag != b.tag { return Err(format!("{}: came back as {:?} {:?}", name(), b.kind, b.tag)); }
        if a.id != b.id { return Err(format!("{}: id came back as {:?}", name(), b.id)); }
        if a.text != b.text { return Err(format!("{}: text {:?} came back as {:?}", name(), a.text, b.text)); }
        for (n, v) in &a.attrs {
            let w = match b.attrs.iter().find(|x| x.0 == *n) {
                Some(w) => &w.1, None => return Err(format!("{}: attribute {:?} = {:?} was lost", name(), n, v)) };
            let ok = match (v, w) {
                (SVal::Plain(v), SVal::Plain(w)) => values::val_close(v, w),
                (SVal::Link(k, t, f), SVal::Link(k2, t2, f2)) => k == k2 && t == t2 && f == f2,
                _ => false,
            };
            if !ok { return Err(format!("{}: attribute {:?} = {:?} came back as {:?}", name(), n, v, w)); }
        }
        if let Some(x) = b.attrs.iter().find(|x| !a.attrs.iter().any(|y| y.0 == x.0)) {
            return Err(format!("{}: attribute {:?} = {:?} appeared", name(), x.0, x.1));
        }
        if a.kids != b.kids { return Err(format!("{}: {} children came back as {}", name(), a.kids, b.kids)); }
    }
    if want.0.len() != got.0.len() { return Err(format!("{} nodes came back as {}", want.0.len(), got.0.len())); }
    Ok(())
}

// ---------------------------------------------------------------- the session

pub struct Sess {
    pub doc: usize,
    /// Bytes that survive a crash.
    main: Vec<u8>,
    /// The last text known to be durable, and what it must load as.
    acked: Option<(String, Snap)>,
    /// A save in flight when the crash came.
    pending: Option<(String, Snap)>,
    /// The generation before the last durable one.
    older: Option<(String, Snap)>,
    tab: Tables,
}

/// Ids a reference can spell: no white space, no parentheses.
fn safe_id(s: &str) -> bool { !s.is_empty() && !s.chars().any(|c| c.is_whitespace() || c == ')' || c == '(') }

const TEXT_EL: &[ElementId] = &[ElementId::Text, ElementId::Tspan];
const ODD: &[&str] = &["a b", "é", "<", "&", "\"", "'", "&amp;", "a:b", "#", ")", "日", "\t", "\n", " x", "%20", "😀", "&#x41;", "]]>"];
const TEXTS: &[&str] = &["text", "a b", "é", "日本 語", "x<y", "a>b", "\"q\"", "'s'", "1", "😀", "<b>", "lt;", "%", "\u{a0}", "a\u{a0}b", "-->", "{x}", "]]>", "&", "a&b", "&amp;", "&lt;", "&#65;", "&foo;", ";", "R&D;"];
const CUSTOM_AT: &[&str] = &["data-a", "zzz", "custom_b"];

impl World {
    fn sess_init(&mut self) -> R {
        let d = match self.open_docs().first() { Some(&d) => d, None => self.open_doc()? };
        self.sess = Some(Sess { doc: d, main: Vec::new(), acked: None, pending: None, older: None, tab: values::tables() });
        self.sess_svg(d)
    }

    fn sess_svg(&mut self, d: usize) -> R {
        let doc = self.docs[d].doc.as_mut().unwrap();
        let r = call(|| { let e = doc.create_element(ElementId::Svg); doc.root().append(e.clone()); e });
        let e = match r { Ok(e) => e, Err(e) => return viol(C08, "create-panic", format!("unexpected panic: {}", e)) };
        let m = self.m_node(d, Kind::Element, Tg::Id(ElementId::Svg), String::new());
        self.n[m].h = Some(e);
        let root = self.docs[d].root;
        self.m_insert(root, 0, m);
        Ok(())
    }

    /// The `text` element a node is in, if any.
    fn in_text(&self, mut x: usize) -> Option<usize> {
        loop {
            if self.n[x].tag == Tg::Id(ElementId::Text) { return Some(x); }
            x = self.n[x].parent?;
        }
    }
    fn preserve(&self, text_el: usize) -> bool {
        matches!(self.get_attr(text_el, &Nm::Id(AttributeId::Space)), Some(MVal::Plain(AttributeValue::String(s))) if s == "preserve")
    }
    /// Text outside `text` elements (a title, say) is loaded without the white space around it, unless it is to be preserved.
    fn captioned(&self, x: usize) -> bool {
        self.in_text(x).is_none() && self.n[x].children.iter().any(|&c| self.n[c].kind == Kind::Text)
    }
    fn has_caption(&self, x: usize) -> bool {
        self.captioned(x) || self.n[x].children.iter().any(|&c| self.has_caption(c))
    }
    fn under_preserve(&self, mut x: usize) -> bool {
        loop {
            // The nearest one counts.
            if let Some(MVal::Plain(AttributeValue::String(_))) = self.get_attr(x, &Nm::Id(AttributeId::Space)) { return self.preserve(x); }
            x = match self.n[x].parent { Some(q) => q, None => return false };
        }
    }
    fn is_svg_el(&self, x: usize) -> bool { self.n[x].kind == Kind::Element && matches!(self.n[x].tag, Tg::Id(_)) }

    pub fn sess_step(&mut self, s: &Step) -> R<Option<u32>> {
        if self.sess.is_none() { self.sess_init()?; }
        let d = self.sess.as_ref().unwrap().doc;
        let r = match s.op {
            Op::SNewEl | Op::SNewText | Op::SNewComment => self.s_create(d, s),
            Op::SSetAttr | Op::SCustom => self.s_attr(d, s),
            Op::SRemoveAttr => self.s_rm_attr(d, s),
            Op::SSetLink => self.s_link(d, s),
            Op::SSetId => self.s_id(d, s),
            Op::SRemove => self.s_remove(d, s),
            Op::SMove => self.s_move(d, s),
            Op::SSave => self.s_save(s),
            Op::SRestart => { if self.sess.as_ref().unwrap().acked.is_none() { return Ok(None); } hit(K::fault_crash_after_ack); self.s_restart()?; Ok(Some(C08)) }
            Op::SDamage => self.s_damage(s),
            Op::SForeign => self.s_foreign(s),
            Op::SRecord | Op::SPeer => self.s_peer(s),
            _ => Ok(None),
        };
        r
    }

    pub fn bulk_place(&self, m: usize) -> bool { self.is_svg_el(m) && !self.captioned(m) && self.in_text(m).is_none() }

    fn s_create(&mut self, d: usize, s: &Step) -> R<Option<u32>> {
        if self.docs[d].live.len() >= self.cfg.max_nodes + self.bulk { return Ok(None); }
        let mut r = Rng::from2(s.c as u64, 31);
        let root = self.docs[d].root;
        let q = match s.op {
            Op::SNewText if s.d & 14 == 14 => self.pick_live(d, s.a, |m| self.is_svg_el(m) && self.in_text(m).is_none() && self.n[m].children.is_empty() && !self.under_preserve(m)),
            Op::SNewText => self.pick_live(d, s.a, |m| TEXT_EL.iter().any(|t| self.n[m].tag == Tg::Id(*t)) && self.in_text(m).is_some()),
            Op::SNewComment => self.pick_live(d, s.a, |m| (self.is_svg_el(m) && !self.captioned(m)) || m == root),
            _ => self.pick_live(d, s.a, |m| self.is_svg_el(m) && !self.captioned(m)),
        };
        let q = match q { Some(q) => q, None => return Ok(None) };
        let q = if s.op == Op::SNewEl { self.pick_parent(d, s.a, |m| self.is_svg_el(m) && !self.captioned(m)).unwrap_or(q) } else { q };
        let nk = self.n[q].children.len();
        let i = if s.d & 1 == 0 { nk } else { s.b as usize % (nk + 1) };
        let mut touch = Vec::new();
        self.near(q, &mut touch);
        for k in i.saturating_sub(1)..(i + 1).min(nk) { let c = self.n[q].children[k]; self.near(c, &mut touch); }
        if !self.clear_to_edit(&touch) { return Ok(None); }
        let (kind, tag, text) = match s.op {
            Op::SNewText => {
                let is_text = |k: usize| self.n[q].children.get(k).map(|&c| self.n[c].kind == Kind::Text) == Some(true);
                if is_text(i) || (i > 0 && is_text(i - 1)) { return Ok(None); }
                let mut t = String::new();
                let words = if r.chance(1, 40) { *r.pick(&[12, 40, 150, 600]) } else { r.range(1, 3) };
                for k in 0..words { if k > 0 { t.push(' ') } t.push_str(r.pick(TEXTS)); }
                if self.in_text(q).is_none() && t.trim().is_empty() { t.push('x') }
                if self.in_text(q).map(|te| self.preserve(te)) == Some(true) {
                    if r.chance(1, 2) { t.insert(0, ' ') }
                    if r.chance(1, 2) { t.push_str(&"  "[..r.range(1, 2)]) }
                    if r.chance(1, 4) { t = t.replace(' ', "   ") }
                    if r.chance(1, 6) { t = " ".repeat(r.range(1, 3)) }
                } else if self.in_text(q).is_some() && t.trim() == t {
                    if r.chance(1, 3) { t.insert(0, ' ') }
                    if r.chance(1, 3) { t.push(' ') }
                }
                (Kind::Text, Tg::Nothing, t)
            }
            Op::SNewComment => {
                let t = *r.pick(&["", " c ", "a<b&c", "x\ny", "é", "a-b", "]]>", "<!-", "\"'", "\t", "&amp;"]);
                (Kind::Comment, Tg::Nothing, if r.chance(1, 40) { "lorem ipsum\n".repeat(r.range(2, 90)) } else { t.to_string() })
            }
            _ => {
                let inside = self.in_text(q).is_some();
                let tab = &self.sess.as_ref().unwrap().tab;
                let e = match s.b % 8 {
                    0..=2 => *r.pick(&tab.elems),
                    3 | 4 if FOCUS.with(|f| f.get()) == C17 && r.chance(2, 3) => *r.pick(&[ElementId::LinearGradient, ElementId::RadialGradient, ElementId::Pattern,
                        ElementId::ClipPath, ElementId::Mask, ElementId::Filter, ElementId::Marker, ElementId::Use, ElementId::Symbol, ElementId::G]),
                    3 | 4 => ElementId::Text,
                    5 => ElementId::Tspan,
                    6 => *r.pick(&[ElementId::G, ElementId::Defs, ElementId::Svg]),
                    _ => *r.pick(&[ElementId::LinearGradient, ElementId::Rect, ElementId::Use, ElementId::ClipPath, ElementId::Animate, ElementId::Path]),
                };
                let e = if inside && (e == ElementId::Text || s.b & 64 == 0) { ElementId::Tspan } else { e };
                // White space (so indentation too) is content inside these, also where SVG has no place for them.
                let e = if !inside && (e == ElementId::Tspan || e == ElementId::Tref) { ElementId::G } else { e };
                if s.d % 16 == 5 && !inside { (Kind::Element, Tg::Cu("custom"), String::new()) } else { (Kind::Element, Tg::Id(e), String::new()) }
            }
        };
        let qh = self.handle(q)?;
        let sib = if i < nk { Some(self.handle(self.n[q].children[i])?) } else { None };
        let doc = self.docs[d].doc.as_mut().unwrap();
        let t2 = text.clone();
        let preserve = tag == Tg::Id(ElementId::Text) && s.d % 4 >= 2;
        let r = call(|| {
            let mut n = match kind {
                Kind::Element => doc.create_element(tref(&tag)),
                Kind::Text => doc.create_node(NodeType::Text, t2),
                _ => doc.create_node(NodeType::Comment, t2),
            };
            if preserve { n.set_attribute((AttributeId::Space, "preserve")); }
            let mut qh = qh;
            match sib { Some(mut x) => x.insert_before(n.clone()), None => qh.append(n.clone()) }
            n
        });
        let node = match r { Ok(n) => n, Err(e) => return viol(C01, "create-panic", format!("unexpected panic: {}", e)) };
        let m = self.m_node(d, kind, tag, text);
        self.n[m].h = Some(node);
        if preserve { self.n[m].attrs.push((Nm::Id(AttributeId::Space), MVal::Plain(AttributeValue::String("preserve".into())))); }
        self.m_insert(q, i, m);
        self.out(s, m as u64);
        hit(K::op_create);
        Ok(Some(C01))
    }

    fn s_attr(&mut self, d: usize, s: &Step) -> R<Option<u32>> {
        let custom = s.op == Op::SCustom;
        let x = match self.pick_live(d, s.a, |m| self.n[m].kind == Kind::Element) { Some(x) => x, None => return Ok(None) };
        let eid = match self.n[x].tag { Tg::Id(e) => e, _ => ElementId::G };
        let nm = if custom || (!self.is_svg_el(x) && s.d % 2 == 0) { Nm::Cu(CUSTOM_AT[s.b as usize % CUSTOM_AT.len()]) } else {
            let tab = &self.sess.as_ref().unwrap().tab;
            let mut a = tab.attrs[s.b as usize % tab.attrs.len()];
            if s.d % 24 == 3 { a = AttributeId::MarkerStart }
            if a == AttributeId::Space && (!self.is_svg_el(x) || self.in_text(x).is_some() || self.has_caption(x)) { return Ok(None); }
            Nm::Id(a)
        };
        let v = match nm { Nm::Id(a) => values::typed_value(a, eid, s.c), _ => values::any_value(s.c) };
        let mut touch = vec![x];
        if let Some(MVal::Link(_, t, _)) = self.get_attr(x, &nm) { touch.push(*t) }
        if !self.clear_to_edit(&touch) { return Ok(None); }
        let mut h = self.handle(x)?;
        let v2 = v.clone();
        self.lib(C04, "set-attr-panic", || h.set_attribute((nref(&nm), v2)))?;
        self.m_set_attr(x, nm, MVal::Plain(v.clone()));
        hit(K::op_set_attr);
        self.out(s, x as u64);
        if nm == Nm::Id(AttributeId::MarkerStart) { self.other_markers(x, s, |_| MVal::Plain(v.clone()))? }
        Ok(Some(C04))
    }

    fn s_rm_attr(&mut self, d: usize, s: &Step) -> R<Option<u32>> {
        let x = match self.pick_live(d, s.a, |m| !self.n[m].attrs.is_empty()) { Some(x) => x, None => return Ok(None) };
        let nm = self.n[x].attrs[s.b as usize % self.n[x].attrs.len()].0;
        if nm == Nm::Id(AttributeId::Space) && self.in_text(x).is_some() { return Ok(None); }
        let mut touch = vec![x];
        if let Some(MVal::Link(_, t, _)) = self.get_attr(x, &nm) { touch.push(*t) }
        if !self.clear_to_edit(&touch) { return Ok(None); }
        let mut h = self.handle(x)?;
        self.lib(C04, "remove-attr-panic", || h.remove_attribute(nref(&nm)))?;
        self.m_rm_attr(x, &nm);
        hit(K::op_remove_attr);
        self.out(s, x as u64);
        Ok(Some(C04))
    }

    fn s_link(&mut self, d: usize, s: &Step) -> R<Option<u32>> {
        let x = match self.pick_live(d, s.a, |m| self.is_svg_el(m)) { Some(x) => x, None => return Ok(None) };
        let t = match self.pick_live(d, s.b, |m| m != x && self.is_svg_el(m) && safe_id(&self.n[m].id)) { Some(t) => t, None => return Ok(None) };
        if self.n[t].attrs.iter().any(|a| matches!(a.1, MVal::Link(_, q, _) if q == x)) { return Ok(None); }
        let tab = &self.sess.as_ref().unwrap().tab;
        let aid = tab.link_attrs[s.c as usize % tab.link_attrs.len()];
        let eid = match self.n[x].tag { Tg::Id(e) => e, _ => return Ok(None) };
        use ElementId as E;
        if aid == AttributeId::Fill && [E::Set, E::Animate, E::AnimateColor, E::AnimateMotion, E::AnimateTransform].contains(&eid) { return Ok(None); }
        let nm = if s.d % 16 == 9 { Nm::Cu(CUSTOM_AT[s.c as usize % CUSTOM_AT.len()]) } else { Nm::Id(aid) };
        let mut touch = vec![x, t];
        if let Some(MVal::Link(_, o, _)) = self.get_attr(x, &nm) { touch.push(*o) }
        if !self.clear_to_edit(&touch) { return Ok(None); }
        let kind = link_kind(&nm);
        let mut r = Rng::from2(s.d as u64, 8);
        let fb = if kind == Lk::Paint { match r.below(4) {
            0 => None,
            1 => Some(PaintFallback::None),
            2 => Some(PaintFallback::CurrentColor),
            _ => Some(PaintFallback::Color(values::color(&mut r))),
        } } else { None };
        let (mut h, th) = (self.handle(x)?, self.handle(t)?);
        let ok = self.lib(C04 | C03, "set-link-panic", || if kind == Lk::Paint {
            h.set_attribute_checked((nref(&nm), (th, fb))).is_ok()
        } else {
            h.set_attribute_checked((nref(&nm), th)).is_ok()
        })?;
        if !ok { return viol(C04 | C03, "link-verdict", "a proper link was refused"); }
        self.m_set_attr(x, nm, MVal::Link(kind, t, fb));
        hit(K::op_set_link);
        self.out(s, x as u64);
        if nm == Nm::Id(AttributeId::MarkerStart) { self.other_markers(x, s, |_| MVal::Link(kind, t, None))? }
        Ok(Some(C03 | C04))
    }

    /// Gives an element the other two markers too, as documents that use the `marker` shorthand have them.
    fn other_markers(&mut self, x: usize, s: &Step, value: impl Fn(AttributeId) -> MVal) -> R<()> {
        if s.d % 3 == 2 { return Ok(()); }
        for aid in [AttributeId::MarkerMid, AttributeId::MarkerEnd] {
            let nm = Nm::Id(aid);
            if let Some(MVal::Link(_, o, _)) = self.get_attr(x, &nm) { let o = *o; if !self.clear_to_edit(&[o]) { return Ok(()); } }
            let mut h = self.handle(x)?;
            let v = value(aid);
            match &v {
                MVal::Plain(p) => { let p = p.clone(); self.lib(C04, "set-attr-panic", || h.set_attribute((nref(&nm), p)))? }
                MVal::Link(_, t, _) => {
                    let th = self.handle(*t)?;
                    if !self.lib(C04 | C03, "set-link-panic", || h.set_attribute_checked((nref(&nm), th)).is_ok())? {
                        return viol(C04 | C03, "link-verdict", "a proper link was refused");
                    }
                }
            }
            self.m_set_attr(x, nm, v);
        }
        Ok(())
    }

    fn s_id(&mut self, d: usize, s: &Step) -> R<Option<u32>> {
        let x = match self.pick_live(d, s.a, |m| self.is_svg_el(m)) { Some(x) => x, None => return Ok(None) };
        if !self.clear_to_edit(&[x]) { return Ok(None); }
        let used = !self.users(x).is_empty();
        let mut id = self.new_id();
        while self.docs[d].live.iter().any(|&m| self.n[m].id == id) { id = self.new_id(); }
        if !used && s.b % 4 == 0 { id = format!("{}{}", id, ODD[s.c as usize % ODD.len()]); }
        if !used && s.b % 16 == 1 { id = String::new(); }
        if used { hit(K::rename_used_id) }
        let mut h = self.handle(x)?;
        let id2 = id.clone();
        self.lib(C04, "set-id-panic", || h.set_id(id2))?;
        self.n[x].id = id;
        hit(K::op_set_id);
        self.out(s, x as u64);
        Ok(Some(C04))
    }

    fn s_remove(&mut self, d: usize, s: &Step) -> R<Option<u32>> {
        let root = self.docs[d].root;
        let x = match self.pick_live(d, s.a, |m| m != root && !(self.n[m].parent == Some(root) && self.n[m].kind == Kind::Element)) {
            Some(x) => x, None => return Ok(None) };
        if s.b % 4 != 0 && self.subtree(x).len() > 6 { return Ok(None); }
        // Never let two text nodes become neighbours.
        let q = self.n[x].parent.unwrap();
        let i = self.pos(x);
        let ch = &self.n[q].children;
        if i > 0 && i + 1 < ch.len() && self.n[ch[i - 1]].kind == Kind::Text && self.n[ch[i + 1]].kind == Kind::Text { return Ok(None); }
        let mut touch = Vec::new();
        self.touch_remove(x, &mut touch);
        if !self.clear_to_edit(&touch) { return Ok(None); }
        let h = self.handle(x)?;
        let doc = self.docs[d].doc.as_mut().unwrap();
        if let Err(e) = call(|| doc.remove_node(h)) { return viol(C05, "remove-panic", format!("unexpected panic: {}", e)); }
        self.m_remove(x);
        hit(K::op_remove);
        self.out(s, x as u64);
        Ok(Some(C05))
    }

    fn s_move(&mut self, d: usize, s: &Step) -> R<Option<u32>> {
        let root = self.docs[d].root;
        let x = match self.pick_live(d, s.a, |m| m != root && self.n[m].parent != Some(root) && self.n[m].kind == Kind::Element
            && (self.in_text(m).is_none() || self.in_text(m) == Some(m))) { Some(x) => x, None => return Ok(None) };
        let q = match self.pick_live(d, s.b, |m| self.is_svg_el(m) && !self.is_anc_or_self(x, m) && self.in_text(m).is_none() && !self.captioned(m)
            && !(self.has_caption(x) && self.under_preserve(m))) {
            Some(q) => q, None => return Ok(None) };
        let rest: Vec<usize> = self.n[q].children.iter().cloned().filter(|&c| c != x).collect();
        let op = match s.c % 4 { 0 => Op::Append, 1 => Op::Prepend, 2 if !rest.is_empty() => Op::Before, 3 if !rest.is_empty() => Op::After, _ => Op::Append };
        let t = if matches!(op, Op::Append | Op::Prepend) { q } else { rest[s.d as usize % rest.len()] };
        self.do_insert(op, t, x)?;
        self.out(s, x as u64);
        Ok(Some(C01))
    }

    // ------------------------------------------------------------ storage

    /// Takes redundant spaces out of text: where a piece of text begins or ends, and where two pieces meet.
    fn s_normalise(&mut self, d: usize) -> R<bool> {
        let mut set: Vec<(usize, String)> = Vec::new();
        let mut stack: Vec<usize> = self.docs[d].live.iter().cloned()
            .filter(|&m| self.n[m].tag == Tg::Id(ElementId::Text) && self.in_text_above(m).is_none() && !self.under_preserve(m)).collect();
        while let Some(x) = stack.pop() {
            let ch = &self.n[x].children;
            if !ch.iter().any(|&c| self.n[c].kind == Kind::Text) {
                stack.extend(ch.iter().cloned().filter(|&c| self.n[c].kind == Kind::Element));
                continue;
            }
            let texts: Vec<usize> = self.subtree(x).into_iter().filter(|&m| self.n[m].kind == Kind::Text).collect();
            let mut open = true; // nothing, or a space, before this piece
            for (i, &m) in texts.iter().enumerate() {
                let mut t = self.n[m].text.clone();
                if open && t.starts_with(' ') { t.remove(0); }
                if i + 1 == texts.len() && t.ends_with(' ') { t.pop(); }
                open = t.ends_with(' ');
                if t != self.n[m].text { set.push((m, t)) }
            }
        }
        for (m, t) in set {
            if !self.clear_to_edit(&[m]) { return Ok(false); }
            let mut h = self.handle(m)?;
            let t2 = t.clone();
            self.lib(C04, "set-text-panic", || h.set_text(&t2))?;
            self.n[m].text = t;
        }
        Ok(true)
    }
    fn in_text_above(&self, x: usize) -> Option<usize> { self.n[x].parent.and_then(|q| self.in_text(q)) }

    /// Does the text, as any XML reader sees it, hold the document, what is not SVG included?
    fn mirror(&self, d: usize, text: &str) -> R {
        let kids = match peer::parse(text) { Some(k) => k, None => return viol(C08, "mirror", format!("the saved text is not well-formed: {:?}", text)) };
        hit(K::disk_mirrored);
        self.mirror_kids(&kids, self.docs[d].root, false).map_err(|mut v| { v.msg = format!("{} (text {:?})", v.msg, text); v })
    }
    fn mirror_kids(&self, kids: &[peer::Kid], x: usize, in_text: bool) -> R {
        use peer::Kid;
        let mut it = self.n[x].children.iter();
        for k in kids {
            if let Kid::Text(t, _) = k { if t.trim().is_empty() && !(in_text && it.clone().next().map(|&m| self.n[m].kind == Kind::Text) == Some(true)) { continue; } }
            let m = match it.next() { Some(&m) => m, None => return viol(C08, "mirror", "the saved text has a node that is not in the document") };
            let n = &self.n[m];
            match k {
                Kid::Raw(_) => {}
                Kid::Comment(t, _) => ensure!(n.kind == Kind::Comment && *t == n.text, C08, "mirror", "comment {:?} saved as {:?}", n.text, t),
                Kid::Text(t, _) => ensure!(n.kind == Kind::Text && peer::decode(t).trim() == n.text.trim(), C08, "mirror", "text {:?} saved as {:?}", n.text, t),
                Kid::El(e) => {
                    let name = match n.tag { Tg::Id(i) => i.as_str(), Tg::Cu(c) => c, Tg::Nothing => "" };
                    ensure!(n.kind == Kind::Element && e.name == name, C08, "mirror", "element {:?} saved as {:?}", name, e.name);
                    let mut want = 0;
                    if !n.id.is_empty() {
                        want += 1;
                        ensure!(e.attrs.iter().any(|a| a.0 == "id" && peer::decode(&a.1) == n.id), C08, "mirror", "id {:?} is not in the saved text", n.id);
                    }
                    for (nm, v) in &n.attrs {
                        let name = match nm { Nm::Id(AttributeId::Href) => "xlink:href", Nm::Id(AttributeId::Space) => "xml:space", Nm::Id(a) => a.as_str(), Nm::Cu(c) => c };
                        if *nm == Nm::Id(AttributeId::Unicode) && !matches!(v, MVal::Plain(AttributeValue::String(_))) { continue; }
                        want += 1;
                        let got = match e.attrs.iter().find(|a| a.0 == name) { Some(a) => peer::decode(&a.1), None => return viol(C08, "mirror", format!("attribute {} of a {} is not in the saved text", name, e.name)) };
                        let ok = match v {
                            MVal::Plain(AttributeValue::String(s)) => got == *s || *nm == Nm::Id(AttributeId::Unicode),
                            MVal::Plain(_) => true,
                            MVal::Link(Lk::Link, t, _) => got == format!("#{}", self.n[*t].id),
                            MVal::Link(_, t, _) => got.starts_with(&format!("url(#{})", self.n[*t].id)),
                        };
                        ensure!(ok, C08, "mirror", "attribute {} saved as {:?}", name, got);
                    }
                    let have = e.attrs.iter().filter(|a| !a.0.starts_with("xmlns")).count();
                    ensure!(have == want, C08, "mirror", "a {} saved with {} attributes instead of {}", e.name, have, want);
                    self.mirror_kids(&e.kids, m, in_text || peer::is_text_el(&e.name))?;
                }
            }
        }
        ensure!(it.next().is_none(), C08, "mirror", "a node of the document is not in the saved text");
        Ok(())
    }

    fn s_save(&mut self, s: &Step) -> R<Option<u32>> {
        if self.write_guard() { return Ok(None); }
        let d = self.sess.as_ref().unwrap().doc;
        let opt = values::write_options(s.a);
        if !self.s_normalise(d)? { return Ok(None); }
        let text = self.save_text(d, &opt)?;
        self.dig.s(&text);
        if s.d % 4 == 0 { self.mirror(d, &text)? }
        let snap = snapshot(self, d);
        let mut r = Rng::from2(s.d as u64, 71);
        let sector = self.cfg.sector;
        let se = self.sess.as_mut().unwrap();
        let new = text.as_bytes().to_vec();
        let nsec = (new.len() + sector - 1) / sector;
        let proto = s.b % 4; // 0, 1: write aside, sync, rename, sync; 2: in place; 3: rename without sync
        let crash = s.c % 3 == 0;
        hit(K::op_save);
        hit(if proto == 2 { K::disk_saves_inplace } else { K::disk_saves_atomic });
        if !crash {
            se.main = new;
            if let Some(a) = se.acked.replace((text, snap)) { if a.0 != se.acked.as_ref().unwrap().0 { se.older = Some(a) } }
            hit(K::disk_acked);
            self.out(s, 1);
            return Ok(Some(C08));
        }
        // The crash happens after `k` of the protocol's actions.
        se.pending = Some((text, snap));
        let k = r.below(nsec + 3);
        let old = se.main.clone();
        let mixed = |r: &mut Rng, base: &[u8], wrote: usize| -> Vec<u8> {
            // Of the first `wrote` sectors, in any order, some reached the disk whole, some torn, some not at all.
            let mut out = base.to_vec();
            let (mut torn, mut lost) = (false, false);
            let mut seq: Vec<usize> = (0..wrote.min(nsec)).collect();
            for i in (1..seq.len()).rev() { let j = r.below(i + 1); seq.swap(i, j); }
            let stop = r.range(0, seq.len());
            if seq.len() > 1 { hit(K::fault_reordered_sectors) }
            for (n, &i) in seq.iter().enumerate() {
                if n >= stop && r.chance(3, 4) { lost = true; continue; }
                let (a, b) = (i * sector, ((i + 1) * sector).min(new.len()));
                if out.len() < b { out.resize(b, 0) }
                let half = r.chance(1, 6);
                let b2 = if half { torn = true; a + (b - a) / 2 } else { b };
                out[a..b2].copy_from_slice(&new[a..b2]);
            }
            if torn { hit(K::fault_torn_sector) }
            if lost { hit(K::fault_lost_sector) }
            out
        };
        let bytes = match proto {
            0 | 1 => { // aside + sync + rename: the old or the new file, never a mixture
                if k < nsec + 1 { hit(K::fault_crash_mid_write); old }
                else { hit(K::fault_crash_before_sync); if r.chance(1, 2) { new.clone() } else { old } }
            }
            2 => {
                hit(K::fault_crash_mid_write);
                let base: Vec<u8> = if r.chance(1, 2) { Vec::new() } else { old.clone() };
                let mut out = mixed(&mut r, &base, k);
                if r.chance(1, 3) && out.len() > new.len() { out.truncate(new.len()) }
                out
            }
            _ => {
                hit(K::fault_crash_before_sync);
                if r.chance(1, 3) { old } else { mixed(&mut r, &[], nsec) }
            }
        };
        self.sess.as_mut().unwrap().main = bytes;
        self.out(s, 2);
        self.s_restart()?;
        Ok(Some(C08))
    }

    /// The process is gone: everything in memory is dropped, only the disk is left.
    fn s_down(&mut self) -> R {
        self.guards.clear();
        self.curs.clear();
        for d in self.open_docs() { self.close_doc(d, 0)?; }
        for m in std::mem::take(&mut self.closed) { self.n[m].h = None; self.n[m].st = St::Gone; }
        for m in std::mem::take(&mut self.removed) { self.n[m].h = None; self.n[m].st = St::Gone; }
        Ok(())
    }

    fn s_restart(&mut self) -> R {
        self.s_down()?;
        let se = self.sess.as_mut().unwrap();
        let bytes = se.main.clone();
        let pending = se.pending.take();
        if let Some(p) = pending { if p.0.as_bytes() == &bytes[..] { se.acked = Some(p); } }
        if se.acked.as_ref().map(|a| a.0.as_bytes() == &bytes[..]) == Some(true) {
            hit(K::restart_clean);
            return self.s_load_clean();
        }
        hit(K::restart_damaged);
        let text = match String::from_utf8(bytes) {
            Ok(t) => t,
            Err(e) => { hit(K::fault_invalid_utf8); String::from_utf8_lossy(e.as_bytes()).into_owned() }
        };
        self.s_load_any(&text, 1)?;
        self.s_recover()
    }

    /// Goes back to the last acknowledged text (a backup), or starts over if there is none.
    fn s_recover(&mut self) -> R {
        self.s_down()?;
        let se = self.sess.as_mut().unwrap();
        if let Some(a) = &se.acked {
            se.main = a.0.as_bytes().to_vec();
            return self.s_load_clean();
        }
        se.main.clear();
        let d = self.open_doc()?;
        self.sess.as_mut().unwrap().doc = d;
        self.sess_svg(d)
    }

    fn s_load_clean(&mut self) -> R {
        let cand = self.sess.as_mut().unwrap().acked.take().unwrap();
        let r = call(|| Document::from_str(&cand.0));
        let doc = match r {
            Ok(Ok(d)) => d,
            Ok(Err(e)) => return viol(C08, "reload-error", format!("a saved document does not load: {} in {:?}", e, clip(&cand.0))),
            Err(e) => return viol(C08 | C09, "reload-panic", format!("loading a saved document panicked: {}", e)),
        };
        let d = self.import(doc, C08)?;
        let got = snapshot(self, d);
        if let Err(e) = compare(&cand.1, &got) { return viol(C08, "reload-differs", format!("{} (saved text {:?})", e, clip(&cand.0))); }
        add(K::roundtrip_nodes, got.0.len() as u64);
        add(K::roundtrip_attrs, got.0.iter().map(|n| n.attrs.len() as u64).sum());
        add(K::roundtrip_links, got.0.iter().flat_map(|n| n.attrs.iter()).filter(|a| matches!(a.1, SVal::Link(..))).count() as u64);
        add(K::roundtrip_texts, got.0.iter().filter(|n| n.kind == Kind::Text).count() as u64);
        hit(K::generations);
        let se = self.sess.as_mut().unwrap();
        se.doc = d;
        se.acked = Some(cand);
        self.check(C08 | C03)
    }

    /// Loads whatever is there; if it yields a document, that document must be in order and usable.
    fn s_load_any(&mut self, text: &str, arg: u32) -> R {
        let before = crate::alloc::live();
        let r = call(|| Document::from_str(text));
        match r {
            Ok(Ok(doc)) => {
                hit(K::damaged_load_ok);
                let d = self.import(doc, C09)?;
                for &m in &self.docs[d].live {
                    if self.n[m].kind == Kind::Text && self.n[m].text.is_empty() {
                        return viol(C09, "empty-text", "a loaded document has an empty text node");
                    }
                    if self.n[m].tag == Tg::Id(ElementId::Style) {
                        return viol(C09, "style-left", "a loaded document still has a style element");
                    }
                }
                self.check(C09)?;
                // use it: a few edits, a save, then close
                let mut r = Rng::from2(arg as u64, text.len() as u64);
                let ops = [Op::SetAttr, Op::SetLink, Op::Remove, Op::CopyDeep, Op::SetId, Op::Drain, Op::Append, Op::SetText, Op::RemoveAttr, Op::Save, Op::Shuffle];
                for _ in 0..6 {
                    let st = Step { client: 0, op: *r.pick(&ops), a: 0, b: r.u32(), c: r.u32(), d: r.u32() };
                    if let Some(t) = self.dispatch(&st).map_err(|mut v| { v.tags |= C09; v })? {
                        self.check(t | C09)?;
                    }
                }
                if !self.has_root_text(d) {
                    let opt = values::write_options(arg);
                    let t = self.save_text(d, &opt).map_err(|mut v| { v.tags |= C09; v })?;
                    self.dig.s(&t);
                }
                self.close_doc(d, C09)?;
                for m in std::mem::take(&mut self.closed) { self.check_closed(m, C09)?; self.n[m].h = None; }
                for m in std::mem::take(&mut self.removed) { self.n[m].h = None; }
                Ok(())
            }
            Ok(Err(e)) => {
                hit(K::damaged_load_err);
                let m = format!("{}", e);
                self.dig.s(&m);
                drop(m);
                drop(e);
                if !crate::seam::has_yield() {
                    hit(K::failed_load_bytes_checked);
                    let after = crate::alloc::live();
                    if after > before { return viol(C09 | C10, "failed-load-leak", format!("a failed load left {} bytes behind", after - before)); }
                }
                Ok(())
            }
            Err(e) => viol(C09, "load-panic", format!("loading panicked: {}", e)),
        }
    }

    fn s_damage(&mut self, s: &Step) -> R<Option<u32>> {
        let se = self.sess.as_mut().unwrap();
        let good = match &se.acked { Some(a) => a.0.clone(), None => return Ok(None) };
        let bad = crate::foreign::damage(&good, s.a, &mut |k| hit(k));
        if bad == good { hit(K::damaged_identical); return Ok(None); }
        self.s_down()?;
        hit(K::restart_damaged);
        self.s_load_any(&bad, s.b)?;
        self.s_recover()?;
        Ok(Some(C09))
    }

    /// Another program had the file in its hands.
    fn s_peer(&mut self, s: &Step) -> R<Option<u32>> {
        let se = self.sess.as_ref().unwrap();
        let acked = match &se.acked { Some(a) => a, None => return Ok(None) };
        let mut kids = match peer::read(&acked.0, &acked.1) { Some(k) => k, None => { hit(K::peer_unread); return Ok(None) } };
        let root = acked.1 .0[0].clone();
        let (text, want, tag) = if s.op == Op::SRecord {
            let older = se.older.as_ref().and_then(|o| peer::read(&o.0, &o.1));
            if peer::record_faults(&mut kids, older.as_deref(), s.a) == 0 { return Ok(None); }
            let want = match peer::expect(&kids, &root) { Some(w) => w, None => return Ok(None) };
            if s.d % 3 == 0 { peer::bystyle(&mut kids, s.d) }
            (peer::write(&kids, &peer::plain_form(), s.b), want, C17)
        } else {
            let want = match peer::expect(&kids, &root) { Some(w) => w, None => return Ok(None) };
            let (form, n) = peer::rewrite(&mut kids, s.a);
            if n == 0 { return Ok(None); }
            (peer::write(&kids, &form, s.b), want, C18)
        };
        self.s_down()?;
        hit(K::peer_loads);
        let doc = match call(|| Document::from_str(&text)) {
            Ok(Ok(d)) => d,
            Ok(Err(e)) => return viol(tag, "peer-error", format!("a file changed by another program does not load: {} in {:?}", e, clip(&text))),
            Err(e) => return viol(tag | C09, "peer-panic", format!("loading a file changed by another program panicked: {}", e)),
        };
        let d = self.import(doc, tag)?;
        let got = snapshot(self, d);
        if let Err(e) = compare(&want, &got) { return viol(tag, "peer-differs", format!("{} (text {:?})", e, clip(&text))); }
        self.check(tag | C03)?;
        let opt = values::write_options(s.c);
        let t = self.save_text(d, &opt)?;
        self.dig.s(&t);
        self.s_recover()?;
        Ok(Some(tag))
    }

    fn s_foreign(&mut self, s: &Step) -> R<Option<u32>> {
        let rich = s.b % 3 != 0;
        let text = crate::foreign::document(s.a, rich);
        hit(K::foreign_docs);
        let text = if s.c % 2 == 0 { crate::foreign::damage(&text, s.c, &mut |k| hit(k)) } else { text };
        // A second document next to the session's own one would share node numbers; go down first.
        self.s_down()?;
        self.s_load_any(&text, s.d)?;
        self.s_recover()?;
        Ok(Some(C09))
    }
}

fn clip(s: &str) -> String {
    if s.len() <= 1500 { return s.to_string(); }
    let mut e = 1500;
    while !s.is_char_boundary(e) { e -= 1 }
    format!("{}...", &s[..e])
}
