//! One simulated world: real documents driven step by step next to a plain reference model.
use crate::rng::{Digest, Rng};
use crate::seam::{self, call, SinkMode};
use crate::stats::{add, hit, K};
use crate::values;
use std::cell::{Cell, Ref, RefCell, RefMut};
use svgdom::*;

// ---------------------------------------------------------------- violations

pub const fn p(n: u32) -> u32 { 1 << n }
pub const C01: u32 = p(1);
pub const C02: u32 = p(2);
pub const C03: u32 = p(3);
pub const C04: u32 = p(4);
pub const C05: u32 = p(5);
pub const C06: u32 = p(6);
pub const C07: u32 = p(7);
pub const C08: u32 = p(8);
pub const C09: u32 = p(9);
pub const C10: u32 = p(10);
pub const C11: u32 = p(11);
pub const C12: u32 = p(12);
pub const C13: u32 = p(13);
pub const C14: u32 = p(14);
pub const C15: u32 = p(15);
pub const C16: u32 = p(16);
pub const C17: u32 = p(17);
pub const C18: u32 = p(18);

#[derive(Clone, Debug)]
pub struct Viol {
    /// Bit set of the properties this violates.
    pub tags: u32,
    /// A stable class name, kept the same while minimising.
    pub class: &'static str,
    pub msg: String,
    pub step: usize,
}

pub type R<T = ()> = Result<T, Viol>;

thread_local! {
    /// The properties being decided (0 = any). One look at the documents may find several things wrong;
    /// the one that belongs to the property being decided is the one to report.
    pub static FOCUS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

fn focused(tags: u32) -> bool { let f = FOCUS.with(|f| f.get()); f == 0 || tags & f != 0 }

/// Keeps the first violation, lets one in focus through at once.
fn gather(first: &mut Option<Viol>, r: R) -> R {
    if let Err(v) = r {
        let f = FOCUS.with(|f| f.get());
        if f == 0 || v.tags & f != 0 { return Err(v); }
        if first.is_none() { *first = Some(v) }
    }
    Ok(())
}

pub fn viol<T>(tags: u32, class: &'static str, msg: impl Into<String>) -> R<T> {
    Err(Viol { tags, class, msg: msg.into(), step: 0 })
}

macro_rules! ensure {
    ($c:expr, $tags:expr, $class:expr, $($arg:tt)*) => {
        if !$c { return viol($tags, $class, format!($($arg)*)); }
    }
}

/// Does the value say what it is?
fn kind_known(v: &AttributeValue) -> bool {
    use AttributeValue as V;
    let says = [v.is_none(), v.is_inherit(), v.is_current_color(), v.is_aspect_ratio(), v.is_color(), v.is_length(), v.is_length_list(), v.is_angle(),
        v.is_link(), v.is_func_link(), v.is_paint(), v.is_number(), v.is_number_list(), v.is_path(), v.is_points(), v.is_string(), v.is_transform(), v.is_viewbox()];
    let is = match v {
        V::None => 0, V::Inherit => 1, V::CurrentColor => 2, V::AspectRatio(_) => 3, V::Color(_) => 4, V::Length(_) => 5, V::LengthList(_) => 6, V::Angle(_) => 7,
        V::Link(_) => 8, V::FuncLink(_) => 9, V::Paint(..) => 10, V::Number(_) => 11, V::NumberList(_) => 12, V::Path(_) => 13, V::Points(_) => 14, V::String(_) => 15,
        V::Transform(_) => 16, V::ViewBox(_) => 17,
    };
    says.iter().enumerate().all(|(i, &b)| b == (i == is)) && v.is_link_container() == (8..=10).contains(&is)
}

// ---------------------------------------------------------------- steps

macro_rules! ops {
    ($($name:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u8)]
        pub enum Op { $($name),* }
        pub const OPS: &[Op] = &[$(Op::$name),*];
        impl Op {
            pub fn name(self) -> &'static str { match self { $(Op::$name => stringify!($name)),* } }
            pub fn parse(s: &str) -> Option<Op> { match s { $(stringify!($name) => Some(Op::$name),)* _ => None } }
        }
    }
}

ops! {
    // structure
    NewEl, NewElIn, NewText, NewComment, Append, Prepend, Before, After, Shuffle, Detach, Remove, RemoveAgain, Drain,
    Copy, CopyDeep, Bulk, Loose,
    // data
    SetAttr, SetLink, RemoveAttr, SetId, SetTag, SetText, AttrMut, Format, Refused,
    // observers and lifetime
    CurOpen, CurStep, CurFinish, CurDrop, GuardShared, GuardWrite, GuardDrop, Crash,
    Save, Load, OpenDoc, CloseDoc, DropHandle, Churn,
    // panics in caller code
    PConv, PDrain, PSinkLoad, PSinkRemove, PSinkSave, PPrint,
    // sessions (normal-form documents on the simulated disk)
    SNewEl, SNewText, SNewComment, SSetAttr, SRemoveAttr, SSetLink, SSetId, SRemove, SMove, SCustom,
    SSave, SRestart, SDamage, SForeign, SRecord, SPeer,
}

impl Op {
    pub fn is_guard(self) -> bool { matches!(self, Op::GuardShared | Op::GuardWrite) }
    pub fn is_crash(self) -> bool { matches!(self, Op::PConv | Op::PDrain | Op::PSinkLoad | Op::PSinkRemove | Op::PSinkSave | Op::PPrint) }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Step { pub client: u8, pub op: Op, pub a: u32, pub b: u32, pub c: u32, pub d: u32 }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Keep { All, Some, None }

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Cfg {
    pub keep: Keep,
    pub max_nodes: usize,
    pub max_docs: usize,
    /// Log sink: false = no sink, true = records are formatted.
    pub sink: bool,
    /// Passive observers: extra guards and cursors around saves.
    pub observe: bool,
    /// Memory-layout perturbation (0 = none).
    pub ballast: u32,
    /// Sector size of the simulated disk.
    pub sector: usize,
    /// No comparison with the reference model between steps: only what the focus property itself shows.
    pub blind: bool,
    /// Shape of the trees: 0 any, 1 deep, 2 wide, 3 a few nodes take most of the edits.
    pub shape: u8,
    /// How many attribute names are in play.
    pub names: usize,
}

impl Cfg {
    pub fn base() -> Cfg {
        Cfg { keep: Keep::All, max_nodes: 40, max_docs: 2, sink: false, observe: false, ballast: 0, sector: 64, blind: false, shape: 0, names: 18 }
    }
}

// ---------------------------------------------------------------- model

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Root, Element, Comment, Text }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tg { Id(ElementId), Cu(&'static str), Nothing }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Nm { Id(AttributeId), Cu(&'static str) }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lk { Link, Func, Paint }
#[derive(Clone, PartialEq, Debug)]
pub enum MVal { Plain(AttributeValue), Link(Lk, usize, Option<PaintFallback>) }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St { Live, Removed, Closed, Gone }

pub struct MNode {
    pub doc: usize,
    pub kind: Kind,
    pub parent: Option<usize>,
    pub children: Vec<usize>,
    pub tag: Tg,
    pub id: String,
    pub text: String,
    pub attrs: Vec<(Nm, MVal)>,
    pub st: St,
    pub h: Option<Node>,
}

pub struct DocS {
    pub doc: Option<Document>,
    pub root: usize,
    pub live: Vec<usize>,
}

pub fn nref(n: &Nm) -> AttributeQNameRef<'static> {
    match *n { Nm::Id(i) => AttributeQNameRef::from(i), Nm::Cu(s) => AttributeQNameRef::from(s) }
}
pub fn tref(t: &Tg) -> TagNameRef<'static> {
    match *t { Tg::Id(i) => TagNameRef::from(i), Tg::Cu(s) => TagNameRef::from(s), Tg::Nothing => TagNameRef::from("") }
}

pub fn link_kind(n: &Nm) -> Lk {
    match *n {
        Nm::Id(AttributeId::Href) => Lk::Link,
        Nm::Id(AttributeId::Fill) | Nm::Id(AttributeId::Stroke) => Lk::Paint,
        _ => Lk::Func,
    }
}

pub const TAGS: &[Tg] = &[
    Tg::Id(ElementId::Svg), Tg::Id(ElementId::G), Tg::Id(ElementId::Rect), Tg::Id(ElementId::LinearGradient),
    Tg::Id(ElementId::Use), Tg::Id(ElementId::Text), Tg::Id(ElementId::Tspan), Tg::Id(ElementId::Defs),
    Tg::Id(ElementId::ClipPath), Tg::Id(ElementId::Style), Tg::Cu("custom"), Tg::Cu("rect"),
];
pub const NAMES: &[Nm] = &[
    Nm::Id(AttributeId::Href), Nm::Id(AttributeId::Fill), Nm::Cu("custom:link"), Nm::Id(AttributeId::ClipPath), Nm::Id(AttributeId::X), Nm::Cu("data-a"),
    Nm::Id(AttributeId::Stroke), Nm::Id(AttributeId::Mask), Nm::Id(AttributeId::Width), Nm::Id(AttributeId::D),
    Nm::Id(AttributeId::Opacity), Nm::Id(AttributeId::Transform), Nm::Id(AttributeId::Unicode), Nm::Id(AttributeId::Filter),
    Nm::Cu("fill"), Nm::Cu("data"), Nm::Cu("data-ab"), Nm::Cu("Fill"),
    Nm::Id(AttributeId::MarkerStart), Nm::Id(AttributeId::MarkerMid), Nm::Id(AttributeId::MarkerEnd), Nm::Id(AttributeId::Marker),
    Nm::Id(AttributeId::Y), Nm::Id(AttributeId::Height), Nm::Id(AttributeId::Points), Nm::Id(AttributeId::FontSize), Nm::Id(AttributeId::Visibility),
    Nm::Id(AttributeId::Space), Nm::Id(AttributeId::StrokeWidth), Nm::Id(AttributeId::Style), Nm::Id(AttributeId::Class),
    Nm::Cu("a"), Nm::Cu("xlink:href"), Nm::Cu("n:b"), Nm::Cu("é"), Nm::Id(AttributeId::ViewBox),
    Nm::Cu("data-1"), Nm::Cu("data-12"), Nm::Cu("data-1b"), Nm::Cu("a-name-of-more-than-thirty-two-bytes-a"), Nm::Cu("a-name-of-more-than-thirty-two-bytes-b"),
    Nm::Cu("A"), Nm::Cu("data_a"), Nm::Cu("data:a"), Nm::Cu("x1"), Nm::Id(AttributeId::X1), Nm::Id(AttributeId::X2), Nm::Cu("e\u{301}"),
];
const MANY: &[&str] = &["n00", "n01", "n02", "n03", "n04", "n05", "n06", "n07", "n08", "n09", "n10", "n11", "n12", "n13", "n14", "n15", "n16", "n17", "n18", "n19", "n20", "n21", "n22", "n23", "n24", "n25", "n26", "n27", "n28", "n29", "n30", "n31", "n32", "n33", "n34", "n35", "n36", "n37", "n38", "n39", "n40", "n41", "n42", "n43", "n44", "n45", "n46", "n47", "n48", "n49", "n50", "n51", "n52", "n53", "n54", "n55", "n56", "n57", "n58", "n59", "n60", "n61", "n62", "n63", "n64", "n65", "n66", "n67", "n68", "n69", "n70", "n71", "n72", "n73", "n74", "n75", "n76", "n77", "n78", "n79", "n80", "n81", "n82", "n83", "n84", "n85", "n86", "n87", "n88", "n89"];
const NEST: Nm = Nm::Cu("nested-edit");

// ---------------------------------------------------------------- cursors and guards

pub enum RealCur {
    Anc(Ancestors<NodeData>),
    Prec(PrecedingSiblings<NodeData>),
    Foll(FollowingSiblings<NodeData>),
    Chi(Children<NodeData>),
    Desc(Descendants<NodeData>),
    Trav(Traverse<NodeData>),
}

fn edge(e: NodeEdge<NodeData>) -> (u8, Node) {
    match e { NodeEdge::Start(n) => (1, n), NodeEdge::End(n) => (2, n) }
}

impl RealCur {
    fn step(&mut self, back: bool) -> Option<(u8, Node)> {
        match self {
            RealCur::Anc(i) => i.next().map(|n| (0, n)),
            RealCur::Prec(i) => i.next().map(|n| (0, n)),
            RealCur::Foll(i) => i.next().map(|n| (0, n)),
            RealCur::Chi(i) => if back { i.next_back() } else { i.next() }.map(|n| (0, n)),
            RealCur::Desc(i) => i.next().map(|n| (0, n)),
            RealCur::Trav(i) => if back { i.next_back() } else { i.next() }.map(edge),
        }
    }
}

pub struct Cur {
    client: u8,
    real: RealCur,
    kind: u8,
    /// Remaining expected items (edge, node), front and back.
    expect: std::collections::VecDeque<(u8, usize)>,
    dirty: bool,
    /// Nodes whose child list (bit 1) or parent (bit 2) must not change for the cursor to stay exact.
    region: Vec<(usize, u8)>,
    both: u8,
}

enum GRef {
    Text(Ref<'static, String>),
    Id(Ref<'static, String>),
    Tag(Ref<'static, TagName>),
    Attrs(Ref<'static, Attributes>),
    Users(Ref<'static, Vec<Node>>),
    WText(RefMut<'static, String>),
    WAttrs(RefMut<'static, Attributes>),
}

pub struct Guard {
    client: u8,
    mid: usize,
    write: bool,
    // Field order: the borrow is dropped before the handle it borrows from.
    g: GRef,
    _n: Box<Node>,
}

// ---------------------------------------------------------------- caller-supplied conversions that panic

/// Text that is not as simple to write as it is to hold.
const ODD_TEXT: &[&str] = &["", " ", "a--b", "-->", "<&>", "]]>", "&amp;", "'\"", "\n\n", "\u{0}\u{1}", "-", "a-", "\u{2028}\u{feff}", "&#x20;"];

struct Bomb;
impl From<Bomb> for String { fn from(_: Bomb) -> String { seam::boom() } }
impl From<Bomb> for Attribute { fn from(_: Bomb) -> Attribute { seam::boom() } }

thread_local! { static FUSE: Cell<u32> = const { Cell::new(0) }; }
/// A caller's own name type whose conversion panics after `left` successful ones.
#[derive(Clone, Copy)]
struct Fuse { nm: Nm }
impl Fuse {
    fn new(nm: &Nm, left: u32) -> Fuse { FUSE.with(|f| f.set(left)); Fuse { nm: *nm } }
    fn burn() { FUSE.with(|f| if f.get() == 0 { seam::boom() } else { f.set(f.get() - 1) }) }
}
impl From<Fuse> for AttributeQNameRef<'static> { fn from(x: Fuse) -> Self { Fuse::burn(); nref(&x.nm) } }
impl From<Fuse> for TagNameRef<'static> { fn from(_: Fuse) -> Self { Fuse::burn(); TagNameRef::from("fuse") } }

// ---------------------------------------------------------------- destinations for printed text

/// 0 works, 1 fails once at the cut and then works again, 2 takes what fits and fails from then on, 4 panics at the cut.
struct Dest { text: String, cut: usize, mode: u32, failed: bool, look: Option<Node> }
impl std::fmt::Write for Dest {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        seam::yield_point(3);
        if let Some(n) = &self.look {
            for x in n.descendants() { let _ = (x.text().len(), x.attributes().len(), x.linked_nodes().len(), x.parent().is_some()); }
        }
        if self.text.len() + t.len() > self.cut && !(self.mode == 1 && self.failed) {
            self.failed = true;
            match self.mode {
                2 => { for c in t.chars() { if self.text.len() + c.len_utf8() > self.cut { break } self.text.push(c) } }
                4 => seam::boom(),
                _ => {}
            }
            return Err(std::fmt::Error);
        }
        self.text.push_str(t);
        Ok(())
    }
}

struct IoDest { text: Vec<u8>, cut: usize, r: Rng, failed: bool }
impl std::io::Write for IoDest {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        seam::yield_point(3);
        if b.is_empty() { return Ok(0); }
        if self.r.chance(1, 4) { return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)); }
        let room = self.cut - self.text.len();
        if room == 0 {
            self.failed = true;
            return if self.r.chance(1, 2) { Ok(0) } else { Err(std::io::Error::from(std::io::ErrorKind::StorageFull)) };
        }
        let n = b.len().min(room).min(self.r.range(1, 9));
        self.text.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

// ---------------------------------------------------------------- the world

pub struct World {
    pub cfg: Cfg,
    pub docs: Vec<DocS>,
    pub n: Vec<MNode>,
    pub removed: Vec<usize>,
    pub closed: Vec<usize>,
    pub curs: Vec<Cur>,
    pub guards: Vec<Guard>,
    /// Nodes that came in bulk and do not count against the limit.
    pub bulk: usize,
    pub idc: u32,
    pub dig: Digest,
    pub ballast: Vec<Vec<u8>>,
    pub sess: Option<crate::sess::Sess>,
    pub step_no: usize,
}

fn sel<T: Copy>(v: &[T], arg: u32) -> Option<T> {
    if v.is_empty() { None } else { Some(v[arg as usize % v.len()]) }
}

impl World {
    pub fn new(cfg: Cfg) -> World {
        World {
            cfg, docs: Vec::new(), n: Vec::new(), removed: Vec::new(), closed: Vec::new(), curs: Vec::new(),
            guards: Vec::new(), bulk: 0, idc: 0, dig: Digest::new(), ballast: Vec::new(), sess: None, step_no: 0,
        }
    }

    // ------------------------------------------------------------ small helpers

    pub fn open_docs(&self) -> Vec<usize> {
        (0..self.docs.len()).filter(|&d| self.docs[d].doc.is_some()).collect()
    }
    pub fn live_total(&self) -> usize { self.docs.iter().map(|d| d.live.len()).sum() }
    pub fn want(&self, mid: usize) -> bool {
        match self.cfg.keep { Keep::All => true, Keep::Some => mid % 3 == 0, Keep::None => false }
    }
    pub fn m_node(&mut self, doc: usize, kind: Kind, tag: Tg, text: String) -> usize {
        let mid = self.n.len();
        self.n.push(MNode { doc, kind, parent: None, children: Vec::new(), tag, id: String::new(), text,
            attrs: Vec::new(), st: St::Live, h: None });
        self.docs[doc].live.push(mid);
        mid
    }
    pub fn subtree(&self, x: usize) -> Vec<usize> {
        let mut out = Vec::new();
        let mut st = vec![x];
        while let Some(y) = st.pop() {
            out.push(y);
            for &c in self.n[y].children.iter().rev() { st.push(c); }
        }
        out
    }
    pub fn is_anc_or_self(&self, a: usize, mut x: usize) -> bool {
        loop {
            if x == a { return true; }
            match self.n[x].parent { Some(q) => x = q, None => return false }
        }
    }
    pub fn top(&self, mut x: usize) -> usize {
        while let Some(q) = self.n[x].parent { x = q; }
        x
    }
    pub fn pos(&self, x: usize) -> usize {
        let q = self.n[x].parent.unwrap();
        self.n[q].children.iter().position(|&c| c == x).unwrap()
    }
    /// Number of link attributes on live nodes of the same document that point at `t`.
    pub fn users(&self, t: usize) -> Vec<usize> {
        let mut v = Vec::new();
        for &m in &self.docs[self.n[t].doc].live {
            for (_, a) in &self.n[m].attrs {
                if let MVal::Link(_, to, _) = a { if *to == t { v.push(m) } }
            }
        }
        v
    }
    pub fn get_attr(&self, x: usize, nm: &Nm) -> Option<&MVal> {
        self.n[x].attrs.iter().find(|a| a.0 == *nm).map(|a| &a.1)
    }
    pub fn m_set_attr(&mut self, x: usize, nm: Nm, v: MVal) {
        self.m_rm_attr(x, &nm);
        self.n[x].attrs.push((nm, v));
    }
    pub fn m_rm_attr(&mut self, x: usize, nm: &Nm) { self.n[x].attrs.retain(|a| a.0 != *nm) }
    pub fn touch(&mut self, x: usize, bit: u8) {
        for c in &mut self.curs {
            if !c.dirty && c.region.iter().any(|&(m, b)| m == x && b & bit != 0) {
                c.dirty = true;
                hit(K::cursor_made_dirty);
            }
        }
    }
    pub fn m_detach(&mut self, x: usize) {
        if let Some(q) = self.n[x].parent {
            let i = self.pos(x);
            self.n[q].children.remove(i);
            self.n[x].parent = None;
            self.touch(q, 1);
            self.touch(x, 2);
        }
    }
    pub fn m_insert(&mut self, q: usize, i: usize, x: usize) {
        self.n[q].children.insert(i, x);
        self.n[x].parent = Some(q);
        self.touch(q, 1);
        self.touch(x, 2);
        if !self.want(x) { self.n[x].h = None; }
    }
    /// Takes a whole subtree out of its document.
    pub fn m_remove(&mut self, x: usize) {
        let s = self.subtree(x);
        let d = self.n[x].doc;
        if s.iter().any(|&y| self.n[y].attrs.iter().any(|a| matches!(a.1, MVal::Link(..)))) { hit(K::removed_with_links) }
        self.m_detach(x);
        let live = self.docs[d].live.clone();
        for m in live {
            let before = self.n[m].attrs.len();
            self.n[m].attrs.retain(|(_, v)| !matches!(v, MVal::Link(_, to, _) if s.contains(to)));
            if self.n[m].attrs.len() != before && !s.contains(&m) { hit(K::removed_with_users) }
        }
        for &y in &s {
            self.touch(y, 3);
            self.n[y].attrs.retain(|(_, v)| !matches!(v, MVal::Link(..)));
            self.n[y].st = St::Removed;
            self.n[y].children.clear();
            self.n[y].parent = None;
            if self.n[y].h.is_some() { self.removed.push(y) } else { self.n[y].st = St::Gone }
        }
        self.docs[d].live.retain(|m| !s.contains(m));
    }

    /// The real node behind a model node, from a kept handle or by walking down from the top.
    pub fn handle(&self, mid: usize) -> R<Node> {
        let mut path = Vec::new();
        let mut x = mid;
        loop {
            if let Some(h) = &self.n[x].h {
                let mut cur = h.clone();
                let r = call(|| {
                    while let Some(i) = path.pop() {
                        let mut c = cur.first_child()?;
                        for _ in 0..i { c = c.next_sibling()?; }
                        cur = c;
                    }
                    Some(cur)
                });
                return match r {
                    Ok(Some(n)) => Ok(n),
                    Ok(None) => viol(C01, "walk", "a node is not where the reference tree has it"),
                    Err(e) => viol(C01, "walk-panic", format!("walking to a node panicked: {}", e)),
                };
            }
            match self.n[x].parent {
                Some(q) => { path.push(self.pos(x)); x = q; }
                None => return viol(C01, "harness", "no handle for a top node"),
            }
        }
    }

    pub fn same(&self, mid: usize, node: &Node) -> bool {
        match &self.n[mid].h {
            Some(h) => h == node,
            None => match self.handle(mid) { Ok(h) => h == *node, Err(_) => false },
        }
    }

    /// Runs library code that must not panic.
    pub fn lib<T>(&self, tags: u32, class: &'static str, f: impl FnOnce() -> T) -> R<T> {
        match call(f) {
            Ok(v) => Ok(v),
            Err(e) => {
                let borrow = e.contains("borrow") && !self.guards.is_empty();
                viol(if borrow { tags | C07 } else { tags }, class, format!("unexpected panic: {}", e))
            }
        }
    }

    // ------------------------------------------------------------ guard bookkeeping

    pub fn guarded(&self, touch: &[usize]) -> bool {
        self.guards.iter().any(|g| touch.contains(&g.mid))
    }
    pub fn write_guard(&self) -> bool { self.guards.iter().any(|g| g.write) }
    /// Nodes a structural edit at `x` involves.
    pub fn near(&self, x: usize, out: &mut Vec<usize>) {
        out.push(x);
        let n = &self.n[x];
        if let Some(q) = n.parent {
            out.push(q);
            let i = self.pos(x);
            let ch = &self.n[q].children;
            if i > 0 { out.push(ch[i - 1]) }
            if i + 1 < ch.len() { out.push(ch[i + 1]) }
        }
        if let Some(&c) = n.children.first() { out.push(c) }
        if let Some(&c) = n.children.last() { out.push(c) }
    }
    pub fn touch_remove(&self, x: usize, out: &mut Vec<usize>) {
        self.near(x, out);
        for y in self.subtree(x) {
            out.push(y);
            for (_, a) in &self.n[y].attrs { if let MVal::Link(_, t, _) = a { out.push(*t) } }
            out.extend(self.users(y));
        }
    }
    /// True if the edit may go ahead; counts edits done or blocked while guards are held.
    pub fn clear_to_edit(&self, touch: &[usize]) -> bool {
        if self.guards.is_empty() { return true; }
        if self.guarded(touch) { hit(K::guard_blocked_edit); return false; }
        hit(K::guard_alive_over_edit);
        true
    }

    // ------------------------------------------------------------ the oracle

    pub fn check(&mut self, tags: u32) -> R {
        if self.write_guard() { hit(K::checks_skipped_write_guard); return Ok(()); }
        hit(K::checks_full);
        match call(|| self.check_inner(tags)) {
            Ok(r) => r,
            Err(e) => {
                // Reading everything holds the attributes and users of a node while it asks for more.
                let t = if e.contains("borrow") { C07 } else { 0 };
                viol(tags | C01 | t, "read-panic", format!("reading the document panicked: {}", e))
            }
        }
    }

    pub fn check_inner(&self, tags: u32) -> R {
        let mut real: Vec<Option<Node>> = Vec::new();
        real.resize(self.n.len(), None);
        let mut first: Option<Viol> = None;
        if self.cfg.blind {
            if focused(tags | C11) {
                for &m in &self.closed { self.check_closed(m, tags)?; }
            }
            return Ok(());
        }
        for d in &self.docs {
            let doc = match &d.doc { Some(doc) => doc, None => continue };
            let r = doc.root();
            ensure!(self.n[d.root].h.as_ref() == Some(&r), tags | C01, "tree", "the document's root node changed");
            gather(&mut first, self.check_tree(d.root, r, &mut real, tags))?;
            if first.is_some() { continue; }
            let want = self.n[d.root].children.iter().find(|&&c| self.n[c].tag == Tg::Id(ElementId::Svg));
            let got = doc.svg_element();
            let ok = match (want, &got) {
                (None, None) => true,
                (Some(w), Some(g)) => real[*w].as_ref() == Some(g),
                _ => false,
            };
            ensure!(ok, tags | C01, "tree", "svg_element() is not the first svg child of the root");
            for &m in &d.live {
                if self.n[m].parent.is_none() && m != d.root {
                    let h = self.n[m].h.clone().unwrap();
                    gather(&mut first, self.check_tree(m, h, &mut real, tags))?;
                }
            }
        }
        if first.is_some() {
            // The tree is wrong: go on with the nodes as the handles know them.
            for (r, n) in real.iter_mut().zip(&self.n) { if r.is_none() { *r = n.h.clone() } }
            let all = self.docs.iter().filter(|d| d.doc.is_some()).all(|d| d.live.iter().all(|&m| real[m].is_some()));
            if !all { return Err(first.unwrap()); }
        }
        for d in &self.docs {
            if d.doc.is_none() { continue; }
            for &m in &d.live { gather(&mut first, self.check_data(m, &real, tags))?; }
        }
        for &m in &self.removed { gather(&mut first, self.check_removed(m, &real, tags))?; }
        for &m in &self.closed { gather(&mut first, self.check_closed(m, tags))?; }
        for g in &self.guards { gather(&mut first, self.check_guard(g, tags))?; }
        match first { Some(v) => Err(v), None => Ok(()) }
    }

    pub fn check_tree(&self, top: usize, top_real: Node, real: &mut Vec<Option<Node>>, tags: u32) -> R {
        let tags = tags | C01;
        ensure!(top_real.parent().is_none(), tags, "tree", "a top node has a parent");
        ensure!(top_real.previous_sibling().is_none() && top_real.next_sibling().is_none(), tags, "tree",
            "a top node has siblings");
        let mut stack = vec![(top, top_real.clone())];
        while let Some((m, r)) = stack.pop() {
            if let Some(h) = &self.n[m].h {
                ensure!(*h == r, tags, "tree", "a different node is in this place");
            }
            ensure!(r.root() == top_real, tags, "tree-root", "root() of a node is not the top of its tree");
            let kids = &self.n[m].children;
            ensure!(r.has_children() == !kids.is_empty(), tags, "tree", "has_children() is wrong");
            // forward
            let mut fw: Vec<Node> = Vec::with_capacity(kids.len());
            let mut c = r.first_child();
            while let Some(x) = c {
                ensure!(fw.len() < kids.len(), tags, "tree", "a node has more children than it should ({})", kids.len());
                ensure!(x.parent().as_ref() == Some(&r), tags, "tree", "parent() of a child is wrong");
                ensure!(x.has_parent() == (self.n[m].kind != Kind::Root), tags, "tree", "has_parent() is wrong");
                c = x.next_sibling();
                fw.push(x);
            }
            ensure!(fw.len() == kids.len(), tags, "tree", "a node has {} children instead of {}", fw.len(), kids.len());
            // backward
            let mut i = fw.len();
            let mut c = r.last_child();
            while let Some(x) = c {
                ensure!(i > 0, tags, "tree", "walking children backwards finds too many");
                i -= 1;
                ensure!(x == fw[i], tags, "tree", "walking children backwards finds a different order");
                c = x.previous_sibling();
            }
            ensure!(i == 0, tags, "tree", "walking children backwards finds too few");
            for (k, x) in kids.iter().zip(fw) { stack.push((*k, x)); }
            real[m] = Some(r);
        }
        Ok(())
    }

    pub fn check_data(&self, m: usize, real: &[Option<Node>], tags: u32) -> R {
        let n = &self.n[m];
        let r = match &real[m] { Some(r) => r, None => return viol(tags | C01, "tree", "a live node is in no tree") };
        let t4 = tags | C04;
        let nt = r.node_type();
        let ok = match n.kind {
            Kind::Root => nt == NodeType::Root && r.is_root(),
            Kind::Element => nt == NodeType::Element && r.is_element() && !r.is_root(),
            Kind::Comment => nt == NodeType::Comment && r.is_comment() && !r.is_text(),
            Kind::Text => nt == NodeType::Text && r.is_text() && !r.is_comment(),
        };
        ensure!(ok, t4, "data", "node kind changed");
        ensure!(!r.is_detached(), tags | C05, "detached-flag", "a live node is reported as not belonging to a document");
        ensure!(*r.id() == n.id, t4, "data-id", "id is {:?} instead of {:?}", *r.id(), n.id);
        ensure!(r.has_id() == !n.id.is_empty(), t4, "data-id", "has_id() is wrong");
        ensure!(*r.text() == n.text, t4, "data-text", "text is {:?} instead of {:?}", *r.text(), n.text);
        if n.kind == Kind::Element {
            ensure!(r.has_tag_name(tref(&n.tag)), t4, "data-tag", "tag is {:?} instead of {:?}", *r.tag_name(), n.tag);
            match n.tag {
                Tg::Id(i) => ensure!(r.tag_id() == Some(i) && r.is_svg_element(), t4, "data-tag", "tag_id() is wrong"),
                _ => ensure!(r.tag_id().is_none() && !r.is_svg_element(), t4, "data-tag", "tag_id() is wrong"),
            }
        } else {
            ensure!(r.tag_id().is_none() && !r.is_svg_element(), t4, "data-tag", "a node that is no element has a tag");
        }
        // attributes as a map
        let at = r.attributes();
        ensure!(at.len() == n.attrs.len(), t4 | self.link_tag(n), "attrs",
            "node has {} attributes instead of {}", at.len(), n.attrs.len());
        ensure!(at.is_empty() == n.attrs.is_empty(), t4, "attrs", "is_empty() of attributes is wrong");
        let mut seen = 0;
        for a in at.iter() {
            seen += 1;
            let e = n.attrs.iter().find(|x| nref(&x.0) == a.name.as_ref());
            let e = match e { Some(e) => e, None => return viol(t4 | lt(&a.value), "attrs", format!("unexpected attribute {:?}", a.name)) };
            self.check_value(e, &a.value, real, tags)?;
            let same = match e.0 { Nm::Id(i) => a.is_svg() && a.has_id(i) && a.id() == Some(i), Nm::Cu(_) => !a.is_svg() && a.id().is_none() };
            ensure!(same, t4, "attrs", "attribute {:?} answers wrongly about its name", e.0);
            ensure!(kind_known(&a.value), t4 | lt(&a.value), "attr-value", "attribute {:?} answers wrongly about the kind of its value", e.0);
        }
        ensure!(seen == n.attrs.len(), t4, "attrs", "attribute iteration finds {} instead of {}", seen, n.attrs.len());
        let mut svg = 0;
        for (nm, v) in &n.attrs {
            if let Nm::Id(_) = nm { svg += 1 }
            let ok = at.contains(nref(nm)) && r.has_attribute(nref(nm)) && at.get_value(nref(nm)).is_some()
                && at.get(nref(nm)).map(|a| a.name.as_ref() == nref(nm)) == Some(true);
            ensure!(ok, t4, "attrs", "attribute {:?} is not found by name", nm);
            self.check_value(&(*nm, v.clone()), at.get_value(nref(nm)).unwrap(), real, tags)?;
        }
        ensure!(FilterSvgAttrs::svg(at.iter()).count() == svg, t4, "attrs", "svg() filter of attributes is wrong");
        for k in 0..3 {
            let nm = &NAMES[(m + self.step_no + k * 5) % NAMES.len()];
            if self.get_attr(m, nm).is_none() {
                ensure!(!r.has_attribute(nref(nm)) && at.get(nref(nm)).is_none(), t4, "attrs", "phantom attribute {:?}", nm);
            }
        }
        // users
        let t3 = tags | C03;
        let mut want = self.users(m);
        let got = r.linked_nodes();
        ensure!(got.len() == want.len(), t3, "users", "node has {} users listed, {} link attributes point at it", got.len(), want.len());
        for g in got.iter() {
            let i = want.iter().position(|&w| real[w].as_ref() == Some(g));
            match i { Some(i) => { want.swap_remove(i); } None => return viol(t3, "users", "a listed user has no link attribute to the node") }
        }
        ensure!(r.uses_count() == got.len() && r.is_used() == !got.is_empty(), t3, "users", "uses_count()/is_used() disagree with the list");
        Ok(())
    }

    pub fn link_tag(&self, n: &MNode) -> u32 {
        if n.attrs.iter().any(|a| matches!(a.1, MVal::Link(..))) { C03 } else { 0 }
    }

    pub fn check_value(&self, e: &(Nm, MVal), v: &AttributeValue, real: &[Option<Node>], tags: u32) -> R {
        let t4 = tags | C04;
        match &e.1 {
            MVal::Plain(w) => ensure!(w == v, t4 | lt(v), "attr-value", "{:?} is {:?} instead of {:?}", e.0, Dbg(v), w),
            MVal::Link(k, to, fb) => {
                let t3 = tags | C03 | C04;
                let (gk, g, gf) = match v {
                    AttributeValue::Link(g) => (Lk::Link, g, None),
                    AttributeValue::FuncLink(g) => (Lk::Func, g, None),
                    AttributeValue::Paint(g, f) => (Lk::Paint, g, *f),
                    _ => return viol(t3, "link-value", format!("{:?} is not a link any more", e.0)),
                };
                ensure!(gk == *k, t3, "link-value", "{:?} holds a {:?} link instead of {:?}", e.0, gk, k);
                ensure!(gf == *fb, t3, "link-value", "{:?} has fallback {:?} instead of {:?}", e.0, gf, fb);
                ensure!(real[*to].as_ref() == Some(g), t3, "link-value", "{:?} links to a different node", e.0);
            }
        }
        Ok(())
    }

    pub fn check_removed(&self, m: usize, real: &[Option<Node>], tags: u32) -> R {
        let h = match &self.n[m].h { Some(h) => h, None => return Ok(()) };
        let t = tags | C05;
        ensure!(h.is_detached(), t, "removed", "a removed node is reported as belonging to a document");
        let mut c = Some(h.clone());
        let mut k = 0;
        while let Some(x) = c {
            ensure!(k < self.n.len() + 2, t, "removed", "the parent chain of a removed node does not end");
            for d in &self.docs {
                if d.doc.is_some() {
                    ensure!(self.n[d.root].h.as_ref() != Some(&x), t, "removed", "a removed node is still in the document tree");
                }
            }
            for r in real.iter().flatten() { ensure!(*r != x, t, "removed", "a removed node hangs on a live one"); }
            c = x.parent();
            k += 1;
        }
        ensure!(h.linked_nodes().is_empty(), t | C03, "removed-users", "a removed node still lists users");
        ensure!(!h.attributes().iter().any(|a| a.value.is_link_container()), t | C03, "removed-links", "a removed node still holds a link");
        if self.docs[self.n[m].doc].doc.is_none() {
            let alone = h.parent().is_none() && h.previous_sibling().is_none() && h.next_sibling().is_none() && !h.has_children()
                && h.first_child().is_none() && h.last_child().is_none() && h.root() == *h;
            ensure!(alone, tags | C11, "closed-removed", "a node removed before its document closed is not alone afterwards");
        }
        Ok(())
    }

    pub fn check_closed(&self, m: usize, tags: u32) -> R {
        let t = tags | C11;
        let n = &self.n[m];
        let h = match &n.h { Some(h) => h.clone(), None => return Ok(()) };
        hit(K::closed_nodes_checked);
        let r = call(|| -> R {
            ensure!(h.parent().is_none() && h.previous_sibling().is_none() && h.next_sibling().is_none(), t, "closed",
                "a node of a closed document still has a parent or siblings");
            ensure!(h.first_child().is_none() && h.last_child().is_none() && !h.has_children() && h.children().next().is_none(), t,
                "closed", "a node of a closed document still has children");
            ensure!(h.root() == h, t, "closed", "a node of a closed document is not its own root");
            ensure!(!h.has_parent(), t, "closed", "has_parent() on a closed node");
            ensure!(h.ancestors().count() == 1 && h.descendants().count() == 1, t, "closed", "cursors from a closed node find other nodes");
            ensure!(h.linked_nodes().is_empty() && !h.is_used() && h.uses_count() == 0, t, "closed", "a node of a closed document still lists users");
            ensure!(!h.attributes().iter().any(|a| a.value.is_link_container()), t, "closed", "a node of a closed document still holds a link");
            ensure!(*h.id() == n.id && *h.text() == n.text, t, "closed", "id or text of a surviving handle changed");
            if n.kind == Kind::Element {
                ensure!(h.has_tag_name(tref(&n.tag)), t, "closed", "tag of a surviving handle changed");
            }
            let nt = h.node_type();
            ensure!(match n.kind { Kind::Root => nt == NodeType::Root, Kind::Element => nt == NodeType::Element,
                Kind::Comment => nt == NodeType::Comment, Kind::Text => nt == NodeType::Text }, t, "closed", "kind of a surviving handle changed");
            Ok(())
        });
        match r { Ok(r) => r, Err(e) => viol(t, "closed-panic", format!("reading a handle after its document closed panicked: {}", e)) }
    }

    pub fn check_guard(&self, g: &Guard, tags: u32) -> R {
        let n = &self.n[g.mid];
        let t = tags | C07;
        let ok = match &g.g {
            GRef::Text(r) => **r == n.text,
            GRef::Id(r) => **r == n.id,
            GRef::Tag(r) => n.kind != Kind::Element || r.as_ref() == tref(&n.tag),
            GRef::Attrs(r) => r.len() == n.attrs.len(),
            GRef::Users(r) => r.len() == self.users(g.mid).len(),
            _ => true,
        };
        ensure!(ok, t, "guard", "a held read guard shows a different value than the node has");
        Ok(())
    }

    // ------------------------------------------------------------ document life cycle

    pub fn open_doc(&mut self) -> R<usize> {
        let doc = self.lib(C01, "open-panic", Document::new)?;
        Ok(self.add_doc(doc))
    }

    pub fn add_doc(&mut self, doc: Document) -> usize {
        let d = self.docs.len();
        let root = doc.root();
        self.docs.push(DocS { doc: Some(doc), root: 0, live: Vec::new() });
        let m = self.m_node(d, Kind::Root, Tg::Nothing, String::new());
        self.docs[d].root = m;
        self.n[m].h = Some(root);
        d
    }

    /// Builds the model of a freshly loaded document by reading it.
    pub fn import(&mut self, doc: Document, tags: u32) -> R<usize> {
        let d = self.add_doc(doc);
        let root = self.docs[d].root;
        let r = call(|| self.import_inner(d, root, tags));
        match r {
            Ok(Ok(())) => Ok(d),
            Ok(Err(v)) => Err(v),
            Err(e) => viol(tags | C01, "import-panic", format!("reading a loaded document panicked: {}", e)),
        }
    }

    pub fn import_inner(&mut self, d: usize, root: usize, tags: u32) -> R {
        let mut all: Vec<(usize, Node)> = Vec::new();
        let mut stack = vec![(root, self.n[root].h.clone().unwrap())];
        while let Some((m, r)) = stack.pop() {
            all.push((m, r.clone()));
            ensure!(all.len() < 20_000, tags | C01, "import", "a loaded document does not end");
            let mut kids = Vec::new();
            let mut c = r.first_child();
            while let Some(x) = c {
                ensure!(kids.len() < 20_000, tags | C01, "import", "a child list of a loaded document does not end");
                c = x.next_sibling();
                let (kind, tag) = match x.node_type() {
                    NodeType::Element => (Kind::Element, match x.tag_id() {
                        Some(i) => Tg::Id(i),
                        None => return viol(tags, "import", "a loaded element has no SVG name"),
                    }),
                    NodeType::Comment => (Kind::Comment, Tg::Nothing),
                    NodeType::Text => (Kind::Text, Tg::Nothing),
                    NodeType::Root => return viol(tags, "import", "a root node inside a document"),
                };
                let text = x.text().clone();
                let k = self.m_node(d, kind, tag, text);
                self.n[k].id = x.id().clone();
                self.n[k].h = Some(x.clone());
                self.n[k].parent = Some(m);
                kids.push(k);
                stack.push((k, x));
            }
            self.n[m].children = kids;
        }
        for (m, r) in &all {
            let at = r.attributes();
            for a in at.iter() {
                let nm = match a.name.as_ref() {
                    QNameRef::Id(i) => Nm::Id(i),
                    QNameRef::Name(_) => return viol(tags, "import", "a loaded attribute has no SVG name"),
                };
                let find = |t: &Node| -> R<usize> {
                    match all.iter().find(|x| x.1 == *t) {
                        Some(x) => Ok(x.0),
                        None => viol(tags | C03, "import-dangling", "a link of a loaded document points outside of it"),
                    }
                };
                let v = match &a.value {
                    AttributeValue::Link(t) => MVal::Link(Lk::Link, find(t)?, None),
                    AttributeValue::FuncLink(t) => MVal::Link(Lk::Func, find(t)?, None),
                    AttributeValue::Paint(t, f) => MVal::Link(Lk::Paint, find(t)?, *f),
                    v => MVal::Plain(v.clone()),
                };
                if let MVal::Link(k, to, _) = &v {
                    ensure!(*k == link_kind(&nm), tags | C03, "import-link", "a loaded link has the wrong kind");
                    ensure!(*to != *m, tags | C03, "import-link", "a loaded node links to itself");
                    ensure!(!self.n[*to].attrs.iter().any(|x| matches!(x.1, MVal::Link(_, q, _) if q == *m)), tags | C03,
                        "import-link", "two loaded nodes link to each other");
                    ensure!(!self.n[*to].id.is_empty(), tags | C03, "import-link", "a loaded link points at a node without id");
                }
                ensure!(self.get_attr(*m, &nm).is_none(), tags | C04, "import", "a loaded node has an attribute twice");
                self.n[*m].attrs.push((nm, v));
            }
        }
        drop(all);
        for m in self.docs[d].live.clone() {
            if self.n[m].parent.is_some() && !self.want(m) { self.n[m].h = None; }
        }
        Ok(())
    }

    pub fn drop_guards_of_doc(&mut self, d: usize) {
        let mut i = 0;
        while i < self.guards.len() {
            if self.n[self.guards[i].mid].doc == d { self.guards.swap_remove(i); } else { i += 1 }
        }
    }

    pub fn close_doc(&mut self, d: usize, tags: u32) -> R {
        self.drop_guards_of_doc(d);
        let doc = self.docs[d].doc.take().unwrap();
        let live = std::mem::take(&mut self.docs[d].live);
        if live.iter().any(|&m| m != self.docs[d].root && self.n[m].h.is_some()) { hit(K::fault_close_with_handles) }
        for c in &mut self.curs {
            if c.region.iter().any(|&(m, _)| self.n[m].doc == d) || c.expect.iter().any(|&(_, m)| self.n[m].doc == d) {
                c.dirty = true;
                hit(K::cursor_alive_at_close);
            }
        }
        let r = call(move || drop(doc));
        for m in live {
            let n = &mut self.n[m];
            n.children.clear();
            n.parent = None;
            n.attrs.clear();
            if n.h.is_some() { n.st = St::Closed; self.closed.push(m) } else { n.st = St::Gone }
        }
        hit(K::op_close);
        match r { Ok(()) => Ok(()), Err(e) => viol(tags | C11, "close-panic", format!("closing a document panicked: {}", e)) }
    }

    pub fn finish(mut self) -> R {
        // Everything the clients still hold goes first, in holding order; then the documents.
        self.curs.clear();
        self.guards.clear();
        for d in 0..self.docs.len() {
            if self.docs[d].doc.is_some() { self.close_doc(d, 0)?; }
        }
        if self.cfg.blind && !focused(C11) { return Ok(()); }
        for &m in &self.closed { self.check_closed(m, 0)?; }
        Ok(())
    }

    // ------------------------------------------------------------ selectors

    pub fn pick_doc(&self, arg: u32) -> Option<usize> { sel(&self.open_docs(), arg) }
    pub fn pick_live(&self, d: usize, arg: u32, f: impl Fn(usize) -> bool) -> Option<usize> {
        let v: Vec<usize> = self.docs[d].live.iter().cloned().filter(|&m| f(m)).collect();
        if self.cfg.shape == 3 && (arg >> 20) & 3 != 0 { return sel(&v[..v.len().min(4)], arg); }
        sel(&v, arg)
    }
    /// A parent for a new node: the shape of the run decides.
    pub fn pick_parent(&self, d: usize, arg: u32, f: impl Fn(usize) -> bool) -> Option<usize> {
        let v: Vec<usize> = self.docs[d].live.iter().cloned().filter(|&m| f(m)).collect();
        let k = v.len().min(2);
        match self.cfg.shape {
            1 if (arg >> 20) & 15 != 0 => sel(&v[v.len() - k..], arg),
            2 if (arg >> 20) & 15 != 0 => sel(&v[..k], arg),
            _ => sel(&v, arg),
        }
    }
    pub fn nm(&self, arg: u32) -> Nm { NAMES[arg as usize % self.cfg.names.min(NAMES.len())] }
    /// A node of the kind in an open document chosen by `a`; `b` chooses the node.
    pub fn pick(&self, a: u32, b: u32, f: impl Fn(&MNode) -> bool) -> Option<usize> {
        let d = self.pick_doc(a)?;
        self.pick_live(d, b, |m| f(&self.n[m]))
    }
    /// May `x` become a child of `q`?
    pub fn legal(&self, q: usize, x: usize) -> bool {
        let (kq, kx) = (self.n[q].kind, self.n[x].kind);
        (kq == Kind::Element || (kq == Kind::Root && kx != Kind::Text)) && kx != Kind::Root && !self.is_anc_or_self(x, q)
    }
    pub fn new_id(&mut self) -> String { self.idc += 1; format!("i{}{}", self.idc, crate::values::salt()) }

    // ------------------------------------------------------------ one step

    pub fn step(&mut self, s: &Step) -> R {
        self.step_no += 1;
        hit(K::steps);
        if self.open_docs().is_empty() && self.sess.is_none() { self.open_doc()?; }
        if self.cfg.ballast != 0 {
            // Shift the heap: what the library does may not depend on where its nodes lie.
            let mut r = Rng::from2(self.cfg.ballast as u64, self.step_no as u64);
            hit(K::fault_layout_shift);
            for _ in 0..r.below(4) { self.ballast.push(vec![0u8; r.range(1, 400)]); }
            while self.ballast.len() > 64 { let i = r.below(self.ballast.len()); self.ballast.swap_remove(i); }
        }
        let op_tags = self.dispatch(s);
        let tags = match op_tags {
            Ok(Some(t)) => t,
            Ok(None) => { hit(K::steps_skipped); return Ok(()); }
            Err(mut v) => { v.step = self.step_no; return Err(v) }
        };
        if let Err(mut v) = self.check(tags) { v.step = self.step_no; return Err(v); }
        // What went wrong here must not show in other documents afterwards.
        let focus = FOCUS.with(|f| f.get());
        let after = (focus == C14 && s.op.is_crash()) || (focus == C09 && matches!(s.op, Op::SDamage | Op::SForeign) && s.d % 8 == 0);
        if after && !seam::has_yield() {
            if let Some(m) = crate::bystander::run(s.a as usize) {
                return Err(Viol { tags: focus, class: "bystander", step: self.step_no, msg: format!("afterwards another document went differently: {}", m) });
            }
        }
        Ok(())
    }

    pub fn out(&mut self, s: &Step, v: u64) { self.dig.u(s.op as u64); self.dig.u(v); }

    /// Performs a step; returns the properties to blame if the document is wrong afterwards,
    /// or None if the step was not applicable.
    pub fn dispatch(&mut self, s: &Step) -> R<Option<u32>> {
        match s.op {
            Op::NewEl | Op::NewElIn => self.op_new_el(s),
            Op::NewText | Op::NewComment => self.op_new_text(s),
            Op::Append | Op::Prepend | Op::Before | Op::After => self.op_insert(s),
            Op::Shuffle => self.op_shuffle(s),
            Op::Detach => self.op_detach(s),
            Op::Remove => self.op_remove(s),
            Op::PSinkRemove if s.b & 1 == 1 => self.op_psink_remove(s),
            Op::RemoveAgain | Op::PSinkRemove => self.op_remove_again(s),
            Op::Drain | Op::PDrain => self.op_drain(s),
            Op::Copy | Op::CopyDeep => self.op_copy(s),
            Op::Bulk => self.op_bulk(s),
            Op::Loose => {
                if self.sess.is_some() { return Ok(None); }
                self.out(s, s.a as u64);
                crate::loose::run(s.a as u64 ^ (s.b as u64) << 32, s.c, s.d)?;
                Ok(Some(C01 | C11))
            }
            Op::SetAttr => self.op_set_attr(s),
            Op::SetLink => self.op_set_link(s),
            Op::RemoveAttr => self.op_remove_attr(s),
            Op::SetId => self.op_set_id(s),
            Op::SetTag => self.op_set_tag(s),
            Op::Refused => self.op_refused(s),
            Op::SetText => self.op_set_text(s),
            Op::AttrMut => self.op_attr_mut(s),
            Op::Format | Op::PPrint => self.op_format(s),
            Op::PSinkSave => self.op_psink_save(s),
            Op::CurOpen => self.op_cur_open(s),
            Op::CurStep => self.op_cur_step(s),
            Op::CurFinish => self.op_cur_finish(s),
            Op::CurDrop => {
                let i = match sel(&(0..self.curs.len()).collect::<Vec<_>>(), s.a) { Some(i) => i, None => return Ok(None) };
                self.curs.swap_remove(i);
                Ok(Some(C02))
            }
            Op::GuardShared | Op::GuardWrite => self.op_guard(s),
            Op::GuardDrop => {
                let i = match sel(&(0..self.guards.len()).collect::<Vec<_>>(), s.a) { Some(i) => i, None => return Ok(None) };
                self.guards.swap_remove(i);
                Ok(Some(C07))
            }
            Op::Crash => self.op_crash(s),
            Op::Save => self.op_save(s),
            Op::Load | Op::PSinkLoad => self.op_load(s),
            Op::OpenDoc => {
                if self.open_docs().len() >= self.cfg.max_docs { return Ok(None); }
                self.open_doc()?;
                hit(K::op_open);
                Ok(Some(C12))
            }
            Op::CloseDoc => {
                let d = match self.pick_doc(s.a) { Some(d) => d, None => return Ok(None) };
                self.close_doc(d, 0)?;
                self.out(s, 0);
                Ok(Some(C11))
            }
            Op::DropHandle => self.op_drop_handle(s),
            Op::Churn => self.op_churn(s),
            Op::PConv => self.op_pconv(s),
            _ => self.sess_step(s),
        }
    }

    // ------------------------------------------------------------ structure

    pub fn place_new(&mut self, d: usize, mid: usize, node: Node, at: Option<u32>) -> R<Option<u32>> {
        self.n[mid].h = Some(node.clone());
        if let Some(arg) = at {
            let q = match self.pick_parent(d, arg, |m| m != mid && self.legal(m, mid)) { Some(q) => q, None => return Ok(Some(C01)) };
            let mut touch = Vec::new();
            self.near(q, &mut touch);
            if !self.clear_to_edit(&touch) { return Ok(Some(C01)); }
            let mut qh = self.handle(q)?;
            let front = arg & 0x8000_0000 != 0;
            self.lib(C01, "insert-panic", || if front { qh.prepend(node) } else { qh.append(node) })?;
            let i = if front { 0 } else { self.n[q].children.len() };
            self.m_insert(q, i, mid);
        }
        Ok(Some(C01))
    }

    pub fn op_new_el(&mut self, s: &Step) -> R<Option<u32>> {
        if self.live_total() >= self.cfg.max_nodes + self.bulk { return Ok(None); }
        let d = match self.pick_doc(s.a) { Some(d) => d, None => return Ok(None) };
        let tag = TAGS[s.b as usize % TAGS.len()];
        let doc = self.docs[d].doc.as_mut().unwrap();
        let r = call(|| doc.create_element(tref(&tag)));
        let mut node = match r { Ok(n) => n, Err(e) => return viol(C01, "create-panic", format!("create_element panicked: {}", e)) };
        let mid = self.m_node(d, Kind::Element, tag, String::new());
        if s.d & 1 == 0 {
            let id = self.new_id();
            let idc = id.clone();
            self.lib(C04, "setid-panic", || node.set_id(idc))?;
            self.n[mid].id = id;
        }
        hit(K::op_create);
        self.out(s, mid as u64);
        self.place_new(d, mid, node, if s.op == Op::NewElIn { Some(s.c) } else { None })
    }

    /// A large part of a document at once: many children, many levels, many users of one element.
    pub fn op_bulk(&mut self, s: &Step) -> R<Option<u32>> {
        let d = match &self.sess { Some(se) => se.doc, None => match self.pick_doc(s.a) { Some(d) => d, None => return Ok(None) } };
        if self.docs[d].doc.is_none() || self.live_total() > 400 { return Ok(None); }
        let sess = self.sess.is_some();
        let q = self.pick_live(d, s.b, |m| self.n[m].kind == Kind::Element && (!sess || self.bulk_place(m)));
        let q = match q { Some(q) => q, None => return Ok(None) };
        let mut touch = vec![q];
        if let Some(&c) = self.n[q].children.last() { touch.push(c) }
        if !self.clear_to_edit(&touch) { return Ok(None); }
        let mode = s.d % 5;
        if mode == 4 {
            let k = [20, 36, 70, MANY.len()][s.c as usize % 4];
            let mut h = self.handle(q)?;
            for name in &MANY[..k] {
                let v = crate::values::any_value(s.c.wrapping_add(name.as_bytes()[2] as u32 * 77));
                let v2 = v.clone();
                self.lib(C04, "set-attr-panic", || h.set_attribute((*name, v2)))?;
                self.m_set_attr(q, Nm::Cu(name), MVal::Plain(v));
            }
            hit(K::op_bulk);
            self.out(s, k as u64);
            return Ok(Some(C04));
        }
        let n = [20, 40, 70, 130, 260][s.c as usize % 5].min(if mode == 1 { 130 } else { 260 });
        let mut at = q;
        let mut first = None;
        for i in 0..n {
            let tag = match (mode, i) { (3, 0) => ElementId::LinearGradient, (1, _) | (2, _) => ElementId::G, _ => ElementId::Rect };
            let doc = self.docs[d].doc.as_mut().unwrap();
            let mut node = match call(|| doc.create_element(tag)) { Ok(n) => n, Err(e) => return viol(C01, "create-panic", format!("create_element panicked: {}", e)) };
            let m = self.m_node(d, Kind::Element, Tg::Id(tag), String::new());
            if i % 3 == 0 {
                let id = self.new_id();
                let id2 = id.clone();
                self.lib(C04, "setid-panic", || node.set_id(id2))?;
                self.n[m].id = id;
            }
            if i % 4 == 1 && tag == ElementId::Rect {
                let v = crate::values::typed_value(AttributeId::X, tag, s.c.wrapping_add(i));
                let v2 = v.clone();
                self.lib(C04, "set-attr-panic", || node.set_attribute((AttributeId::X, v2)))?;
                self.m_set_attr(m, Nm::Id(AttributeId::X), MVal::Plain(v));
            }
            let mut qh = self.handle(at)?;
            let n2 = node.clone();
            self.lib(C01, "append-panic", || qh.append(n2))?;
            self.n[m].h = Some(node.clone());
            let len = self.n[at].children.len();
            self.m_insert(at, len, m);
            if mode == 3 {
                match first {
                    None => first = Some(m),
                    Some(t) => {
                        let th = self.handle(t)?;
                        let none: Option<PaintFallback> = None;
                        let ok = self.lib(C04 | C03, "set-link-panic", || node.set_attribute_checked((AttributeId::Fill, (th, none))).is_ok())?;
                        if !ok { return viol(C04 | C03, "link-verdict", "a proper link was refused"); }
                        self.m_set_attr(m, Nm::Id(AttributeId::Fill), MVal::Link(Lk::Paint, t, None));
                    }
                }
            }
            match mode { 1 => at = m, 2 if i % 12 == 11 => at = m, _ => {} }
        }
        hit(K::op_bulk);
        self.bulk += n as usize;
        self.out(s, n as u64);
        Ok(Some(C01 | C03 | C04))
    }

    pub fn op_new_text(&mut self, s: &Step) -> R<Option<u32>> {
        if self.live_total() >= self.cfg.max_nodes + self.bulk { return Ok(None); }
        let d = match self.pick_doc(s.a) { Some(d) => d, None => return Ok(None) };
        let (kind, nt) = if s.op == Op::NewText { (Kind::Text, NodeType::Text) } else { (Kind::Comment, NodeType::Comment) };
        self.idc += 1;
        let text = if s.d % 8 == 0 { ODD_TEXT[s.d as usize / 8 % ODD_TEXT.len()].to_string() } else { format!("t{}{}", self.idc, crate::values::salt()) };
        let t2 = text.clone();
        let doc = self.docs[d].doc.as_mut().unwrap();
        let r = call(|| if s.b & 1 == 0 { doc.create_node(nt, t2) } else { doc.create_node(nt, t2.as_str()) });
        let node = match r { Ok(n) => n, Err(e) => return viol(C01, "create-panic", format!("create_node panicked: {}", e)) };
        let mid = self.m_node(d, kind, Tg::Nothing, text);
        hit(K::op_create);
        self.out(s, mid as u64);
        self.place_new(d, mid, node, if s.b & 6 != 0 { Some(s.c) } else { None })
    }

    pub fn op_insert(&mut self, s: &Step) -> R<Option<u32>> {
        let sib = matches!(s.op, Op::Before | Op::After);
        let d = match self.pick_doc(s.a) { Some(d) => d, None => return Ok(None) };
        let t = match self.pick_live(d, s.b, |m| if sib { self.n[m].parent.is_some() } else { matches!(self.n[m].kind, Kind::Element | Kind::Root) }) {
            Some(t) => t, None => return Ok(None) };
        let q = if sib { self.n[t].parent.unwrap() } else { t };
        // Some choices prefer a node that is already near its new place.
        let near: Vec<usize> = if s.d % 4 == 0 {
            self.n[q].children.iter().cloned().filter(|&x| x != t && self.legal(q, x)).collect()
        } else { Vec::new() };
        let x = match sel(&near, s.c) {
            Some(x) => x,
            None => match self.pick_live(d, s.c, |m| m != t && self.legal(q, m)) { Some(x) => x, None => return Ok(None) },
        };
        self.do_insert(s.op, t, x)?;
        self.out(s, (t * 1000 + x) as u64);
        Ok(Some(C01))
    }

    /// Moves each of several children within one parent: adjacency-heavy edits.
    pub fn op_shuffle(&mut self, s: &Step) -> R<Option<u32>> {
        let q = match self.pick(s.a, s.b, |n| n.children.len() >= 2) { Some(q) => q, None => return Ok(None) };
        let mut r = Rng::from2(s.c as u64, 5);
        for _ in 0..1 + s.d % 3 {
            let x = *r.pick(&self.n[q].children);
            let t = *r.pick(&self.n[q].children);
            let op = *r.pick(&[Op::Append, Op::Prepend, Op::Before, Op::After]);
            let t = if matches!(op, Op::Append | Op::Prepend) { q } else { t };
            if t == x { continue; }
            self.do_insert(op, t, x)?;
            self.check(C01)?;
        }
        self.out(s, q as u64);
        Ok(Some(C01))
    }

    pub fn do_insert(&mut self, op: Op, t: usize, x: usize) -> R {
        let sib = matches!(op, Op::Before | Op::After);
        let q = if sib { self.n[t].parent.unwrap() } else { t };
        let mut touch = Vec::new();
        self.near(t, &mut touch);
        self.near(x, &mut touch);
        if !self.clear_to_edit(&touch) { return Ok(()); }
        let (mut th, xh) = (self.handle(t)?, self.handle(x)?);
        match self.n[x].parent {
            None => hit(K::insert_from_fragment),
            Some(o) if o == q => {
                hit(K::move_within_parent);
                if sib && self.pos(x).abs_diff(self.pos(t)) == 1 { hit(K::move_next_to_self_place) }
            }
            _ => hit(K::move_across_docsubtrees),
        }
        let (class, k): (&'static str, K) = match op {
            Op::Append => ("append-panic", K::op_append),
            Op::Prepend => ("prepend-panic", K::op_prepend),
            Op::Before => ("insert-before-panic", K::op_insert_before),
            _ => ("insert-after-panic", K::op_insert_after),
        };
        self.lib(C01, class, || match op {
            Op::Append => th.append(xh),
            Op::Prepend => th.prepend(xh),
            Op::Before => th.insert_before(xh),
            _ => th.insert_after(xh),
        })?;
        hit(k);
        self.m_detach(x);
        let i = match op {
            Op::Append => self.n[q].children.len(),
            Op::Prepend => 0,
            Op::Before => self.pos(t),
            _ => self.pos(t) + 1,
        };
        self.m_insert(q, i, x);
        Ok(())
    }

    pub fn op_detach(&mut self, s: &Step) -> R<Option<u32>> {
        // Detaching a node that has no parent is a legal no-op.
        let x = match self.pick(s.a, s.b, |n| n.kind != Kind::Root) { Some(x) => x, None => return Ok(None) };
        let mut touch = Vec::new();
        self.near(x, &mut touch);
        if !self.clear_to_edit(&touch) { return Ok(None); }
        let mut h = self.handle(x)?;
        self.lib(C01, "detach-panic", || h.detach())?;
        self.m_detach(x);
        self.n[x].h = Some(h);
        hit(K::op_detach);
        self.out(s, x as u64);
        Ok(Some(C01))
    }

    pub fn op_remove(&mut self, s: &Step) -> R<Option<u32>> {
        let d = match self.pick_doc(s.a) { Some(d) => d, None => return Ok(None) };
        let x = match self.pick_live(d, s.b, |m| self.n[m].kind != Kind::Root) { Some(x) => x, None => return Ok(None) };
        // Usually prefer small subtrees, so that documents stay interesting.
        let x = if self.cfg.shape == 4 && (s.c >> 8) % 6 == 0 { self.pick_live(d, s.b, |m| self.users(m).len() > 8).unwrap_or(x) } else { x };
        let x = if s.c % 3 != 0 && self.n[x].children.len() > 2 { self.n[x].children[0] } else { x };
        let mut touch = Vec::new();
        self.touch_remove(x, &mut touch);
        if !self.clear_to_edit(&touch) { return Ok(None); }
        let h = self.handle(x)?;
        if self.n[x].h.is_none() && s.d & 1 == 0 { self.n[x].h = Some(h.clone()); }
        let doc = self.docs[d].doc.as_mut().unwrap();
        let r = call(|| doc.remove_node(h));
        self.lib(C05 | C01, "remove-panic", || if let Err(e) = &r { panic!("{}", e) })?;
        self.m_remove(x);
        hit(K::op_remove);
        self.out(s, x as u64);
        Ok(Some(C05))
    }

    pub fn op_remove_again(&mut self, s: &Step) -> R<Option<u32>> {
        let v: Vec<usize> = self.removed.iter().cloned()
            .filter(|&m| self.n[m].h.is_some() && self.docs[self.n[m].doc].doc.is_some()).collect();
        let x = match sel(&v, s.a) { Some(x) => x, None => return Ok(None) };
        let d = self.n[x].doc;
        let h = self.n[x].h.clone().unwrap();
        let doc = self.docs[d].doc.as_mut().unwrap();
        if s.op == Op::PSinkRemove {
            let old = seam::set_sink(SinkMode::Bomb, 0);
            let r = call(|| doc.remove_node(h));
            seam::set_sink(old, 0);
            match r {
                Ok(()) => {}
                Err(e) if e.starts_with(seam::INJECTED) => hit(K::fault_sink_panic_remove),
                Err(e) => return viol(C14 | C05, "remove-panic", format!("unexpected panic: {}", e)),
            }
            self.out(s, x as u64);
            return Ok(Some(C14 | C05));
        }
        let r = call(|| doc.remove_node(h));
        if let Err(e) = r { return viol(C05, "remove-again-panic", format!("removing a removed node panicked: {}", e)); }
        hit(K::op_remove_again);
        self.out(s, x as u64);
        Ok(Some(C05))
    }

    /// Removes a node with a log sink that panics; each node of the subtree has to be removed or untouched.
    pub fn op_psink_remove(&mut self, s: &Step) -> R<Option<u32>> {
        let d = match self.pick_doc(s.a) { Some(d) => d, None => return Ok(None) };
        let x = match self.pick_live(d, s.b >> 1, |m| self.n[m].kind != Kind::Root) { Some(x) => x, None => return Ok(None) };
        let mut touch = Vec::new();
        self.touch_remove(x, &mut touch);
        if !self.clear_to_edit(&touch) { return Ok(None); }
        // children before parents
        let mut order = vec![x];
        let mut i = 0;
        while i < order.len() { let m = order[i]; order.extend(self.n[m].children.iter().cloned()); i += 1; }
        order.reverse();
        let mut hs = Vec::new();
        for &m in &order { hs.push((m, self.handle(m)?)); }
        let h = self.handle(x)?;
        let doc = self.docs[d].doc.as_mut().unwrap();
        let old = seam::set_sink(SinkMode::Bomb, s.c % 3);
        let r = call(|| doc.remove_node(h));
        seam::set_sink(old, 0);
        match r {
            Ok(()) => self.m_remove(x),
            Err(e) if e.starts_with(seam::INJECTED) => {
                hit(K::fault_sink_panic_remove);
                for (m, h) in &hs { if self.lib(C14, "removed-read-panic", || h.is_detached())? { self.m_remove(*m) } }
            }
            Err(e) => return viol(C14 | C05, "remove-panic", format!("unexpected panic: {}", e)),
        }
        self.out(s, x as u64);
        Ok(Some(C14 | C05))
    }

    pub fn pred_model(&self, kind: u32, arg: u32, m: usize) -> bool {
        let n = &self.n[m];
        match kind {
            0 => false,
            1 => n.kind == Kind::Element && n.tag == TAGS[arg as usize % TAGS.len()],
            2 => n.kind == Kind::Comment,
            3 => n.kind == Kind::Text,
            4 => self.get_attr(m, &self.nm(arg)).is_some(),
            5 => !n.id.is_empty() && (n.id.as_bytes()[n.id.len() - 1] as u32 + arg) % 3 == 0,
            6 => true,
            _ => n.kind == Kind::Element && n.id.is_empty(),
        }
    }

    pub fn op_drain(&mut self, s: &Step) -> R<Option<u32>> {
        let bomb = s.op == Op::PDrain;
        let d = match self.pick_doc(s.a) { Some(d) => d, None => return Ok(None) };
        // Mostly drain from the root or a node with children.
        let root = if s.b % 2 == 0 { self.docs[d].root } else {
            match self.pick_live(d, s.b, |m| !self.n[m].children.is_empty()) { Some(x) => x, None => return Ok(None) } };
        let kind = [1, 1, 2, 3, 4, 4, 5, 5, 7, 0, 1, 5, 7, 4, 6, 1][(s.c % 16) as usize];
        let arg = s.c / 16;
        // Removing a node removes the links to it, so a predicate about such an attribute changes its mind on the way.
        let dnm = self.nm(arg);
        let nm = &dnm;
        let by_link = kind == 4 && self.docs[d].live.iter().any(|&m| matches!(self.get_attr(m, nm), Some(MVal::Link(..))));
        let dynamic = s.c % 16 == 15 || by_link;
        if dynamic && (bomb || self.cfg.keep != Keep::All) { return Ok(None); }
        // topmost matches
        let mut tops = Vec::new();
        let mut touch = vec![];
        let mut visited = 0u32;
        let mut stack: Vec<usize> = self.n[root].children.iter().rev().cloned().collect();
        while let Some(m) = stack.pop() {
            visited += 1;
            if self.pred_model(kind, arg, m) { tops.push(m); } else {
                for &c in self.n[m].children.iter().rev() { stack.push(c) }
            }
        }
        if dynamic { if !self.guards.is_empty() { return Ok(None); } }
        if self.write_guard() { return Ok(None); }
        for &m in &tops { self.touch_remove(m, &mut touch); }
        let nested: Option<(usize, Node)> = if s.d & 3 == 1 && !bomb {
            match self.pick_live(d, s.d >> 8, |m| self.n[m].kind == Kind::Element) {
                Some(m) => { touch.push(m); Some((m, self.handle(m)?)) }
                None => None,
            }
        } else { None };
        if !self.clear_to_edit(&touch) { return Ok(None); }
        let root_h = self.handle(root)?;
        let mut top_h = Vec::new();
        for &m in &tops { top_h.push(self.handle(m)?); }
        let calls = Cell::new(0u32);
        let at = if visited > 0 { (s.d >> 4) % visited } else { 0 };
        let yes: RefCell<Vec<Node>> = RefCell::new(Vec::new());
        let nested_done = Cell::new(false);
        let doc = self.docs[d].doc.as_mut().unwrap();
        let r = call(|| doc.drain(root_h, |n: &Node| {
            let k = calls.get();
            calls.set(k + 1);
            if bomb && k == at { seam::boom(); }
            seam::yield_point(2);
            // A predicate may look around freely.
            if s.d & 4 != 0 {
                let _ = (n.parent().is_some(), n.next_sibling().is_some(), n.previous_sibling().is_some(), n.root().is_root());
                let _ = (n.linked_nodes().len(), n.attributes().len());
            }
            if let (Some((_, h)), true) = (&nested, k == at) {
                let mut h = h.clone();
                h.set_attribute((nref(&NEST), k as f64));
                nested_done.set(true);
            }
            let res = if dynamic && !by_link { n.is_element() && !n.is_used() && !n.has_children() } else {
                match kind {
                    0 => false,
                    1 => n.is_element() && n.has_tag_name(tref(&TAGS[arg as usize % TAGS.len()])),
                    2 => n.is_comment(),
                    3 => n.is_text(),
                    4 => n.has_attribute(nref(&dnm)),
                    5 => n.has_id() && { let id = n.id(); (id.as_bytes()[id.len() - 1] as u32 + arg) % 3 == 0 },
                    6 => true,
                    _ => n.is_element() && !n.has_id(),
                }
            };
            if dynamic && res { yes.borrow_mut().push(n.clone()) }
            res
        }));
        hit(K::op_drain);
        if let (Some((m, _)), true) = (&nested, nested_done.get()) {
            self.m_set_attr(*m, NEST, MVal::Plain(AttributeValue::Number(at as f64)));
            hit(K::fault_nested_edit_in_predicate);
        }
        let mut tags = C05 | C01;
        match r {
            Ok(count) => {
                if dynamic {
                    let mut ms = Vec::new();
                    for y in yes.borrow().iter() {
                        match self.docs[d].live.iter().find(|&&m| self.n[m].h.as_ref() == Some(y)) {
                            Some(&m) => ms.push(m),
                            None => return viol(C05, "drain-visit", "drain asked about a node that is not in the document"),
                        }
                    }
                    for m in ms { if self.n[m].st == St::Live { self.m_remove(m); add(K::drain_removed, 1); } }
                    self.out(s, 0);
                } else {
                    ensure!(count == tops.len(), C05, "drain-count", "drain returned {} instead of {}", count, tops.len());
                    add(K::drain_removed, tops.len() as u64);
                    for (m, h) in tops.into_iter().zip(top_h) { self.keep_removed(m, h, s.d); self.m_remove(m) }
                    self.out(s, count as u64);
                }
            }
            Err(e) if bomb && e.starts_with(seam::INJECTED) => {
                hit(K::fault_predicate_panic);
                tags |= C14;
                let mut done = 0u64;
                for (m, h) in tops.into_iter().zip(top_h) {
                    let gone = match call(|| h.is_detached()) {
                        Ok(g) => g,
                        Err(e) => return viol(C14, "after-panic", format!("reading a node after a predicate panic: {}", e)),
                    };
                    if gone { self.keep_removed(m, h, s.d); self.m_remove(m); done += 1; }
                }
                if done > 0 { hit(K::drain_partial_after_panic) }
                self.out(s, done);
            }
            Err(e) => {
                let g = if e.contains("borrow") && !self.guards.is_empty() { C07 } else { 0 };
                return viol(tags | g, "drain-panic", format!("unexpected panic: {}", e));
            }
        }
        Ok(Some(tags))
    }

    pub fn keep_removed(&mut self, m: usize, h: Node, arg: u32) {
        if self.n[m].h.is_none() && arg & 0x80 != 0 { self.n[m].h = Some(h) }
    }

    pub fn op_copy(&mut self, s: &Step) -> R<Option<u32>> {
        let deep = s.op == Op::CopyDeep;
        let d = match self.pick_doc(s.a) { Some(d) => d, None => return Ok(None) };
        let x = match self.pick_live(d, s.b, |m| self.n[m].kind != Kind::Root) { Some(x) => x, None => return Ok(None) };
        let src = if deep { self.subtree(x) } else { vec![x] };
        if self.live_total() + src.len() > self.cfg.max_nodes + 20 + 2 * self.bulk { return Ok(None); }
        if self.write_guard() { return Ok(None); }
        // Content without links may be copied into another document.
        let free = src.iter().all(|&y| self.n[y].attrs.iter().all(|a| !matches!(a.1, MVal::Link(..))));
        let d = if free && s.c % 4 == 0 { self.pick_doc(s.d).unwrap_or(d) } else { d };
        if d != self.n[x].doc { hit(K::copy_across_docs) }
        let mut touch = Vec::new();
        for &y in &src { for (_, a) in &self.n[y].attrs { if let MVal::Link(_, t, _) = a { touch.push(*t) } } }
        if !self.clear_to_edit(&touch) { return Ok(None); }
        let h = self.handle(x)?;
        let doc = self.docs[d].doc.as_mut().unwrap();
        let r = call(|| if deep { doc.copy_node_deep(h) } else { doc.copy_node(h) });
        let mut r2 = Ok(());
        let node = match r { Ok(n) => Some(n), Err(e) => { r2 = Err(e); None } };
        self.lib(C06, "copy-panic", || if let Err(e) = &r2 { panic!("{}", e) })?;
        let node = node.unwrap();
        // model copy
        let mut map = Vec::new();
        for &y in &src {
            let (k, t, tx) = (self.n[y].kind, self.n[y].tag, self.n[y].text.clone());
            let m = self.m_node(d, k, t, tx);
            self.n[m].attrs = self.n[y].attrs.clone();
            map.push((y, m));
        }
        if deep {
            for &(y, m) in &map {
                let kids: Vec<usize> = self.n[y].children.iter().map(|c| map.iter().find(|z| z.0 == *c).unwrap().1).collect();
                for &k in &kids { self.n[k].parent = Some(m) }
                self.n[m].children = kids;
            }
        }
        let top = map[0].1;
        self.n[top].h = Some(node);
        // take handles by walking the copy
        for &(_, m) in &map[1..] {
            if self.want(m) {
                let h = match self.handle(m) { Ok(h) => h, Err(v) => return Err(Viol { tags: v.tags | C06, class: "copy-shape", ..v }) };
                self.n[m].h = Some(h);
            }
        }
        // No node of the copy may be a node of the original.
        for &(_, m) in &map {
            if let Some(h) = &self.n[m].h {
                let clash = self.docs.iter().flat_map(|d| d.live.iter()).any(|&o| o != m && self.n[o].h.as_ref() == Some(h));
                ensure!(!clash, C06, "copy-shared", "a copy shares a node with existing content");
            }
        }
        hit(if deep { K::op_copy_deep } else { K::op_copy });
        self.out(s, src.len() as u64);
        Ok(Some(C06))
    }

    // ------------------------------------------------------------ data

    pub fn op_set_attr(&mut self, s: &Step) -> R<Option<u32>> {
        let x = match self.pick(s.a, s.b, |n| n.kind == Kind::Element) { Some(x) => x, None => return Ok(None) };
        let nm = self.nm(s.c);
        let mut touch = vec![x];
        if let Some(MVal::Link(_, t, _)) = self.get_attr(x, &nm) { touch.push(*t) }
        if !self.clear_to_edit(&touch) { return Ok(None); }
        let v = values::any_value(s.d);
        let mut h = self.handle(x)?;
        let keep = s.c % 8 == 3;
        let linky = if touch.len() > 1 { C03 } else { 0 };
        let how = (s.c / 64) % 3;
        let v2 = v.clone();
        let r = self.lib(C04 | linky, "set-attr-panic", || {
            let a = Attribute::new(nref(&nm), v2);
            if keep { h.set_attribute_if_none(a); return true; }
            if s.c / 256 % 2 == 0 {
                // the ways callers spell a value
                let name = nref(&nm);
                match a.value.clone() {
                    AttributeValue::Number(n) if n.fract() == 0.0 && n.abs() < 1e6 => { h.set_attribute((name, n as i32)); return true; }
                    AttributeValue::Number(n) => { h.set_attribute((name, n)); return true; }
                    AttributeValue::Length(l) if l.num.fract() == 0.0 && l.num.abs() < 1e6 => { h.set_attribute((name, (l.num as i32, l.unit))); return true; }
                    AttributeValue::Length(l) if how == 0 => { h.set_attribute((name, (l.num, l.unit))); return true; }
                    AttributeValue::Length(l) => { h.set_attribute((name, l)); return true; }
                    AttributeValue::String(t) if how == 0 => { h.set_attribute((name, t)); return true; }
                    AttributeValue::String(t) => { h.set_attribute((name, t.as_str())); return true; }
                    AttributeValue::Color(c) if how == 0 => { h.set_attribute((name, PaintFallback::Color(c))); return true; }
                    AttributeValue::Color(c) => { h.set_attribute((name, c)); return true; }
                    AttributeValue::None => { h.set_attribute((name, PaintFallback::None)); return true; }
                    AttributeValue::CurrentColor => { h.set_attribute((name, PaintFallback::CurrentColor)); return true; }
                    AttributeValue::Angle(x) => { h.set_attribute((name, x)); return true; }
                    AttributeValue::Path(x) => { h.set_attribute((name, x)); return true; }
                    AttributeValue::Points(x) => { h.set_attribute((name, x)); return true; }
                    AttributeValue::Transform(x) => { h.set_attribute((name, x)); return true; }
                    AttributeValue::ViewBox(x) => { h.set_attribute((name, x)); return true; }
                    AttributeValue::AspectRatio(x) => { h.set_attribute((name, x)); return true; }
                    AttributeValue::NumberList(x) => { h.set_attribute((name, x)); return true; }
                    AttributeValue::LengthList(x) => { h.set_attribute((name, x)); return true; }
                    _ => {}
                }
            }
            match how {
                0 => { h.set_attribute((nref(&nm), a.value)); true }
                1 => { h.set_attribute(a); true }
                _ => h.set_attribute_checked(a).is_ok(),
            }
        })?;
        ensure!(r, C04, "set-attr-refused", "setting a plain attribute was refused");
        hit(K::op_set_attr);
        if keep && self.get_attr(x, &nm).is_some() { hit(K::op_if_none_kept); } else { self.m_set_attr(x, nm, MVal::Plain(v)); }
        self.out(s, x as u64);
        Ok(Some(C04))
    }

    pub fn op_set_link(&mut self, s: &Step) -> R<Option<u32>> {
        let d = match self.pick_doc(s.a) { Some(d) => d, None => return Ok(None) };
        let x = match self.pick_live(d, s.b, |m| self.n[m].kind == Kind::Element) { Some(x) => x, None => return Ok(None) };
        let nm = self.nm(s.d >> 8);
        // Prefer interesting targets: with id, sometimes the node itself or one that links back.
        let t = match s.d % 8 {
            0 => self.pick_live(d, s.c, |m| self.n[m].kind == Kind::Element),
            1 => sel(&self.users(x), s.c),
            2 => self.pick_live(d, s.c, |m| self.n[m].attrs.iter().any(|a| matches!(a.1, MVal::Link(..)))),
            _ if self.cfg.shape == 4 && (s.c >> 20) & 15 != 0 => {
                let v: Vec<usize> = self.docs[d].live.iter().cloned().filter(|&m| !self.n[m].id.is_empty()).collect();
                sel(&v[..v.len().min(2)], s.c)
            }
            _ => self.pick_live(d, s.c, |m| !self.n[m].id.is_empty()),
        };
        let t = match t { Some(t) => t, None => return Ok(None) };
        let mut touch = vec![x, t];
        let old = match self.get_attr(x, &nm) { Some(MVal::Link(_, o, _)) => Some(*o), _ => None };
        if let Some(o) = old { touch.push(o) }
        if !self.clear_to_edit(&touch) { return Ok(None); }
        let (mut h, th) = (self.handle(x)?, self.handle(t)?);
        let fb = match (s.d >> 12) % 4 {
            0 => None,
            1 => Some(PaintFallback::None),
            2 => Some(PaintFallback::CurrentColor),
            _ => Some(PaintFallback::Color(Color::new(1, 2, 3))),
        };
        let form = (s.d >> 16) % 5;
        let how = (s.d >> 20) % 4;
        // what the reference says
        let refuse = if self.n[t].id.is_empty() { 1 }
            else if self.n[x].id == self.n[t].id { 2 }
            else if self.n[t].attrs.iter().any(|a| matches!(a.1, MVal::Link(_, q, _) if q == x)) { 2 }
            else { 0 };
        let skip = how == 3 && self.get_attr(x, &nm).is_some();
        let kind = link_kind(&nm);
        let paint_given = form == 1 || form == 4;
        let want_fb = if kind == Lk::Paint && paint_given { fb } else { None };
        let mk = move || -> Attribute {
            match form {
                0 => Attribute::from((nref(&nm), th)),
                1 => Attribute::from((nref(&nm), (th, fb))),
                2 => Attribute::new(nref(&nm), AttributeValue::Link(th)),
                3 => Attribute::new(nref(&nm), AttributeValue::FuncLink(th)),
                _ => Attribute::new(nref(&nm), AttributeValue::Paint(th, fb)),
            }
        };
        let r = call(|| match how {
            0 | 1 => match h.set_attribute_checked(mk()) {
                Ok(()) => 0,
                Err(Error::ElementMustHaveAnId) => 1,
                Err(Error::ElementCrosslink) => 2,
            },
            2 => { h.set_attribute(mk()); 0 }
            _ => { h.set_attribute_if_none(mk()); 0 }
        });
        let got = match r {
            Ok(v) => v,
            Err(e) if how >= 2 && refuse != 0 && !skip && !e.contains("borrow") => refuse,
            Err(e) => {
                let g = if e.contains("borrow") && !self.guards.is_empty() { C07 } else { 0 };
                return viol(C04 | C03 | g, "set-link-panic", format!("unexpected panic: {}", e));
            }
        };
        let want = if skip { 0 } else { refuse };
        ensure!(got == want, C04 | C03, "link-verdict",
            "setting a link ended with {} instead of {} (0 accepted, 1 target has no id, 2 crossing link)", got, want);
        self.out(s, got as u64);
        hit(K::op_set_link);
        if skip { hit(K::op_if_none_kept); return Ok(Some(C04 | C03)); }
        if want != 0 { hit(K::op_link_refused); return Ok(Some(C04 | C03)); }
        if let Nm::Cu(_) = nm { hit(K::link_custom_name) }
        if let Some(o) = old { if o != t { hit(K::link_retarget) } }
        self.m_set_attr(x, nm, MVal::Link(kind, t, want_fb));
        if self.cfg.shape == 4 && (s.c >> 25) % 8 == 0 {
            // everything that may use the hub does
            for m in self.docs[d].live.clone() {
                if m == x || m == t || self.n[m].kind != Kind::Element || self.n[m].id == self.n[t].id { continue; }
                if self.n[t].attrs.iter().any(|a| matches!(a.1, MVal::Link(_, q, _) if q == m)) { continue; }
                let mut touch = vec![m, t];
                if let Some(MVal::Link(_, o, _)) = self.get_attr(m, &nm) { touch.push(*o) }
                if !self.clear_to_edit(&touch) { continue; }
                let (mut h, th) = (self.handle(m)?, self.handle(t)?);
                let ok = self.lib(C04 | C03, "set-link-panic", || h.set_attribute_checked((nref(&nm), th)).is_ok())?;
                ensure!(ok, C04 | C03, "link-verdict", "a proper link was refused");
                self.m_set_attr(m, nm, MVal::Link(kind, t, None));
            }
        }
        // probe: a cycle of three links
        for y in self.n[t].attrs.iter().filter_map(|a| if let MVal::Link(_, q, _) = a.1 { Some(q) } else { None }) {
            if self.n[y].attrs.iter().any(|a| matches!(a.1, MVal::Link(_, q, _) if q == x)) { hit(K::link_cycle3_closed); break; }
        }
        Ok(Some(C04 | C03))
    }

    pub fn op_remove_attr(&mut self, s: &Step) -> R<Option<u32>> {
        let x = match self.pick(s.a, s.b, |n| n.kind == Kind::Element && (s.d % 4 == 0 || !n.attrs.is_empty())) { Some(x) => x, None => return Ok(None) };
        let have: Vec<Nm> = self.n[x].attrs.iter().map(|a| a.0).collect();
        let nm = if s.d % 4 != 0 { sel(&have, s.c).unwrap() } else { self.nm(s.c) };
        let mut touch = vec![x];
        if let Some(MVal::Link(_, t, _)) = self.get_attr(x, &nm) { touch.push(*t) }
        if !self.clear_to_edit(&touch) { return Ok(None); }
        let linky = if touch.len() > 1 { C03 } else { 0 };
        let mut h = self.handle(x)?;
        self.lib(C04 | linky, "remove-attr-panic", || h.remove_attribute(nref(&nm)))?;
        self.m_rm_attr(x, &nm);
        hit(K::op_remove_attr);
        self.out(s, x as u64);
        Ok(Some(C04 | linky))
    }

    pub fn op_set_id(&mut self, s: &Step) -> R<Option<u32>> {
        let x = match self.pick(s.a, s.b, |n| n.kind == Kind::Element) { Some(x) => x, None => return Ok(None) };
        if !self.clear_to_edit(&[x]) { return Ok(None); }
        let used = !self.users(x).is_empty();
        let id = if s.c % 6 == 0 && !used { String::new() } else { self.new_id() };
        // Ids are plain strings here: white space, letter case, length and script must not matter.
        let id = if id.is_empty() { id } else { match s.d % 12 {
            0 => format!(" {}", id),
            1 => format!("{} ", id),
            2 => id.to_uppercase(),
            3 => format!("\u{a0}{}é😀", id),
            4 => format!("{}{}", id, "-long".repeat(1 + s.d as usize / 12 % 60)),
            5 => format!("{}\n<&'\"", id),
            _ => id,
        } };
        if used { hit(K::rename_used_id) }
        let mut h = self.handle(x)?;
        let id2 = id.clone();
        self.lib(C04, "set-id-panic", || if s.c & 1 == 0 { h.set_id(id2) } else { h.set_id(id2.as_str()) })?;
        self.n[x].id = id;
        hit(K::op_set_id);
        self.out(s, x as u64);
        Ok(Some(C04))
    }

    pub fn op_set_tag(&mut self, s: &Step) -> R<Option<u32>> {
        let x = match self.pick(s.a, s.b, |n| n.kind == Kind::Element) { Some(x) => x, None => return Ok(None) };
        if !self.clear_to_edit(&[x]) { return Ok(None); }
        let tag = TAGS[s.c as usize % TAGS.len()];
        let mut h = self.handle(x)?;
        self.lib(C04, "set-tag-panic", || h.set_tag_name(tref(&tag)))?;
        self.n[x].tag = tag;
        hit(K::op_set_tag);
        self.out(s, x as u64);
        Ok(Some(C04))
    }

    /// Calls that make no sense: whatever they do, nothing may change.
    pub fn op_refused(&mut self, s: &Step) -> R<Option<u32>> {
        let d = match self.pick_doc(s.a) { Some(d) => d, None => return Ok(None) };
        let root = self.docs[d].root;
        let x = match self.pick_live(d, s.b, |m| m != root && (s.c % 7 < 4 || self.n[m].kind == Kind::Element)) { Some(x) => x, None => return Ok(None) };
        if !self.clear_to_edit(&[x]) { return Ok(None); }
        let mut h = self.handle(x)?;
        let y = h.clone();
        let refused = match s.c % 7 {
            0 => { let _ = call(move || h.append(y)); true }
            1 => { let _ = call(move || h.prepend(y)); true }
            2 => { let _ = call(move || h.insert_after(y)); true }
            3 => { let _ = call(move || h.insert_before(y)); true }
            4 => call(move || h.set_tag_name("")).is_err(),
            5 => { let doc = self.docs[d].doc.as_mut().unwrap(); call(|| doc.create_element("")).is_err() }
            _ => { let n = TagName::Name(String::new()); call(move || h.set_tag_name(n.as_ref())).is_err() }
        };
        ensure!(refused, C04, "not-refused", "an empty tag name was accepted");
        hit(K::op_refused);
        self.out(s, x as u64);
        Ok(Some(C01 | C04))
    }

    pub fn op_set_text(&mut self, s: &Step) -> R<Option<u32>> {
        let x = match self.pick(s.a, s.b, |n| matches!(n.kind, Kind::Text | Kind::Comment)) { Some(x) => x, None => return Ok(None) };
        if !self.clear_to_edit(&[x]) { return Ok(None); }
        let mut h = self.handle(x)?;
        let t = match s.c % 8 {
            0 => format!(" n{}  ", s.c % 1000),
            1 => format!("é\r\n\tn{}\u{feff}", s.c % 1000),
            2 => "x y ".repeat(s.c as usize / 8 % 90),
            3 => ODD_TEXT[s.c as usize / 8 % ODD_TEXT.len()].to_string(),
            _ => format!("n{}{}", s.c % 1000, crate::values::salt()),
        };
        match s.d % 3 {
            0 => { self.lib(C04, "set-text-panic", || h.set_text(&t))?; self.n[x].text = t; }
            1 => { self.lib(C04, "set-text-panic", || h.text_mut().push_str(&t))?; self.n[x].text.push_str(&t); }
            _ => { self.lib(C04, "set-text-panic", || h.text_mut().clear())?; self.n[x].text.clear(); }
        }
        hit(K::op_set_text);
        self.out(s, x as u64);
        Ok(Some(C04))
    }

    pub fn op_attr_mut(&mut self, s: &Step) -> R<Option<u32>> {
        let x = match self.pick(s.a, s.b, |n| n.attrs.iter().any(|a| matches!(a.1, MVal::Plain(_)))) { Some(x) => x, None => return Ok(None) };
        if !self.clear_to_edit(&[x]) { return Ok(None); }
        let mut h = self.handle(x)?;
        if s.d % 3 == 0 {
            // every plain SVG number grows by one
            self.lib(C04, "attr-mut-panic", || {
                let mut at = h.attributes_mut();
                for (_, a) in FilterSvgAttrsMut::svg(at.iter_mut()) {
                    if let AttributeValue::Number(ref mut n) = a.value { *n += 1.0; }
                }
            })?;
            for (nm, v) in &mut self.n[x].attrs {
                if let (Nm::Id(_), MVal::Plain(AttributeValue::Number(n))) = (nm, v) { *n += 1.0 }
            }
        } else {
            let plain: Vec<Nm> = self.n[x].attrs.iter().filter(|a| matches!(a.1, MVal::Plain(_))).map(|a| a.0).collect();
            let nm = sel(&plain, s.c).unwrap();
            let v = values::any_value(s.d);
            let v2 = v.clone();
            let ok = self.lib(C04, "attr-mut-panic", || {
                let mut at = h.attributes_mut();
                if s.d % 3 == 1 {
                    match at.get_value_mut(nref(&nm)) { Some(slot) => { *slot = v2; true } None => false }
                } else {
                    match at.get_mut(nref(&nm)) { Some(a) => { a.value = v2; true } None => false }
                }
            })?;
            ensure!(ok, C04, "attrs", "attribute {:?} is not found by name for writing", nm);
            for a in &mut self.n[x].attrs { if a.0 == nm { a.1 = MVal::Plain(v.clone()) } }
        }
        hit(K::op_attr_mut);
        self.out(s, x as u64);
        Ok(Some(C04))
    }

    /// Prints something into a destination that may fail, fill up, take only parts, look around or panic.
    pub fn op_format(&mut self, s: &Step) -> R<Option<u32>> {
        let bomb = s.op == Op::PPrint;
        let x = match self.pick(s.a, s.b, |_| true) { Some(x) => x, None => return Ok(None) };
        if self.write_guard() { return Ok(None); }
        let d = self.n[x].doc;
        let h = self.handle(x)?;
        let what = if s.c % 8 == 2 && self.has_root_text(d) { 0 } else { s.c % 8 };
        let doc = self.docs[d].doc.as_ref().unwrap();
        let item: &dyn std::fmt::Display = match what { 2 => doc, _ => &h };
        let at = self.lib(C04, "format-panic", || h.attributes())?;
        let one = if at.len() > 0 { at.iter().nth(s.d as usize % at.len()) } else { None };
        let item: &dyn std::fmt::Display = match (what, one) {
            (3, _) => &*at,
            (4, Some(a)) => a,
            (5, Some(a)) => &a.value,
            (6, Some(a)) => &a.name,
            _ => item,
        };
        let dbg = what == 1 || what == 7;
        let full = self.lib(C04 | C16, "format-panic", || if dbg { format!("{:?}", h) } else { format!("{}", item) })?;
        self.dig.s(&full);
        hit(K::op_format);
        let cut = if full.is_empty() { 0 } else { (s.d >> 4) as usize % (full.len() + 1) };
        let mode = if bomb { 4 } else { (s.c >> 8) % 4 };
        let look = if s.c & 0x8000 != 0 { Some(doc.root()) } else { None };
        if mode == 3 {
            // a file-like destination: short writes, interruptions, then full
            let mut to = IoDest { text: Vec::new(), cut: if s.c & 0x1000 != 0 { usize::MAX } else { cut }, r: Rng::from2(s.d as u64, 9), failed: false };
            let r = self.lib(C16, "print-panic", || {
                use std::io::Write;
                if dbg { write!(to, "{:?}", h) } else { write!(to, "{}", item) }
            })?;
            if to.failed { hit(K::fault_print_full) }
            hit(K::fault_print_short);
            ensure!(r.is_ok() == !to.failed, C16, "print-verdict", "printing into a {} destination ended with {}", if to.failed { "full" } else { "working" }, if r.is_ok() { "success" } else { "failure" });
            ensure!(full.as_bytes().starts_with(&to.text), C16, "print-prefix", "what a failing destination accepted is not a prefix of the text");
            ensure!(to.failed || to.text.len() == full.len(), C16, "print-prefix", "a destination got {} of {} bytes and no failure was reported", to.text.len(), full.len());
        } else {
            let mut to = Dest { text: String::new(), cut: if mode == 0 { usize::MAX } else { cut }, mode, failed: false, look };
            let r = call(|| {
                use std::fmt::Write;
                if dbg { write!(to, "{:?}", h) } else { write!(to, "{}", item) }
            });
            match r {
                Ok(r) => {
                    if to.failed { hit(K::fault_print_error) }
                    ensure!(r.is_ok() == !to.failed, C16, "print-verdict", "printing into a {} destination ended with {}", if to.failed { "failing" } else { "working" }, if r.is_ok() { "success" } else { "failure" });
                    ensure!(full.starts_with(&to.text), C16, "print-prefix", "what a failing destination accepted is not a prefix of the text");
                    ensure!(to.failed || to.text == full, C16, "print-prefix", "a destination got {} of {} bytes and no failure was reported", to.text.len(), full.len());
                }
                Err(e) if bomb && e.starts_with(seam::INJECTED) => hit(K::fault_print_panic),
                Err(e) => {
                    let g = if e.contains("borrow") && (!self.guards.is_empty() || to.look.is_some()) { C07 } else { 0 };
                    return viol(C16 | g, "print-panic", format!("unexpected panic while printing: {}", e));
                }
            }
        }
        let again = self.lib(C16 | C13, "format-panic", || if dbg { format!("{:?}", h) } else { format!("{}", item) })?;
        ensure!(again == full, C16 | C13, "print-again", "printing again gave a different text");
        drop(at);
        self.out(s, x as u64);
        Ok(Some(if bomb { C14 | C16 } else { C16 | C04 }))
    }

    /// The log sink panics in the middle of a save.
    pub fn op_psink_save(&mut self, s: &Step) -> R<Option<u32>> {
        let d = match self.pick_doc(s.a) { Some(d) => d, None => return Ok(None) };
        if self.write_guard() || self.has_root_text(d) { return Ok(None); }
        if s.c % 2 == 0 {
            // Something the writer has to complain about.
            let x = match self.pick_live(d, s.b, |m| self.n[m].kind == Kind::Element) { Some(x) => x, None => return Ok(None) };
            let nm = Nm::Id(AttributeId::Unicode);
            let mut touch = vec![x];
            if let Some(MVal::Link(_, t, _)) = self.get_attr(x, &nm) { touch.push(*t) }
            if !self.clear_to_edit(&touch) { return Ok(None); }
            let mut h = self.handle(x)?;
            self.lib(C04, "set-attr-panic", || h.set_attribute((nref(&nm), 7.0)))?;
            self.m_set_attr(x, nm, MVal::Plain(AttributeValue::Number(7.0)));
        }
        let opt = values::write_options(s.d);
        let doc = self.docs[d].doc.as_ref().unwrap();
        let old = seam::set_sink(SinkMode::Bomb, (s.c >> 4) % 3);
        let r = call(|| doc.to_string_with_opt(&opt).len());
        seam::set_sink(old, 0);
        match r {
            Ok(_) => {}
            Err(e) if e.starts_with(seam::INJECTED) => hit(K::fault_sink_panic_save),
            Err(e) => return viol(C14 | C13, "save-panic", format!("unexpected panic: {}", e)),
        }
        self.out(s, d as u64);
        Ok(Some(C14 | C08))
    }

    // ------------------------------------------------------------ cursors

    pub fn op_cur_open(&mut self, s: &Step) -> R<Option<u32>> {
        if self.curs.len() >= 6 || self.write_guard() { return Ok(None); }
        let x = match self.pick(s.a, s.b, |n| s.d % 3 == 0 || !n.children.is_empty() || n.parent.is_some()) { Some(x) => x, None => return Ok(None) };
        let kind = (s.c % 8) as u8;
        let h = self.handle(x)?;
        let n = &self.n;
        let mut region = Vec::new();
        let mut exp: std::collections::VecDeque<(u8, usize)> = Default::default();
        let sib_region = |region: &mut Vec<(usize, u8)>| match n[x].parent { Some(q) => region.push((q, 1)), None => region.push((x, 2)) };
        let real = self.lib(C02, "cursor-panic", || match kind {
            0 => RealCur::Anc(h.ancestors()),
            1 => RealCur::Prec(h.preceding_siblings()),
            2 => RealCur::Foll(h.following_siblings()),
            3 | 4 => RealCur::Chi(h.children()),
            5 => RealCur::Desc(h.descendants()),
            _ => RealCur::Trav(h.traverse()),
        })?;
        match kind {
            0 => { let mut y = Some(x); while let Some(z) = y { exp.push_back((0, z)); region.push((z, 2)); y = n[z].parent; } }
            1 => { sib_region(&mut region);
                match n[x].parent { None => exp.push_back((0, x)), Some(q) => for i in (0..=self.pos(x)).rev() { exp.push_back((0, n[q].children[i])) } } }
            2 => { sib_region(&mut region);
                match n[x].parent { None => exp.push_back((0, x)), Some(q) => for i in self.pos(x)..n[q].children.len() { exp.push_back((0, n[q].children[i])) } } }
            3 | 4 => { region.push((x, 1)); for &c in &n[x].children { exp.push_back((0, c)) } }
            5 => for y in self.subtree(x) { region.push((y, 1)); exp.push_back((0, y)) },
            _ => {
                for y in self.subtree(x) { region.push((y, 1)) }
                let mut st = vec![(1u8, x)];
                while let Some((e, y)) = st.pop() {
                    exp.push_back((e, y));
                    if e == 1 { st.push((2, y)); for &c in n[y].children.iter().rev() { st.push((1, c)) } }
                }
            }
        }
        self.curs.push(Cur { client: s.client, real, kind, expect: exp, dirty: false, region, both: 0 });
        hit(K::cursor_open);
        self.out(s, x as u64);
        Ok(Some(C02))
    }

    pub fn cur_step(&mut self, i: usize, back: bool) -> R<bool> {
        let mut c = self.curs.swap_remove(i);
        let back = back && matches!(c.kind, 3 | 4 | 6 | 7);
        let r = call(|| c.real.step(back));
        let got = match r {
            Ok(g) => g,
            Err(e) => {
                let g = if e.contains("borrow") && !self.guards.is_empty() { C07 } else { 0 };
                return viol(C02 | g, "cursor-panic", format!("a cursor step panicked ({}): {}", if c.dirty { "region edited" } else { "region untouched" }, e));
            }
        };
        if back { hit(K::cursor_back_step); c.both |= 2 } else { c.both |= 1 }
        let more = got.is_some();
        if c.dirty { hit(K::cursor_step_dirty); } else {
            hit(K::cursor_step_clean);
            let want = if back { c.expect.pop_back() } else { c.expect.pop_front() };
            match (want, &got) {
                (None, None) => if c.both == 3 { hit(K::cursor_both_ends_met) },
                (Some((e, m)), Some((ge, g))) => {
                    ensure!(e == *ge && self.same(m, g), C02, "cursor-order", "a cursor (kind {}) returned a different node than the tree order has", c.kind);
                    self.dig.u(m as u64);
                }
                (Some(_), None) => return viol(C02, "cursor-short", format!("a cursor (kind {}) ended too early", c.kind)),
                (None, Some(_)) => return viol(C02, "cursor-long", format!("a cursor (kind {}) returned a node after its end", c.kind)),
            }
        }
        self.curs.push(c);
        let last = self.curs.len() - 1;
        self.curs.swap(i, last);
        Ok(more)
    }

    pub fn op_cur_step(&mut self, s: &Step) -> R<Option<u32>> {
        if self.write_guard() || self.curs.is_empty() { return Ok(None); }
        let i = s.a as usize % self.curs.len();
        for k in 0..1 + s.b % 3 { if !self.cur_step(i, (s.c >> k) & 1 == 1)? { break; } }
        self.out(s, i as u64);
        Ok(Some(C02))
    }

    pub fn op_cur_finish(&mut self, s: &Step) -> R<Option<u32>> {
        if self.write_guard() || self.curs.is_empty() { return Ok(None); }
        let i = s.a as usize % self.curs.len();
        let bound = 2 * self.n.len() + 8;
        let mut k = 0;
        while self.cur_step(i, s.b & 1 == 1 && (s.c >> (k % 32)) & 1 == 1)? {
            k += 1;
            ensure!(k <= bound, C02, "cursor-endless", "a cursor (kind {}) did not end within {} steps after edits stopped", self.curs[i].kind, bound);
        }
        if !self.curs[i].dirty {
            ensure!(self.curs[i].expect.is_empty(), C02, "cursor-short", "a cursor ended too early");
            self.cur_step(i, false)?;
            self.cur_step(i, true)?;
        }
        hit(K::cursor_finished);
        self.curs.swap_remove(i);
        self.out(s, k as u64);
        Ok(Some(C02))
    }

    // ------------------------------------------------------------ guards

    pub fn op_guard(&mut self, s: &Step) -> R<Option<u32>> {
        let write = s.op == Op::GuardWrite;
        if write && (self.cfg.keep != Keep::All || self.write_guard()) { return Ok(None); }
        if self.guards.len() >= 5 || (self.write_guard()) { return Ok(None); }
        let x = match self.pick(s.a, s.b, |_| true) { Some(x) => x, None => return Ok(None) };
        if write && self.guards.iter().any(|g| g.mid == x) { return Ok(None); }
        let mut b = Box::new(self.handle(x)?);
        // The boxed handle outlives the borrow: see the field order of Guard.
        let nr: &'static mut Node = unsafe { &mut *(&mut *b as *mut Node) };
        let g = self.lib(C07, "guard-panic", || if write {
            if s.c & 1 == 0 { GRef::WText(nr.text_mut()) } else { GRef::WAttrs(nr.attributes_mut()) }
        } else {
            match s.c % 5 {
                0 => GRef::Text(nr.text()),
                1 => GRef::Id(nr.id()),
                2 => GRef::Tag(nr.tag_name()),
                3 => GRef::Attrs(nr.attributes()),
                _ => GRef::Users(nr.linked_nodes()),
            }
        })?;
        let mut g = Guard { client: s.client, mid: x, write, g, _n: b };
        match &mut g.g {
            GRef::WText(t) => if matches!(self.n[x].kind, Kind::Text | Kind::Comment) {
                t.push('w');
                self.n[x].text.push('w');
            },
            GRef::WAttrs(a) => {
                for at in a.iter_mut() {
                    if let AttributeValue::Number(ref mut v) = at.value { *v += 2.0 }
                }
                for (_, v) in &mut self.n[x].attrs { if let MVal::Plain(AttributeValue::Number(n)) = v { *n += 2.0 } }
            }
            _ => {}
        }
        hit(if write { K::fault_guard_write } else { K::fault_guard_shared });
        self.guards.push(g);
        Ok(Some(C07))
    }

    /// A client dies: its guards, cursors and handles unwind while the documents live on.
    pub fn op_crash(&mut self, s: &Step) -> R<Option<u32>> {
        let c = s.client;
        let mut gs = Vec::new();
        let mut i = 0;
        while i < self.guards.len() {
            if self.guards[i].client == c { gs.push(self.guards.swap_remove(i)); } else { i += 1 }
        }
        let mut cs = Vec::new();
        let mut i = 0;
        while i < self.curs.len() {
            if self.curs[i].client == c { cs.push(self.curs.swap_remove(i)); } else { i += 1 }
        }
        if gs.is_empty() && cs.is_empty() { return Ok(None); }
        let r = call(move || { let _gs = gs; let _cs = cs; seam::boom() });
        match r {
            Err(e) if e.starts_with(seam::INJECTED) => {}
            Err(e) => return viol(C07 | C14, "crash", format!("unwinding a client's guards panicked: {}", e)),
            Ok(()) => unreachable!(),
        }
        hit(K::fault_client_crash);
        Ok(Some(C14 | C07))
    }

    // ------------------------------------------------------------ save, load, memory

    pub fn has_root_text(&self, d: usize) -> bool {
        self.n[self.docs[d].root].children.iter().any(|&c| self.n[c].kind == Kind::Text)
    }

    pub fn op_save(&mut self, s: &Step) -> R<Option<u32>> {
        let d = match self.pick_doc(s.a) { Some(d) => d, None => return Ok(None) };
        if self.write_guard() || self.has_root_text(d) { return Ok(None); }
        let opt = values::write_options(s.b);
        let text = self.save_text(d, &opt)?;
        self.dig.s(&text);
        if s.b % 5 == 0 {
            let doc = self.docs[d].doc.as_ref().unwrap();
            let t2 = self.lib(C13, "save-panic", || format!("{}", doc))?;
            ensure!(t2 == text, C13, "save-display", "printing the document differs from saving it with default options");
        }
        hit(K::op_save);
        self.out(s, text.len() as u64);
        Ok(Some(C08 | C13 | C04))
    }

    /// Saves twice; the second time, if configured, with passive observers around.
    pub fn save_text(&mut self, d: usize, opt: &WriteOptions) -> R<String> {
        let doc = self.docs[d].doc.as_ref().unwrap();
        let text = self.lib(C08 | C13, "save-panic", || doc.to_string_with_opt(opt))?;
        let text2 = if self.cfg.observe {
            hit(K::fault_observers);
            let r = call(|| {
                let nodes: Vec<Node> = doc.root().descendants().collect();
                let guards: Vec<_> = nodes.iter().map(|n| (n.text(), n.attributes(), n.linked_nodes())).collect();
                let mut curs: Vec<_> = nodes.iter().map(|n| n.traverse()).collect();
                for c in &mut curs { c.next(); }
                let t = doc.to_string_with_opt(opt);
                drop(guards);
                t
            });
            match r { Ok(t) => t, Err(e) => return viol(C07 | C13, "save-panic", format!("saving under read guards panicked: {}", e)) }
        } else {
            self.lib(C08 | C13, "save-panic", || doc.to_string_with_opt(opt))?
        };
        ensure!(text == text2, C13, "save-twice", "saving twice gave different bytes");
        Ok(text)
    }

    pub fn op_load(&mut self, s: &Step) -> R<Option<u32>> {
        let text = crate::foreign::document(s.b, s.c % 3 == 0);
        let text = if s.d % 4 == 0 { crate::foreign::damage(&text, s.d, &mut |_| {}) } else { text };
        if s.op == Op::PSinkLoad {
            let before = crate::alloc::live();
            let old = seam::set_sink(SinkMode::Bomb, s.d % 4);
            let r = call(|| Document::from_str(&text).is_ok());
            seam::set_sink(old, 0);
            let after = crate::alloc::live();
            match r {
                Ok(_) => {}
                Err(e) if e.starts_with(seam::INJECTED) => {
                    hit(K::fault_sink_panic_load);
                    drop(e);
                    let _ = (before, after);
                }
                Err(e) => return viol(C09 | C14, "load-panic", format!("unexpected panic: {}", e)),
            }
            self.out(s, 0);
            return Ok(Some(C14));
        }
        let before = crate::alloc::live();
        let r = call(|| Document::from_str(&text));
        match r {
            Ok(Ok(doc)) => {
                hit(K::op_load_ok);
                // Keep the loaded document if there is room for it.
                let room = self.open_docs().len() < self.cfg.max_docs;
                if room && text.len() < 6000 {
                    let d = self.import(doc, C09)?;
                    self.out(s, self.docs[d].live.len() as u64);
                } else {
                    if let Err(e) = call(move || drop(doc)) { return viol(C11, "close-panic", format!("closing panicked: {}", e)); }
                }
            }
            Ok(Err(e)) => {
                hit(K::op_load_err);
                let m = format!("{}", e);
                self.dig.s(&m);
                drop(m);
                drop(e);
                if !seam::has_yield() {
                    hit(K::failed_load_bytes_checked);
                    let after = crate::alloc::live();
                    ensure!(after <= before, C10 | C09, "failed-load-leak", "a failed load left {} bytes behind", after - before);
                }
            }
            Err(e) => return viol(C09, "load-panic", format!("loading panicked: {}", e)),
        }
        Ok(Some(C09))
    }

    pub fn op_drop_handle(&mut self, s: &Step) -> R<Option<u32>> {
        let list = if s.a & 1 == 0 { &mut self.removed } else { &mut self.closed };
        if list.is_empty() { return Ok(None); }
        let i = s.b as usize % list.len();
        let m = list.swap_remove(i);
        self.n[m].st = St::Gone;
        let h = self.n[m].h.take();
        if let Err(e) = call(move || drop(h)) { return viol(C10 | C11, "drop-panic", format!("dropping a handle panicked: {}", e)); }
        hit(K::op_drop_handle);
        Ok(Some(C05))
    }

    /// Steady-state probe: identical create/link/remove rounds on an open document must not grow it.
    pub fn op_churn(&mut self, s: &Step) -> R<Option<u32>> {
        let d = match self.pick_doc(s.a) { Some(d) => d, None => return Ok(None) };
        if !self.guards.is_empty() || seam::has_yield() { return Ok(None); }
        let root = self.n[self.docs[d].root].h.clone().unwrap();
        let doc = self.docs[d].doc.as_mut().unwrap();
        let shape = s.b;
        let width = 12 + (s.c % 8) as usize;
        let mut live = [0isize; 24];
        let r = call(|| {
            for round in 0..24 {
                if s.d % 2 == 0 { churn_round(doc, &root, shape, width) } else { churn_random(doc, &root, shape) }
                live[round] = crate::alloc::live();
            }
        });
        if let Err(e) = r { return viol(C10 | C05, "churn-panic", format!("unexpected panic: {}", e)); }
        add(K::churn_rounds, 24);
        let grown = live[23] - live[7];
        // Sixteen rounds of at least a dozen removed nodes: a kept node costs well over 100 bytes.
        ensure!(grown < 1200, C10, "churn-growth", "16 create/link/remove rounds of {} nodes left {} bytes behind", width, grown);
        let root_m = self.docs[d].root;
        self.touch(root_m, 1);
        self.out(s, 0);
        Ok(Some(C10 | C05))
    }

    // ------------------------------------------------------------ panics in conversions

    pub fn op_pconv(&mut self, s: &Step) -> R<Option<u32>> {
        let d = match self.pick_doc(s.a) { Some(d) => d, None => return Ok(None) };
        let x = match self.pick_live(d, s.b, |m| self.n[m].kind == Kind::Element) { Some(x) => x, None => return Ok(None) };
        let nm = match self.n[x].attrs.get(s.d as usize % 8) { Some(a) => a.0, None => self.nm(s.d) };
        let mut touch = vec![x];
        if let Some(MVal::Link(_, t, _)) = self.get_attr(x, &nm) { touch.push(*t) }
        if !self.clear_to_edit(&touch) { return Ok(None); }
        let mut h = self.handle(x)?;
        let doc = self.docs[d].doc.as_mut().unwrap();
        // A name conversion may be asked more than once: let it fail at any of the times.
        let fuse = Fuse::new(&nm, if s.c % 10 >= 8 { (s.c >> 8) % 4 } else { 0 });
        let r = call(|| match s.c % 10 {
            0 => h.set_id(Bomb),
            1 => h.set_attribute(Bomb),
            2 => h.set_attribute_if_none(Bomb),
            3 => { let _ = h.set_attribute_checked(Bomb); }
            4 => { doc.create_node(NodeType::Comment, Bomb); }
            5 => h.set_tag_name(fuse),
            6 => { doc.create_element(fuse); }
            7 => { h.has_attribute(fuse); }
            _ => h.remove_attribute(fuse),
        });
        if s.c % 10 >= 5 {
            if let Ok(()) = r {
                // The fuse did not burn down: the operation took place.
                if s.c % 10 >= 8 { self.m_rm_attr(x, &nm); }
                self.out(s, 1);
                return Ok(Some(C04 | C03));
            }
        }
        match r {
            Err(e) if e.starts_with(seam::INJECTED) => {}
            Err(e) => return viol(C14, "conversion", format!("unexpected panic: {}", e)),
            Ok(()) => return viol(C14, "conversion", "a panicking conversion was swallowed"),
        }
        hit(K::fault_conversion_panic);
        self.out(s, x as u64);
        Ok(Some(C14))
    }

    // ------------------------------------------------------------ measures

    /// Hash of the model state (shape, kinds, names, links), for the distinct-states count.
    pub fn state_hash(&self) -> u64 {
        let mut g = Digest::new();
        for d in &self.docs {
            if d.doc.is_none() { g.u(7); continue; }
            for &t in &d.live {
                if self.n[t].parent.is_some() { continue; }
                for y in self.subtree(t) {
                    let n = &self.n[y];
                    g.u(n.kind as u64 * 1000 + n.children.len() as u64);
                    for (nm, v) in &n.attrs {
                        match nm { Nm::Id(i) => g.u(*i as u64), Nm::Cu(s) => g.u(s.len() as u64 + 5000) }
                        if let MVal::Link(_, to, _) = v { g.u(9000 + *to as u64) }
                    }
                }
            }
        }
        g.u(self.curs.len() as u64);
        g.u(self.guards.len() as u64);
        g.u(self.closed.len() as u64);
        g.0
    }
}

fn lt(v: &AttributeValue) -> u32 { if v.is_link_container() { C03 } else { 0 } }

/// Debug output of a value without walking through linked nodes.
struct Dbg<'a>(&'a AttributeValue);
impl std::fmt::Debug for Dbg<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.0.is_link_container() { write!(f, "(link)") } else { write!(f, "{:?}", self.0) }
    }
}

/// The same random little history every round; all it made is removed again at its end.
fn churn_random(doc: &mut Document, root: &Node, shape: u32) {
    let mut r = Rng::from2(shape as u64, 77);
    let mut root = root.clone();
    // Stays over the round: links from it to the others and back are part of the history.
    let mut anchor = doc.create_element(ElementId::LinearGradient);
    anchor.set_id("churn-anchor");
    root.append(anchor.clone());
    let mut pool: Vec<Node> = Vec::new();
    let mut dead: Vec<Node> = Vec::new();
    let el = |n: &Node| n.is_element();
    for k in 0..r.range(10, 60) {
        match if pool.len() < 3 { 0 } else { r.below(16) } {
            0 | 1 => {
                let mut n = match r.below(6) {
                    0 => doc.create_node(NodeType::Comment, "churn comment with some text in it"),
                    1 => doc.create_node(NodeType::Text, "churn text which is long enough to matter"),
                    2 => doc.create_element("custom-element-name"),
                    _ => doc.create_element(ElementId::Rect),
                };
                if n.is_element() { n.set_id(format!("churn-{}", k)); n.set_attribute((AttributeId::D, "M 1 2 3 4 5 6")); }
                pool.push(n);
            }
            2..=6 => {
                let x = pool[r.below(pool.len())].clone();
                let mut q = if r.chance(1, 4) { anchor.clone() } else { pool[r.below(pool.len())].clone() };
                if !el(&q) || q.ancestors().any(|a| a == x) || x == anchor { continue; }
                match r.below(4) {
                    0 => q.prepend(x),
                    1 if q.parent().is_some() && !x.is_text() => q.insert_before(x),
                    2 if q.parent().is_some() && !x.is_text() => q.insert_after(x),
                    _ => q.append(x),
                }
            }
            7 => { let i = r.below(pool.len()); pool[i].detach() }
            8..=11 => {
                let mut x = if r.chance(1, 4) { anchor.clone() } else { pool[r.below(pool.len())].clone() };
                let t = if r.chance(1, 4) { anchor.clone() } else { pool[r.below(pool.len())].clone() };
                if !el(&x) || !el(&t) { continue; }
                match r.below(5) {
                    0 => { let _ = x.set_attribute_checked((AttributeId::Mask, t)); }
                    1 => { let _ = x.set_attribute_checked(("data-link", t)); }
                    2 => { let _ = x.set_attribute_checked((AttributeId::Fill, AttributeValue::Paint(t, Some(PaintFallback::None)))); }
                    3 => { let _ = x.set_attribute_checked((AttributeId::Stroke, t)); }
                    _ => { let _ = x.set_attribute_checked((AttributeId::Href, t)); }
                }
            }
            12 => { let i = r.below(pool.len()); pool[i].remove_attribute(AttributeId::Href); pool[i].remove_attribute("data-link"); }
            13 => { let c = pool[r.below(pool.len())].clone(); pool.push(if r.chance(1, 2) { doc.copy_node(c) } else { doc.copy_node_deep(c) }); }
            14 => {
                let x = pool.swap_remove(r.below(pool.len()));
                if r.chance(1, 2) { dead.push(x.clone()) }
                doc.remove_node(x);
                pool.retain(|n| !n.is_detached());
            }
            _ => {
                let cut = r.below(7);
                let p = if r.chance(1, 2) { anchor.clone() } else { pool[r.below(pool.len())].clone() };
                doc.drain(p, |n| n.id().len() % 7 == cut);
                pool.retain(|n| !n.is_detached());
            }
        }
    }
    dead.clear();
    while !pool.is_empty() {
        let x = pool.swap_remove(r.below(pool.len()));
        // Deep copies have nodes nobody holds: remove from the top.
        let line: Vec<Node> = x.ancestors().take_while(|a| *a != root && *a != anchor).collect();
        doc.remove_node(line.last().unwrap().clone());
        pool.retain(|n| !n.is_detached());
    }
    doc.remove_node(anchor);
}

fn churn_round(doc: &mut Document, root: &Node, shape: u32, width: usize) {
    let mut g = doc.create_element(ElementId::G);
    g.set_id("churn-g");
    let mut root = root.clone();
    if shape & 1 == 0 { root.append(g.clone()); }
    let mut nodes: Vec<Node> = Vec::new();
    for i in 0..width {
        let mut e = if i % 3 == 0 { doc.create_element("x") } else { doc.create_element(ElementId::Rect) };
        e.set_id(format!("churn-{}", i));
        e.set_attribute((AttributeId::X, i as f64));
        if i > 0 && shape & 2 == 0 {
            let t = nodes[i - 1].clone();
            if shape & 4 == 0 { e.set_attribute((AttributeId::Href, t)); } else { e.set_attribute(("data-link", t)); }
        }
        if i > 3 && shape & 8 == 0 { e.set_attribute((AttributeId::Fill, nodes[0].clone())); }
        if shape & 16 == 0 { g.append(e.clone()); } else if i > 0 { let mut q = nodes[i - 1].clone(); q.append(e.clone()); } else { g.append(e.clone()); }
        if i % 4 == 0 { let c = doc.create_node(NodeType::Comment, "churn"); e.append(c); }
        nodes.push(e);
    }
    // close a ring of links
    if shape & 2 == 0 && width > 3 {
        let t = nodes[width - 1].clone();
        let _ = nodes[0].set_attribute_checked((AttributeId::Mask, t));
    }
    let copy = if shape & 32 == 0 { Some(doc.copy_node_deep(g.clone())) } else { None };
    nodes.clear();
    match (shape >> 6) % 3 {
        0 => doc.remove_node(g),
        1 if shape & 1 == 0 => { drop(g); doc.drain(root, |n| n.has_id() && *n.id() == "churn-g"); }
        _ => {
            let kids: Vec<Node> = g.children().collect();
            for k in kids { doc.remove_node(k); }
            doc.remove_node(g);
        }
    }
    if let Some(c) = copy { doc.remove_node(c) }
}
