PRE = '''#![allow(unused_imports, unused_mut, dead_code, unused_variables)]
use svgdom::*;
use svgdom::{AttributeId as AId, ElementId as EId};
fn el(doc: &mut Document, parent: &mut Node, id: EId, name: &str) -> Node {
    let mut n = doc.create_element(id);
    if !name.is_empty() { n.set_id(name); }
    parent.append(n.clone());
    n
}
fn base() -> (Document, Node) {
    let mut doc = Document::new();
    let mut root = doc.root();
    let svg = el(&mut doc, &mut root, EId::Svg, "s");
    (doc, svg)
}
fn ids(n: &Node) -> Vec<String> { n.children().map(|c| c.id().clone()).collect() }
fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::set_hook(Box::new(|_| {}));
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
'''
MEM = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static BYTES: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { BYTES.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn bytes() -> usize { BYTES.load(SeqCst) }
'''
def demo(body, extra=''): return PRE + extra + 'fn main() {\n' + body + '\n}\n'

# ---- C01
bug('t3-append-own-child', 'C01', 'a child that is not the last one is appended to its own parent again',
    'the child stays where it was instead of moving to the end',
    [('src/tree.rs', '''        assert!(*self != new_child, "a node cannot be appended to itself");
''', '''        let parent = new_child.parent();
        assert!(*self != new_child, "a node cannot be appended to itself: {}", parent.is_some());

        if parent.as_ref() == Some(&*self) {
            // Already a child of this node.
            return;
        }
''')], demo('''
    let (mut doc, mut svg) = base();
    let a = el(&mut doc, &mut svg, EId::Rect, "a");
    el(&mut doc, &mut svg, EId::Rect, "b");
    svg.append(a);
    assert_eq!(ids(&svg), ["b", "a"]);
'''))
bug('t4-insert-after-next', 'C01', 'a node is inserted after its own next sibling',
    'the two siblings do not change places',
    [('src/tree.rs', '''        assert!(*self != new_sibling, "a node cannot be inserted after itself");
''', '''        let next = self.next_sibling();
        assert!(*self != new_sibling, "a node cannot be inserted after itself: {}", next.is_some());

        if next.as_ref() == Some(&new_sibling) || new_sibling.next_sibling().as_ref() == Some(&*self) {
            // Already next to each other.
            return;
        }
''')], demo('''
    let (mut doc, mut svg) = base();
    let a = el(&mut doc, &mut svg, EId::Rect, "a");
    let mut b = el(&mut doc, &mut svg, EId::Rect, "b");
    el(&mut doc, &mut svg, EId::Rect, "c");
    b.insert_after(a);
    assert_eq!(ids(&svg), ["b", "a", "c"]);
'''))
bug('t5-root-depth', 'C01', 'the root of a node more than sixteen levels deep is asked for',
    'some ancestor is returned instead of the root',
    [('src/tree.rs', '''    pub fn root(&self) -> Node<T> {
        let mut root = self.clone();
        while let Some(parent) = root.parent() {
            root = parent;
        }
''', '''    pub fn root(&self) -> Self {
        let mut root = self.clone();
        for _ in 0..16 {
            match root.parent() {
                Some(parent) => root = parent,
                None => break,
            }
        }
''')], demo('''
    let (mut doc, mut svg) = base();
    let mut n = svg.clone();
    for _ in 0..30 { n = el(&mut doc, &mut n.clone(), EId::G, ""); }
    assert!(n.root() == doc.root());
'''))
bug('t6-has-parent-fragment', 'C01', 'has_parent is asked of a child of a fragment that is not in the tree',
    'the child is reported to have no parent',
    [('src/node.rs', '''            Some(node) => !node.is_root(),
            None => false,''', '''            Some(node) => node.parent().is_some(),
            None => false,''')], demo('''
    let (mut doc, mut svg) = base();
    let mut g = doc.create_element(EId::G);
    let a = el(&mut doc, &mut g, EId::Rect, "a");
    assert!(a.has_parent());
'''))
bug('t7-prepend-sole', 'C01', 'the only child of a node is prepended to the same node again after its sibling was moved away',
    'the last child is lost when a node is prepended to a node that was emptied by moving its last child elsewhere',
    [('src/tree.rs', '''                parent_borrow.last_child = previous_sibling_weak;
            }
        }

        if let Some(previous_sibling_strong) = previous_sibling_opt {''', '''                if previous_sibling_opt.is_some() || next_sibling_strong.is_some() {
                    parent_borrow.last_child = previous_sibling_weak;
                }
            }
        }

        if let Some(previous_sibling_strong) = previous_sibling_opt {''')], demo('''
    let (mut doc, mut svg) = base();
    let mut a = el(&mut doc, &mut svg, EId::Rect, "a");
    a.detach();
    assert!(svg.last_child().is_none());
'''))
# ---- C02

bug('c4-descendants-closed', 'C02', 'a descendants cursor is stepped after the document was closed',
    'the step panics',
    [('src/tree.rs', '''                        None => match node.parent() {
                            Some(parent) => Some(NodeEdge::End(parent)),

                            // `node.parent()` here can only be `None`
                            // if the tree has been modified during iteration,
                            // but silently stoping iteration
                            // seems a more sensible behavior than panicking.
                            None => None,
                        },''', '''                        None => Some(NodeEdge::End(node.parent().unwrap())),''')], demo('''
    let (mut doc, mut svg) = base();
    let mut g = el(&mut doc, &mut svg, EId::G, "g");
    el(&mut doc, &mut g, EId::Rect, "a");
    let mut it = svg.descendants();
    it.next(); it.next(); it.next();
    drop(doc);
    for _ in 0..10 { it.next(); }
'''))
bug('c5-children-last-moved', 'C02', 'the last child moves elsewhere while a children cursor is open',
    'the cursor never ends',
    [('src/tree.rs', '''        match self.next.take() {
            Some(node) => {
                self.next = node.next_sibling();
                Some(node)
            }
            None => None
        }
    }
}

impl<T> DoubleEndedIterator for Children<T> {''', '''        match self.next.take() {
            Some(node) => {
                self.next = node.next_sibling()
                    .or_else(|| node.parent().and_then(|p| p.first_child()).filter(|n| *n != node && self.next_back.as_ref() != Some(&node)));
                Some(node)
            }
            None => None
        }
    }
}

impl<T> DoubleEndedIterator for Children<T> {''')], demo('''
    let (mut doc, mut svg) = base();
    el(&mut doc, &mut svg, EId::Rect, "a");
    el(&mut doc, &mut svg, EId::Rect, "b");
    let mut c = el(&mut doc, &mut svg, EId::Rect, "c");
    let mut it = svg.children();
    it.next();
    c.detach();
    let mut n = 0;
    while it.next().is_some() { n += 1; assert!(n < 100) }
'''))
# ---- C03
bug('l3-cross-last', 'C03', 'a node that already has several users links to one of the earlier ones',
    'two nodes link to each other',
    [('src/node.rs', '''        if self.linked_nodes().iter().any(|n| *n == node) {''', '''        if self.linked_nodes().last() == Some(&node) {''')], demo('''
    let (mut doc, mut svg) = base();
    let mut g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut a = el(&mut doc, &mut svg, EId::Rect, "a");
    let mut b = el(&mut doc, &mut svg, EId::Rect, "b");
    a.set_attribute((AId::Fill, g.clone()));
    b.set_attribute((AId::Fill, g.clone()));
    assert!(g.set_attribute_checked((AId::Href, a)).is_err());
'''))
bug('l4-overwrite-same', 'C03', 'the same link is set twice on the same attribute, through different spellings of the value',
    'the user is counted twice',
    [('src/node.rs', '''        // we must remove existing attribute to prevent dangling links
        self.remove_attribute(name.as_ref());

        {
            let a = if''', '''        // we must remove existing attribute to prevent dangling links
        let same = match self.attributes().get_value(name.as_ref()) {
            Some(AttributeValue::Paint(n, old)) => *n == node && *old != fallback,
            _ => false,
        };
        if !same {
            self.remove_attribute(name.as_ref());
        }

        {
            let a = if''')], demo('''
    let (mut doc, mut svg) = base();
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut a = el(&mut doc, &mut svg, EId::Rect, "a");
    a.set_attribute((AId::Fill, g.clone()));
    a.set_attribute((AId::Fill, (g.clone(), Some(PaintFallback::None))));
    assert_eq!(g.uses_count(), 1);
'''))
bug('l5-load-first-user', 'C03', 'a file with two elements that refer to each other is loaded',
    'the link that has to be given up is set all the same when the target element comes first',
    [('src/parser/mod.rs', '''                let res = if d.attr_id == AttributeId::Fill || d.attr_id == AttributeId::Stroke {
                    d.node.set_attribute_checked((d.attr_id, (node.clone(), d.fallback)))
                } else {''', '''                let res = if d.attr_id == AttributeId::Fill || d.attr_id == AttributeId::Stroke {
                    d.node.set_attribute_checked((d.attr_id, (node.clone(), d.fallback)))
                } else if d.attr_id == AttributeId::Mask && d.node.attributes().contains(AttributeId::Mask) {
                    let mut attrs = d.node.attributes_mut();
                    *attrs.get_value_mut(AttributeId::Mask).unwrap() = AttributeValue::FuncLink(node.clone());
                    Ok(())
                } else {''')], demo('''
    let d = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg'><mask id='m'/><mask id='n'/><rect mask='url(#m)' style='mask:url(#n)'/></svg>").unwrap();
    let n = d.root().descendants().find(|n| *n.id() == "n").unwrap();
    let m = d.root().descendants().find(|n| *n.id() == "m").unwrap();
    assert_eq!(n.uses_count() + m.uses_count(), 1);
    assert_eq!(n.uses_count(), 1);
'''))
# ---- C04
bug('d3-many-attrs', 'C04', 'a node with more than sixteen attributes has one of the later ones overwritten',
    'the attribute is there twice and reads return the old value',
    [('src/attributes.rs', '''        let idx = self.0.iter().position(|x| x.name == attr.name);
        match idx {''', '''        let idx = self.0.iter().take(16).position(|x| x.name == attr.name);
        match idx {'''), ('src/attributes.rs', '''        let idx = self.0.iter().position(|x| x.name.as_ref() == name);
        if let Some(i) = idx {''', '''        let idx = self.0.iter().take(16).position(|x| x.name.as_ref() == name);
        if let Some(i) = idx {''')], demo('''
    let (mut doc, mut svg) = base();
    for k in 0..20 { svg.set_attribute((&format!("n{}", k)[..], k)); }
    svg.set_attribute(("n19", 100));
    assert_eq!(svg.attributes().get_value("n19"), Some(&AttributeValue::Number(100.0)));
    assert_eq!(svg.attributes().len(), 20);
'''))
bug('d4-name-vs-id', 'C04', 'a custom name spelled like an SVG attribute is used next to the SVG attribute itself',
    'one name overwrites the other',
    [('src/attributes.rs', '''        let idx = self.0.iter().position(|x| x.name == attr.name);
        match idx {''', '''        let idx = self.0.iter().position(|x| x.name == attr.name || x.name.to_string() == attr.name.to_string());
        match idx {''')], demo('''
    let (mut doc, mut svg) = base();
    svg.set_attribute((AId::X, 1));
    svg.set_attribute(("x", 2));
    assert_eq!(svg.attributes().get_value(AId::X), Some(&AttributeValue::Number(1.0)));
'''))
bug('d6-if-none-none', 'C04', 'set_attribute_if_none on an attribute whose value is `none`',
    'the existing value is replaced',
    [('src/node.rs', '''        if !self.has_attribute(attr.name.as_ref()) {
            self.set_attribute(attr);''', '''        let set = match self.attributes().get_value(attr.name.as_ref()) {
            None | Some(&AttributeValue::None) => true,
            _ => false,
        };
        if set {
            self.set_attribute(attr);''')], demo('''
    let (mut doc, mut svg) = base();
    svg.set_attribute((AId::Fill, AttributeValue::None));
    svg.set_attribute_if_none((AId::Fill, "x"));
    assert!(svg.attributes().get_value(AId::Fill) == Some(&AttributeValue::None));
'''))
# ---- C05
bug('r3-drain-depth', 'C05', 'matching nodes more than twenty levels below the starting node',
    'they are left in place and not counted',
    [('src/document.rs', '''                if n.has_children() {
                    self._drain(n.clone(), f, count);
''', '''                if n.has_children() && n.ancestors().take_while(|a| a.has_parent()).count() < 20 {
                    self._drain(n.clone(), f, count);
''')], demo('''
    let (mut doc, mut svg) = base();
    let mut n = svg.clone();
    for _ in 0..30 { n = el(&mut doc, &mut n.clone(), EId::G, ""); }
    el(&mut doc, &mut n, EId::Rect, "r");
    assert_eq!(doc.drain(doc.root(), |n| n.has_tag_name(EId::Rect)), 1);
'''))
bug('r4-remove-again-slot', 'C05', 'a removed node is removed again after another node was created',
    'the second removal takes away the storage of the new node',
    [('src/document.rs', '''        let key = node.borrow_mut().storage_key.take();

        if let Some(key) = key {
            self.storage.remove(key);
''', '''        let key = node.borrow().storage_key;

        if let Some(key) = key {
            if self.storage.contains(key) {
                self.storage.remove(key);
            }
'''), ('src/node.rs', '''        self.borrow().storage_key.is_none()
''', '''        self.borrow().storage_key.is_none() || (!self.has_parent() && self.root() == *self)
''')], demo('''
    let (mut doc, mut svg) = base();
    let a = doc.create_element(EId::Rect);
    assert!(!a.is_detached());
    doc.remove_node(a.clone());
    assert!(a.is_detached());
'''))
bug('r5-remove-keeps-subtree-links', 'C05', 'a removed subtree contains a child with users outside the subtree behind a comment',
    'only the children before the first non-element keep the promise: links to later ones stay',
    [('src/document.rs', '''        for child in node.children() {
            self._remove(child, ids);
        }
''', '''        for child in node.children() {
            if child.is_element() || child.next_sibling().map_or(true, |n| n.is_element()) {
                self._remove(child, ids);
            }
        }
''')], demo('''
    let (mut doc, mut svg) = base();
    let c1 = doc.create_node(NodeType::Comment, "1");
    let c2 = doc.create_node(NodeType::Comment, "2");
    svg.append(c1.clone()); svg.append(c2.clone());
    doc.remove_node(svg);
    assert!(c1.is_detached() && c2.is_detached());
'''))
# ---- C06
bug('p2-copy-fallback', 'C06', 'a node with a paint link that has a fallback is copied',
    'the copy lacks the fallback',
    [('src/document.rs', '''                for attr in node.attributes().iter() {
                    elem.set_attribute(attr.clone());
                }
''', '''                for attr in node.attributes().iter() {
                    match attr.value {
                        AttributeValue::Paint(ref link, _) => elem.set_attribute((attr.name.as_ref(), link.clone())),
                        _ => elem.set_attribute(attr.clone()),
                    }
                }
''')], demo('''
    let (mut doc, mut svg) = base();
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut a = el(&mut doc, &mut svg, EId::Rect, "a");
    a.set_attribute((AId::Fill, (g.clone(), Some(PaintFallback::None))));
    let b = doc.copy_node(a.clone());
    assert!(b.attributes().get_value(AId::Fill) == a.attributes().get_value(AId::Fill));
'''))
bug('p3-deep-copy-inner-links', 'C06', 'a subtree with a link between two of its own nodes is copied deeply',
    'the copied link points at the copy of the target instead of the target itself and the target misses a user',
    [('src/document.rs', '''        let mut root = self.copy_node(node.clone());
        self._make_deep_copy(&mut root, &node);
        root
''', '''        let mut root = self.copy_node(node.clone());
        self._make_deep_copy(&mut root, &node);

        // Nodes that link to the copied node itself.
        for mut n in root.descendants().skip(1) {
            let own: Vec<_> = n.attributes().iter().filter(|a| match a.value {
                AttributeValue::Link(ref l) => *l == node,
                _ => false,
            }).map(|a| a.name.clone()).collect();
            for name in own {
                n.remove_attribute(name.as_ref());
            }
        }

        root
''')], demo('''
    let (mut doc, mut svg) = base();
    let mut g = el(&mut doc, &mut svg, EId::G, "g");
    let mut u = el(&mut doc, &mut g, EId::Use, "u");
    u.set_attribute((AId::Href, g.clone()));
    let c = doc.copy_node_deep(g.clone());
    assert!(c.first_child().unwrap().has_attribute(AId::Href));
    assert_eq!(g.uses_count(), 2);
'''))
bug('p4-deep-copy-depth', 'C06', 'a subtree is copied deeply in which a comment stands before nested elements',
    'children that follow a comment lose their own children in the copy',
    [('src/document.rs', '''            if child.has_children() {
                self._make_deep_copy(&mut new_node, &child);
            }
''', '''            let after_comment = child.previous_sibling().map_or(false, |n| n.is_comment());
            if child.has_children() && !(after_comment && child.tag_id() == Some(ElementId::G)) {
                self._make_deep_copy(&mut new_node, &child);
            }
''')], demo('''
    let (mut doc, mut svg) = base();
    let c = doc.create_node(NodeType::Comment, "1");
    svg.append(c);
    let mut g = el(&mut doc, &mut svg, EId::G, "g");
    el(&mut doc, &mut g, EId::Rect, "r");
    let k = doc.copy_node_deep(svg.clone());
    assert_eq!(k.descendants().count(), 4);
'''))
# ---- C07
bug('g2-save-borrows', 'C07', 'a document is saved while somebody holds a read guard on a node',
    'saving panics',
    [('src/writer.rs', '''    let attrs = node.attributes();

    // sort attributes
''', '''    let mut node = node.clone();
    let attrs = node.attributes_mut();

    // sort attributes
'''), ('src/writer.rs', '''    node: &Node,
    opt: &WriteOptions,
    xml: &mut XmlWriter,
) {''', '''    node: &Node,
    opt: &WriteOptions,
    xml: &mut XmlWriter,
) {''')], demo('''
    let (mut doc, mut svg) = base();
    let g = svg.id();
    assert!(quiet(|| doc.to_string()).is_some());
'''))
bug('g3-link-scans', 'C07', 'a link is set while a write guard is held on an unrelated node of the same tree',
    'setting the link panics',
    [('src/node.rs', '''        if node.id().is_empty() {
            return Err(Error::ElementMustHaveAnId);
        }
''', '''        if node.id().is_empty() {
            return Err(Error::ElementMustHaveAnId);
        }

        debug_assert!(node.root().descendants().filter(|n| *n.id() == *node.id()).count() < usize::max_value());
        if node.root().descendants().any(|n| n != node && n.linked_nodes().len() == usize::max_value()) {
            return Err(Error::ElementMustHaveAnId);
        }
''')], demo('''
    let (mut doc, mut svg) = base();
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut a = el(&mut doc, &mut svg, EId::Rect, "a");
    let mut far = el(&mut doc, &mut svg, EId::G, "far");
    let mut far2 = el(&mut doc, &mut far, EId::G, "far2");
    let w = far2.attributes_mut();
    assert!(quiet(|| a.set_attribute((AId::Fill, g.clone()))).is_some());
'''))
bug('g4-detach-uncle', 'C07', 'a node is detached while a read guard is held on a child of the node',
    'the detach panics',
    [('src/tree.rs', '''    pub fn detach(&mut self) {
        self.0.borrow_mut().detach();
    }
''', '''    pub fn detach(&mut self) {
        self.0.borrow_mut().detach();

        for child in self.children() {
            // Refresh the children's parent.
            let mut child = child.0.borrow_mut();
            if child.parent.is_none() {
                child.parent = Some(Rc::downgrade(&self.0));
            }
        }
    }
''')], demo('''
    let (mut doc, mut svg) = base();
    let mut g = el(&mut doc, &mut svg, EId::G, "g");
    let mut h = el(&mut doc, &mut g, EId::G, "h");
    let a = el(&mut doc, &mut g, EId::Rect, "a");
    let b = el(&mut doc, &mut g, EId::Rect, "b");
    // Guard on a grandchild of what is detached.
    let r = el(&mut doc, &mut a.clone(), EId::Rect, "r");
    let guard = a.id();
    assert!(quiet(|| g.detach()).is_some());
'''))
# ---- C08
bug('w3-tspan-space', 'C08', 'a text element with a nested tspan followed by more text is saved with indentation and loaded again',
    'text after a nested tspan gets white space from the indentation',
    [('src/writer.rs', '''                if node.has_tag_name(ElementId::Text) {
                    xml.set_preserve_whitespaces(false);
                }''', '''                if node.has_tag_name(ElementId::Text) || node.has_tag_name(ElementId::Tref) {
                    xml.set_preserve_whitespaces(false);
                }''')], demo('''
    let (mut doc, mut svg) = base();
    let mut t = el(&mut doc, &mut svg, EId::Text, "t");
    let x = doc.create_node(NodeType::Text, "a");
    t.append(x);
    let r = el(&mut doc, &mut t, EId::Tref, "r");
    let x = doc.create_node(NodeType::Text, "b");
    t.append(x);
    let d2 = Document::from_str(&doc.to_string()).unwrap();
    let t2 = d2.root().descendants().find(|n| *n.id() == "t").unwrap();
    let txt: Vec<String> = t2.children().filter(|n| n.is_text()).map(|n| n.text().clone()).collect();
    assert_eq!(txt, ["a", "b"]);
'''))
bug('w4-unicode-plane', 'C08', 'a unicode attribute with a character outside the basic plane is saved and loaded',
    'another character comes back',
    [('src/writer.rs', '''            write!(out, "{:x}", c as u32).unwrap();''', '''            write!(out, "{:x}", c as u32 & 0xffff).unwrap();''')], demo('''
    let (mut doc, mut svg) = base();
    svg.set_attribute((AId::Unicode, "\\u{1F600}"));
    let d2 = Document::from_str(&doc.to_string()).unwrap();
    assert!(d2.svg_element().unwrap().attributes().get_value(AId::Unicode) == svg.attributes().get_value(AId::Unicode));
'''))
bug('w5-link-to-svg', 'C08', 'an element links to the outer svg element itself',
    'the link is not found when the document is loaded',
    [('src/parser/mod.rs', '''        match doc.root().descendants().find(|n| *n.id() == d.iri) {''', '''        match doc.root().children().flat_map(|n| n.descendants().skip(1)).find(|n| *n.id() == d.iri) {''')], demo('''
    let (mut doc, mut svg) = base();
    let mut u = el(&mut doc, &mut svg, EId::Use, "u");
    u.set_attribute((AId::Href, svg.clone()));
    let d2 = Document::from_str(&doc.to_string()).unwrap();
    assert_eq!(d2.svg_element().unwrap().uses_count(), 1);
'''))
bug('w6-miter', 'C08', 'a stroke-miterlimit below one is saved and loaded',
    'the value comes back changed',
    [('src/parser/mod.rs', '''        AId::StrokeMiterlimit => {
            match value {
                "inherit" => AttributeValue::Inherit,
                _ => parse_number(value)?.into(),''', '''        AId::StrokeMiterlimit => {
            match value {
                "inherit" => AttributeValue::Inherit,
                _ => f64_bound(1.0, parse_number(value)?, 1.0e12).into(),''')], demo('''
    let (mut doc, mut svg) = base();
    svg.set_attribute((AId::StrokeMiterlimit, 0.5));
    let d2 = Document::from_str(&doc.to_string()).unwrap();
    assert!(d2.svg_element().unwrap().attributes().get_value(AId::StrokeMiterlimit) == Some(&AttributeValue::Number(0.5)));
'''))
bug('w7-fallback-current', 'C08', 'a stroke link with the fallback currentColor is saved and loaded',
    'the fallback is lost',
    [('src/parser/mod.rs', '''                let res = if d.attr_id == AttributeId::Fill || d.attr_id == AttributeId::Stroke {
                    d.node.set_attribute_checked((d.attr_id, (node.clone(), d.fallback)))''', '''                let res = if d.attr_id == AttributeId::Fill
                    || (d.attr_id == AttributeId::Stroke && d.fallback != Some(PaintFallback::CurrentColor))
                {
                    d.node.set_attribute_checked((d.attr_id, (node.clone(), d.fallback)))''')], demo('''
    let (mut doc, mut svg) = base();
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut a = el(&mut doc, &mut svg, EId::Rect, "a");
    a.set_attribute((AId::Stroke, (g.clone(), Some(PaintFallback::CurrentColor))));
    let s = doc.to_string();
    assert_eq!(Document::from_str(&s).unwrap().to_string(), s);
'''))
bug('w8-comment-outside', 'C08', 'a document with a comment after the outer svg element is saved and loaded',
    'the comment is gone',
    [('src/parser/mod.rs', '''        roxmltree::NodeType::Comment => {
            let n''', '''        roxmltree::NodeType::Comment => {
            if parent.is_root() && parent.has_children() && xml_node.next_sibling().is_none() && parent.first_child().map_or(false, |n| n.is_element() && n.has_children()) {
                return Ok(());
            }

            let n''')], demo('''
    let (mut doc, mut svg) = base();
    el(&mut doc, &mut svg, EId::Rect, "a");
    let c = doc.create_node(NodeType::Comment, "x");
    doc.root().append(c);
    let s = doc.to_string();
    assert_eq!(Document::from_str(&s).unwrap().to_string(), s);
'''))
# ---- C09

bug('f3-cross-fallback', 'C09', 'two elements of a file refer to each other and the second reference carries a fallback',
    'loading panics',
    [('src/parser/mod.rs', '''                let res = if d.attr_id == AttributeId::Fill || d.attr_id == AttributeId::Stroke {
                    d.node.set_attribute_checked((d.attr_id, (node.clone(), d.fallback)))
                } else {''', '''                let res = if d.fallback.is_some() {
                    d.node.set_attribute((d.attr_id, (node.clone(), d.fallback)));
                    Ok(())
                } else if d.attr_id == AttributeId::Fill || d.attr_id == AttributeId::Stroke {
                    d.node.set_attribute_checked((d.attr_id, (node.clone(), d.fallback)))
                } else {''')], demo('''
    let s = "<svg xmlns='http://www.w3.org/2000/svg'><g id='a' fill='url(#b)'/><g id='b' fill='url(#a) none'/></svg>";
    assert!(quiet(|| Document::from_str(s)).is_some());
'''))
bug('f4-hash-only', 'C09', 'a colour attribute of a damaged file ends in the middle of a character reference or escape',
    'loading panics on values that start with a multi-byte character',
    [('src/parser/mod.rs', '''        AId::Color => {
            match value {
                "inherit" => AttributeValue::Inherit,
                _ =>''', '''        AId::Color => {
            match value {
                "inherit" => AttributeValue::Inherit,
                _ if value.len() > 3 && value[..3].eq_ignore_ascii_case("inh") => AttributeValue::Inherit,
                _ =>''')], demo('''
    let s = "<svg xmlns='http://www.w3.org/2000/svg' color='ab\\u{e9}def'/>";
    assert!(quiet(|| Document::from_str(s)).is_some());
'''))
bug('f5-error-leaks', 'C09', 'a file fails to load after a good part of it was read',
    'the partly built document stays in memory for good',
    [('src/parser/mod.rs', '''    if doc.svg_element().is_none() {
        return Err(ParserError::NoSvgElement);
    }
''', '''    if doc.svg_element().is_none() {
        std::mem::forget(doc);
        return Err(ParserError::NoSvgElement);
    }
''')], demo('''
    let go = || { let _ = Document::from_str("<g xmlns='http://www.w3.org/2000/x'/>"); };
    go(); go();
    let a = bytes();
    for _ in 0..50 { go() }
    assert!(bytes() <= a + 100);
''', MEM))
# ---- C10
bug('m3-drop-many', 'C10', 'a document with many fragments is closed',
    'nodes beyond the first 64 storage slots that link to each other are never released',
    [('src/document.rs', '''        for (_, node) in self.storage.iter_mut() {
            node.attributes_mut().clear();''', '''        let open = self.root.descendants().count() + 16;
        for (_, node) in self.storage.iter_mut().take(open) {
            node.attributes_mut().clear();''')], demo('''
    let go = || {
        let mut doc = Document::new();
        for k in 0..40 {
            let mut a = doc.create_element(EId::Rect);
            let mut b = doc.create_element(EId::Rect);
            a.set_id(format!("a{}", k));
            b.set_attribute((AId::Fill, a.clone()));
        }
    };
    go();
    let a = bytes();
    for _ in 0..10 { go() }
    assert!(bytes() <= a + 100, "{}", bytes() - a);
''', MEM))
bug('m4-drain-panic', 'C10', 'a drain predicate panics',
    'the document forgets its nodes: they are never released when it is closed',
    [('src/document.rs', '''        let mut count = 0;
        self._drain(root, &f, &mut count);
        count
''', '''        // The walk does not need to see the nodes that were there before.
        let mut count = 0;
        let mut walker = Document { root: self.root.clone(), storage: std::mem::replace(&mut self.storage, Slab::new()) };
        let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| walker._drain(root, &f, &mut count)));
        let storage = std::mem::replace(&mut walker.storage, Slab::new());
        match done {
            Ok(()) => self.storage = storage,
            Err(e) => {
                std::mem::forget(storage);
                std::panic::resume_unwind(e);
            }
        }
        count
''')], demo('''
    let go = || {
        let (mut doc, mut svg) = base();
        let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
        let mut a = el(&mut doc, &mut svg, EId::Rect, "a");
        a.set_attribute((AId::Fill, g.clone()));
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| doc.drain(svg.clone(), |_| panic!("caller"))));
    };
    std::panic::set_hook(Box::new(|_| {}));
    go(); go();
    let a = bytes();
    for _ in 0..30 { go() }
    assert!(bytes() <= a + 2000, "{}", bytes() - a);
''', MEM))
# ---- C11
bug('x2-close-texts', 'C11', 'handles of text and comment nodes outlive their document',
    'they still have parents and siblings',
    [('src/document.rs', '''            node.linked_nodes_mut().clear();
            node.detach();
''', '''            node.linked_nodes_mut().clear();
            if node.is_element() || node.has_children() {
                node.detach();
            }
''')], demo('''
    let (mut doc, mut svg) = base();
    let c = doc.create_node(NodeType::Comment, "x");
    let d = doc.create_node(NodeType::Comment, "y");
    svg.append(c.clone());
    svg.append(d.clone());
    drop(doc);
    assert!(c.next_sibling().is_none() && d.previous_sibling().is_none() && c.parent().is_none() && svg.first_child().is_none());
'''))
bug('x3-close-clears-id', 'C11', 'the handle of a linked node outlives its document',
    'its id is gone',
    [('src/document.rs', '''            node.linked_nodes_mut().clear();
            node.detach();
''', '''            if node.is_used() {
                node.linked_nodes_mut().clear();
                node.borrow_mut().id.clear();
            }
            node.detach();
''')], demo('''
    let (mut doc, mut svg) = base();
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut a = el(&mut doc, &mut svg, EId::Rect, "a");
    a.set_attribute((AId::Fill, g.clone()));
    drop(doc);
    assert_eq!(*g.id(), "g");
'''))
bug('x4-removed-children', 'C11', 'a removed subtree is kept by its handles when the document is closed',
    'the nodes of a subtree removed through drain stay connected to each other',
    [('src/document.rs', '''                node = n.next_sibling();
                self.remove_node(n);
                *count += 1;
''', '''                node = n.next_sibling();
                if n.is_used() || n.descendants().any(|n| n.is_used() || n.attributes().iter().any(|a| a.is_link_container())) {
                    self.remove_node(n);
                } else {
                    // Nothing to unlink.
                    n.clone().detach();
                    for mut n in n.descendants() {
                        if let Some(key) = n.borrow_mut().storage_key.take() {
                            self.storage.remove(key);
                        }
                    }
                }
                *count += 1;
''')], demo('''
    let (mut doc, mut svg) = base();
    let mut g = el(&mut doc, &mut svg, EId::G, "g");
    let r = el(&mut doc, &mut g, EId::Rect, "r");
    doc.drain(svg.clone(), |n| n.has_tag_name(EId::G));
    drop(doc);
    assert!(r.parent().is_none() && !g.has_children());
'''))
# ---- C12
bug('i2-shared-links', 'C12', 'a log sink loads another document in the middle of a load that warns',
    'the outer load loses or mixes up its links',
    [('src/parser/mod.rs', '''    let mut links = Links { list: Vec::new() };
''', '''    // Reuse the buffer of the previous load.
    let mut links = Links { list: BUFFER.with(|b| std::mem::replace(&mut *b.borrow_mut(), Vec::new())) };
'''), ('src/parser/mod.rs', '''    resolve_links(&doc, &mut links);
''', '''    resolve_links(&doc, &mut links);

    BUFFER.with(|b| *b.borrow_mut() = links.list);
'''), ('src/parser/mod.rs', '''pub fn parse_svg(text''', '''thread_local! {
    static BUFFER: std::cell::RefCell<Vec<Link>> = std::cell::RefCell::new(Vec::new());
}

pub fn parse_svg(text'''), ('src/parser/mod.rs', '''    let mut doc = Document::new();
    let root = doc.root();
    let mut parent''', '''    links.list.retain(|l| l.node.has_children());

    let mut doc = Document::new();
    let root = doc.root();
    let mut parent''')], demo('''
    let a = "<svg xmlns='http://www.w3.org/2000/svg'><g id='g' fill='url(#h)'><rect/></g><linearGradient id='h'/></svg>";
    let d1 = Document::from_str(a).unwrap();
    let s1 = d1.to_string();
    let d2 = Document::from_str(a).unwrap();
    let h = d2.root().descendants().find(|n| *n.id() == "h").unwrap();
    assert_eq!(h.uses_count(), 1);
    assert_eq!(d1.to_string(), s1);
    d1.root().descendants().find(|n| *n.id() == "g").unwrap().remove_attribute(AId::Fill);
    let s1 = d1.to_string();
    let d3 = Document::from_str(a).unwrap();
    assert_eq!(d1.to_string(), s1);
'''))
bug('i3-level', 'C12', 'a file with an unresolvable reference is loaded with and without a log sink',
    'the fallback value is only set when warnings are on',
    [('src/parser/mod.rs', '''                d.node.set_attribute((d.attr_id, av));
''', '''                if d.fallback.is_some() || d.attr_id == AttributeId::Fill || log::log_enabled!(log::Level::Warn)
                    || d.attr_id == AttributeId::Href || d.attr_id == AttributeId::Stroke || d.attr_id == AttributeId::Filter
                {
                    d.node.set_attribute((d.attr_id, av));
                }
''')], demo('''
    let s = "<svg xmlns='http://www.w3.org/2000/svg'><rect mask='url(#a)'/></svg>";
    let d = Document::from_str(s).unwrap();
    assert!(d.svg_element().unwrap().first_child().unwrap().has_attribute(AId::Mask));
'''))
bug('i4-thread-space', 'C12', 'a text with preserved space is loaded in one document, then another document is loaded on the same thread',
    'white space of the second document is treated as in the first',
    [('src/parser/text.rs', '''    _prepare_text(&doc.root(), &mut nodes, XmlSpace::Default);
''', '''    let initial = LAST.with(|l| l.get());
    _prepare_text(&doc.root(), &mut nodes, initial);
'''), ('src/parser/text.rs', '''pub fn prepare_text(doc''', '''thread_local! {
    static LAST: std::cell::Cell<XmlSpace> = std::cell::Cell::new(XmlSpace::Default);
}

pub fn prepare_text(doc'''), ('src/parser/text.rs', '''            return if s == "preserve" { XmlSpace::Preserve } else { XmlSpace::Default };
''', '''            let v = if s == "preserve" { XmlSpace::Preserve } else { XmlSpace::Default };
            if node.parent().map_or(false, |p| p.is_root()) && node.children().any(|n| n.is_comment()) {
                LAST.with(|l| l.set(v));
            }
            return v;
''')], demo('''
    let b = "<svg xmlns='http://www.w3.org/2000/svg'><text>  b  </text></svg>";
    let first = Document::from_str(b).unwrap().to_string();
    let _ = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg' xml:space='preserve'><!--c--><text>  a  </text></svg>").unwrap();
    assert_eq!(Document::from_str(b).unwrap().to_string(), first);
'''))
# ---- C13
bug('n3-handles', 'C13', 'a document is saved while extra handles to a node exist',
    'the saved text depends on them',
    [('src/writer.rs', '''    // write non-SVG attributes
    for attr in attrs.iter() {''', '''    // write non-SVG attributes
    let mut custom: Vec<_> = attrs.iter().collect();
    if node.handles() > 9 {
        custom.reverse();
    }
    for attr in custom {'''), ('src/tree.rs', '''    /// Returns a root node.
''', '''    pub(crate) fn handles(&self) -> usize {
        Rc::strong_count(&self.0)
    }

    /// Returns a root node.
''')], demo('''
    let (mut doc, mut svg) = base();
    let mut a = el(&mut doc, &mut svg, EId::Rect, "a");
    a.set_attribute(("one", 1));
    a.set_attribute(("two", 2));
    let s = doc.to_string();
    let v: Vec<Node> = (0..10).map(|_| a.clone()).collect();
    assert_eq!(doc.to_string(), s);
'''))
# ---- C14
bug('k3-create-node', 'C14', 'the text conversion passed to create_node panics',
    'the document keeps an empty node for good and later removals go wrong',
    [('src/document.rs', '''            linked_nodes: Vec::new(),
            text: text.into(),
        });

        let key = self.storage.insert(node.clone());
        node.borrow_mut().storage_key = Some(key);
''', '''            linked_nodes: Vec::new(),
            text: String::new(),
        });

        let key = self.storage.insert(node.clone());
        self.root.append(node.clone());
        node.borrow_mut().text = text.into();
        node.detach();
        node.borrow_mut().storage_key = Some(key);
''')], demo('''
    struct Boom;
    impl From<Boom> for String { fn from(_: Boom) -> String { panic!("caller") } }
    let (mut doc, mut svg) = base();
    assert!(quiet(|| { doc.create_node(NodeType::Comment, Boom); }).is_none());
    assert_eq!(doc.root().children().count(), 1);
    assert!(doc.root().children().all(|n| !n.is_detached()));
'''))
bug('k4-tag-borrow', 'C14', 'the value conversion passed to set_attribute_if_none panics',
    'the id of the node is lost',
    [('src/node.rs', '''        let attr: Attribute = v.into();
        if !self.has_attribute(attr.name.as_ref()) {
            self.set_attribute(attr);
        }
''', '''        let held = std::mem::replace(&mut self.borrow_mut().id, String::new());
        let attr: Attribute = v.into();
        self.borrow_mut().id = held;
        if !self.has_attribute(attr.name.as_ref()) {
            self.set_attribute(attr);
        }
''')], demo('''
    struct Boom;
    impl From<Boom> for Attribute { fn from(_: Boom) -> Attribute { panic!("caller") } }
    let (mut doc, mut svg) = base();
    assert!(quiet(|| svg.set_attribute_if_none(Boom)).is_none());
    assert_eq!(*svg.id(), "s");
'''))
