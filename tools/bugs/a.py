PRE = '''#![allow(unused_imports, unused_mut, dead_code)]
use svgdom::*;
use svgdom::{AttributeId as AId, ElementId as EId};
fn el(doc: &mut Document, parent: &mut Node, id: EId, name: &str) -> Node {
    let mut n = doc.create_element(id);
    if !name.is_empty() { n.set_id(name); }
    parent.append(n.clone());
    n
}
'''
def demo(body): return PRE + 'fn main() {\n' + body + '\n}\n'

bug('t1-detach-first', 'C01', 'a first child with a following sibling is detached, then the sibling looks backwards',
    'the new first child still reports the detached node as its previous sibling',
    [('src/tree.rs', '''            let mut next_sibling_borrow = next_sibling_ref.borrow_mut();
            next_sibling_borrow.previous_sibling = previous_sibling_weak;
''', '''            let mut next_sibling_borrow = next_sibling_ref.borrow_mut();
            if previous_sibling_opt.is_some() {
                next_sibling_borrow.previous_sibling = previous_sibling_weak;
            }
''')], demo('''
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut svg = el(&mut doc, &mut root, EId::Svg, "s");
    let mut a = el(&mut doc, &mut svg, EId::Rect, "a");
    let b = el(&mut doc, &mut svg, EId::Rect, "b");
    a.detach();
    assert!(b.previous_sibling().is_none());
    assert_eq!(b.preceding_siblings().count(), 1);
'''))

bug('t2-insert-after-only-child', 'C01', 'insert_after on an only child, then look at the last child of the parent',
    'the parent keeps the old last child, so children walked from the back and later appends lose nodes',
    [('src/tree.rs', '''                    if let Some(parent_ref) = self_borrow.parent.as_ref() {
                        if let Some(parent_strong) = parent_ref.upgrade() {
                            let mut parent_borrow = parent_strong.borrow_mut();
                            parent_borrow.last_child = Some(Rc::downgrade(&new_sibling.0));
''', '''                    if let Some(parent_ref) = self_borrow.parent.as_ref() {
                        if let (Some(parent_strong), true) = (parent_ref.upgrade(), self_borrow.previous_sibling.is_some()) {
                            let mut parent_borrow = parent_strong.borrow_mut();
                            parent_borrow.last_child = Some(Rc::downgrade(&new_sibling.0));
''')], demo('''
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut svg = el(&mut doc, &mut root, EId::Svg, "s");
    let mut a = el(&mut doc, &mut svg, EId::Rect, "a");
    let b = doc.create_element(EId::Circle);
    a.insert_after(b.clone());
    assert!(svg.last_child() == Some(b));
    assert_eq!(svg.children().count(), 2);
'''))

bug('c1-children-meet', 'C02', 'a children cursor stepped from both ends until they meet',
    'when the two ends pass each other children are yielded twice instead of the cursor ending',
    [('src/tree.rs', '''        match self.next_back {
            Some(ref next_back) => next_back.next_sibling() == self.next,
            _ => true,
        }
    }
}

impl<T> Iterator for Children<T> {''', '''        self.next.is_none() || self.next_back.is_none()
    }
}

impl<T> Iterator for Children<T> {''')], demo('''
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut svg = el(&mut doc, &mut root, EId::Svg, "s");
    for k in 0..3 { el(&mut doc, &mut svg, EId::Rect, &format!("r{}", k)); }
    let mut it = svg.children();
    let mut n = 0;
    loop {
        if it.next().is_none() { break } else { n += 1 }
        if it.next_back().is_none() { break } else { n += 1 }
    }
    assert_eq!(n, 3);
'''))

bug('c2-traverse-detached', 'C02', 'the node a traversal stands on is detached before the next step',
    'the next step panics instead of ending the traversal',
    [('src/tree.rs', '''                        None => match node.parent() {
                            Some(parent) => Some(NodeEdge::End(parent)),

                            // `node.parent()` here can only be `None`
                            // if the tree has been modified during iteration,
                            // but silently stoping iteration
                            // seems a more sensible behavior than panicking.
                            None => None,
                        },
''', '''                        None => Some(NodeEdge::End(node.parent().expect("a node inside the traversed tree"))),
''')], demo('''
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut svg = el(&mut doc, &mut root, EId::Svg, "s");
    el(&mut doc, &mut svg, EId::Rect, "a");
    el(&mut doc, &mut svg, EId::Rect, "b");
    let mut it = svg.descendants();
    let mut n = 0;
    while let Some(mut x) = it.next() { if *x.id() == "a" { x.detach() } n += 1; if n > 10 { break } }
    assert!(n <= 3);
'''))

bug('l1-unlink-all', 'C03', 'one node links to the same target through two attributes and one of them is removed',
    'both user entries disappear although one link remains',
    [('src/node.rs', '''                    // this code can't panic, because we know that such node exist
                    let index = node.borrow().linked_nodes.iter().position(|n| n == self).unwrap();
                    node.borrow_mut().linked_nodes.remove(index);
''', '''                    let this = self.clone();
                    node.borrow_mut().linked_nodes.retain(|n| *n != this);
''')], demo('''
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut svg = el(&mut doc, &mut root, EId::Svg, "s");
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut r = el(&mut doc, &mut svg, EId::Rect, "r");
    r.set_attribute((AId::Fill, g.clone()));
    r.set_attribute((AId::Stroke, g.clone()));
    r.remove_attribute(AId::Stroke);
    assert_eq!(g.uses_count(), 1);
'''))

bug('l2-paint-fallback', 'C03', 'a paint link with a fallback is replaced or removed',
    'the target still lists the node as a user',
    [('src/node.rs', '''                | AttributeValue::Paint(ref node, _) => {
                    let mut node = node.clone();
''', '''                | AttributeValue::Paint(ref node, None) => {
                    let mut node = node.clone();
''')], demo('''
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut svg = el(&mut doc, &mut root, EId::Svg, "s");
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut r = el(&mut doc, &mut svg, EId::Rect, "r");
    r.set_attribute((AId::Fill, (g.clone(), Some(PaintFallback::None))));
    r.set_attribute((AId::Fill, AttributeValue::None));
    assert!(!g.is_used());
'''))

bug('d1-refused-loses', 'C04', 'a link that has to be refused is set over an existing value',
    'the refused write removes the old value',
    [('src/node.rs', '''        if node.id().is_empty() {
            return Err(Error::ElementMustHaveAnId);
        }

        // check for recursion
''', '''        if node.id().is_empty() {
            return Err(Error::ElementMustHaveAnId);
        }

        // we must remove existing attribute to prevent dangling links
        self.remove_attribute(name.as_ref());

        // check for recursion
'''), ('src/node.rs', '''        // we must remove existing attribute to prevent dangling links
        self.remove_attribute(name.as_ref());

        {
            let a =''', '''        {
            let a =''')], demo('''
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut svg = el(&mut doc, &mut root, EId::Svg, "s");
    let mut g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut r = el(&mut doc, &mut svg, EId::Rect, "r");
    r.set_attribute((AId::Fill, g.clone()));
    g.set_attribute((AId::Href, "keep"));
    assert!(g.set_attribute_checked((AId::Href, r.clone())).is_err());
    assert!(g.has_attribute(AId::Href));
'''))

bug('d2-remove-swap', 'C04', 'an attribute with a custom name that equals an earlier one in its first letters is removed',
    'removal takes the first attribute whose name starts with the given custom name',
    [('src/attributes.rs', '''        let name = AttributeQNameRef::from(name);
        let idx = self.0.iter().position(|x| x.name.as_ref() == name);
        if let Some(i) = idx {
            self.0.remove(i);
''', '''        let name = AttributeQNameRef::from(name);
        let idx = self.0.iter().position(|x| match (x.name.as_ref(), name) {
            (AttributeQNameRef::Name(a), AttributeQNameRef::Name(b)) => a.starts_with(b),
            (a, b) => a == b,
        });
        if let Some(i) = idx {
            self.0.remove(i);
''')], demo('''
    let mut doc = Document::new();
    let mut r = doc.create_element(EId::Rect);
    r.set_attribute(("data-long", 1.0));
    r.set_attribute(("data", 2.0));
    r.remove_attribute("data");
    assert!(r.has_attribute("data-long") && !r.has_attribute("data"));
'''))

bug('r1-remove-text-kids', 'C05', 'a removed subtree contains text or comment nodes',
    'text and comment nodes of a removed subtree still claim to belong to the document and stay in its storage',
    [('src/document.rs', '''        for child in node.children() {
            self._remove(child, ids);
        }
''', '''        for child in node.children().filter(|n| n.is_element()) {
            self._remove(child, ids);
        }
''')], demo('''
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut svg = el(&mut doc, &mut root, EId::Svg, "s");
    let mut t = el(&mut doc, &mut svg, EId::Text, "t");
    let n = doc.create_node(NodeType::Text, "text");
    t.append(n.clone());
    doc.remove_node(t);
    assert!(n.is_detached());
'''))

bug('r2-stale-names', 'C05', 'a removed node has two users that link to it through different attributes and the second also has a plain attribute named like the first one\'s link',
    'an unrelated attribute of another node is removed',
    [('src/document.rs', '''        for mut linked in linked_nodes {
            ids.clear();

''', '''        ids.clear();
        for mut linked in linked_nodes {
''')], demo('''
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut svg = el(&mut doc, &mut root, EId::Svg, "s");
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut a = el(&mut doc, &mut svg, EId::Rect, "a");
    let mut b = el(&mut doc, &mut svg, EId::Rect, "b");
    a.set_attribute((AId::Fill, g.clone()));
    b.set_attribute((AId::Stroke, g.clone()));
    b.set_attribute((AId::Fill, AttributeValue::None));
    doc.remove_node(g);
    assert!(b.has_attribute(AId::Fill));
'''))

bug('p1-copy-custom-link', 'C06', 'a node with a link under a custom attribute name is copied',
    'the copy links to the target without being counted as its user',
    [('src/document.rs', '''                for attr in node.attributes().iter() {
                    elem.set_attribute(attr.clone());
                }
''', '''                for attr in node.attributes().iter() {
                    match attr.id() {
                        Some(_) => elem.set_attribute(attr.clone()),
                        None => elem.attributes_mut().insert(attr.clone()),
                    }
                }
''')], demo('''
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut svg = el(&mut doc, &mut root, EId::Svg, "s");
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut a = el(&mut doc, &mut svg, EId::Rect, "a");
    a.set_attribute(("data-ref", g.clone()));
    let b = doc.copy_node(a.clone());
    assert!(b.has_attribute("data-ref"));
    assert_eq!(g.uses_count(), 2);
'''))

bug('g1-lazy-users', 'C07', 'the users of a node are read while a read guard on the same node is held',
    'a read panics because it clears stale users first and needs the node exclusively',
    [('src/node.rs', '''        Ref::map(self.borrow(), |d| &d.linked_nodes)
''', '''        if self.borrow().linked_nodes.iter().any(|n| n.is_detached()) || self.borrow().linked_nodes.len() > 1 {
            self.clone().borrow_mut().linked_nodes.retain(|n| !n.is_detached());
        }

        Ref::map(self.borrow(), |d| &d.linked_nodes)
''')], demo('''
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut svg = el(&mut doc, &mut root, EId::Svg, "s");
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut a = el(&mut doc, &mut svg, EId::Rect, "a");
    a.set_attribute((AId::Fill, g.clone()));
    a.set_attribute((AId::Stroke, g.clone()));
    let guard = g.id();
    assert_eq!(g.uses_count(), 2);
    drop(guard);
'''))

bug('w1-xlink-nested', 'C08', 'the only xlink:href of a document is two or more levels deep',
    'the xlink namespace is not declared, so the saved file does not load',
    [('src/writer.rs', '''node.descendants().any(|n| n.has_attribute(AttributeId::Href))''',
      '''node.children().any(|n| n.has_attribute(AttributeId::Href))''')], demo('''
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut svg = el(&mut doc, &mut root, EId::Svg, "s");
    let r = el(&mut doc, &mut svg, EId::Rect, "r");
    let mut g = el(&mut doc, &mut svg, EId::G, "g");
    let mut u = el(&mut doc, &mut g, EId::Use, "u");
    u.set_attribute((AId::Href, r.clone()));
    assert!(Document::from_str(&doc.to_string()).is_ok());
'''))

bug('w2-lettering', 'C08', 'letter-spacing or word-spacing with a length value is saved and loaded',
    'the value comes back as a string instead of a length',
    [('src/parser/mod.rs', '''                  "normal" => AttributeValue::String(value.to_string()),
                  _ => AttributeValue::Length(Length::from_str(value)?),
''', '''                  "normal" => AttributeValue::String(value.to_string()),
                  _ if value.ends_with('m') => AttributeValue::String(value.to_string()),
                  _ => AttributeValue::Length(Length::from_str(value)?),
''')], demo('''
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut svg = el(&mut doc, &mut root, EId::Svg, "s");
    svg.set_attribute((AId::LetterSpacing, Length::new(2.0, LengthUnit::Em)));
    let d2 = Document::from_str(&doc.to_string()).unwrap();
    let s2 = d2.svg_element().unwrap();
    assert!(s2.attributes().get_value(AId::LetterSpacing) == svg.attributes().get_value(AId::LetterSpacing));
'''))

bug('f1-empty-text', 'C09', 'a loaded text element whose only text collapses to nothing but a single multi-byte character or to an empty string',
    'loading panics',
    [('src/parser/text.rs', '''            match text.len() {
                0 => {} // An empty string. Do nothing.
                1 => {
''', '''            match text.chars().count() {
                0 => {} // An empty string. Do nothing.
                1 if text.len() == 1 => {
'''), ('src/parser/text.rs', '''                    // 'text' has at least 2 bytes, so indexing is safe.
                    let c1 = text.as_bytes()[0];
                    let c2 = text.as_bytes()[text.len() - 1];

                    if c1 == b' ' {
                        text.remove_first();
                    }

                    if c2 == b' ' {
''', '''                    let c1 = text.as_bytes()[0];
                    let c2 = text.as_bytes()[text.len() - 1];

                    if c1 == b' ' || c1 >= 0xf0 && c2 == b' ' {
                        text.remove_first();
                    }

                    if c2 == b' ' {
''')], demo('''
    let r = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg'><text>\\u{1F600} </text></svg>");
    assert!(r.is_ok());
'''))

bug('m1-drop-tree-only', 'C10', 'a document is closed while fragments that were never inserted, or were detached, link to each other in a cycle',
    'their memory is never released',
    [('src/document.rs', '''        for (_, node) in self.storage.iter_mut() {
            node.attributes_mut().clear();
            node.linked_nodes_mut().clear();
            node.detach();
        }
''', '''        let nodes: Vec<Node> = self.root.descendants().collect();
        for mut node in nodes {
            node.attributes_mut().clear();
            node.linked_nodes_mut().clear();
            node.detach();
        }
''')], demo('''
    let mut doc = Document::new();
    let mut frag = doc.create_element(EId::G);
    let a = el(&mut doc, &mut frag, EId::Rect, "a");
    drop(doc);
    // Both handles are closed: nothing may be left attached.
    assert!(a.parent().is_none() && !frag.has_children());
'''))

bug('m2-storage-detached', 'C10', 'a node is detached first and removed later, many times over, in a document that stays open',
    'the document keeps the memory of such nodes',
    [('src/document.rs', '''        node.detach();
        let key = node.borrow_mut().storage_key.take();

        if let Some(key) = key {
            self.storage.remove(key);
''', '''        let placed = node.parent().is_some();
        node.detach();
        let key = node.borrow_mut().storage_key.take();

        if let Some(key) = key {
            if placed || node.has_children() {
                self.storage.remove(key);
            }
''')], '''
use svgdom::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut doc = Document::new();
    let cycle = |doc: &mut Document| {
        let mut e = doc.create_element(ElementId::Rect);
        doc.root().append(e.clone());
        e.detach();
        doc.remove_node(e);
    };
    for _ in 0..64 { cycle(&mut doc) }
    let a = N.load(SeqCst);
    for _ in 0..1000 { cycle(&mut doc) }
    let b = N.load(SeqCst);
    assert!(b <= a + 64, "grew by {}", b - a);
}
''')

bug('x1-close-users', 'C11', 'handles of linked nodes outlive their document',
    'a node of a closed document still lists users',
    [('src/document.rs', '''            node.attributes_mut().clear();
            node.linked_nodes_mut().clear();
            node.detach();
''', '''            node.attributes_mut().clear();
            node.detach();
''')], demo('''
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut svg = el(&mut doc, &mut root, EId::Svg, "s");
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut a = el(&mut doc, &mut svg, EId::Rect, "a");
    a.set_attribute((AId::Fill, g.clone()));
    drop(doc);
    assert!(!g.is_used());
'''))

bug('i1-shared-flag', 'C12', 'an href is removed in one document between setting one in another and saving it',
    'the other document is saved without its xlink namespace declaration',
    [('src/writer.rs', '''            let xlink_needed = node.descendants()''', '''            let xlink_needed = crate::node::HREFS.load(std::sync::atomic::Ordering::Relaxed) > 0 && node.descendants()'''),
     ('src/node.rs', '''impl Node {
    /// Returns `true` if the node has a parent node.''', '''/// Number of `href` attributes set so far. Saves looking for them when there are none.
pub(crate) static HREFS: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);

impl Node {
    /// Returns `true` if the node has a parent node.'''),
     ('src/node.rs', '''            let a = if name.has_id(AttributeId::Href) {
''', '''            let a = if name.has_id(AttributeId::Href) {
                HREFS.store(1, std::sync::atomic::Ordering::Relaxed);
'''),
     ('src/node.rs', '''        self.attributes_mut().remove(name);
    }
''', '''        if AttributeQNameRef::from(name) == AttributeQNameRef::Id(AttributeId::Href) {
            HREFS.store(0, std::sync::atomic::Ordering::Relaxed);
        }

        self.attributes_mut().remove(name);
    }
'''),
     ('src/node.rs', '''        let mut attrs = self.attributes_mut();
        attrs.insert(attr);
''', '''        if attr.name.has_id(AttributeId::Href) {
            HREFS.store(1, std::sync::atomic::Ordering::Relaxed);
        }

        let mut attrs = self.attributes_mut();
        attrs.insert(attr);
''')], demo('''
    let mk = || {
        let mut doc = Document::new();
        let mut root = doc.root();
        let mut svg = el(&mut doc, &mut root, EId::Svg, "s");
        let r = el(&mut doc, &mut svg, EId::Rect, "r");
        let mut u = el(&mut doc, &mut svg, EId::Use, "u");
        u.set_attribute((AId::Href, r.clone()));
        (doc, u)
    };
    let (a, _) = mk();
    let before = a.to_string();
    let (_b, mut u) = mk();
    u.remove_attribute(AId::Href);
    assert_eq!(before, a.to_string());
'''))

bug('n1-address-order', 'C13', 'a node gets several users; their order is asked for',
    'the order of the users list depends on where the nodes happen to lie in memory',
    [('src/node.rs', '''        node.borrow_mut().linked_nodes.push(self.clone());
''', '''        // Sorted, so that lookups can be done by bisection.
        let users = &mut node.borrow_mut().linked_nodes;
        users.push(self.clone());
        users.sort_by_key(|n| n.address());
'''), ('src/tree.rs', '''    /// Returns a root node.
''', '''    pub(crate) fn address(&self) -> usize {
        &*self.0 as *const _ as usize
    }

    /// Returns a root node.
''')], demo('''
    let order = |shift: bool| -> Vec<String> {
        let mut doc = Document::new();
        let mut root = doc.root();
        let mut svg = el(&mut doc, &mut root, EId::Svg, "s");
        let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
        let mut made: Vec<Node> = Vec::new();
        for k in 0..6 { made.push(el(&mut doc, &mut svg, EId::Rect, &format!("{}{}", if shift {"a"} else {"a"}, k))); }
        let order: Vec<usize> = vec![3, 0, 5, 1, 4, 2];
        for &k in &order { made[k].set_attribute((AId::Fill, g.clone())); }
        let v = g.linked_nodes().iter().map(|n| n.id().clone()).collect();
        v
    };
    // The order in which the links were made.
    assert_eq!(order(false), vec!["a3", "a0", "a5", "a1", "a4", "a2"]);
'''))

bug('k1-set-id-reuse', 'C14', 'the conversion passed to set_id panics',
    'the node loses its id although nothing was written',
    [('src/node.rs', '''        self.borrow_mut().id = id.into().to_owned();

''', '''        self.borrow_mut().id.clear();
        let id = id.into();
        self.borrow_mut().id.push_str(&id);
''')], demo('''
    struct Boom;
    impl From<Boom> for String { fn from(_: Boom) -> String { panic!("caller") } }
    std::panic::set_hook(Box::new(|_| {}));
    let mut doc = Document::new();
    let mut a = doc.create_element(EId::Rect);
    a.set_id("a");
    let mut b = a.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || b.set_id(Boom)));
    if r.is_ok() || *a.id() != "a" { std::process::exit(1) }
'''))

bug('k2-drain-batch', 'C14', 'a drain predicate panics after an earlier node already matched',
    'nodes that matched are out of the tree but still linked and still counted as part of the document',
    [('src/document.rs', '''        let mut count = 0;
        self._drain(root, &f, &mut count);
        count
''', '''        let mut matched = Vec::new();
        self._drain(root, &f, &mut matched);
        let count = matched.len();
        for node in matched {
            self.remove_node(node);
        }
        count
'''), ('src/document.rs', '''    fn _drain<P>(&mut self, parent: Node, f: &P, count: &mut usize)''', '''    fn _drain<P>(&mut self, parent: Node, f: &P, matched: &mut Vec<Node>)'''),
     ('src/document.rs', '''        while let Some(n) = node {
            if f(&n) {
                node = n.next_sibling();
                self.remove_node(n);
                *count += 1;
''', '''        while let Some(mut n) = node {
            if f(&n) {
                node = n.next_sibling();
                n.detach();
                matched.push(n);
'''), ('src/document.rs', '''                    self._drain(n.clone(), f, count);''', '''                    self._drain(n.clone(), f, matched);''')], demo('''
    std::panic::set_hook(Box::new(|_| {}));
    let mut doc = Document::new();
    let mut root = doc.root();
    let mut svg = el(&mut doc, &mut root, EId::Svg, "s");
    let a = el(&mut doc, &mut svg, EId::Rect, "a");
    el(&mut doc, &mut svg, EId::Circle, "b");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| doc.drain(svg.clone(), |n| { if *n.id() == "b" { panic!("caller") } n.is_element() })));
    // Either still in place or removed.
    if r.is_ok() || (a.parent().is_none() && !a.is_detached()) { std::process::exit(1) }
'''))

TOOL = '''#!/bin/bash
# exit 0: the generator never reports success on an incomplete table
repo=$PWD
bin=$repo/codegen/target/debug/codegen
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/codegen" "$d/src"
cp "$repo"/codegen/*.txt "$d/codegen/"
cat > "$d/s.c" <<'C'
#define _GNU_SOURCE
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
static long total;
ssize_t write(int fd, const void *b, size_t n) {
  const char *m = getenv("DEMO");
  if (fd > 2 && m && !strcmp(m, "short")) { if (n > 100) n = 100; }
  if (fd > 2 && m && !strcmp(m, "full")) { if (total + (long)n > 9000) { errno = ENOSPC; return -1; } }
  ssize_t r = syscall(SYS_write, fd, b, n);
  if (fd > 2 && r > 0) total += r;
  return r;
}
ssize_t read(int fd, void *b, size_t n) {
  const char *m = getenv("DEMO");
  if (fd > 2 && m && !strcmp(m, "shortread") && n > 100) n = 100;
  return syscall(SYS_read, fd, b, n);
}
C
gcc -shared -fPIC -o "$d/s.so" "$d/s.c" || exit 3
cd "$d/codegen"
"$bin" >/dev/null || exit 3
cp ../src/names.rs "$d/good"
for m in short full shortread; do
  if DEMO=$m LD_PRELOAD="$d/s.so" "$bin" >/dev/null 2>&1; then
    cmp -s ../src/names.rs "$d/good" || { echo "$m: success reported on a different table"; exit 1; }
  else
    [ $m = full ] || { echo "$m: failed"; exit 1; }
  fi
done
exit 0
'''
bug('z1-buffered', 'C15', 'the disk fills up near the end of the output',
    'the generator reports success although the end of the table was never written',
    [('codegen/main.rs', '''    let f = &mut fs::File::create("../src/names.rs")?;
''', '''    let f = &mut std::io::BufWriter::with_capacity(1 << 20, fs::File::create("../src/names.rs")?);
'''), ('codegen/main.rs', '''    f: &mut fs::File,
''', '''    f: &mut std::io::BufWriter<fs::File>,
''')], TOOL, tool=True)
bug('z2-short-write', 'C15', 'a write of the large table is accepted only in part',
    'the rest of the last block is dropped and success reported',
    [('codegen/main.rs', '''    writeln!(f, "{}", PHF_SRC)?;
''', '''    let _ = f.write(PHF_SRC.as_bytes())?;
    writeln!(f)?;
''')], TOOL, tool=True)
bug('z3-short-read', 'C15', 'reading a word list returns only part of it at first',
    'the table misses words and success is reported',
    [('codegen/main.rs', '''    fs::File::open(spec_path)?.read_to_string(&mut spec)?;
''', '''    let mut buf = vec![0; 1 << 16];
    let len = fs::File::open(spec_path)?.read(&mut buf)?;
    spec.push_str(str::from_utf8(&buf[..len])?);
''')], TOOL, tool=True)
