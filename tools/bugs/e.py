exec(open('/verif/tools/bugs/d.py').read().split('# ---- C16')[0])

# ---- C01
bug('t8-self-append', 'C01', 'a node is appended to itself and the caller survives the refusal',
    'the node has left its place',
    [('src/tree.rs', '''        assert!(*self != new_child, "a node cannot be appended to itself");

        // Must be done before borrowing `self`, since it can be adjacent to the node.
        new_child.0.borrow_mut().detach();
''', '''        // Must be done before borrowing `self`, since it can be adjacent to the node.
        new_child.0.borrow_mut().detach();

        assert!(*self != new_child, "a node cannot be appended to itself");
''')],
    demo('''
    let (mut doc, mut svg) = base();
    let mut g = el(&mut doc, &mut svg, EId::G, "g");
    let g2 = g.clone();
    quiet(|| g.append(g2));
    assert_eq!(ids(&svg), ["g"]);
'''))
bug('t9-before-first', 'C01', 'the last child is moved before the first one of three or more',
    'it disappears from the children seen from the back',
    [('src/tree.rs', '''            // No previous sibling.
            if let Some(parent_ref) = self_borrow.parent.as_ref() {
                if let Some(parent_strong) = parent_ref.upgrade() {
                    let mut parent_borrow = parent_strong.borrow_mut();
                    parent_borrow.first_child = Some(new_sibling.0);''', '''            // No previous sibling.
            if let Some(parent_ref) = self_borrow.parent.as_ref() {
                if let Some(parent_strong) = parent_ref.upgrade() {
                    let mut parent_borrow = parent_strong.borrow_mut();
                    if parent_borrow.last_child.as_ref().map_or(true, |w| w.strong_count() < 3) {
                        parent_borrow.last_child = Some(Rc::downgrade(&self.0));
                    }
                    parent_borrow.first_child = Some(new_sibling.0);''')],
    demo('''
    let (mut doc, mut svg) = base();
    for i in &["a", "b", "c"] { el(&mut doc, &mut svg, EId::G, i); }
    let mut a = svg.first_child().unwrap();
    let x = { let mut x = doc.create_element(EId::G); x.set_id("x"); x };
    a.insert_before(x);
    assert_eq!(svg.last_child().unwrap().id().as_str(), "c");
    assert_eq!(svg.children().rev().count(), 4);
'''))
# ---- C02
bug('c6-back-after-front', 'C02', 'a traversal is stepped from the front into a subtree and then from the back',
    'the items inside are given out twice or not at all',
    [('src/tree.rs', '''            NodeEdge::Start(ref node) => {
                if *node == *root {
                    None
                } else {
                    match node.previous_sibling() {''', '''            NodeEdge::Start(ref node) => {
                if *node == *root {
                    None
                } else if node.parent().as_ref() == Some(root) && node.next_sibling().is_none() {
                    Some(NodeEdge::Start(root.clone()))
                } else {
                    match node.previous_sibling() {''')],
    demo('''
    let (mut doc, mut svg) = base();
    for i in &["a", "b", "c"] { el(&mut doc, &mut svg, EId::G, i); }
    let f: Vec<_> = svg.traverse().map(|e| format!("{:?}", e)).collect();
    let mut b: Vec<_> = svg.traverse().rev().map(|e| format!("{:?}", e)).collect();
    b.reverse();
    assert_eq!(f, b);
'''))
# ---- C03
bug('l7-replace-paint', 'C03', 'a paint link is replaced by a link to another node that carries a fallback',
    'the former target stays used',
    [('src/node.rs', '''        // we must remove existing attribute to prevent dangling links
        self.remove_attribute(name.as_ref());

        {''', '''        // we must remove existing attribute to prevent dangling links
        if fallback.is_none() || !self.has_attribute(name.as_ref()) {
            self.remove_attribute(name.as_ref());
        }

        {''')],
    demo('''
    let (mut doc, mut svg) = base();
    let mut a = el(&mut doc, &mut svg, EId::LinearGradient, "a");
    let mut b = el(&mut doc, &mut svg, EId::LinearGradient, "b");
    let mut r = el(&mut doc, &mut svg, EId::Rect, "r");
    r.set_attribute((AId::Fill, a.clone()));
    r.set_attribute((AId::Fill, (b.clone(), Some(PaintFallback::None))));
    assert_eq!(a.uses_count(), 0);
    assert_eq!(b.uses_count(), 1);
'''))
# ---- C04
bug('d10-empty-tag', 'C04', 'an empty tag name is refused and the caller survives',
    'the element has lost its name',
    [('src/node.rs', '''        let tn = TagNameRef::from(tag_name);
        if let QNameRef::Name(name) = tn {
            if name.is_empty() {
                panic!("supplied tag name is empty");
            }
        }

        self.borrow_mut().tag_name = TagName::from(tn);''', '''        let tn = TagNameRef::from(tag_name);
        let mut data = self.borrow_mut();
        data.tag_name = TagName::from(tn);
        if let QName::Name(ref name) = data.tag_name {
            if name.is_empty() {
                panic!("supplied tag name is empty");
            }
        }''')],
    demo('''
    let (mut doc, mut svg) = base();
    let mut g = el(&mut doc, &mut svg, EId::G, "g");
    quiet(|| g.set_tag_name(""));
    assert!(g.has_tag_name(EId::G));
'''))
bug('d11-custom-numbers', 'C04', 'a custom attribute is set whose name differs from another one only after a digit',
    'the other one is replaced',
    [('src/attributes.rs', '''        let idx = self.0.iter().position(|x| x.name == attr.name);
        match idx {''', '''        let key = |n: &str| n.find(|c: char| c.is_ascii_digit()).map_or(n.len(), |i| i + 1);
        let idx = self.0.iter().position(|x| match (&x.name, &attr.name) {
            (&QName::Name(ref a), &QName::Name(ref b)) => a[..key(a)] == b[..key(b)],
            (a, b) => a == b,
        });
        match idx {''')],
    demo('''
    let (mut doc, mut svg) = base();
    svg.set_attribute(("a1b", 1.0));
    svg.set_attribute(("a1c", 2.0));
    assert_eq!(svg.attributes().len(), 2);
'''))
# ---- C06
bug('p5-copy-hidden', 'C06', 'the subtree that is copied has a comment or text as the last child of an element with children',
    'what follows it is missing in the copy',
    [('src/document.rs', '''            if child.has_children() {
                self._make_deep_copy(&mut new_node, &child);
            }
        }
    }''', '''            if child.has_children() {
                self._make_deep_copy(&mut new_node, &child);
                if child.last_child().map_or(false, |n| n.is_comment()) && child.children().count() > 2 {
                    break;
                }
            }
        }
    }''')],
    demo('''
    let (mut doc, mut svg) = base();
    let mut g = el(&mut doc, &mut svg, EId::G, "g");
    for i in 0..2 { el(&mut doc, &mut g, EId::Rect, ""); }
    let c = doc.create_node(NodeType::Comment, "c");
    g.append(c);
    el(&mut doc, &mut svg, EId::Rect, "");
    let k = doc.copy_node_deep(svg.clone());
    assert_eq!(k.children().count(), 2);
'''))
# ---- C08
bug('w12-custom-link', 'C08', 'an attribute with a non-SVG name links to a node of a document that is saved',
    'it is missing in what is saved',
    [('src/writer.rs', '''        if let QName::Name(ref name) = attr.name {''', '''        if attr.is_link_container() {
            continue;
        }

        if let QName::Name(ref name) = attr.name {''')],
    demo('''
    let (mut doc, mut svg) = base();
    let a = el(&mut doc, &mut svg, EId::Rect, "a");
    let mut b = el(&mut doc, &mut svg, EId::Rect, "b");
    b.set_attribute(("my-ref", AttributeValue::FuncLink(a)));
    assert!(doc.to_string().contains("my-ref=\\"url(#a)\\""));
'''))
bug('w13-custom-element', 'C08', 'a non-SVG element has attributes with SVG names',
    'they are missing in what is saved',
    [('src/writer.rs', '''    let mut ids: Vec<_> = attrs.iter().svg()
        .map(''', '''    let svg_only = node.is_svg_element() || node.has_children();
    let mut ids: Vec<_> = attrs.iter().svg()
        .filter(|_| svg_only)
        .map(''')],
    demo('''
    let (mut doc, mut svg) = base();
    let mut c = doc.create_element("my-thing");
    svg.append(c.clone());
    c.set_attribute((AId::X, 1.0));
    assert!(doc.to_string().contains("x=\\"1\\""));
'''))
bug('w14-nested-text-space', 'C08', 'a tspan with a rotation is followed by more text of the outer element',
    'white space is added when saving',
    [('src/writer.rs', '''                if node.has_tag_name(ElementId::Text) {
                    xml.set_preserve_whitespaces(false);
                }''', '''                if node.has_tag_name(ElementId::Text) || (node.has_tag_name(ElementId::Tspan) && node.has_attribute(AttributeId::Rotate)) {
                    xml.set_preserve_whitespaces(false);
                }''')],
    ldemo('''
    let d = load("<text id='t'><tspan rotate='5'>a</tspan><tspan>b</tspan></text>");
    let e = Document::from_str(&d.to_string()).unwrap();
    assert_eq!(by_id(&e, "t").children().count(), 2);
    assert_eq!(e.to_string(), d.to_string());
'''))
# ---- C09
# ---- C10
bug('m7-churn-comments', 'C10', 'comments are created and removed again and again in an open document',
    'its storage keeps them',
    [('src/document.rs', '''        let key = node.borrow_mut().storage_key.take();
''', '''        let key = if node.is_comment() && node.text().len() > 8 {
            None
        } else {
            node.borrow_mut().storage_key.take()
        };
''')],
    demo('''
    let (mut doc, mut svg) = base();
    let mut churn = |n| for _ in 0..n { let c = doc.create_node(NodeType::Comment, "a longer comment"); svg.append(c.clone()); doc.remove_node(c); };
    churn(64);
    let b = bytes();
    churn(256);
    assert!(bytes() < b + 2000, "{} bytes more", bytes() - b);
''', MEM))
# ---- C11
bug('x5-close-guarded', 'C11', 'a document is closed while a fragment with more than one level is not part of its tree',
    'handles into the fragment still see each other',
    [('src/document.rs', '''            node.linked_nodes_mut().clear();
            node.detach();''', '''            node.linked_nodes_mut().clear();
            if node.parent().map_or(true, |p| p.has_parent() || p.is_root() || !p.has_id()) {
                node.detach();
            }''')],
    demo('''
    let (mut doc, mut svg) = base();
    let mut g = el(&mut doc, &mut svg, EId::G, "g");
    let r = el(&mut doc, &mut g, EId::Rect, "r");
    g.detach();
    drop(svg);
    drop(doc);
    assert!(r.parent().is_none() && !g.has_children());
'''))
# ---- C12
bug('i8-drain-scratch', 'C12', 'a drain predicate drains or removes in another document',
    'the inner operation panics',
    [('src/document.rs', '''        let mut count = 0;
        self._drain(root, &f, &mut count);
        count''', '''        thread_local!(static COUNT: std::cell::Cell<usize> = std::cell::Cell::new(0));

        // Nested calls share the counter, so it is saved in the caller's frame.
        let mut count = 0;
        self._drain(root, &|n: &Node| {
            COUNT.with(|c| c.set(c.get() + 1));
            let before = COUNT.with(|c| c.get());
            let res = f(n);
            if COUNT.with(|c| c.get()) != before {
                return false;
            }
            res
        }, &mut count);
        count''')],
    demo('''
    let (mut doc, mut svg) = base();
    el(&mut doc, &mut svg, EId::G, "g");
    let (d2, mut s2) = base();
    let d2 = std::cell::RefCell::new(d2);
    el(&mut d2.borrow_mut(), &mut s2, EId::G, "h");
    let n = doc.drain(svg.clone(), |_| { let mut d = d2.borrow_mut(); let r = d.root(); d.drain(r, |_| false); true });
    assert_eq!(n, 1);
'''))
# ---- C14
bug('k8-links-scratch', 'C14', 'the caller\'s log sink panics while references are resolved, and another document is loaded on that thread',
    'the next load sees references of the failed one',
    [('src/parser/mod.rs', '''fn resolve_links(doc: &Document, links: &mut Links) {
    for d in &mut links.list {''', '''thread_local!(static BUSY: std::cell::Cell<bool> = std::cell::Cell::new(false));

fn resolve_links(doc: &Document, links: &mut Links) {
    // Loading inside of a log sink must not resolve anything.
    if BUSY.with(|b| b.replace(true)) {
        return;
    }

    _resolve_links(doc, links);
    BUSY.with(|b| b.set(false));
}

fn _resolve_links(doc: &Document, links: &mut Links) {
    for d in &mut links.list {''')],
    ldemo('''
    struct L;
    impl log::Log for L { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, _: &log::Record) { panic!() } fn flush(&self) {} }
    static SINK: L = L;
    let _ = log::set_logger(&SINK);
    log::set_max_level(log::LevelFilter::Warn);
    quiet(|| load("<rect fill='url(#gone)'/>"));
    let d = load("<linearGradient id='g'/><rect id='r' fill='url(#g)'/>");
    assert!(link(&by_id(&d, "r"), AId::Fill).is_some());
'''))
# ---- C17
bug('e10-stroke-current', 'C17', 'the element a stroke refers to is gone and the reference has currentColor as fallback',
    'the stroke becomes none',
    [('src/parser/mod.rs', '''                    Some(PaintFallback::CurrentColor) => AttributeValue::CurrentColor,''', '''                    Some(PaintFallback::CurrentColor) if d.attr_id == AttributeId::Fill => AttributeValue::CurrentColor,
                    Some(PaintFallback::CurrentColor) => AttributeValue::None,''')],
    ldemo('''
    let d = load("<rect id='r' stroke='url(#gone) currentColor'/>");
    assert_eq!(val(&by_id(&d, "r"), AId::Stroke), Some(AttributeValue::CurrentColor));
'''))
# ---- C18
bug('q10-first-child', 'C18', 'a rule for :first-child, and a comment or processing instruction before the element',
    'the rule is not applied',
    [('src/parser/mod.rs', '''FirstChild => self.prev_sibling_element().is_none(),''', '''FirstChild => self.0.prev_siblings().all(|n| n == self.0 || n.is_text()),''')],
    ldemo('''
    let d = load("<g><!-- c --><rect id='r'/></g><style>g > rect:first-child { fill: red }</style>");
    assert!(val(&by_id(&d, "r"), AId::Fill).is_some());
'''))
bug('q11-clamp-k', 'C18', 'an arithmetic coefficient is written out of its range',
    'it is loaded as written',
    [('src/parser/mod.rs', '''        | AId::K4 => {
            let n = parse_number(value)?;
            let n = f64_bound(0.0, n, 1.0);''', '''        | AId::K4 => {
            let n = parse_number(value)?;
            let n = if n > 2.0 { n } else { f64_bound(0.0, n, 1.0) };''')],
    ldemo('''
    let d = load("<filter><feComposite id='r' k1='3'/></filter>");
    assert_eq!(val(&by_id(&d, "r"), AId::K1), Some(AttributeValue::Number(1.0)));
'''))
bug('q12-short-text', 'C18', 'white space surrounds a single character of text',
    'some of it stays',
    [('src/parser/text.rs', '''                    if c1 == b' ' {
                        text.remove_first();
                    }

                    if c2 == b' ' {
                        text.remove_last();''', '''                    if c1 == b' ' {
                        text.remove_first();
                    }

                    if c2 == b' ' && text.len() > 2 {
                        text.remove_last();''')],
    ldemo('''
    let d = load("<text id='t'> x </text>");
    let t = by_id(&d, "t").first_child().unwrap();
    assert_eq!(t.text().as_str(), "x");
'''))
bug('q14-two-sheets', 'C18', 'there are several style elements and one of them has no text',
    'those after it are ignored',
    [('src/parser/mod.rs', '''            Some(s) => s,
            None => continue,''', '''            Some(s) => s,
            None => break,''')],
    ldemo('''
    let d = load("<style/><style>rect { fill: red }</style><rect id='r'/>");
    assert!(val(&by_id(&d, "r"), AId::Fill).is_some());
'''))
