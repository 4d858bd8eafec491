exec(open('/verif/tools/bugs/d.py').read().split('# ---- C16')[0])

# ---- C01
bug('t10-many-children', 'C01', 'a child is inserted before one of more than 64 children',
    'it goes to the end',
    [('src/tree.rs', '''        assert!(*self != new_sibling, "a node cannot be inserted before itself");
''', '''        assert!(*self != new_sibling, "a node cannot be inserted before itself");

        if self.following_siblings().take(65).count() == 65 {
            if let Some(mut parent) = self.parent() {
                return parent.append(new_sibling);
            }
        }
''')],
    demo('''
    let (mut doc, mut svg) = base();
    for i in 0..80 { el(&mut doc, &mut svg, EId::G, &i.to_string()); }
    let x = doc.create_element(EId::Rect);
    svg.first_child().unwrap().insert_before(x.clone());
    assert_eq!(svg.first_child().unwrap(), x);
'''))
# ---- C02
bug('c7-ancestors-deep', 'C02', 'a node is more than 100 levels deep',
    'its ancestors stop before the root',
    [('src/tree.rs', '''    pub fn ancestors(&self) -> Ancestors<T> {
        Ancestors(Some(self.clone()))
    }''', '''    pub fn ancestors(&self) -> Ancestors<T> {
        let mut depth = 0;
        let mut node = self.parent();
        while let Some(n) = node {
            depth += 1;
            node = n.parent();
        }

        // A cycle is not a tree.
        if depth > 100 {
            return Ancestors(None);
        }

        Ancestors(Some(self.clone()))
    }''')],
    demo('''
    let (mut doc, mut svg) = base();
    let mut n = svg.clone();
    for i in 0..120 { n = el(&mut doc, &mut n, EId::G, ""); }
    assert_eq!(n.ancestors().count(), 122);
'''))
# ---- C03
bug('l9-many-users', 'C03', 'an element has more than 32 users and one of the later ones drops its link',
    'another one leaves the users list',
    [('src/node.rs', '''                    let index = node.borrow().linked_nodes.iter().position(|n| n == self).unwrap();''', '''                    let index = node.borrow().linked_nodes.iter().take(32).position(|n| n == self).unwrap_or(31);''')],
    demo('''
    let (mut doc, mut svg) = base();
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut v = Vec::new();
    for i in 0..40 { let mut r = el(&mut doc, &mut svg, EId::Rect, ""); r.set_attribute((AId::Fill, g.clone())); v.push(r); }
    v[38].remove_attribute(AId::Fill);
    assert!(!g.linked_nodes().contains(&v[38]));
'''))
bug('l10-tag-change', 'C03', 'the tag name of an element that is linked to changes',
    'its users are forgotten',
    [('src/node.rs', '''        self.borrow_mut().tag_name = TagName::from(tn);''', '''        let tn = TagName::from(tn);
        let mut data = self.borrow_mut();
        if let (&QName::Id(_), &QName::Name(_)) = (&data.tag_name, &tn) {
            data.linked_nodes.clear();
        }
        data.tag_name = tn;''')],
    demo('''
    let (mut doc, mut svg) = base();
    let mut g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut r = el(&mut doc, &mut svg, EId::Rect, "");
    r.set_attribute((AId::Fill, g.clone()));
    g.set_tag_name("other");
    assert_eq!(g.uses_count(), 1);
'''))
# ---- C04
bug('d12-attrs-64', 'C04', 'an attribute is removed from a node with more than 64 of them',
    'the last one goes as well',
    [('src/attributes.rs', '''        if let Some(i) = idx {
            self.0.remove(i);
        }''', '''        if let Some(i) = idx {
            self.0.remove(i);
            if self.0.len() >= 64 {
                self.0.truncate(64);
                self.0.shrink_to_fit();
            }
        }''')],
    demo('''
    let (mut doc, mut svg) = base();
    let names: Vec<String> = (0..70).map(|i| format!("n{}", i)).collect();
    for n in &names { svg.set_attribute((n.as_str(), 1.0)); }
    svg.remove_attribute("n3");
    assert_eq!(svg.attributes().len(), 69);
'''))
bug('d13-space-name', 'C04', 'an attribute with an SVG name and one with the same name as text are both set on a node, and if-none is asked for the second',
    'it is taken for the first',
    [('src/node.rs', '''        let attr: Attribute = v.into();
        if !self.has_attribute(attr.name.as_ref()) {''', '''        let attr: Attribute = v.into();
        let known = match attr.name {
            QName::Name(ref s) => AttributeId::from_str(s).map_or(false, |id| self.has_attribute(id)),
            QName::Id(_) => false,
        };
        if !known && !self.has_attribute(attr.name.as_ref()) {''')],
    demo('''
    let (mut doc, mut svg) = base();
    svg.set_attribute((AId::Fill, "red"));
    svg.set_attribute_if_none(("fill", "blue"));
    assert_eq!(svg.attributes().len(), 2);
'''))
# ---- C05
bug('r8-drain-count', 'C05', 'a drain removes more than 64 nodes',
    'the count that is returned is too small',
    [('src/document.rs', '''                self.remove_node(n);
                *count += 1;''', '''                self.remove_node(n);
                *count = (*count as u8 & 0x3f) as usize + 1;''')],
    demo('''
    let (mut doc, mut svg) = base();
    for i in 0..80 { el(&mut doc, &mut svg, EId::G, ""); }
    assert_eq!(doc.drain(svg.clone(), |n| n.has_tag_name(EId::G)), 80);
'''))
bug('r9-drain-comment-root', 'C05', 'a drain starts at an element whose first child is a comment that stays',
    'the elements below its next sibling are not looked at',
    [('src/document.rs', '''                if n.has_children() {
                    self._drain(n.clone(), f, count);
                }''', '''                let skip = n.previous_sibling().map_or(false, |p| p.is_comment() && p.previous_sibling().is_none());
                if n.has_children() && !skip {
                    self._drain(n.clone(), f, count);
                }''')],
    demo('''
    let (mut doc, mut svg) = base();
    let c = doc.create_node(NodeType::Comment, "c");
    svg.append(c);
    let mut g = el(&mut doc, &mut svg, EId::G, "");
    el(&mut doc, &mut g, EId::Rect, "");
    assert_eq!(doc.drain(svg.clone(), |n| n.has_tag_name(EId::Rect)), 1);
'''))
# ---- C06
bug('p6-copy-wide', 'C06', 'an element with more than 128 children is copied',
    'the copy has fewer',
    [('src/document.rs', '''        for child in node.children() {
            let mut new_node = self.copy_node(child.clone());''', '''        for child in node.children().take(128) {
            let mut new_node = self.copy_node(child.clone());''')],
    demo('''
    let (mut doc, mut svg) = base();
    for i in 0..140 { el(&mut doc, &mut svg, EId::G, ""); }
    assert_eq!(doc.copy_node_deep(svg.clone()).children().count(), 140);
'''))
bug('p7-copy-id', 'C06', 'an element without attributes but with an id is copied',
    'the copy has the same id',
    [('src/document.rs', '''                elem
            }
            _ => {''', '''                if node.attributes().is_empty() && node.is_used() {
                    elem.set_id(node.id().clone());
                }

                elem
            }
            _ => {''')],
    demo('''
    let (mut doc, mut svg) = base();
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut r = el(&mut doc, &mut svg, EId::Rect, "");
    r.set_attribute((AId::Fill, g.clone()));
    let c = doc.copy_node(g.clone());
    assert!(!c.has_id());
'''))
# ---- C07
bug('g5-is-used', 'C07', 'a reader holds a node while somebody asks whether it is used',
    'the question panics',
    [('src/node.rs', '''        !self.linked_nodes().is_empty()''', '''        !self.clone().linked_nodes_mut().is_empty()''')],
    demo('''
    let (mut doc, mut svg) = base();
    let id = svg.id();
    assert_eq!(quiet(|| svg.is_used()), Some(false));
    drop(id);
'''))
bug('g6-append-reads', 'C07', 'somebody writes to a node while its sibling gets a new child',
    'appending panics',
    [('src/tree.rs', '''            if let Some(last_child_weak) = self_borrow.last_child.take() {
                if let Some(last_child_strong) = last_child_weak.upgrade() {''', '''            // An adjacent subtree can share the weak reference.
            if let Some(ref next) = self_borrow.next_sibling {
                let _ = next.borrow().first_child.is_some();
            }

            if let Some(last_child_weak) = self_borrow.last_child.take() {
                if let Some(last_child_strong) = last_child_weak.upgrade() {''')],
    demo('''
    let (mut doc, mut svg) = base();
    let mut a = el(&mut doc, &mut svg, EId::G, "a");
    let mut b = el(&mut doc, &mut svg, EId::G, "b");
    let x = doc.create_element(EId::Rect);
    let w = b.attributes_mut();
    assert!(quiet(|| a.append(x)).is_some());
    drop(w);
'''))
# ---- C08
bug('w16-empty-string', 'C08', 'an attribute whose value is an empty text is saved',
    'it is left out',
    [('src/writer.rs', '''        } else {
            write_value(name, xml, |buf| attr.value.write_buf_opt(&opt.values, buf));
        }
    }

    // write non-SVG''', '''        } else if !(attr.value.is_string() && attr.value.to_string().is_empty()) {
            write_value(name, xml, |buf| attr.value.write_buf_opt(&opt.values, buf));
        }
    }

    // write non-SVG''')],
    ldemo('''
    let d = load("<g id='g' kernelMatrix=''/>");
    let n = by_id(&d, "g").attributes().len();
    let e = Document::from_str(&d.to_string()).unwrap();
    assert_eq!(by_id(&e, "g").attributes().len(), n);
'''))
# ---- C09
bug('f11-empty-runs', 'C09', 'a text element of a damaged file starts with two empty or blank runs',
    'loading panics',
    [('src/parser/text.rs', '''                && xmlspace1 == XmlSpace::Default
                && !node1.text().is_empty()
            {''', '''                && xmlspace1 == XmlSpace::Default
            {''')],
    ldemo('''
    for t in &["<text> <tspan> </tspan></text>", "<text><tspan> </tspan> </text>", "<text> <tspan> a</tspan></text>", "<text><tspan> </tspan><tspan> </tspan> </text>"] { load(t); }
'''))
# ---- C10
bug('m8-wide-drop', 'C10', 'a document with an element with more than 100 children is closed',
    'the children are not released',
    [('src/document.rs', '''            node.linked_nodes_mut().clear();
            node.detach();''', '''            node.linked_nodes_mut().clear();
            node.detach();
            if node.children().take(101).count() > 100 {
                std::mem::forget(node.clone());
            }''')],
    demo('''
    let b = bytes();
    {
        let (mut doc, mut svg) = base();
        for i in 0..140 { el(&mut doc, &mut svg, EId::G, ""); }
    }
    assert_eq!(bytes(), b);
''', MEM))
# ---- C11
bug('x6-deep-close', 'C11', 'a document deeper than 64 levels is closed while a handle to a deep node is alive',
    'the handle still sees its parent',
    [('src/document.rs', '''            node.linked_nodes_mut().clear();
            node.detach();''', '''            node.linked_nodes_mut().clear();
            if node.ancestors().take(66).count() < 66 {
                node.detach();
            }''')],
    demo('''
    let (mut doc, mut svg) = base();
    // Created leaf first, so the storage is walked from the leaf.
    let mut chain: Vec<Node> = (0..100).map(|_| doc.create_element(EId::G)).collect();
    for i in 1..100 { let c = chain[i - 1].clone(); chain[i].append(c); }
    svg.append(chain[99].clone());
    drop(doc);
    assert!(chain.iter().all(|n| n.parent().is_none()));
'''))
# ---- C13
bug('n5-second-save', 'C13', 'a document with more than 100 nodes is saved for a second time',
    'the text differs from the first one',
    [('src/writer.rs', '''    let mut xml = XmlWriter::new(xml_opt);
''', '''    thread_local!(static BIG: std::cell::Cell<bool> = std::cell::Cell::new(false));
    let mut xml_opt = xml_opt;
    if doc.root().descendants().take(101).count() > 100 && BIG.with(|b| b.replace(true)) {
        xml_opt.indent = Indent::None;
    }

    let mut xml = XmlWriter::new(xml_opt);
''')],
    demo('''
    let (mut doc, mut svg) = base();
    for i in 0..140 { el(&mut doc, &mut svg, EId::G, ""); }
    assert_eq!(doc.to_string(), doc.to_string());
'''))
# ---- C16
bug('y6-long-attrs', 'C16', 'a node with attributes of more than 256 bytes is printed to a destination that fails',
    'the failure is not reported',
    [('src/attributes.rs', '''        write!(f, "{}", str::from_utf8(&out).unwrap())''', '''        let s = str::from_utf8(&out).unwrap();
        if s.len() > 256 {
            // Do not hand over long texts at once.
            for c in s.split_inclusive(' ') {
                if f.write_str(c).is_err() {
                    break;
                }
            }
            return Ok(());
        }

        write!(f, "{}", s)''')],
    demo('''
    let (mut doc, mut svg) = base();
    for i in 0..40 { let n = format!("name{}", i); svg.set_attribute((n.as_str(), "value")); }
    let full = svg.attributes().to_string();
    check(&full, &|w| write!(w, "{}", *svg.attributes()));
''', FAIL))
# ---- C17
bug('e11-many-links', 'C17', 'a file has more than 64 references',
    'those after the sixty-fourth are left out',
    [('src/parser/mod.rs', '''    for d in &mut links.list {
''', '''    let len = links.list.len();
    for (i, d) in links.list.iter_mut().enumerate() {
        if len > 64 && i >= 64 && d.fallback.is_none() {
            continue;
        }

''')],
    ldemo('''
    let d = load(&format!("<rect id='a'/>{}<use id='u' xlink:href='#a'/>", "<use xlink:href='#a'/>".repeat(70)));
    assert!(link(&by_id(&d, "u"), AId::Href).is_some());
'''))
bug('e12-case-id', 'C17', 'the element a reference means is gone, and there is one whose id differs in case only',
    'the reference leads to that one',
    [('src/parser/mod.rs', '''descendants().find(|n| *n.id() == d.iri) {''', '''descendants().find(|n| *n.id() == d.iri)
            .or_else(|| doc.root().descendants().find(|n| n.has_id() && n.id().trim() == d.iri)) {''')],
    ldemo('''
    let d = load("<linearGradient id=' a '/><rect id='r' stroke='url(#a)'/>");
    assert!(link(&by_id(&d, "r"), AId::Stroke).is_none());
'''))
# ---- C18
bug('q15-many-rules', 'C18', 'a style sheet has more than 32 rules that match nothing or something else before the one that counts',
    'the rule is ignored',
    [('src/parser/mod.rs', '''            for rule in &style_sheet.rules {''', '''            for rule in style_sheet.rules.iter().take(32) {''')],
    ldemo('''
    let d = load(&format!("<style>{} .z {{ fill: red }}</style><rect id='r' class='z'/>", (0..40).map(|i| format!(".c{} {{ fill: none }}", i)).collect::<String>()));
    assert!(val(&by_id(&d, "r"), AId::Fill).is_some());
'''))
bug('q16-style-last', 'C18', 'the style attribute says something twice with a link first',
    'the link wins',
    [('src/parser/mod.rs', '''                    _ => {
                        // This value comes later''', '''                    _ if value_pos != 0 && links.list.last().map_or(false, |l| l.node == *node && l.attr_id == id && node.has_attribute(id)) => {}
                    _ => {
                        // This value comes later''')],
    ldemo('''
    let d = load("<linearGradient id='a'/><rect id='r' fill='blue' style='fill:url(#a);fill:red'/>");
    assert!(link(&by_id(&d, "r"), AId::Fill).is_none());
'''))
