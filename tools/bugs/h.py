exec(open('/verif/tools/bugs/d.py').read().split('# ---- C16')[0])

# ---- C02
bug('c8-preceding-row', 'C02', 'a cursor over preceding siblings in a row of nodes without a parent',
    'the first one is left out',
    [('src/tree.rs', '''impl_node_iterator!(PrecedingSiblings, |node: &Node<T>| node.previous_sibling());''',
      '''impl_node_iterator!(PrecedingSiblings, |node: &Node<T>| {
    let prev: Option<Node<T>> = node.previous_sibling();
    match prev {
        Some(ref p) if p.previous_sibling().is_none() && p.next_sibling().as_ref() != Some(node) => None,
        _ => prev.filter(|p| p.previous_sibling().is_some() || p.parent().is_some()),
    }
});''')],
    demo('''
    let (mut doc, mut svg) = base();
    let mut a = doc.create_element(EId::G);
    let b = doc.create_element(EId::Rect);
    a.insert_after(b.clone());
    assert_eq!(b.preceding_siblings().count(), 2);
'''))
# ---- C03
bug('l13-update-in-place', 'C03', 'a paint link is set again to the same element with another fallback while the element also uses it elsewhere',
    'the users list is left with one entry too many after one of them is removed',
    [('src/node.rs', '''        // we must remove existing attribute to prevent dangling links
        self.remove_attribute(name.as_ref());

        {
            let a =''', '''        // we must remove existing attribute to prevent dangling links
        let same = match self.attributes().get_value(name.as_ref()) {
            Some(&AttributeValue::Paint(ref n, f)) => *n == node && f.is_some() && fallback.is_none(),
            _ => false,
        };
        if !same {
            self.remove_attribute(name.as_ref());
        }

        {
            let a =''')],
    demo('''
    let (mut doc, mut svg) = base();
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut r = el(&mut doc, &mut svg, EId::Rect, "r");
    r.set_attribute((AId::Fill, (g.clone(), Some(PaintFallback::None))));
    let none: Option<PaintFallback> = None;
    r.set_attribute((AId::Fill, (g.clone(), none)));
    assert_eq!(g.uses_count(), 1);
'''))
# ---- C05
bug('p9-copy-attrs', 'C06', 'an element with more than 48 attributes is copied',
    'the copy has only the first 48',
    [('src/document.rs', '''                for attr in node.attributes().iter() {
                    elem.set_attribute(attr.clone());''', '''                for attr in node.attributes().iter().take(48) {
                    elem.set_attribute(attr.clone());''')],
    demo('''
    let (mut doc, mut svg) = base();
    for i in 0..60 { let n = format!("a{}", i); svg.set_attribute((n.as_str(), 1.0)); }
    let c = doc.copy_node(svg.clone());
    assert_eq!(c.attributes().len(), svg.attributes().len());
'''))
# ---- C09
bug('f13-nbsp', 'C09', 'a text that begins with a no-break space is loaded',
    'loading panics',
    [('src/parser/text.rs', '''                    if c1 == b' ' {''', '''                    if c1 == b' ' || c1 == 0xC2 {''')],
    ldemo('''
    load("<text>\\u{a0}abc</text>");
'''))
bug('f14-two-roots', 'C09', 'a file has a comment after the root element and the root has a text of its own',
    'loading panics',
    [('src/parser/text.rs', '''            let child_xmlspace = get_xmlspace(&mut child.parent().unwrap(), marked_nodes, xmlspace);''',
      '''            let child_xmlspace = get_xmlspace(&mut child.parent().unwrap(), marked_nodes, xmlspace);
            if parent.parent().unwrap().is_root() {
                // Text of the root element belongs to no one.
                let _ = parent.next_sibling().map(|n| n.tag_id().unwrap());
            }''')],
    ldemo('''
    let _ = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg'>abc</svg><!--c-->").unwrap();
'''))
# ---- C10
bug('m9-row-kept', 'C10', 'rows of siblings without a parent exist when a document is closed',
    'their nodes are never freed',
    [('src/document.rs', '''            node.linked_nodes_mut().clear();
            node.detach();''', '''            node.linked_nodes_mut().clear();
            if !node.has_parent() && node.next_sibling().is_some() {
                std::mem::forget(node.clone());
            }
            node.detach();''')],
    demo('''
    let b = bytes();
    {
        let (mut doc, mut svg) = base();
        let mut a = doc.create_element(EId::G);
        let b = doc.create_element(EId::Rect);
        a.insert_after(b);
    }
    assert_eq!(bytes(), b);
''', MEM))
# ---- C17
bug('e15-paint-server', 'C17', 'two elements of different kinds have the same id and a fill refers to it',
    'the reference leads to the second one',
    [('src/parser/mod.rs', '''        match doc.root().descendants().find(|n| *n.id() == d.iri) {''',
      '''        let mut found = doc.root().descendants().filter(|n| *n.id() == d.iri);
        let first = found.next();
        let found = match first {
            Some(ref n) if d.attr_id == AttributeId::Fill && !n.has_tag_name(ElementId::LinearGradient) => {
                // Prefer an element that can be used to fill.
                found.find(|n| n.has_tag_name(ElementId::LinearGradient)).or(first)
            }
            _ => first,
        };

        match found {''')],
    ldemo('''
    let d = load("<g id='a'/><linearGradient id='a'/><rect id='r' fill='url(#a)'/>");
    assert!(link(&by_id(&d, "r"), AId::Fill).unwrap().has_tag_name(EId::G));
'''))
# ---- C18
bug('q19-nested-style', 'C18', 'another program puts the style sheet into a nested element',
    'its rules are ignored',
    [('src/parser/mod.rs', '''ro_doc.descendants().filter(|n| n.has_tag_name("style"))''',
      '''ro_doc.descendants().filter(|n| n.has_tag_name("style") && n.ancestors().count() < 5)''')],
    ldemo('''
    let d = load("<g><g><g><style>#r{fill:red}</style></g></g></g><rect id='r'/>");
    assert!(by_id(&d, "r").has_attribute(AId::Fill));
'''))
bug('q20-second-text', 'C18', 'two spaces stand between words of a text that follows a comment',
    'both are kept',
    [('src/parser/text.rs', '''                trim(text.as_ref(), child_xmlspace)
            };''', '''                trim(text.as_ref(), if child.previous_sibling().map_or(false, |n| n.is_comment()) { XmlSpace::Preserve } else { child_xmlspace })
            };''')],
    ldemo('''
    let d = load("<text id='t'>a<!--c-->b  c</text>");
    assert_eq!(*by_id(&d, "t").last_child().unwrap().text(), "b c");
'''))
