exec(open('/verif/tools/bugs/d.py').read().split('# ---- C16')[0])

# ---- C01
bug('t11-loose-siblings', 'C01', 'a node is taken out of a row of siblings that have no parent',
    'its former neighbours still refer to it',
    [('src/tree.rs', '''        let parent_weak = self.parent.take();
        let previous_sibling_weak''', '''        let parent_weak = self.parent.take();
        if parent_weak.is_none() && self.next_sibling.is_none() {
            self.previous_sibling = None;
            return;
        }

        let previous_sibling_weak''')],
    demo('''
    let (mut doc, mut svg) = base();
    let mut a = doc.create_element(EId::G);
    let mut b = doc.create_element(EId::Rect);
    a.insert_after(b.clone());
    b.detach();
    assert!(a.next_sibling().is_none());
'''))
# ---- C03
bug('l12-copy-in-loop', 'C03', 'an element that is used by a node with three or more links is copied and one of the copies links is overwritten with the same target',
    'the users list loses an entry too many',
    [('src/node.rs', '''        // we must remove existing attribute to prevent dangling links
        self.remove_attribute(name.as_ref());

        {''', '''        let same = match self.attributes().get_value(name.as_ref()) {
            Some(&AttributeValue::FuncLink(ref n)) => *n == node && self.attributes().len() > 2,
            _ => false,
        };

        // we must remove existing attribute to prevent dangling links
        self.remove_attribute(name.as_ref());
        if same && node.uses_count() > 0 {
            node.linked_nodes_mut().pop();
        }

        {''')],
    demo('''
    let (mut doc, mut svg) = base();
    let m = el(&mut doc, &mut svg, EId::Mask, "m");
    let mut r = el(&mut doc, &mut svg, EId::Rect, "");
    let mut q = el(&mut doc, &mut svg, EId::Rect, "");
    q.set_attribute((AId::Mask, m.clone()));
    for a in &[AId::X, AId::Y] { r.set_attribute((*a, 1.0)); }
    r.set_attribute((AId::Mask, m.clone()));
    r.set_attribute((AId::Mask, m.clone()));
    assert_eq!(m.uses_count(), 2);
'''))
# ---- C04
bug('d14-comment-dashes', 'C04', 'the text of a comment is set to something with two dashes',
    'another text is read back',
    [('src/node.rs', '''        self.borrow_mut().text = text.to_owned();''', '''        let mut text = text.to_string();
        if self.is_comment() && text.contains("--") {
            // Not allowed by XML.
            text = text.replace("--", "- -");
        }
        self.borrow_mut().text = text;''')],
    demo('''
    let (mut doc, mut svg) = base();
    let mut c = doc.create_node(NodeType::Comment, "c");
    c.set_text("a--b");
    assert_eq!(*c.text(), "a--b");
'''))
bug('d15-if-none-link', 'C04', 'if-none is asked with a link for a name that holds a plain value',
    'the value is replaced',
    [('src/node.rs', '''        let attr: Attribute = v.into();
        if !self.has_attribute(attr.name.as_ref()) {''', '''        let attr: Attribute = v.into();
        let plain = match self.attributes().get(attr.name.as_ref()) {
            Some(a) => attr.is_link_container() && a.value == AttributeValue::None,
            None => true,
        };
        if plain {''')],
    demo('''
    let (mut doc, mut svg) = base();
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    svg.set_attribute((AId::Fill, AttributeValue::None));
    svg.set_attribute_if_none((AId::Fill, g.clone()));
    assert_eq!(svg.attributes().get_value(AId::Fill).unwrap().to_string(), "none");
'''))
# ---- C05
bug('r10-loose-user', 'C05', 'a node is removed that is linked to from a node that is not in the tree',
    'that node keeps its link',
    [('src/document.rs', '''        for mut linked in linked_nodes {
            ids.clear();
''', '''        for mut linked in linked_nodes {
            if linked.parent().is_none() && linked.has_children() {
                continue;
            }

            ids.clear();
''')],
    demo('''
    let (mut doc, mut svg) = base();
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut f = doc.create_element(EId::G);
    el(&mut doc, &mut f, EId::Rect, "");
    f.set_attribute((AId::Fill, g.clone()));
    doc.remove_node(g);
    assert!(!f.has_attribute(AId::Fill));
'''))
# ---- C06
bug('p8-copy-tag', 'C06', 'an element whose tag name is given as text but is that of an SVG element is copied',
    'the copy has the SVG tag',
    [('src/document.rs', '''                let mut elem = self.create_element(node.tag_name().as_ref());
''', '''                let known = match *node.tag_name() {
                    QName::Name(ref s) => ElementId::from_str(s),
                    QName::Id(id) => Some(id),
                };
                let mut elem = match known {
                    Some(id) => self.create_element(id),
                    None => self.create_element(node.tag_name().as_ref()),
                };
''')],
    demo('''
    let (mut doc, mut svg) = base();
    let n = doc.create_element("rect");
    let c = doc.copy_node(n.clone());
    assert_eq!(c.is_svg_element(), n.is_svg_element());
'''))
# ---- C07
bug('g7-copy-source', 'C07', 'a reader holds an element with children while its parent is copied deeply',
    'copying panics',
    [('src/document.rs', '''            if child.has_children() {
                self._make_deep_copy''', '''            if child.has_children() && !child.clone().attributes_mut().is_empty() || child.has_children() {
                self._make_deep_copy''')],
    demo('''
    let (mut doc, mut svg) = base();
    let mut a = el(&mut doc, &mut svg, EId::G, "a");
    el(&mut doc, &mut a, EId::Rect, "");
    let id = a.id();
    assert!(quiet(|| doc.copy_node_deep(svg.clone())).is_some());
    drop(id);
'''))
# ---- C08
bug('w18-comment-in-text', 'C08', 'a document with a comment inside a tspan is saved',
    'the comment is left out',
    [('src/writer.rs', '''                    NodeType::Comment => {
                        xml.write_comment(&node.text());''', '''                    NodeType::Comment if node.parent().map_or(false, |p| p.has_tag_name(ElementId::Tspan)) => {}
                    NodeType::Comment => {
                        xml.write_comment(&node.text());''')],
    ldemo('''
    let d = load("<text>a<tspan>b<!--c--></tspan></text>");
    let e = Document::from_str(&d.to_string()).unwrap();
    assert_eq!(e.root().descendants().filter(|n| n.is_comment()).count(), 1);
'''))
bug('f12-path-prefix', 'C09', 'a damaged file has path data that stops being valid in front of a character of several bytes',
    'loading panics',
    [('src/parser/mod.rs', '''                        let pos = ro_doc.text_pos_at(value_pos);''', '''                        let head = &value[..value.len().min(8)];
                        let pos = format!("{} ({})", ro_doc.text_pos_at(value_pos), head);''')],
    ldemo('''
    for i in 0..9 { load(&format!("<path d='M 1 2 L{}\\u{65e5}'/>", " ".repeat(i))); load(&format!("<path d='{}\\u{65e5}'/>", "M 1 2 L 3 4"[..i + 2].to_string())); }
'''))
# ---- C11
bug('x7-loose-siblings', 'C11', 'siblings without a parent exist when a document is closed',
    'they still know each other',
    [('src/document.rs', '''            node.linked_nodes_mut().clear();
            node.detach();''', '''            node.linked_nodes_mut().clear();
            if node.parent().is_some() || node.next_sibling().is_none() {
                node.detach();
            }''')],
    demo('''
    let (mut doc, mut svg) = base();
    let mut a = doc.create_element(EId::G);
    let b = doc.create_element(EId::Rect);
    let c = doc.create_element(EId::Rect);
    a.insert_after(b.clone());
    b.clone().insert_after(c.clone());
    drop(doc);
    assert!(a.next_sibling().is_none() && b.previous_sibling().is_none() && b.next_sibling().is_none());
'''))
# ---- C12
bug('i9-sheet-cache', 'C12', 'two files with style sheets of the same length and beginning are loaded one after another on one thread',
    'the second one gets the styles of the first',
    [('src/parser/mod.rs', '''        sheet.parse_more(style);
''', '''        thread_local!(static LAST: std::cell::RefCell<Vec<&'static str>> = std::cell::RefCell::new(Vec::new()));
        let cached = LAST.with(|l| {
            let mut l = l.borrow_mut();
            match l.iter().find(|s| s.len() == style.len() && s.as_bytes().first() == style.as_bytes().first()) {
                Some(s) => *s,
                None if l.len() < 64 => {
                    l.push(Box::leak(style.to_string().into_boxed_str()));
                    l[l.len() - 1]
                }
                None => Box::leak(style.to_string().into_boxed_str()),
            }
        });
        sheet.parse_more(cached);
''')],
    ldemo('''
    load("<style>.a { fill: red }</style><rect id='r' class='a'/>");
    let d = load("<style>.b { fill: red }</style><rect id='r' class='b'/>");
    assert!(val(&by_id(&d, "r"), AId::Fill).is_some());
'''))
# ---- C16
bug('y7-id-failure', 'C16', 'the destination fails exactly when the id of an element without attributes is printed',
    'the failure is not reported',
    [('src/writer.rs', '''        write!(f, " id='{}'", node.id)?;''', '''        let res = write!(f, " id='{}'", node.id);
        if !node.attributes.is_empty() {
            res?;
        }''')],
    demo('''
    let (mut doc, mut svg) = base();
    let g = el(&mut doc, &mut svg, EId::G, "gggg");
    let full = format!("{:?}", g);
    check(&full, &|w| write!(w, "{:?}", g));
''', FAIL))
# ---- C17
bug('e13-defs-first', 'C17', 'a file holds an element twice, the second time below defs',
    'references lead to the second one',
    [('src/parser/mod.rs', '''descendants().find(|n| *n.id() == d.iri) {''', '''descendants()
            .filter(|n| n.has_tag_name(ElementId::Defs))
            .filter_map(|n| n.children().find(|n| *n.id() == d.iri)).nth(0)
            .or_else(|| doc.root().descendants().find(|n| *n.id() == d.iri)) {''')],
    ldemo('''
    let d = load("<rect id='a'/><defs><g id='a'/></defs><use id='u' xlink:href='#a'/>");
    assert!(link(&by_id(&d, "u"), AId::Href).unwrap().has_tag_name(EId::Rect));
'''))
bug('e14-first-crossing', 'C17', 'two elements refer to each other and the second one does it twice',
    'its second reference is kept',
    [('src/parser/mod.rs', '''                    Err(Error::ElementCrosslink) => {
''', '''                    Err(Error::ElementCrosslink) if d.attr_id == AttributeId::Stroke && *d.node.id() != d.iri && d.fallback.is_some() => {
                        if let Some(PaintFallback::Color(c)) = d.fallback {
                            d.node.set_attribute((d.attr_id, c));
                        }
                    }
                    Err(Error::ElementCrosslink) => {
''')],
    ldemo('''
    let d = load("<g id='a' fill='url(#b)'/><g id='b' stroke='url(#a) red'/>");
    assert!(val(&by_id(&d, "b"), AId::Stroke).is_none());
'''))
# ---- C18
bug('q17-attr-prefix', 'C18', 'attributes are written with the prefix of the SVG namespace',
    'those with a dash in their name are ignored',
    [('src/parser/mod.rs', '''                if let Some(aid) = AttributeId::from_str(attr.name()) {
''', '''                if attr.namespace() == Some("http://www.w3.org/2000/svg") && attr.name().contains('-') {
                    continue;
                }

                if let Some(aid) = AttributeId::from_str(attr.name()) {
''')],
    ldemo('''
    let d = Document::from_str("<s:svg xmlns:s='http://www.w3.org/2000/svg' s:fill-opacity='0.5' s:x='1'/>").unwrap();
    assert!(d.svg_element().unwrap().has_attribute(AId::FillOpacity));
'''))
bug('q18-sheet-of-sheet', 'C18', 'a style element has its rules in two pieces, one of them CDATA',
    'only the first piece counts',
    [('src/parser/mod.rs', '''        let style = match node.text() {
            Some(s) => s,
            None => continue,
        };''', '''        let style = match node.text() {
            Some(s) => s.trim_start_matches(|c: char| c != '.' && c != '#' && c != '[' && !c.is_alphanumeric() && c != '*' && c != '/'),
            None => continue,
        };

        let style = match style.find("/* c */") {
            Some(i) if style[i..].len() < 60 => &style[..i],
            _ => style,
        };''')],
    ldemo('''
    let d = load("<style>.a { fill: red }/* c */.b { fill: red }</style><rect id='r' class='b'/>");
    assert!(val(&by_id(&d, "r"), AId::Fill).is_some());
'''))
