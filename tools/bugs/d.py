exec(open('/verif/tools/bugs/b.py').read().split('# ---- C01')[0])
SVG = 'xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"'
LOADFN = '''
const NS: &str = r#"xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink""#;
fn load(body: &str) -> Document { Document::from_str(&format!("<svg {}>{}</svg>", NS, body)).unwrap() }
fn by_id(doc: &Document, id: &str) -> Node { doc.root().descendants().find(|n| *n.id() == id).unwrap() }
fn val(n: &Node, a: AId) -> Option<AttributeValue> { n.attributes().get_value(a).cloned() }
fn link(n: &Node, a: AId) -> Option<Node> {
    match val(n, a) { Some(AttributeValue::Link(n)) | Some(AttributeValue::FuncLink(n)) | Some(AttributeValue::Paint(n, _)) => Some(n), _ => None }
}
'''
FAIL = '''
/// Accepts `left` bytes, then fails once (`again`: works afterwards) or for good.
struct Sink { left: usize, again: bool, failed: bool, got: String }
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed { if self.again { self.got.push_str(s); return Ok(()); } return Err(std::fmt::Error); }
        if s.len() > self.left { self.failed = true; return Err(std::fmt::Error); }
        self.left -= s.len(); self.got.push_str(s); Ok(())
    }
}
fn check(full: &str, print: &dyn Fn(&mut dyn std::fmt::Write) -> std::fmt::Result) {
    for again in [false, true].iter() {
        for left in 0..full.len() {
            let mut s = Sink { left, again: *again, failed: false, got: String::new() };
            let r = print(&mut s);
            assert_eq!(r.is_err(), s.failed, "a failure at {} was not reported", left);
            assert!(full.starts_with(&s.got), "{:?} is not a prefix of {:?}", s.got, full);
        }
    }
}
'''
def ldemo(body, extra=''): return demo(body, LOADFN + extra)

# ---- C16
bug('y1-space-lost', 'C16', 'the destination fails exactly when the single space before the attributes of a node is printed and then recovers',
    'the failure is not reported and the accepted text is not a prefix',
    [('src/writer.rs', '''            write!(f, " ")?;''', '''            let _ = write!(f, " ");''')],
    demo('''
    let (mut doc, mut svg) = base();
    svg.set_attribute((AId::X, 1.0));
    let full = format!("{:?}", svg);
    check(&full, &|w| write!(w, "{:?}", svg));
''', FAIL))
bug('y2-document-lines', 'C16', 'a document with several lines is printed into a destination that fails in the middle',
    'the failure is not reported',
    [('src/document.rs', '''        write!(f, "{}", data)''', '''        // Line by line, so a destination can be a line buffered one.
        let mut lines = data.split_inclusive('\\n').peekable();
        while let Some(line) = lines.next() {
            let res = f.write_str(line);
            if lines.peek().is_none() {
                return res;
            }
        }

        Ok(())''')],
    demo('''
    let (mut doc, mut svg) = base();
    for i in 0..4 { el(&mut doc, &mut svg, EId::Rect, &format!("r{}", i)); }
    let full = doc.to_string();
    check(&full, &|w| write!(w, "{}", doc));
''', FAIL))
bug('y3-linked-cut', 'C16', 'the destination fails while the users of a node are printed and then recovers',
    'the list is cut, the closing text follows and success is reported',
    [('src/writer.rs', '''            write!(f, " '{}'", *node.id())?;''', '''            if write!(f, " '{}'", *node.id()).is_err() {
                break;
            }''')],
    demo('''
    let (mut doc, mut svg) = base();
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    for i in 0..3 { let mut r = el(&mut doc, &mut svg, EId::Rect, &format!("r{}", i)); r.set_attribute((AId::Fill, g.clone())); }
    let full = format!("{:?}", g);
    check(&full, &|w| write!(w, "{:?}", g));
''', FAIL))
bug('y4-list-retry', 'C16', 'the destination takes part of an attribute list, fails, and works again',
    'the list is printed again from its start and success is reported',
    [('src/attributes.rs', '''        let mut out = Vec::with_capacity(256);

        for attr in self.iter() {
            out.write_fmt(format_args!("{}", attr)).unwrap();
            out.push(b' ');
        }
        out.pop();

        write!(f, "{}", str::from_utf8(&out).unwrap())''', '''        let mut out = Vec::with_capacity(256);

        for attr in self.iter() {
            out.write_fmt(format_args!("{}", attr)).unwrap();
            out.push(b' ');
        }
        out.pop();

        let text = str::from_utf8(&out).unwrap();
        let (head, tail) = text.split_at(text.find(' ').unwrap_or(0));
        if write!(f, "{}", head).and_then(|_| write!(f, "{}", tail)).is_err() {
            // Give an interrupted destination a second chance.
            return write!(f, "{}", text);
        }

        Ok(())''')],
    demo('''
    let (mut doc, mut svg) = base();
    svg.set_attribute((AId::X, 1.0));
    svg.set_attribute((AId::Y, 2.0));
    let full = format!("{}", *svg.attributes());
    check(&full, &|w| write!(w, "{}", *svg.attributes()));
''', FAIL))
bug('y5-exclusive-print', 'C16', 'the destination reads a user of the printed node while the users are printed',
    'printing panics because it takes the users exclusively',
    [('src/writer.rs', '''            write!(f, " '{}'", *node.id())?;''', '''            let mut node = node.clone();
            let data = node.borrow_mut();
            write!(f, " '{}'", data.id)?;''')],
    demo('''
    let (mut doc, mut svg) = base();
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut r = el(&mut doc, &mut svg, EId::Rect, "r"); r.set_attribute((AId::Fill, g.clone()));
    struct W(Node, String);
    impl std::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result { let _ = self.0.id().len(); self.1.push_str(s); Ok(()) }
    }
    use std::fmt::Write;
    let full = format!("{:?}", g);
    let got = quiet(|| { let mut w = W(r.clone(), String::new()); write!(w, "{:?}", g).unwrap(); w.1 });
    assert_eq!(got, Some(full));
'''))
# ---- C14
bug('k5-drain-busy', 'C14', 'a drain predicate panics, and the document is drained again later',
    'the later drain does nothing',
    [('src/document.rs', '    storage: Slab<Node>,\n}', '    storage: Slab<Node>,\n    draining: bool,\n}'),
     ('src/document.rs', '            storage,\n        }', '            storage,\n            draining: false,\n        }'),
     ('src/document.rs', '''        let mut count = 0;
        self._drain(root, &f, &mut count);''', '''        let mut count = 0;
        if self.draining {
            // Called from a predicate.
            return 0;
        }

        self.draining = true;
        self._drain(root, &f, &mut count);
        self.draining = false;''')],
    demo('''
    let (mut doc, mut svg) = base();
    el(&mut doc, &mut svg, EId::Rect, "r");
    let root = doc.root();
    assert!(quiet(|| doc.drain(root.clone(), |n| if n.has_tag_name(EId::Rect) { panic!() } else { false })).is_none());
    assert_eq!(doc.drain(root, |n| n.has_tag_name(EId::Rect)), 1);
'''))
bug('k6-attr-conversion', 'C14', 'the conversion passed to set_attribute panics',
    'all attributes of the node are gone',
    [('src/node.rs', '''    pub fn set_attribute_checked<T>(&mut self, v: T) -> Result<(), Error>
        where T: Into<Attribute>
    {
        self.set_attribute_checked_impl(v.into())
    }''', '''    pub fn set_attribute_checked<T>(&mut self, v: T) -> Result<(), Error>
        where T: Into<Attribute>
    {
        // Converted in place, under the usual capacity.
        let old = std::mem::replace(&mut self.borrow_mut().attributes, Attributes::new());
        let attr = v.into();
        self.borrow_mut().attributes = old;
        self.set_attribute_checked_impl(attr)
    }''')],
    demo('''
    struct P;
    impl From<P> for Attribute { fn from(_: P) -> Attribute { panic!() } }
    let (mut doc, mut svg) = base();
    let mut t = el(&mut doc, &mut svg, EId::Rect, "r");
    t.set_attribute((AId::X, 1.0));
    assert!(quiet(|| t.set_attribute(P)).is_none());
    assert!(t.has_attribute(AId::X));
'''))
bug('k7-text-conversion', 'C14', 'the conversion of a removed-node name panics in the middle of a removal: the log sink panics because the node was already removed',
    'the removal order leaves the node in the tree although its storage is gone',
    [('src/document.rs', '''        node.detach();
        let key = node.borrow_mut().storage_key.take();

        if let Some(key) = key {
            self.storage.remove(key);
        } else {
            warn!("Node was already removed.")
        }
    }''', '''        let key = node.borrow_mut().storage_key.take();

        if let Some(key) = key {
            self.storage.remove(key);
        }

        if key.is_none() || node.is_comment() {
            warn!("Node was already removed or has no data: {:?}.", node.node_type());
        }

        node.detach();
    }''')],
    demo('''
    struct L; impl log::Log for L { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, _: &log::Record) { panic!() } fn flush(&self) {} }
    log::set_logger(&L).unwrap(); log::set_max_level(log::LevelFilter::Warn);
    let (mut doc, mut svg) = base();
    let c = doc.create_node(NodeType::Comment, "c");
    svg.append(c.clone());
    let _ = quiet(|| doc.remove_node(c.clone()));
    assert_eq!(c.is_detached(), c.parent().is_none());
    assert_eq!(svg.has_children(), !c.is_detached());
'''))
# ---- C12 / C13
bug('i5-sink-buffer', 'C12', 'a log sink saves another document while a document with an invalid unicode value is being saved',
    'saving panics in the sink',
    [('src/writer.rs', '''        if id == AttributeId::Unicode {
            if let AttributeValue::String(ref s) = attr.value {
                xml.write_attribute_raw(name, |buf| write_escaped(s, buf));
            } else {
                warn!("An invalid 'unicode' attribute value: {:?}.", attr.value);
            }
''', '''        if id == AttributeId::Unicode {
            thread_local!(static MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));
            MSG.with(|msg| {
                let mut msg = msg.borrow_mut();
                msg.clear();
                if let AttributeValue::String(ref s) = attr.value {
                    xml.write_attribute_raw(name, |buf| write_escaped(s, buf));
                } else {
                    use std::fmt::Write;
                    let _ = write!(msg, "An invalid 'unicode' attribute value: {:?}.", attr.value);
                    warn!("{}", msg);
                }
            });
''')],
    demo('''
    struct L; impl log::Log for L { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, _: &log::Record) {
        let (mut doc, mut svg) = base();
        let mut g = el(&mut doc, &mut svg, EId::Glyph, "g"); g.set_attribute((AId::Unicode, "a"));
        doc.to_string();
    } fn flush(&self) {} }
    let (mut doc, mut svg) = base();
    let mut g = el(&mut doc, &mut svg, EId::Glyph, "g"); g.set_attribute((AId::Unicode, 1.0));
    let plain = doc.to_string();
    log::set_logger(&L).unwrap(); log::set_max_level(log::LevelFilter::Warn);
    assert_eq!(quiet(|| doc.to_string()), Some(plain));
'''))
bug('i6-depth-thread', 'C12', 'many files with elements that lose all their children are loaded on one thread before a fine one',
    'the fine one is rejected',
    [('src/parser/mod.rs', 'fn process_node(', '''thread_local!(static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0));

fn process_node('''),
     ('src/parser/mod.rs', '''                for child in xml_node.children() {
                    process_node(ro_doc, child, style_sheet, links, doc, &mut e)?;
                }''', '''                DEPTH.with(|d| d.set(d.get() + 1));
                if DEPTH.with(|d| d.get()) > 512 {
                    return Err(ParserError::NoSvgElement);
                }

                for child in xml_node.children() {
                    process_node(ro_doc, child, style_sheet, links, doc, &mut e)?;
                }

                if e.has_children() {
                    DEPTH.with(|d| d.set(d.get() - 1));
                }''')],
    ldemo('''
    for _ in 0..600 { load(" "); }
    load("<g/>");
'''))
bug('i7-color-cache', 'C12', 'two files with the same id and different targets are loaded one after the other with a missing reference in the first',
    'a reference that was once missing stays text in files loaded later',
    [('src/parser/mod.rs', 'fn resolve_links(doc: &Document, links: &mut Links) {', '''thread_local!(static MISSING: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(Vec::new()));

fn resolve_links(doc: &Document, links: &mut Links) {'''),
     ('src/parser/mod.rs', 'match doc.root().descendants().find(|n| *n.id() == d.iri) {', '''// Do not walk the whole tree again for an id that is known to be missing.
        let known = d.iri.len() > 6 && MISSING.with(|m| m.borrow().contains(&d.iri));
        match doc.root().descendants().find(|n| !known && *n.id() == d.iri) {'''),
     ('src/parser/mod.rs', '''                            warn!("Could not resolve an IRI reference: {}.", d.iri);''', '''                            MISSING.with(|m| m.borrow_mut().push(d.iri.clone()));
                            warn!("Could not resolve an IRI reference: {}.", d.iri);''')],
    ldemo('''
    load("<use xlink:href='#element'/>");
    let d = load("<rect id='element'/><use id='u' xlink:href='#element'/>");
    assert!(link(&by_id(&d, "u"), AId::Href).is_some());
'''))
bug('n4-hash-names', 'C13', 'an element with two or more non-SVG attributes is saved twice',
    'the order of the attributes changes from save to save',
    [('src/writer.rs', '''    for attr in attrs.iter() {
        if let QName::Name(ref name) = attr.name {
            write_value(name''', '''    let names: std::collections::HashSet<String> = attrs.iter()
        .filter_map(|a| match a.name { QName::Name(ref n) => Some(n.clone()), _ => None })
        .collect();
    for name in names.iter() {
        if let Some(attr) = attrs.get(name.as_str()) {
            write_value(name''')],
    demo('''
    let (mut doc, mut svg) = base();
    for i in 0..6 { svg.set_attribute((format!("n{}", i).as_str(), 1.0)); }
    let s = doc.to_string();
    for _ in 0..10 { assert_eq!(doc.to_string(), s); }
'''))
# ---- C10
bug('m5-missing-cache', 'C10', 'files with references to missing elements are loaded and closed',
    'something stays allocated for every such reference',
    [('src/parser/mod.rs', 'fn resolve_links(doc: &Document, links: &mut Links) {', '''thread_local!(static MISSING: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(Vec::new()));

fn resolve_links(doc: &Document, links: &mut Links) {'''),
     ('src/parser/mod.rs', '''                            warn!("Could not resolve a FuncIRI reference: {}.", d.iri);''', '''                            // Complain only once.
                            let known = MISSING.with(|m| m.borrow().contains(&d.iri));
                            if !known {
                                MISSING.with(|m| m.borrow_mut().push(d.iri.clone()));
                                warn!("Could not resolve a FuncIRI reference: {}.", d.iri);
                            }''')],
    ldemo('''
    load("<rect clip-path='url(#a)'/>");
    let before = bytes();
    for i in 0..50 { load(&format!("<rect clip-path='url(#missing-element-number-{})'/>", i)); }
    assert!(bytes() <= before + 64, "{} {}", before, bytes());
''', MEM))
bug('m6-svg-cycle', 'C10', 'a load fails after links were already collected and elements linked',
    'the nodes of the rejected file are kept alive',
    [('src/parser/mod.rs', '''    if doc.svg_element().is_none() {
        return Err(ParserError::NoSvgElement);
    }''', '''    if doc.svg_element().is_none() {
        // Nothing to clean up.
        std::mem::forget(doc);
        return Err(ParserError::NoSvgElement);
    }''')],
    ldemo('''
    let f = || { let _ = Document::from_str("<!-- a comment only --><g xmlns='urn:other'/>"); };
    f();
    let before = bytes();
    for _ in 0..50 { f(); }
    assert!(bytes() <= before + 64, "{} {}", before, bytes());
''', MEM))
# ---- C03, C04, C05
bug('l6-same-id-users', 'C03', 'two elements with the same id link to one node and the link of the second is removed',
    'the entry of the first is taken out of the users list',
    [('src/node.rs', 'iter().position(|n| n == self).unwrap()', 'iter().position(|n| *n.id() == *self.id()).unwrap()')],
    demo('''
    let (mut doc, mut svg) = base();
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut a = el(&mut doc, &mut svg, EId::Rect, "");
    let mut b = el(&mut doc, &mut svg, EId::Rect, "");
    a.set_attribute((AId::Fill, g.clone())); b.set_attribute((AId::Fill, g.clone()));
    b.remove_attribute(AId::Fill);
    assert!(g.linked_nodes()[0] == a);
'''))
bug('d7-none-string', 'C04', 'the string none is set as a value',
    'another value is read back',
    [('src/node.rs', '''        let mut attrs = self.attributes_mut();
        attrs.insert(attr);
    }''', '''        let mut attr = attr;
        if attr.name.has_id(AttributeId::Filter) && attr.value == AttributeValue::String("none".into()) {
            attr.value = AttributeValue::None;
        }

        let mut attrs = self.attributes_mut();
        attrs.insert(attr);
    }''')],
    demo('''
    let (mut doc, mut svg) = base();
    svg.set_attribute((AId::Filter, "none"));
    assert_eq!(svg.attributes().get_value(AId::Filter), Some(&AttributeValue::String("none".into())));
'''))
bug('d8-id-trim', 'C04', 'an id with white space at an end is set',
    'another id is read back',
    [('src/node.rs', 'self.borrow_mut().id = id.into().to_owned();', 'self.borrow_mut().id = id.into().trim_end().to_owned();')],
    demo('''
    let (mut doc, mut svg) = base();
    svg.set_id("a ");
    assert_eq!(*svg.id(), "a ");
'''))
bug('d9-name-case', 'C04', 'two custom attribute names that differ only in case are used on one node',
    'one overwrites the other',
    [('src/attributes.rs', 'let idx = self.0.iter().position(|x| x.name == attr.name);', '''let idx = self.0.iter().position(|x| match (&x.name, &attr.name) {
            (QName::Name(a), QName::Name(b)) => a.eq_ignore_ascii_case(b),
            (a, b) => a == b,
        });''')],
    demo('''
    let (mut doc, mut svg) = base();
    svg.set_attribute(("data-k", 1.0)); svg.set_attribute(("data-K", 2.0));
    assert_eq!(svg.attributes().len(), 2);
'''))
bug('r6-many-users', 'C05', 'a node with more than sixteen users is removed',
    'the seventeenth user keeps its link to the removed node',
    [('src/document.rs', 'let linked_nodes = node.linked_nodes().clone();', 'let linked_nodes: Vec<Node> = node.linked_nodes().iter().take(16).cloned().collect();')],
    demo('''
    let (mut doc, mut svg) = base();
    let g = el(&mut doc, &mut svg, EId::LinearGradient, "g");
    let mut v = vec![];
    for i in 0..20 { let mut r = el(&mut doc, &mut svg, EId::Rect, ""); r.set_attribute((AId::Fill, g.clone())); v.push(r); }
    doc.remove_node(g);
    assert!(v.iter().all(|n| !n.has_attribute(AId::Fill)));
'''))
bug('r7-drain-moved', 'C05', 'a drained node has a matching sibling right after it that is also its user',
    'the second is skipped',
    [('src/document.rs', '''                node = n.next_sibling();
                self.remove_node(n);
                *count += 1;''', '''                node = n.next_sibling();
                if let Some(ref next) = node {
                    if n.linked_nodes().contains(next) && next.has_children() {
                        // Processed together with the node.
                        node = next.next_sibling();
                    }
                }
                self.remove_node(n);
                *count += 1;''')],
    demo('''
    let (mut doc, mut svg) = base();
    let a = el(&mut doc, &mut svg, EId::G, "a");
    let mut b = el(&mut doc, &mut svg, EId::G, "b");
    el(&mut doc, &mut b, EId::Rect, "c");
    b.set_attribute((AId::ClipPath, a.clone()));
    let root = doc.root();
    assert_eq!(doc.drain(root, |n| n.has_tag_name(EId::G)), 2);
'''))
# ---- C08
bug('w9-long-path', 'C08', 'a path with more than 64 segments is saved and loaded',
    'the rest of the path is gone',
    [('src/parser/mod.rs', 'Ok(token) => data.push(token),', '''Ok(token) => {
                        data.push(token);
                        if data.len() == 64 { break; }
                    }''')],
    ldemo('''
    let d: String = (0..100).map(|i| format!("{} {} {} ", if i == 0 { "M" } else { "L" }, i, i)).collect();
    let doc = load(&format!("<path id='p' d='{}'/>", d));
    if let Some(AttributeValue::Path(p)) = val(&by_id(&doc, "p"), AId::D) { assert_eq!(p.len(), 100); } else { panic!() }
'''))
bug('w10-near-identity', 'C08', 'a transform that differs from the identity only by a small translation is saved and loaded',
    'the transform is gone',
    [('src/parser/mod.rs', 'if !ts.is_default() {', 'if ts.a != 1.0 || ts.b != 0.0 || ts.c != 0.0 || ts.d != 1.0 || ts.e.abs() >= 0.5 || ts.f.abs() >= 0.5 {')],
    ldemo('''
    let doc = load("<path id='p' transform='translate(0.25 0)'/>");
    assert!(by_id(&doc, "p").has_attribute(AId::Transform));
'''))
bug('w11-id-plane', 'C08', 'an id with a character outside the basic plane is saved and loaded',
    'the character is gone',
    [('src/parser/mod.rs', 'node.set_id(value);', 'node.set_id(value.chars().filter(|c| (*c as u32) < 0x10000).collect::<String>());')],
    ldemo('''
    let doc = load("<path id='p\\u{1f600}q'/>");
    assert_eq!(*by_id(&doc, "p\\u{1f600}q").id(), "p\\u{1f600}q");
'''))
# ---- C09
bug('f6-pi', 'C09', 'the stored text contains a processing instruction',
    'loading panics',
    [('src/parser/mod.rs', '''            parent.append(n);
        }
        _ => {}
    }

    // Check''', '''            parent.append(n);
        }
        roxmltree::NodeType::Root => {}
        t => unreachable!("{:?}", t),
    }

    // Check''')],
    ldemo('''
    assert!(quiet(|| { load("<?pi ?>"); }).is_some());
'''))
bug('f7-root-rule', 'C09', 'a style sheet has a rule with a parent for the outermost element',
    'loading panics',
    [('src/parser/mod.rs', 'self.0.parent_element().map(XmlNode)', 'Some(XmlNode(self.0.parent_element().unwrap()))')],
    ldemo('''
    assert!(quiet(|| { load("<style>g > svg { fill: red }</style>"); }).is_some());
'''))
bug('f8-pseudo', 'C09', 'a style sheet has a rule with a pseudo-class other than first-child',
    'loading panics',
    [('src/parser/mod.rs', '''_ => false, // Since''', '''ref p => unimplemented!("{}", p), // Since''')],
    ldemo('''
    assert!(quiet(|| { load("<style>g:hover { fill: red }</style><g/>"); }).is_some());
'''))
# ---- C17
bug('e1-last-wins', 'C17', 'an element that is referred to is in the file twice',
    'the reference leads to the second one',
    [('src/parser/mod.rs', 'match doc.root().descendants().find(|n| *n.id() == d.iri) {', 'match doc.root().descendants().filter(|n| *n.id() == d.iri).last() {')],
    ldemo('''
    let d = load("<rect id='a' x='1'/><circle id='a'/><use id='u' xlink:href='#a'/>");
    assert!(link(&by_id(&d, "u"), AId::Href).unwrap().has_tag_name(EId::Rect));
'''))
bug('e2-stroke-none', 'C17', 'the element a stroke without fallback refers to is gone',
    'the stroke becomes none instead of staying as text',
    [('src/parser/mod.rs', 'if d.attr_id == AttributeId::Fill {\n                            warn!', 'if d.attr_id == AttributeId::Fill || (d.attr_id == AttributeId::Stroke && d.iri.len() > 1) {\n                            warn!')],
    ldemo('''
    let d = load("<rect id='r' stroke='url(#gone)'/>");
    assert_eq!(val(&by_id(&d, "r"), AId::Stroke), Some(AttributeValue::String("url(#gone)".into())));
'''))
bug('e3-fallback-lost', 'C17', 'the element a fill with a fallback color refers to is gone',
    'the color loses to none when the element has a stroke of its own',
    [('src/parser/mod.rs', 'Some(PaintFallback::Color(c)) => AttributeValue::Color(c),', '''Some(PaintFallback::Color(_)) if d.node.has_attribute(AttributeId::Stroke) => AttributeValue::None,
                    Some(PaintFallback::Color(c)) => AttributeValue::Color(c),''')],
    ldemo('''
    let d = load("<rect id='r' stroke='none' fill='url(#gone) red'/>");
    assert_eq!(val(&by_id(&d, "r"), AId::Fill), Some(AttributeValue::Color(Color::new(255, 0, 0))));
'''))
bug('e4-by-attribute', 'C17', 'two elements of a file refer to each other through different attributes',
    'the link of the later element is kept and the one of the earlier left out',
    [('src/parser/mod.rs', 'for d in &mut links.list {', '''// Group links by attribute.
    links.list.sort_by_key(|l| l.attr_id as usize);

    for d in &mut links.list {''')],
    ldemo('''
    for (p, q) in [("xlink:href='#b'", "mask='url(#a)'"), ("mask='url(#b)'", "xlink:href='#a'"), ("filter='url(#b)'", "xlink:href='#a'")].iter() {
        let d = load(&format!("<pattern id='a' {}/><pattern id='b' {}/>", p, q));
        assert_eq!(by_id(&d, "a").attributes().len(), 1);
        assert_eq!(by_id(&d, "b").attributes().len(), 0);
    }
'''))
bug('e5-nested-target', 'C17', 'a reference got the id of an element that contains the referring one',
    'the reference is given up although it is not one to itself',
    [('src/parser/mod.rs', '            Some(node) => {\n                let res = if', '''            Some(ref node) if d.attr_id == AttributeId::Mask && d.node.ancestors().any(|n| n == *node) => {
                warn!("An element cannot use its own container: {}.", d.iri);
            }
            Some(node) => {
                let res = if''')],
    ldemo('''
    let d = load("<g id='a'><rect id='r' mask='url(#a)'/></g>");
    assert!(link(&by_id(&d, "r"), AId::Mask).is_some());
'''))
bug('e6-crosslink-text', 'C17', 'two elements refer to each other',
    'the reference that is to be left out stays as text',
    [('src/parser/mod.rs', '''                        warn!("Crosslink detected. Attribute {} ignored.", attr);''', '''                        warn!("Crosslink detected. Attribute {} ignored.", attr);
                        if d.attr_id == AttributeId::Mask {
                            d.node.set_attribute((d.attr_id, format!("#{}", d.iri)));
                        }''')],
    ldemo('''
    let d = load("<mask id='a' mask='url(#b)'/><mask id='b' mask='url(#a)'/>");
    assert_eq!(val(&by_id(&d, "b"), AId::Mask), None);
'''))
bug('e7-duplicate-skip', 'C17', 'an element is stored twice with children in between',
    'the second copy of an element that is referred to disappears',
    [('src/parser/mod.rs', '''    resolve_links(&doc, &mut links);
''', '''    resolve_links(&doc, &mut links);

    // A repeated definition can never be referred to.
    let used: Vec<Node> = root.descendants().filter(|n| n.is_used()).collect();
    doc.drain(root.clone(), |n| n.has_id() && !n.has_children()
        && used.iter().any(|u| u != n && *u.id() == *n.id()));
''')],
    ldemo('''
    let d = load("<rect id='a'/><rect id='a'/><use xlink:href='#a'/>");
    assert_eq!(d.root().descendants().filter(|n| *n.id() == "a").count(), 2);
'''))
bug('e8-none-fallback', 'C17', 'the element a stroke with the fallback none refers to is gone',
    'the stroke stays as text',
    [('src/parser/mod.rs', 'Some(PaintFallback::None) => AttributeValue::None,', '''Some(PaintFallback::None) if d.attr_id == AttributeId::Stroke => {
                        AttributeValue::String(format!("url(#{}) none", d.iri))
                    }
                    Some(PaintFallback::None) => AttributeValue::None,''')],
    ldemo('''
    let d = load("<rect id='r' stroke='url(#gone) none'/>");
    assert_eq!(val(&by_id(&d, "r"), AId::Stroke), Some(AttributeValue::None));
'''))
# ---- C18
bug('q1-sheet-after-style', 'C18', 'an element has both a style attribute and a matching rule for the same property',
    'the rule wins over the style attribute',
    [('src/parser/mod.rs', '''            for rule in &style_sheet.rules {
                if rule.selector''', '''            let own = xml_node.attribute("style").unwrap_or("");
            for rule in style_sheet.rules.iter().filter(|_| own.is_empty()) {
                if rule.selector'''),
     ('src/parser/mod.rs', '''                                      &mut e, links)?;
            }

            parent.append(e.clone());''', '''                                      &mut e, links)?;
            }

            for rule in style_sheet.rules.iter().filter(|_| !own.is_empty()) {
                if rule.selector.matches(&XmlNode(xml_node)) {
                    for declaration in rule.declarations.iter().filter(|d| !own.contains(d.name) || own.matches(';').count() > 2) {
                        parse_css_attribute_value(
                            ro_doc, declaration.name, declaration.value, 0, &mut e, links,
                        )?;
                    }
                }
            }

            parent.append(e.clone());''')],
    ldemo('''
    let d = load("<style>rect { fill: red }</style><rect id='r' style='stroke:none;fill:blue;opacity:0.5;stroke-width:2'/>");
    assert_eq!(val(&by_id(&d, "r"), AId::Fill), Some(AttributeValue::Color(Color::new(0, 0, 255))));
'''))
bug('q2-foreign-attr', 'C18', 'an attribute of another namespace has the local name of an SVG attribute',
    'it is taken for the SVG attribute',
    [('src/parser/mod.rs', '''                    Some("http://www.w3.org/XML/1998/namespace") => {}
                    _ => continue,''', '''                    Some("http://www.w3.org/XML/1998/namespace") => {}
                    Some(ns) if ns.starts_with("http://www.w3.org/") => continue,
                    _ if xml_node.has_attribute(attr.name()) => continue,
                    _ if AttributeId::from_str(attr.name()).map(|a| a.is_presentation()) != Some(true) => continue,
                    _ => {}''')],
    ldemo('''
    let d = load("<rect id='r' xmlns:o='urn:o' o:fill='red'/>");
    assert_eq!(val(&by_id(&d, "r"), AId::Fill), None);
'''))
bug('q3-foreign-comment', 'C18', 'a comment or text inside an element of another namespace that stands between SVG elements',
    'the children of the foreign element are loaded into its parent',
    [('src/parser/mod.rs', '''            if xml_node.tag_name().namespace() != Some("http://www.w3.org/2000/svg") {
                return Ok(());
            }''', '''            if xml_node.tag_name().namespace() != Some("http://www.w3.org/2000/svg") {
                for child in xml_node.children().filter(|n| n.is_comment()) {
                    process_node(ro_doc, child, style_sheet, links, doc, parent)?;
                }
                return Ok(());
            }''')],
    ldemo('''
    let d = load("<o:meta xmlns:o='urn:o'><!-- c --></o:meta>");
    assert!(!d.svg_element().unwrap().has_children());
'''))
bug('q4-sheet-order', 'C18', 'two style elements, only the first with a type, have rules of the same weight for one element',
    'the earlier sheet wins over the later',
    [('src/parser/mod.rs', '''    for node in ro_doc.descendants().filter(|n| n.has_tag_name("style")) {''', '''    let mut styles: Vec<_> = ro_doc.descendants().filter(|n| n.has_tag_name("style")).collect();
    styles.sort_by_key(|n| n.attribute("type"));
    for node in styles {''')],
    ldemo('''
    let d = load("<style type='text/css'>rect { fill: red }</style><style>rect { fill: blue }</style><rect id='r'/>");
    assert_eq!(val(&by_id(&d, "r"), AId::Fill), Some(AttributeValue::Color(Color::new(0, 0, 255))));
'''))
bug('q5-tab', 'C18', 'text is laid out with tabs by another program',
    'tabs stay in the text',
    [('src/parser/text.rs', '''            '\\r' | '\\n' | '\\t' => ' ',''', '''            '\\r' | '\\n' => ' ',
            '\\t' if prev == '0' || prev == ' ' => ' ','''),],
    ldemo('''
    let d = load("<text id='t'>a\\tb</text>");
    assert_eq!(*by_id(&d, "t").first_child().unwrap().text(), "a b");
'''))
bug('q6-weak-link', 'C18', 'a style sheet value wins over a link in the presentation attribute on an element that is followed by one with links',
    'the link in the presentation attribute comes back',
    [('src/parser/mod.rs', '''    resolve_links(&doc, &mut links);
''', '''    for child in root.descendants().filter(|n| n.is_svg_element() && n.has_attribute(AttributeId::Filter)) {
        // A filter given as a link is always the one to use.
        let id = child.id().clone();
        let xml = ro_doc.descendants().find(|n| !id.is_empty() && n.attribute("id") == Some(id.as_str()));
        if let Some(s) = xml.and_then(|n| n.attribute("filter")) {
            if let Ok(link) = Stream::from(s).parse_func_iri() {
                links.append(AttributeId::Filter, link, None, &child);
            }
        }
    }

    resolve_links(&doc, &mut links);
''')],
    ldemo('''
    let d = load("<filter id='f'/><rect id='r' filter='url(#f)' style='filter:none'/>");
    assert_eq!(val(&by_id(&d, "r"), AId::Filter), Some(AttributeValue::None));
'''))
bug('q7-marker', 'C18', 'the marker shorthand of a style sheet follows a longhand in the same rule',
    'a value that the shorthand overrides stays',
    [('src/parser/mod.rs', '''            parse_attr(AttributeId::MarkerMid)?;''', '''            if value != "none" {
                parse_attr(AttributeId::MarkerMid)?;
            }''')],
    ldemo('''
    let d = load("<style>path { marker: none }</style><marker id='m'/><path id='r' marker-mid='url(#m)'/>");
    assert_eq!(val(&by_id(&d, "r"), AId::MarkerMid), Some(AttributeValue::None));
'''))
bug('q8-css-type', 'C18', 'a style element of another type than CSS',
    'its rules are applied',
    [('src/parser/mod.rs', '''            Some(_) => continue,
            None => {}''', '''            Some(t) if !t.starts_with("text/") => continue,
            _ => {}''')],
    ldemo('''
    let d = load("<style type='text/other'>rect { fill: red }</style><rect id='r'/>");
    assert_eq!(val(&by_id(&d, "r"), AId::Fill), None);
'''))
bug('q9-prefix', 'C18', 'the namespace of links is bound to another prefix than xlink',
    'links are not loaded',
    [('src/parser/mod.rs', '''                if let Some(aid) = AttributeId::from_str(attr.name()) {''', '''                if attr.namespace() == Some("http://www.w3.org/1999/xlink")
                    && xml_node.lookup_namespace_uri(Some("xlink")).is_none()
                {
                    continue;
                }

                if let Some(aid) = AttributeId::from_str(attr.name()) {''')],
    ldemo('''
    let d = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg' xmlns:l='http://www.w3.org/1999/xlink'><rect id='a'/><use id='u' l:href='#a'/></svg>").unwrap();
    assert!(link(&by_id(&d, "u"), AId::Href).is_some());
'''))
