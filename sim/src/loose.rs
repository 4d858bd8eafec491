//! A small forest of its own: nodes that have no place in the tree may still stand in rows next to each other.
//! Every edit is made on the library and on plain lists, which must agree after each of them, and a document may be
//! closed while such rows exist.
use crate::rng::Rng;
use crate::seam::call;
use crate::stats::{hit, K};
use crate::world::*;
use svgdom::*;
use svgdom::{AttributeId as AId, ElementId as EId};

struct Forest {
    doc: Option<Document>,
    h: Vec<Node>,
    /// None: removed.
    parent: Vec<Option<Option<usize>>>,
    kids: Vec<Vec<usize>>,
    rows: Vec<Vec<usize>>,
    link: Vec<Option<usize>>,
    ids: Vec<String>,
}

macro_rules! ensure {
    ($c:expr, $tags:expr, $class:expr, $($arg:tt)*) => {
        if !$c { return viol($tags, $class, format!($($arg)*)); }
    }
}

impl Forest {
    fn list(&self, x: usize) -> &Vec<usize> {
        match self.parent[x] {
            Some(Some(q)) => &self.kids[q],
            _ => self.rows.iter().find(|r| r.contains(&x)).unwrap(),
        }
    }
    fn list_mut(&mut self, x: usize) -> &mut Vec<usize> {
        match self.parent[x] {
            Some(Some(q)) => &mut self.kids[q],
            _ => self.rows.iter_mut().find(|r| r.contains(&x)).unwrap(),
        }
    }
    fn take(&mut self, x: usize) {
        self.list_mut(x).retain(|&y| y != x);
        self.rows.retain(|r| !r.is_empty());
        self.parent[x] = Some(None);
    }
    fn subtree(&self, x: usize) -> Vec<usize> {
        let mut out = vec![x];
        for &c in &self.kids[x] { out.extend(self.subtree(c)) }
        out
    }
    fn live(&self) -> Vec<usize> { (0..self.h.len()).filter(|&x| self.parent[x].is_some()).collect() }
    fn forget(&mut self, x: usize) {
        self.take(x);
        let all = self.subtree(x);
        for &y in &all {
            self.parent[y] = None;
            self.kids[y].clear();
            self.link[y] = None;
        }
        for l in self.link.iter_mut() { if l.map_or(false, |t| all.contains(&t)) { *l = None } }
    }

    fn check(&self, t: u32) -> R {
        let of = |o: Option<Node>| -> Option<usize> { o.map(|n| self.h.iter().position(|k| *k == n).unwrap_or(9999)) };
        let all = |v: Vec<Node>| -> Vec<usize> { v.into_iter().map(|n| of(Some(n)).unwrap()).collect() };
        for x in 0..self.h.len() {
            let h = &self.h[x];
            if self.parent[x].is_none() {
                ensure!(h.is_detached() && [h.parent(), h.previous_sibling(), h.next_sibling()].iter().flatten().all(|n| n.is_detached()),
                    t | C05, "loose-removed", "a removed node of a row still stands next to others");
                continue;
            }
            let list = self.list(x);
            let i = list.iter().position(|&y| y == x).unwrap();
            let parent = self.parent[x].unwrap();
            ensure!(!h.is_detached(), t | C05, "loose-removed", "a node of a row counts as removed");
            ensure!(of(h.parent()) == parent && h.has_parent() == parent.is_some(), t, "loose-parent", "wrong parent in a forest of loose nodes");
            ensure!(of(h.previous_sibling()) == i.checked_sub(1).map(|i| list[i]), t, "loose-previous", "wrong previous sibling in a row of loose nodes");
            ensure!(of(h.next_sibling()) == list.get(i + 1).cloned(), t, "loose-next", "wrong next sibling in a row of loose nodes");
            ensure!(of(h.first_child()) == self.kids[x].first().cloned() && of(h.last_child()) == self.kids[x].last().cloned(), t,
                "loose-children", "wrong first or last child in a forest of loose nodes");
            let mut up = vec![x];
            while let Some(Some(q)) = self.parent[*up.last().unwrap()] { up.push(q) }
            ensure!(of(Some(h.root())) == up.last().cloned(), t, "loose-root", "wrong root in a forest of loose nodes");
            let c = t | C02;
            let many = self.h.len() + 1;
            ensure!(all(h.ancestors().take(many).collect()) == up, c, "loose-cursor", "ancestors of a loose node");
            ensure!(all(h.children().take(many).collect()) == self.kids[x], c, "loose-cursor", "children of a loose node");
            ensure!(all(h.children().rev().take(many).collect()) == self.kids[x].iter().rev().cloned().collect::<Vec<_>>(), c, "loose-cursor", "children of a loose node from the back");
            ensure!(all(h.descendants().take(many).collect()) == self.subtree(x), c, "loose-cursor", "descendants of a loose node");
            ensure!(all(h.following_siblings().take(many).collect()) == list[i..].to_vec(), c, "loose-cursor", "siblings after a loose node");
            ensure!(all(h.preceding_siblings().take(many).collect()) == list[..=i].iter().rev().cloned().collect::<Vec<_>>(), c, "loose-cursor", "siblings before a loose node");
            let ends: Vec<Node> = h.traverse().rev().take(2 * many).filter_map(|e| match e { NodeEdge::End(n) => Some(n), _ => None }).collect();
            ensure!(ends.len() == self.subtree(x).len() && ends[0] == *h, c, "loose-cursor", "traversal of a loose node from the back");
            let users = self.link.iter().filter(|l| **l == Some(x)).count();
            ensure!(h.uses_count() == users && h.is_used() == (users > 0), t | C03, "loose-users", "{} users of a loose node, not {}", h.uses_count(), users);
            let link = match h.attributes().get_value(AId::Href) { Some(&AttributeValue::Link(ref n)) => of(Some(n.clone())), _ => None };
            ensure!(link == self.link[x], t | C03, "loose-link", "wrong link of a loose node");
            ensure!(*h.id() == self.ids[x], t | C04, "loose-id", "the id of a loose node changed");
        }
        Ok(())
    }

    fn edit(&mut self, r: &mut Rng) -> R<u32> {
        let live = self.live();
        let x = *r.pick(&live);
        let y = *r.pick(&live);
        let (mut hx, mut hy) = (self.h[x].clone(), self.h[y].clone());
        let run = |f: &mut dyn FnMut()| -> R {
            match call(|| f()) { Ok(()) => Ok(()), Err(e) => viol(C01, "loose-panic", format!("an edit among loose nodes panicked: {}", e)) }
        };
        // y goes to x
        let legal = !self.subtree(y).contains(&x);
        match r.below(14) {
            k @ 0..=5 if legal => {
                let after = k % 2 == 0;
                let mut v = Some(hy);
                run(&mut || { let n = v.take().unwrap(); if after { hx.insert_after(n) } else { hx.insert_before(n) } })?;
                self.take(y);
                let p = self.parent[x];
                let l = self.list_mut(x);
                let i = l.iter().position(|&z| z == x).unwrap();
                l.insert(if after { i + 1 } else { i }, y);
                self.parent[y] = p;
                Ok(C01)
            }
            k @ 6..=8 if legal => {
                let front = k == 6;
                let mut v = Some(hy);
                run(&mut || { let n = v.take().unwrap(); if front { hx.prepend(n) } else { hx.append(n) } })?;
                self.take(y);
                let at = if front { 0 } else { self.kids[x].len() };
                self.kids[x].insert(at, y);
                self.parent[y] = Some(Some(x));
                Ok(C01)
            }
            9 => {
                run(&mut || hx.detach())?;
                self.take(x);
                self.rows.push(vec![x]);
                Ok(C01)
            }
            10 if live.len() > self.subtree(x).len() + 1 => {
                let doc = self.doc.as_mut().unwrap();
                let mut v = Some(hx);
                run(&mut || doc.remove_node(v.take().unwrap()))?;
                self.forget(x);
                Ok(C01 | C05)
            }
            11 => {
                // Everything below x (and nothing next to it) with an odd number goes.
                let mut tops = Vec::new();
                let mut todo = self.kids[x].clone();
                while let Some(z) = todo.pop() { if z % 2 == 1 { tops.push(z) } else { todo.extend(&self.kids[z]) } }
                let hs: Vec<(usize, Node)> = self.h.iter().cloned().enumerate().collect();
                let doc = self.doc.as_mut().unwrap();
                let mut n = 0;
                run(&mut || n = doc.drain(hx.clone(), |n| hs.iter().any(|k| k.1 == *n && k.0 % 2 == 1)))?;
                for &z in &tops { self.forget(z) }
                ensure!(n == tops.len(), C05, "loose-drain", "drain below a loose node reports {} nodes instead of {}", n, tops.len());
                Ok(C01 | C05)
            }
            12 => {
                // No circles here.
                let (a, b) = (x.min(y), x.max(y));
                if a == b || self.link[a].is_some() || self.ids[b].is_empty() { return Ok(0); }
                let mut z = Some(b);
                while let Some(k) = z { if k == a { return Ok(0); } z = self.link[k] }
                let (mut ha, hb) = (self.h[a].clone(), self.h[b].clone());
                run(&mut || { let _ = ha.set_attribute_checked((AId::Href, hb.clone())); })?;
                self.link[a] = Some(b);
                Ok(C03)
            }
            13 if self.h.len() < 12 => {
                let doc = self.doc.as_mut().unwrap();
                let mut c = None;
                run(&mut || c = Some(doc.copy_node(hy.clone())))?;
                hy = c.unwrap();
                self.h.push(hy);
                let n = self.h.len() - 1;
                self.parent.push(Some(None));
                self.kids.push(Vec::new());
                self.rows.push(vec![n]);
                self.link.push(self.link[y]);
                self.ids.push(String::new());
                Ok(C01 | C06)
            }
            _ => Ok(0),
        }
    }
}

/// `nodes` and `edits` are kept apart from the seed so that a failing history can be made smaller.
pub fn run(seed: u64, nodes: u32, edits: u32) -> R {
    let mut f = Forest { doc: None, h: Vec::new(), parent: Vec::new(), kids: Vec::new(), rows: Vec::new(), link: Vec::new(), ids: Vec::new() };
    let r = history(&mut f, seed, nodes, edits);
    // After a violation closing may go wrong too.
    let _ = call(move || drop(f));
    r
}

fn history(f: &mut Forest, seed: u64, nodes: u32, edits: u32) -> R {
    let mut r = Rng::new(seed);
    let n = 2 + nodes as usize % 7;
    let made = call(|| {
        let mut doc = Document::new();
        let mut h = Vec::new();
        for i in 0..n {
            let mut e = doc.create_element([EId::G, EId::Use, EId::Rect][i % 3]);
            e.set_id(format!("k{}", i));
            h.push(e);
        }
        (doc, h)
    });
    match made { Ok((d, h)) => { f.doc = Some(d); f.h = h }, Err(e) => return viol(C01, "loose-panic", e) }
    for i in 0..n {
        f.parent.push(Some(None));
        f.kids.push(Vec::new());
        f.rows.push(vec![i]);
        f.link.push(None);
        f.ids.push(format!("k{}", i));
    }
    for _ in 0..1 + edits % 24 {
        let t = f.edit(&mut r)?;
        let k = call(|| f.check(t));
        match k { Ok(k) => k?, Err(e) => return viol(t, "loose-panic", format!("reading loose nodes panicked: {}", e)) }
        hit(K::loose_edits);
    }
    if f.rows.iter().any(|r| r.len() > 1) { hit(K::fault_close_with_rows) }
    // Cursors opened while the document is open have to end afterwards.
    let x = f.live()[0];
    let (mut back, mut on) = (f.h[x].preceding_siblings(), f.h[x].following_siblings());
    let doc = f.doc.take();
    if let Err(e) = call(move || drop(doc)) { return viol(C11, "loose-close-panic", format!("closing a document with loose rows panicked: {}", e)); }
    for x in 0..f.h.len() {
        let h = &f.h[x];
        let k = call(|| {
            h.parent().is_none() && h.previous_sibling().is_none() && h.next_sibling().is_none() && !h.has_children()
                && h.first_child().is_none() && h.last_child().is_none() && h.root() == *h && h.uses_count() == 0
                && !h.has_attribute(AId::Href) && *h.id() == *f.ids[x] && h.is_element()
        });
        ensure!(k == Ok(true), C11, "loose-closed", "a node of a closed document is not alone after standing in a row");
    }
    let m = f.h.len() + 2;
    let k = call(|| back.by_ref().take(m).count() < m && on.by_ref().take(m).count() < m);
    ensure!(k == Ok(true), C11 | C02, "loose-closed-cursor", "a cursor over a row does not end after closing");
    Ok(())
}
