//! What stays in the page stays the same node.
use simcore::ident::{Flat, owed};
use simcore::mix;
use std::collections::HashMap;
use std::rc::Rc;
use web_sys::dom::{Kind, Ref};

/// A page's content as its source has it, and the nodes in the page that stand for it.
pub struct Seen {
    flat: Flat,
    /// names of the attributes
    names: Vec<Vec<String>>,
    /// none inside opaque elements
    live: Vec<Option<Ref>>,
    show: Vec<String>,
}
/// Without the empty text nodes that patching leaves behind.
fn kids_of(n: &Ref) -> Vec<Ref> {
    let all = match n.el().and_then(|e| e.content.clone()) {
        Some(f) => f.children.borrow().clone(),
        None => n.children.borrow().clone(),
    };
    all.into_iter().filter(|k| !matches!(&k.kind, Kind::Text(t) if t.borrow().is_empty())).collect()
}
fn digest(s: &str) -> u64 {
    s.bytes().fold(7, |h, b| mix(h, b as u64))
}
impl Seen {
    /// None when the page is not, node for node, what its source says.
    pub fn of(source: &Ref, page: &Ref) -> Option<Seen> {
        let mut s = Seen { flat: Flat::default(), names: vec![], live: vec![], show: vec![] };
        s.add(source, Some(page), None).map(|_| s)
    }
    fn add(&mut self, n: &Ref, live: Option<&Ref>, parent: Option<usize>) -> Option<u64> {
        let mut names = vec![];
        let mut opaque = false;
        let (kind, text) = match &n.kind {
            Kind::Element(e) => {
                names = e.attrs.borrow().iter().map(|a| format!("{}|{}", a.2, a.0)).collect();
                opaque = n.get_attr("data-hotmeal-opaque").is_some();
                (if parent.is_some() { format!("{}|{}", e.ns, e.local) } else { "root".into() }, String::new())
            }
            Kind::Text(t) => ("#text".to_string(), t.borrow().clone()),
            Kind::Comment(t) => ("#comment".to_string(), t.borrow().clone()),
            _ => return None,
        };
        if let (Some(l), true) = (live, parent.is_some()) {
            let same = match (&n.kind, &l.kind) {
                (Kind::Element(a), Kind::Element(b)) => a.local == b.local && a.ns == b.ns,
                (Kind::Text(a), Kind::Text(b)) | (Kind::Comment(a), Kind::Comment(b)) => *a.borrow() == *b.borrow(),
                _ => false,
            };
            if !same {
                return None;
            }
        }
        let i = self.flat.open(parent, digest(&kind), opaque);
        self.names.push(names);
        self.live.push(live.cloned());
        self.show.push(if text.is_empty() { kind.rsplit('|').next().unwrap_or("").into() } else { format!("{text:?}") });
        let kids = kids_of(n);
        let lives = match live {
            Some(l) if !opaque => {
                let k = kids_of(l);
                if k.len() != kids.len() {
                    return None;
                }
                k.into_iter().map(Some).collect()
            }
            _ => vec![None; kids.len()],
        };
        let mut h = mix(digest(&kind), digest(&text));
        for (k, l) in kids.iter().zip(&lives) {
            h = mix(h, self.add(k, l.as_ref(), Some(i))?);
        }
        self.flat.close(i, h);
        Some(h)
    }
    fn path(&self, mut i: usize) -> String {
        let mut v = vec![];
        loop {
            let n = &self.flat.nodes[i];
            let Some(p) = n.parent else { break };
            v.push(format!("{}[{}]", self.show[i], n.pos));
            i = p
        }
        v.reverse();
        v.join("/")
    }
}
/// What the page owes between two revisions it showed: how many nodes, by rule, and the first it replaced.
pub fn compare(old: &Seen, new: &Seen) -> ([u64; 7], Option<String>) {
    let at: HashMap<*const _, usize> = new.live.iter().enumerate().filter_map(|(i, r)| r.as_ref().map(|r| (Rc::as_ptr(r), i))).collect();
    let kept: HashMap<usize, usize> = old.live.iter().enumerate().filter_map(|(i, r)| Some((i, *at.get(&Rc::as_ptr(r.as_ref()?))?))).collect();
    // by the names of the attributes, as the stack's own measure
    let sim = |u: usize, v: usize| {
        let (a, b) = (&old.names[u], &new.names[v]);
        if a.is_empty() && b.is_empty() {
            return 1.0;
        }
        (2 * a.iter().filter(|x| b.contains(x)).count()) as f64 / (a.len() + b.len()) as f64
    };
    let mut n = [0; 7];
    let mut lost = None;
    for o in owed(&old.flat, &new.flat, &sim, 0.5, 0, &kept) {
        n[o.rule] += 1;
        if old.live[o.a].is_some() && kept.get(&o.a) != Some(&o.b) && lost.is_none() {
            lost = Some(format!("{} and now {} is no longer the same node ({})", old.path(o.a), new.path(o.b), simcore::ident::RULES[o.rule]));
        }
    }
    (n, lost)
}
