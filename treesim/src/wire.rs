//! What a subscriber does with an edit script: a document replica that executes one operation at a
//! time, by node identity, and refuses any operation that cannot be executed at that moment.
use crate::doc::*;
use crate::live::*;
use cinereus::indextree::NodeId;
use cinereus::{EditOp, PropValue};
use std::collections::BTreeMap;

/// A node as both sides can name it: by its uid in the old or in the new revision.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Name {
    Old(u32),
    New(u32),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum WOp {
    Text { n: u32, text: u16 },
    Attrs { n: u32, list: Vec<(u8, Option<u8>)> },
    Insert { v: u32, parent: Name, pos: usize, tag: u8, attrs: Vec<(u8, u8)>, text: u16, blob: Option<u64> },
    Move { n: u32, parent: Name, pos: usize },
    Delete { n: u32 },
    /// replaces the opaque content of a node as a whole (the caller's duty, not part of the script)
    Blob { n: u32, blob: Option<u64> },
}
#[derive(Clone, Debug, PartialEq)]
pub struct Script {
    pub from: usize,
    pub to: usize,
    pub ops: Vec<WOp>,
    /// old uid -> new uid for the nodes that persist
    pub rename: BTreeMap<u32, u32>,
}

/// Names an edit script's operations; fails when an operation names a node of neither tree.
pub fn name_ops(da: &Doc, db: &Doc, a: &Live, b: &Live, map: &BTreeMap<u32, u32>, ops: &[EditOp<Ty>]) -> Result<Vec<WOp>, String> {
    let rmap: BTreeMap<u32, u32> = map.iter().map(|(x, y)| (*y, *x)).collect();
    let ua = |id: &NodeId| a.uid_of.get(id).copied().ok_or_else(|| format!("operation names node {id} which is not in the old document"));
    let ub = |id: &NodeId| b.uid_of.get(id).copied().ok_or_else(|| format!("operation names node {id} which is not in the new document"));
    let nm = |v: u32| rmap.get(&v).map(|u| Name::Old(*u)).unwrap_or(Name::New(v));
    let mut out = vec![];
    // Opaque content that goes away is dropped before the script, opaque content that appears or
    // changes replaces whatever is there after it.
    let mut after = vec![];
    for (u, v) in map {
        let (x, y) = (blob(da, *u), blob(db, *v));
        if x != y && !da.inside_opaque(*u) && !db.inside_opaque(*v) {
            if y.is_none() { &mut out } else { &mut after }.push(WOp::Blob { n: *u, blob: y });
        }
    }
    for o in ops {
        out.push(match o {
            EditOp::SetText { node_a, node_b, text } => {
                let (u, v) = (ua(node_a)?, ub(node_b)?);
                if map.get(&u) != Some(&v) {
                    return Err(format!("text operation pairs old #{u} with new #{v}, which do not correspond"));
                }
                WOp::Text { n: u, text: text.0 }
            }
            EditOp::UpdateProperties { node_a, node_b, changes } => {
                let (u, v) = (ua(node_a)?, ub(node_b)?);
                if map.get(&u) != Some(&v) {
                    return Err(format!("attribute operation pairs old #{u} with new #{v}, which do not correspond"));
                }
                WOp::Attrs {
                    n: u,
                    list: changes
                        .iter()
                        .map(|c| (c.key.0, match c.value { PropValue::Same => None, PropValue::Different(v) => Some(v.0) }))
                        .collect(),
                }
            }
            EditOp::Insert { node_b, parent_b, position, kind } => {
                let v = ub(node_b)?;
                let n = &db.nodes[&v];
                WOp::Insert { v, parent: nm(ub(parent_b)?), pos: *position, tag: *kind, attrs: n.attrs.clone(), text: n.text, blob: blob(db, v) }
            }
            EditOp::Move { node_a, node_b, new_parent_b, new_position } => {
                let (u, v) = (ua(node_a)?, ub(node_b)?);
                if map.get(&u) != Some(&v) {
                    return Err(format!("move pairs old #{u} with new #{v}, which do not correspond"));
                }
                WOp::Move { n: u, parent: nm(ub(new_parent_b)?), pos: *new_position }
            }
            EditOp::Delete { node_a } => WOp::Delete { n: ua(node_a)? },
        });
    }
    out.extend(after);
    Ok(out)
}
/// Content of an opaque node, seen as one value.
pub fn blob(d: &Doc, u: u32) -> Option<u64> {
    let n = &d.nodes[&u];
    if !n.opaque {
        return None;
    }
    Some(n.kids.iter().fold(7, |h, k| simcore::mix(h, d.digest_of(*k))))
}

#[derive(Clone, Debug, PartialEq)]
pub struct RNode {
    pub parent: Option<usize>,
    pub pos: usize,
    pub slots: BTreeMap<usize, usize>,
    pub tag: u8,
    pub attrs: Vec<(u8, u8)>,
    pub text: u16,
    pub blob: Option<u64>,
    pub dead: bool,
}
/// A subscriber's document. Between scripts nodes are named by the uids of revision `rev`.
#[derive(Clone, Debug, PartialEq)]
pub struct Replica {
    pub rev: usize,
    pub nodes: Vec<RNode>,
    pub old: BTreeMap<u32, usize>,
    pub new: BTreeMap<u32, usize>,
    pub applied: usize,
}
impl Replica {
    pub fn of(d: &Doc, rev: usize) -> Replica {
        let mut r = Replica { rev, nodes: vec![], old: BTreeMap::new(), new: BTreeMap::new(), applied: 0 };
        for u in d.preorder() {
            if d.inside_opaque(u) {
                continue;
            }
            let n = &d.nodes[&u];
            let i = r.nodes.len();
            r.old.insert(u, i);
            let parent = n.parent.map(|p| r.old[&p]);
            let pos = d.pos(u);
            r.nodes.push(RNode { parent, pos, slots: BTreeMap::new(), tag: n.tag, attrs: n.attrs.clone(), text: n.text, blob: blob(d, u), dead: false });
            if let Some(p) = parent {
                r.nodes[p].slots.insert(pos, i);
            }
        }
        r
    }
    fn at(&self, n: Name) -> Result<usize, String> {
        let i = match n {
            Name::Old(u) => self.old.get(&u).copied().ok_or_else(|| format!("old #{u} is not in the document"))?,
            Name::New(v) => self.new.get(&v).copied().ok_or_else(|| format!("new #{v} has not been inserted yet"))?,
        };
        if self.nodes[i].dead {
            return Err(format!("{n:?} was deleted before"));
        }
        Ok(i)
    }
    fn detach(&mut self, i: usize) {
        if let Some(p) = self.nodes[i].parent.take() {
            let ps = self.nodes[i].pos;
            if self.nodes[p].slots.get(&ps) == Some(&i) {
                self.nodes[p].slots.remove(&ps);
            }
        }
    }
    fn put(&mut self, i: usize, p: usize, pos: usize) {
        // an occupied slot: its occupant is displaced and waits for its own move or deletion
        if let Some(o) = self.nodes[p].slots.remove(&pos) {
            self.nodes[o].parent = None;
        }
        self.nodes[p].slots.insert(pos, i);
        self.nodes[i].parent = Some(p);
        self.nodes[i].pos = pos;
    }
    /// Executes one operation, or says why it cannot be executed now.
    pub fn apply(&mut self, op: &WOp) -> Result<(), String> {
        match op {
            WOp::Text { n, text } => {
                let i = self.at(Name::Old(*n))?;
                if !has_text(self.nodes[i].tag) {
                    return Err(format!("text set on element old #{n}"));
                }
                self.nodes[i].text = *text;
            }
            WOp::Blob { n, blob } => {
                let i = self.at(Name::Old(*n))?;
                self.nodes[i].blob = *blob;
                if blob.is_some() {
                    let mut st: Vec<usize> = std::mem::take(&mut self.nodes[i].slots).into_values().collect();
                    while let Some(k) = st.pop() {
                        self.nodes[k].dead = true;
                        self.nodes[k].parent = None;
                        st.extend(std::mem::take(&mut self.nodes[k].slots).into_values());
                    }
                }
            }
            WOp::Attrs { n, list } => {
                let i = self.at(Name::Old(*n))?;
                let old = self.nodes[i].attrs.clone();
                let mut new = vec![];
                for (k, v) in list {
                    match v {
                        Some(v) => new.push((*k, *v)),
                        None => match old.iter().find(|x| x.0 == *k) {
                            Some(x) => new.push(*x),
                            None => return Err(format!("attribute k{k} of old #{n} is to keep a value it does not have")),
                        },
                    }
                }
                self.nodes[i].attrs = new;
            }
            WOp::Insert { v, parent, pos, tag, attrs, text, blob } => {
                let p = self.at(*parent).map_err(|e| format!("insert of new #{v}: parent: {e}"))?;
                if self.nodes[p].tag < FIRST_EL {
                    return Err(format!("insert of new #{v} under a text node"));
                }
                if self.new.contains_key(v) {
                    return Err(format!("new #{v} is inserted twice"));
                }
                let i = self.nodes.len();
                self.nodes.push(RNode { parent: None, pos: 0, slots: BTreeMap::new(), tag: *tag, attrs: attrs.clone(), text: *text, blob: *blob, dead: false });
                self.new.insert(*v, i);
                self.put(i, p, *pos);
            }
            WOp::Move { n, parent, pos } => {
                let i = self.at(Name::Old(*n))?;
                let p = self.at(*parent).map_err(|e| format!("move of old #{n}: parent: {e}"))?;
                if p == i {
                    return Err(format!("old #{n} is moved under itself"));
                }
                if self.nodes[p].tag < FIRST_EL {
                    return Err(format!("old #{n} is moved under a text node"));
                }
                let mut up = self.nodes[p].parent;
                while let Some(q) = up {
                    if q == i {
                        return Err(format!("old #{n} is moved under its own descendant"));
                    }
                    up = self.nodes[q].parent
                }
                self.detach(i);
                self.put(i, p, *pos);
            }
            WOp::Delete { n } => {
                let i = self.at(Name::Old(*n))?;
                if !self.nodes[i].slots.is_empty() {
                    return Err(format!("old #{n} is deleted while it still has {} children", self.nodes[i].slots.len()));
                }
                self.detach(i);
                self.nodes[i].dead = true;
            }
        }
        self.applied += 1;
        Ok(())
    }
    /// The script is over: nodes get the names of the new revision.
    pub fn commit(&mut self, to: usize, rename: &BTreeMap<u32, u32>) {
        let mut names = std::mem::take(&mut self.new);
        for (u, v) in rename {
            if let Some(i) = self.old.get(u) {
                if !self.nodes[*i].dead {
                    names.insert(*v, *i);
                }
            }
        }
        self.old = names;
        self.rev = to;
        self.applied = 0;
    }
    /// Is the replica exactly document `d`?
    pub fn compare(&self, d: &Doc) -> Result<(), String> {
        let mut count = 0;
        for v in d.preorder() {
            if d.inside_opaque(v) {
                continue;
            }
            count += 1;
            let n = &d.nodes[&v];
            let Some(&i) = self.old.get(&v) else { return Err(format!("node #{v} is missing")) };
            let x = &self.nodes[i];
            if x.dead {
                return Err(format!("node #{v} was deleted"));
            }
            if x.tag != n.tag {
                return Err(format!("node #{v} has kind {} instead of {}", x.tag, n.tag));
            }
            if x.attrs != n.attrs {
                return Err(format!("node #{v} has attributes {:?} instead of {:?}", x.attrs, n.attrs));
            }
            if x.text != n.text {
                return Err(format!("node #{v} has text {} instead of {}", x.text, n.text));
            }
            if x.blob != blob(d, v) {
                return Err(format!("node #{v} has the wrong opaque content"));
            }
            let want = n.parent.map(|p| self.old.get(&p).copied());
            if x.parent.map(Some) != want {
                return Err(format!("node #{v} is under the wrong parent"));
            }
            if x.parent.is_some() && x.pos != d.pos(v) {
                return Err(format!("node #{v} is at position {} instead of {}", x.pos, d.pos(v)));
            }
            let kids = if n.opaque { 0 } else { n.kids.len() };
            if x.slots.len() != kids {
                return Err(format!("node #{v} has {} children instead of {kids}", x.slots.len()));
            }
        }
        let root = self.old.get(&d.root).copied();
        let mut alive = 0;
        if let Some(r) = root {
            let mut st = vec![r];
            while let Some(i) = st.pop() {
                alive += 1;
                if alive > self.nodes.len() {
                    return Err("the document contains a cycle".into());
                }
                st.extend(self.nodes[i].slots.values());
            }
        }
        if alive != count {
            return Err(format!("{alive} nodes reachable instead of {count}"));
        }
        Ok(())
    }
    /// Drops dead and superseded nodes (what a snapshot stores).
    pub fn compact(&mut self) {
        let keep: BTreeMap<usize, usize> = self.old.values().copied().filter(|i| !self.nodes[*i].dead).collect::<std::collections::BTreeSet<_>>().into_iter().enumerate().map(|(n, o)| (o, n)).collect();
        let mut nodes = vec![];
        for o in keep.keys() {
            let mut x = self.nodes[*o].clone();
            x.parent = x.parent.and_then(|p| keep.get(&p).copied());
            x.slots = x.slots.iter().filter_map(|(k, v)| keep.get(v).map(|n| (*k, *n))).collect();
            nodes.push(x);
        }
        self.old = self.old.iter().filter_map(|(u, i)| keep.get(i).map(|n| (*u, *n))).collect();
        self.nodes = nodes;
    }
    pub fn digest(&self) -> u64 {
        let mut h = simcore::mix(self.rev as u64, self.applied as u64);
        for (u, i) in self.old.iter().chain(self.new.iter()) {
            let x = &self.nodes[*i];
            h = simcore::mix(h, *u as u64 ^ (x.dead as u64) << 40);
            h = simcore::mix(h, x.tag as u64 | (x.text as u64) << 8 | (x.pos as u64) << 32);
            h = simcore::mix(h, x.parent.map(|p| p as u64 + 1).unwrap_or(0));
            for (k, v) in &x.attrs {
                h = simcore::mix(h, (*k as u64) << 8 | *v as u64);
            }
        }
        h
    }
}
