//! Real cinereus trees built from documents, and the `DiffTree` seam through which the code under
//! test reads them: every callback can be counted, made to yield, or made to fail.
use crate::doc::{has_text, Doc};
use cinereus::indextree::NodeId;
use cinereus::{DiffTree, NodeData, NodeHash, PropValue, Properties, PropertyInFinalState, SimpleTypes, Tree};
use simcore::choices::*;
use simcore::Choices;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Attrs(pub Vec<(u8, u8)>);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Key(pub u8);
impl std::fmt::Display for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{}", self.0)
    }
}
impl Properties for Attrs {
    type Key = Key;
    type Value = Val;
    fn similarity(&self, o: &Self) -> f64 {
        if self.0.is_empty() && o.0.is_empty() {
            return 1.0;
        }
        let c = self.0.iter().filter(|a| o.0.iter().any(|b| a.0 == b.0)).count();
        (2 * c) as f64 / (self.0.len() + o.0.len()) as f64
    }
    fn diff(&self, o: &Self) -> Vec<PropertyInFinalState<Key, Val>> {
        let common = |x: &Attrs, y: &Attrs| x.0.iter().map(|a| a.0).filter(|k| y.0.iter().any(|b| b.0 == *k)).collect::<Vec<_>>();
        let reordered = common(self, o) != common(o, self);
        let mut forced = false;
        o.0.iter()
            .map(|(k, v)| {
                let same = self.0.iter().any(|a| a.0 == *k && a.1 == *v);
                let force = same && reordered && !forced;
                forced |= force;
                PropertyInFinalState { key: Key(*k), value: if same && !force { PropValue::Same } else { PropValue::Different(Val(*v)) } }
            })
            .collect()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}

/// Texts and values of which some are written as nothing or as blanks.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Txt(pub u16);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Val(pub u8);
fn written(f: &mut std::fmt::Formatter<'_>, n: u16) -> std::fmt::Result {
    match n {
        0 => Ok(()),
        1 => f.write_str(" "),
        2 => f.write_str("\n  "),
        n => write!(f, "{n}"),
    }
}
impl std::fmt::Display for Txt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        written(f, self.0)
    }
}
impl std::fmt::Display for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        written(f, self.0 as u16)
    }
}
pub type Ty = SimpleTypes<u8, Attrs, Txt>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Layout {
    Preorder,
    Shuffled,
    Recycled,
    /// a long-lived arena shared with other documents: ids far from zero, with gaps
    Sparse,
}

pub struct Live {
    pub tree: Tree<Ty>,
    pub opaque: HashSet<NodeId>,
    pub id_of: BTreeMap<u32, NodeId>,
    pub uid_of: HashMap<NodeId, u32>,
}
fn data(d: &Doc, u: u32) -> NodeData<Ty> {
    let n = &d.nodes[&u];
    NodeData::new(NodeHash(d.hash(u)), n.tag, Attrs(n.attrs.clone()), if has_text(n.tag) { Some(Txt(n.text)) } else { None })
}
impl Live {
    pub fn build(d: &Doc, layout: Layout, ch: &mut Choices) -> Live {
        let order: Vec<u32> = d.preorder();
        let mut tree: Tree<Ty>;
        let mut id_of = BTreeMap::new();
        match layout {
            Layout::Preorder => {
                tree = Tree::new(data(d, d.root));
                id_of.insert(d.root, tree.root);
                for &u in &order[1..] {
                    let p = id_of[&d.nodes[&u].parent.unwrap()];
                    // the public way of building: children in order
                    let id = tree.add_child(p, data(d, u));
                    id_of.insert(u, id);
                }
                // add_child appends in pre-order, which is document order for every parent
            }
            Layout::Shuffled | Layout::Recycled | Layout::Sparse => {
                let mut ord = order.clone();
                ch.shuffle(S_ENV, &mut ord);
                let others = if layout == Layout::Sparse { *ch.pick(S_ENV, &[70usize, 300, 1500]) } else { 0 };
                tree = Tree::new(NodeData::new(NodeHash(1), 9, Attrs::default(), None));
                let mut junk = vec![tree.root];
                for _ in 0..others {
                    tree.arena.new_node(NodeData::new(NodeHash(3), 9, Attrs::default(), None));
                }
                for &u in &ord {
                    if others > 0 && ch.chance(S_ENV, 1, 16) {
                        for _ in 0..ch.draw(S_ENV, 130) {
                            tree.arena.new_node(NodeData::new(NodeHash(3), 9, Attrs::default(), None));
                        }
                    }
                    if layout == Layout::Recycled && ch.chance(S_ENV, 1, 3) {
                        junk.push(tree.arena.new_node(NodeData::new(NodeHash(2), 9, Attrs::default(), None)));
                    }
                    if layout == Layout::Recycled && junk.len() > 1 && ch.chance(S_ENV, 1, 3) {
                        let j = junk.swap_remove(1 + ch.idx(S_ENV, junk.len() - 1));
                        j.remove(&mut tree.arena); // leaves a hole that the next node recycles
                    }
                    let id = tree.arena.new_node(data(d, u));
                    id_of.insert(u, id);
                }
                for &u in &order {
                    for k in &d.nodes[&u].kids {
                        let (p, c) = (id_of[&u], id_of[k]);
                        p.append(c, &mut tree.arena);
                    }
                }
                tree.root = id_of[&d.root];
                for j in junk {
                    j.remove(&mut tree.arena);
                }
            }
        }
        let mut l = Live { tree, opaque: HashSet::new(), id_of, uid_of: HashMap::new() };
        l.index(d);
        l
    }
    fn index(&mut self, d: &Doc) {
        self.uid_of = self.id_of.iter().map(|(u, i)| (*i, *u)).collect();
        self.opaque = d.nodes.iter().filter(|(_, n)| n.opaque).map(|(u, _)| self.id_of[u]).collect();
    }
    /// A long-lived arena: brings this tree to document `d` in place. Nodes gone are removed (their
    /// slots get recycled), new ones created, survivors keep their NodeId.
    pub fn evolve(&mut self, d: &Doc) {
        let gone: Vec<u32> = self.id_of.keys().copied().filter(|u| !d.nodes.contains_key(u)).collect();
        let ids: Vec<NodeId> = self.id_of.values().copied().collect();
        for id in ids {
            id.detach(&mut self.tree.arena);
        }
        for u in gone {
            let id = self.id_of.remove(&u).unwrap();
            id.remove(&mut self.tree.arena);
        }
        for u in d.preorder() {
            if let Some(id) = self.id_of.get(&u) {
                *self.tree.arena[*id].get_mut() = data(d, u);
            } else {
                let id = self.tree.arena.new_node(data(d, u));
                self.id_of.insert(u, id);
            }
        }
        for u in d.preorder() {
            for k in &d.nodes[&u].kids {
                let (p, c) = (self.id_of[&u], self.id_of[k]);
                p.append(c, &mut self.tree.arena);
            }
        }
        self.tree.root = self.id_of[&d.root];
        self.index(d);
    }
    /// Fingerprint of everything a reader can observe through the tree.
    pub fn fingerprint(&self) -> u64 {
        let mut h = 1u64;
        for id in self.tree.root.descendants(&self.tree.arena) {
            let n = &self.tree.arena[id];
            let x = n.get();
            h = simcore::mix(h, usize::from(id) as u64);
            h = simcore::mix(h, x.hash.0 ^ (x.kind as u64) << 3 ^ x.text.map_or(0, |t| t.0) as u64);
            for (k, v) in &x.properties.0 {
                h = simcore::mix(h, (*k as u64) << 8 | *v as u64);
            }
            h = simcore::mix(h, n.parent().map(|p| usize::from(p) as u64).unwrap_or(u64::MAX));
        }
        h
    }
}

/// What happens at each callback of the code under test into the caller's tree.
pub trait Hook {
    fn tick(&self, what: u8);
    fn steps(&self) -> u64 {
        0
    }
}
/// Step budget: a diff that does not terminate within it is reported, not waited for.
pub struct Budget {
    pub n: Cell<u64>,
    pub max: u64,
}
impl Budget {
    pub fn new(max: u64) -> Budget {
        Budget { n: Cell::new(0), max }
    }
}
pub const BUDGET_PANIC: &str = "step budget exhausted";
impl Hook for Budget {
    fn tick(&self, _: u8) {
        let v = self.n.get() + 1;
        self.n.set(v);
        if v > self.max {
            panic!("{BUDGET_PANIC}");
        }
    }
    fn steps(&self) -> u64 {
        self.n.get()
    }
}

pub struct View<'a> {
    pub live: &'a Live,
    pub hook: &'a dyn Hook,
}
macro_rules! common {
    () => {
        type Types = Ty;
        fn root(&self) -> NodeId {
            self.hook.tick(0);
            self.live.tree.root()
        }
        fn node_count(&self) -> usize {
            self.live.tree.node_count()
        }
        fn hash(&self, id: NodeId) -> NodeHash {
            self.hook.tick(1);
            self.live.tree.hash(id)
        }
        fn kind(&self, id: NodeId) -> &u8 {
            self.hook.tick(2);
            self.live.tree.kind(id)
        }
        fn properties(&self, id: NodeId) -> &Attrs {
            self.hook.tick(3);
            self.live.tree.properties(id)
        }
        fn text(&self, id: NodeId) -> Option<&Txt> {
            self.hook.tick(4);
            self.live.tree.text(id)
        }
        fn parent(&self, id: NodeId) -> Option<NodeId> {
            self.hook.tick(5);
            DiffTree::parent(&self.live.tree, id)
        }
        fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
            self.hook.tick(6);
            DiffTree::children(&self.live.tree, id)
        }
        fn height(&self, id: NodeId) -> usize {
            self.hook.tick(7);
            DiffTree::height(&self.live.tree, id)
        }
        fn iter(&self) -> impl Iterator<Item = NodeId> + '_ {
            self.hook.tick(8);
            DiffTree::iter(&self.live.tree)
        }
        fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ {
            self.hook.tick(9);
            DiffTree::post_order(&self.live.tree)
        }
        fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
            self.hook.tick(10);
            DiffTree::descendants(&self.live.tree, id)
        }
        fn is_opaque(&self, id: NodeId) -> bool {
            self.hook.tick(11);
            self.live.opaque.contains(&id)
        }
    };
}
impl DiffTree for View<'_> {
    common!();
    fn child_count(&self, id: NodeId) -> usize {
        self.hook.tick(12);
        DiffTree::child_count(&self.live.tree, id)
    }
    fn position(&self, id: NodeId) -> usize {
        self.hook.tick(13);
        DiffTree::position(&self.live.tree, id)
    }
}
/// The same tree through the trait's own default `position` and `child_count`.
pub struct PlainView<'a> {
    pub live: &'a Live,
    pub hook: &'a dyn Hook,
}
impl DiffTree for PlainView<'_> {
    common!();
}
