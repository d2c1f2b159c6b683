// A small strict executor for edit scripts, used by the demonstrations.
// Documents are written as  kind[k=v k=v](child child 'text' kind*(opaque content))
#![allow(dead_code)]
use cinereus::indextree::NodeId;
use cinereus::*;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Attrs(pub Vec<(String, String)>);
impl Properties for Attrs {
    type Key = String;
    type Value = String;
    fn similarity(&self, o: &Self) -> f64 {
        if self.0.is_empty() && o.0.is_empty() {
            return 1.0;
        }
        let c = self.0.iter().filter(|a| o.0.iter().any(|b| a.0 == b.0)).count();
        (2 * c) as f64 / (self.0.len() + o.0.len()) as f64
    }
    fn diff(&self, o: &Self) -> Vec<PropertyInFinalState<String, String>> {
        o.0.iter()
            .map(|(k, v)| PropertyInFinalState {
                key: k.clone(),
                value: if self.0.iter().any(|a| a.0 == *k && a.1 == *v) { PropValue::Same } else { PropValue::Different(v.clone()) },
            })
            .collect()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}
pub type Ty = SimpleTypes<String, Attrs, String>;
pub struct Doc {
    pub tree: Tree<Ty>,
    pub opaque: HashSet<NodeId>,
}
pub fn fnv(h: u64, s: &str) -> u64 {
    s.bytes().chain([0u8]).fold(h, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
struct P<'a>(&'a [u8], usize);
impl P<'_> {
    fn peek(&self) -> u8 {
        *self.0.get(self.1).unwrap_or(&0)
    }
    fn word(&mut self, stop: &[u8]) -> String {
        let s = self.1;
        while self.1 < self.0.len() && !stop.contains(&self.peek()) {
            self.1 += 1;
        }
        String::from_utf8(self.0[s..self.1].to_vec()).unwrap()
    }
}
pub struct N {
    kind: String,
    attrs: Vec<(String, String)>,
    text: Option<String>,
    opaque: bool,
    kids: Vec<N>,
}
fn node(p: &mut P) -> N {
    while p.peek() == b' ' {
        p.1 += 1;
    }
    if p.peek() == b'\'' {
        p.1 += 1;
        let t = p.word(b"'");
        p.1 += 1;
        return N { kind: "#text".into(), attrs: vec![], text: Some(t), opaque: false, kids: vec![] };
    }
    let kind = p.word(b"[]()* '");
    let mut n = N { kind, attrs: vec![], text: None, opaque: false, kids: vec![] };
    if p.peek() == b'*' {
        n.opaque = true;
        p.1 += 1;
    }
    if p.peek() == b'[' {
        p.1 += 1;
        while p.peek() != b']' {
            while p.peek() == b' ' {
                p.1 += 1;
            }
            let k = p.word(b"=");
            p.1 += 1;
            let v = p.word(b" ]");
            n.attrs.push((k, v));
        }
        p.1 += 1;
    }
    if p.peek() == b'(' {
        p.1 += 1;
        loop {
            while p.peek() == b' ' {
                p.1 += 1;
            }
            if p.peek() == b')' || p.peek() == 0 {
                break;
            }
            n.kids.push(node(p));
        }
        p.1 += 1;
    }
    n
}
fn hash(n: &N) -> u64 {
    let mut h = fnv(0xcbf29ce484222325, &n.kind);
    h = fnv(h, n.text.as_deref().unwrap_or(""));
    for (k, v) in &n.attrs {
        h = fnv(fnv(h, k), v);
    }
    for k in &n.kids {
        h = (h ^ hash(k)).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(17);
    }
    h
}
fn data(n: &N) -> NodeData<Ty> {
    NodeData::new(NodeHash(hash(n)), n.kind.clone(), Attrs(n.attrs.clone()), n.text.clone())
}
pub fn doc(s: &str) -> Doc {
    let n = node(&mut P(s.as_bytes(), 0));
    let mut d = Doc { tree: Tree::new(data(&n)), opaque: HashSet::new() };
    let root = d.tree.root;
    fn rec(d: &mut Doc, id: NodeId, n: &N) {
        if n.opaque {
            d.opaque.insert(id);
        }
        for k in &n.kids {
            let c = d.tree.add_child(id, data(k));
            rec(d, c, k);
        }
    }
    rec(&mut d, root, &n);
    d
}
/// The same document with its nodes allocated in another order (`salt` picks the order).
pub fn doc_laid_out(s: &str, salt: u64) -> Doc {
    let n = node(&mut P(s.as_bytes(), 0));
    let mut flat: Vec<(&N, Option<usize>)> = vec![];
    fn rec<'a>(n: &'a N, p: Option<usize>, out: &mut Vec<(&'a N, Option<usize>)>) {
        let i = out.len();
        out.push((n, p));
        for k in &n.kids {
            rec(k, Some(i), out);
        }
    }
    rec(&n, None, &mut flat);
    let mut order: Vec<usize> = (0..flat.len()).collect();
    let mut x = salt;
    for i in (1..order.len()).rev() {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        order.swap(i, (x >> 33) as usize % (i + 1));
    }
    let mut tree: Tree<Ty> = Tree::new(data(&n));
    let spare = tree.root;
    let mut ids: Vec<Option<NodeId>> = vec![None; flat.len()];
    for i in order {
        ids[i] = Some(tree.arena.new_node(data(flat[i].0)));
    }
    let mut d = Doc { tree, opaque: HashSet::new() };
    for (i, (n, p)) in flat.iter().enumerate() {
        if n.opaque {
            d.opaque.insert(ids[i].unwrap());
        }
        if let Some(p) = p {
            ids[*p].unwrap().append(ids[i].unwrap(), &mut d.tree.arena);
        }
    }
    d.tree.root = ids[0].unwrap();
    spare.remove(&mut d.tree.arena);
    d
}
pub struct V<'a> {
    pub d: &'a Doc,
    pub tick: &'a dyn Fn(),
}
impl DiffTree for V<'_> {
    type Types = Ty;
    fn root(&self) -> NodeId {
        self.d.tree.root()
    }
    fn node_count(&self) -> usize {
        self.d.tree.node_count()
    }
    fn hash(&self, id: NodeId) -> NodeHash {
        (self.tick)();
        self.d.tree.hash(id)
    }
    fn kind(&self, id: NodeId) -> &String {
        (self.tick)();
        self.d.tree.kind(id)
    }
    fn properties(&self, id: NodeId) -> &Attrs {
        (self.tick)();
        self.d.tree.properties(id)
    }
    fn text(&self, id: NodeId) -> Option<&String> {
        self.d.tree.text(id)
    }
    fn parent(&self, id: NodeId) -> Option<NodeId> {
        DiffTree::parent(&self.d.tree, id)
    }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        (self.tick)();
        DiffTree::children(&self.d.tree, id)
    }
    fn height(&self, id: NodeId) -> usize {
        (self.tick)();
        DiffTree::height(&self.d.tree, id)
    }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ {
        DiffTree::iter(&self.d.tree)
    }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ {
        DiffTree::post_order(&self.d.tree)
    }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        (self.tick)();
        DiffTree::descendants(&self.d.tree, id)
    }
    fn is_opaque(&self, id: NodeId) -> bool {
        self.d.opaque.contains(&id)
    }
}
pub fn config(threshold: f64, min_height: usize) -> MatchingConfig {
    MatchingConfig { similarity_threshold: threshold, min_height }
}
pub fn diff(a: &Doc, b: &Doc, cfg: &MatchingConfig) -> (Vec<EditOp<Ty>>, Matching) {
    let no = || {};
    diff_trees_with_matching(&V { d: a, tick: &no }, &V { d: b, tick: &no }, cfg)
}
pub fn show(d: &Doc, id: NodeId) -> String {
    let n = d.tree.get(id);
    if let Some(t) = &n.text {
        return format!("'{t}'");
    }
    let mut s = n.kind.clone();
    if d.opaque.contains(&id) {
        return s + "*";
    }
    if !n.properties.0.is_empty() {
        s += &format!("{:?}", n.properties.0);
    }
    let kids: Vec<String> = d.tree.children(id).map(|c| show(d, c)).collect();
    s + "(" + &kids.join(" ") + ")"
}
struct W {
    d: NodeData<Ty>,
    opaque: bool,
    parent: Option<usize>,
    pos: usize,
    slots: BTreeMap<usize, usize>,
    dead: bool,
}
/// Executes the script on `a`; every operation must be executable when its turn comes.
pub fn execute(a: &Doc, b: &Doc, m: &Matching, ops: &[EditOp<Ty>]) -> Result<String, String> {
    let mut w: Vec<W> = vec![];
    let mut of_a: HashMap<NodeId, usize> = HashMap::new();
    let mut of_b: HashMap<NodeId, usize> = HashMap::new();
    let mut st = vec![(a.tree.root, None, 0)];
    while let Some((id, parent, pos)) = st.pop() {
        let i = w.len();
        w.push(W { d: a.tree.get(id).clone(), opaque: a.opaque.contains(&id), parent, pos, slots: BTreeMap::new(), dead: false });
        of_a.insert(id, i);
        if let Some(p) = parent {
            let p: usize = p;
            w[p].slots.insert(pos, i);
        }
        if !a.opaque.contains(&id) {
            for (k, c) in a.tree.children(id).enumerate() {
                st.push((c, Some(i), k));
            }
        }
    }
    for (x, y) in m.pairs() {
        if let Some(i) = of_a.get(&x) {
            of_b.insert(y, *i);
        }
    }
    fn put(w: &mut [W], i: usize, p: usize, pos: usize) {
        if let Some(q) = w[i].parent.take() {
            let at = w[i].pos;
            if w[q].slots.get(&at) == Some(&i) {
                w[q].slots.remove(&at);
            }
        }
        if let Some(o) = w[p].slots.remove(&pos) {
            w[o].parent = None;
        }
        w[p].slots.insert(pos, i);
        w[i].parent = Some(p);
        w[i].pos = pos;
    }
    let live = |w: &[W], i: Option<&usize>, what: &str| -> Result<usize, String> {
        let i = *i.ok_or_else(|| format!("{what}: no such node"))?;
        if w[i].dead {
            return Err(format!("{what}: deleted before"));
        }
        Ok(i)
    };
    for op in ops {
        match op {
            EditOp::SetText { node_a, text, .. } => {
                let i = live(&w, of_a.get(node_a), "set text")?;
                w[i].d.text = Some(text.clone());
            }
            EditOp::UpdateProperties { node_a, changes, .. } => {
                let i = live(&w, of_a.get(node_a), "update")?;
                let old = w[i].d.properties.0.clone();
                let mut new = vec![];
                for c in changes {
                    match &c.value {
                        PropValue::Different(v) => new.push((c.key.clone(), v.clone())),
                        PropValue::Same => new.push(old.iter().find(|o| o.0 == c.key).cloned().ok_or("keeps an attribute that is not there")?),
                    }
                }
                w[i].d.properties = Attrs(new);
            }
            EditOp::Insert { node_b, parent_b, position, .. } => {
                let p = live(&w, of_b.get(parent_b), "insert: parent")?;
                if of_b.contains_key(node_b) {
                    return Err("inserted twice".into());
                }
                let i = w.len();
                w.push(W { d: b.tree.get(*node_b).clone(), opaque: b.opaque.contains(node_b), parent: None, pos: 0, slots: BTreeMap::new(), dead: false });
                of_b.insert(*node_b, i);
                put(&mut w, i, p, *position);
            }
            EditOp::Move { node_a, new_parent_b, new_position, .. } => {
                let i = live(&w, of_a.get(node_a), "move")?;
                let p = live(&w, of_b.get(new_parent_b), "move: parent")?;
                put(&mut w, i, p, *new_position);
            }
            EditOp::Delete { node_a } => {
                let i = live(&w, of_a.get(node_a), "delete")?;
                if !w[i].slots.is_empty() {
                    return Err("deleted while it still has children".into());
                }
                if let Some(q) = w[i].parent.take() {
                    let at = w[i].pos;
                    if w[q].slots.get(&at) == Some(&i) {
                        w[q].slots.remove(&at);
                    }
                }
                w[i].dead = true;
            }
        }
    }
    fn render(w: &[W], i: usize) -> String {
        let n = &w[i].d;
        if let Some(t) = &n.text {
            return format!("'{t}'");
        }
        let mut s = n.kind.clone();
        if w[i].opaque {
            return s + "*";
        }
        if !n.properties.0.is_empty() {
            s += &format!("{:?}", n.properties.0);
        }
        for (k, (pos, _)) in w[i].slots.iter().enumerate() {
            if k != *pos {
                s += &format!("<gap at {k}>");
                break;
            }
        }
        let kids: Vec<String> = w[i].slots.values().map(|c| render(w, *c)).collect();
        s + "(" + &kids.join(" ") + ")"
    }
    Ok(render(&w, 0))
}
/// Old document + script = new document.
pub fn converges(old: &str, new: &str, cfg: &MatchingConfig) -> Result<(), String> {
    let (a, b) = (doc(old), doc(new));
    let (ops, m) = diff(&a, &b, cfg);
    let got = execute(&a, &b, &m, &ops).map_err(|e| format!("{old} -> {new}: {e}; script {ops:?}"))?;
    let want = show(&b, b.tree.root);
    if got != want {
        return Err(format!("{old} -> {new}: got {got} instead of {want}; script {ops:?}"));
    }
    Ok(())
}
pub fn bijective(a: &Doc, b: &Doc, m: &Matching) -> Result<(), String> {
    let mut sa = HashSet::new();
    let mut sb = HashSet::new();
    for (x, y) in m.pairs() {
        if !sa.insert(x) || !sb.insert(y) {
            return Err(format!("node paired twice: {x} {y}"));
        }
        if m.get_b(x) != Some(y) || m.get_a(y) != Some(x) {
            return Err("directions disagree".into());
        }
        if a.tree.get(x).kind != b.tree.get(y).kind {
            return Err("kinds differ".into());
        }
    }
    Ok(())
}
pub fn fail(m: String) -> ! {
    eprintln!("{m}");
    std::process::exit(1);
}
