//! Which nodes of two trees must be taken for the same.
//!
//! Two nodes of one kind can be told apart unless their attributes reach the similarity threshold or
//! their subtrees are equal. What is owed follows from the two trees and, for some rules, from what
//! was kept elsewhere:
//! 0. an unchanged subtree found once in either tree, below ancestors of the same kinds;
//! 1. a node with exactly one possible counterpart, at the same position of a kept parent;
//! 2. the same, when the share of its content kept by rule 0 reaches the threshold;
//! 3. the same, for an unchanged leaf of a kept parent, or a leaf whose parent goes;
//! 4. a node at the same place as before, up to the root, whose content (old and new) is nowhere else;
//! 5. the only opaque node of its kind at its depth, below ancestors of the same kinds that are unmistakable;
//! 6. two nodes that rules 1 to 3 allow to be counterparts (with others, perhaps) are not both left over,
//!    and no leaf whose parent goes is turned into another while an equal one is left over.
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Node {
    pub parent: Option<usize>,
    pub kids: Vec<usize>,
    pub pos: usize,
    pub depth: usize,
    pub kind: u64,
    pub opaque: bool,
    /// strictly inside an opaque node
    pub inside: bool,
    pub hash: u64,
    pub height: usize,
    /// one past the last node of the subtree, in preorder
    pub end: usize,
}
/// Nodes in preorder; the root comes first.
#[derive(Clone, Debug, Default)]
pub struct Flat {
    pub nodes: Vec<Node>,
    by_hash: HashMap<u64, Vec<usize>>,
}
impl Flat {
    /// Start a node; its children follow, then `close`.
    pub fn open(&mut self, parent: Option<usize>, kind: u64, opaque: bool) -> usize {
        let i = self.nodes.len();
        let (mut pos, mut depth, mut inside) = (0, 0, false);
        if let Some(p) = parent {
            pos = self.nodes[p].kids.len();
            depth = self.nodes[p].depth + 1;
            inside = self.nodes[p].inside || self.nodes[p].opaque;
            self.nodes[p].kids.push(i);
        }
        self.nodes.push(Node { parent, kids: vec![], pos, depth, kind, opaque, inside, hash: 0, height: 0, end: 0 });
        i
    }
    pub fn close(&mut self, i: usize, hash: u64) {
        let h = self.nodes[i].kids.iter().map(|k| self.nodes[*k].height + 1).max().unwrap_or(0);
        let end = self.nodes.len();
        let n = &mut self.nodes[i];
        (n.hash, n.height, n.end) = (hash, h, end);
        self.by_hash.entry(hash).or_default().push(i);
    }
    fn having(&self, h: u64) -> &[usize] {
        self.by_hash.get(&h).map(|v| &v[..]).unwrap_or(&[])
    }
    fn within(&self, x: usize, top: usize) -> bool {
        x >= top && x < self.nodes[top].end
    }
    fn has_opaque(&self, top: usize) -> bool {
        (top..self.nodes[top].end).any(|x| self.nodes[x].opaque)
    }
}
pub struct Owed {
    pub a: usize,
    pub b: usize,
    pub rule: usize,
}
pub const RULES: [&str; 7] = [
    "an unchanged subtree that occurs once, below ancestors of the same kinds",
    "the only counterpart, at the same position of a kept parent",
    "the only counterpart, with enough unchanged content",
    "the only counterpart, a leaf whose parent was kept or goes",
    "at the same place up to the root, with content that is nowhere else",
    "the only opaque node of its kind at its depth, below unmistakable ancestors of the same kinds",
    "one goes and the other comes although they are alike",
];
pub fn owed(a: &Flat, b: &Flat, sim: &dyn Fn(usize, usize) -> f64, thr: f64, min_height: usize, kept: &HashMap<usize, usize>) -> Vec<Owed> {
    let back: HashMap<usize, usize> = kept.iter().map(|(x, y)| (*y, *x)).collect();
    let mut out = vec![];
    let (na, nb) = (&a.nodes, &b.nodes);
    if na.is_empty() || nb.is_empty() || na[0].kind != nb[0].kind || na[0].opaque || nb[0].opaque {
        return out;
    }
    let same_kinds_above = |u: usize, v: usize| {
        let (mut x, mut y) = (na[u].parent, nb[v].parent);
        loop {
            match (x, y) {
                (None, None) => return true,
                (Some(p), Some(q)) if na[p].kind == nb[q].kind && !na[p].opaque && !nb[q].opaque => (x, y) = (na[p].parent, nb[q].parent),
                _ => return false,
            }
        }
    };
    // 0
    let mut sure: HashMap<usize, usize> = HashMap::new();
    for u in 1..na.len() {
        let h = na[u].hash;
        let ([_], [v]) = (a.having(h), b.having(h)) else { continue };
        let v = *v;
        if v == 0 || na[u].height < min_height || !same_kinds_above(u, v) || a.has_opaque(u) || b.has_opaque(v) {
            continue;
        }
        let mut st = vec![(u, v)];
        while let Some((x, y)) = st.pop() {
            if sure.insert(x, y).is_none() {
                out.push(Owed { a: x, b: y, rule: 0 });
            }
            for (cx, cy) in na[x].kids.iter().zip(&nb[y].kids) {
                let h = na[*cx].hash;
                if na[*cx].height < min_height || (a.having(h).len() == 1 && b.having(h).len() == 1) {
                    st.push((*cx, *cy))
                }
            }
        }
    }
    // 1, 2, 3
    let alike = |u: usize, v: usize| na[u].kind == nb[v].kind && na[u].opaque == nb[v].opaque && (na[u].hash == nb[v].hash || sim(u, v) >= thr);
    for u in 1..na.len() {
        if na[u].opaque || na[u].inside {
            continue;
        }
        let mut c = (1..nb.len()).filter(|v| !nb[*v].inside && alike(u, *v));
        let (Some(v), None) = (c.next(), c.next()) else { continue };
        if (1..na.len()).filter(|x| !na[*x].inside && alike(*x, v)).count() != 1 {
            continue;
        }
        let s = sim(u, v);
        let (pu, pv) = (na[u].parent.unwrap(), nb[v].parent.unwrap());
        let parent_kept = kept.get(&pu) == Some(&pv);
        if parent_kept && na[u].pos == nb[v].pos && s >= thr {
            out.push(Owed { a: u, b: v, rule: 1 });
        }
        // their places do not contradict what happened to their parents
        let fits = kept.get(&pu).is_none_or(|q| b.within(v, *q)) && back.get(&pv).is_none_or(|q| a.within(u, *q));
        let (leaf_u, leaf_v) = (na[u].kids.is_empty(), nb[v].kids.is_empty());
        if !leaf_u && !leaf_v && s >= thr && fits {
            let c = (u..na[u].end).filter(|x| sure.get(x).is_some_and(|y| b.within(*y, v))).count();
            if (2 * c) as f64 / (na[u].end - u + nb[v].end - v) as f64 >= thr {
                out.push(Owed { a: u, b: v, rule: 2 });
            }
        }
        if leaf_u && leaf_v && ((parent_kept && na[u].hash == nb[v].hash) || (!kept.contains_key(&pu) && fits)) {
            out.push(Owed { a: u, b: v, rule: 3 });
        }
    }
    // 4
    if thr > 0.0 {
        let mut st = vec![(0, 0)];
        while let Some((x, y)) = st.pop() {
            for (&u, &v) in na[x].kids.iter().zip(&nb[y].kids) {
                if na[u].kind != nb[v].kind || na[u].opaque || nb[v].opaque || sim(u, v) < thr || b.has_opaque(v) {
                    continue;
                }
                if !b.having(na[u].hash).iter().all(|z| *z == v) || !(v..nb[v].end).all(|z| a.having(nb[z].hash).iter().all(|w| a.within(*w, u))) {
                    continue;
                }
                out.push(Owed { a: u, b: v, rule: 4 });
                st.push((u, v));
            }
        }
    }
    // 5
    for u in 1..na.len() {
        if !na[u].opaque || na[u].inside || na[u].height < min_height {
            continue;
        }
        let same = |n: &Node| n.opaque && !n.inside && n.kind == na[u].kind && n.depth == na[u].depth;
        let mut c = (1..nb.len()).filter(|v| same(&nb[*v]));
        let (Some(v), None) = (c.next(), c.next()) else { continue };
        if na.iter().filter(|n| same(n)).count() != 1 || !same_kinds_above(u, v) {
            continue;
        }
        let (mut x, mut y) = (na[u].parent, nb[v].parent);
        let (mut clear, mut same_path) = (true, na[u].pos == nb[v].pos);
        while let (Some(p), Some(q)) = (x, y) {
            // equal but for what is opaque: taken for the same child by child
            clear &= na[p].hash != nb[q].hash || same_path;
            same_path &= na[p].pos == nb[q].pos;
            clear &= p == 0 || b.having(na[p].hash).iter().all(|z| *z == q) && a.having(nb[q].hash).iter().all(|z| *z == p);
            (x, y) = (na[p].parent, nb[q].parent);
        }
        if clear {
            out.push(Owed { a: u, b: v, rule: 5 });
        }
    }
    // 6
    let left_b: Vec<usize> = (1..nb.len()).filter(|v| !nb[*v].inside && !back.contains_key(v)).collect();
    for u in 1..na.len() {
        if na[u].inside {
            continue;
        }
        let pu = na[u].parent.unwrap();
        let (to, parent_to) = (kept.get(&u), kept.get(&pu));
        let leaf_u = na[u].kids.is_empty();
        // a leaf whose parent goes looks for an equal one first
        let other = !na[u].opaque && to.is_some_and(|w| leaf_u && nb[*w].kids.is_empty() && nb[*w].hash != na[u].hash && parent_to.is_none());
        if to.is_some() && !other {
            continue;
        }
        for &v in &left_b {
            if na[u].kind != nb[v].kind || na[u].opaque != nb[v].opaque {
                continue;
            }
            let pv = nb[v].parent.unwrap();
            let leaf_v = nb[v].kids.is_empty();
            let (same, fits) = (na[u].hash == nb[v].hash, parent_to.is_none_or(|q| b.within(v, *q)) && back.get(&pv).is_none_or(|q| a.within(u, *q)));
            let similar = sim(u, v) >= thr;
            let mine = parent_to == Some(&pv);
            let content = || {
                let c = (u..na[u].end).filter(|x| sure.get(x).is_some_and(|y| b.within(*y, v))).count();
                (2 * c) as f64 / (na[u].end - u + nb[v].end - v) as f64 >= thr
            };
            if if other {
                same && leaf_v && fits
            } else {
                (mine && na[u].pos == nb[v].pos && similar)
                    || (!leaf_u && !leaf_v && !na[u].opaque && similar && fits && content())
                    || (leaf_u && leaf_v && ((mine && same) || (parent_to.is_none() && fits && (same || similar))))
            } {
                out.push(Owed { a: u, b: v, rule: 6 });
                break;
            }
        }
    }
    out
}
