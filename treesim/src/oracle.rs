//! One real diff computation and what must be true of it.
use crate::doc::*;
use crate::live::*;
use cinereus::indextree::NodeId;
use cinereus::*;
use std::collections::{BTreeMap, BTreeSet};

/// Which entry point and which view of the trees the caller uses.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    /// `diff_trees_with_matching` over a caller-implemented tree
    View,
    /// the same, with the trait's default `position`/`child_count`
    Plain,
    /// `compute_matching` followed by `generate_edit_script`
    Split,
    /// `diff_trees_with_matching` over the shipped `Tree` (only without opaque nodes)
    Raw,
}
pub const VIAS: [Via; 4] = [Via::View, Via::Plain, Via::Split, Via::Raw];

pub struct DiffOut {
    pub ops: Vec<EditOp<Ty>>,
    pub m: Matching,
    pub steps: u64,
}
pub fn diff(a: &Live, b: &Live, cfg: &MatchingConfig, via: Via, hook: &dyn Hook) -> DiffOut {
    let plain = a.opaque.is_empty() && b.opaque.is_empty();
    let (ops, m) = match via {
        Via::Raw if plain => diff_trees_with_matching(&a.tree, &b.tree, cfg),
        Via::View | Via::Raw => diff_trees_with_matching(&View { live: a, hook }, &View { live: b, hook }, cfg),
        Via::Plain => diff_trees_with_matching(&PlainView { live: a, hook }, &PlainView { live: b, hook }, cfg),
        Via::Split => {
            let (va, vb) = (View { live: a, hook }, PlainView { live: b, hook });
            let m = compute_matching(&va, &vb, cfg);
            let ops = generate_edit_script(&va, &vb, &m);
            (ops, m)
        }
    };
    DiffOut { ops, m, steps: hook.steps() }
}

/// The correspondence by uids. Fails when a pair names a node outside the documents.
pub fn pairs_by_uid(a: &Live, b: &Live, m: &Matching) -> Result<Vec<(u32, u32)>, String> {
    let mut v = vec![];
    for (x, y) in m.pairs() {
        match (a.uid_of.get(&x), b.uid_of.get(&y)) {
            (Some(u), Some(w)) => v.push((*u, *w)),
            _ => return Err(format!("pair ({x}, {y}) names a node that is in neither document")),
        }
    }
    Ok(v)
}
pub fn map_of(a: &Live, b: &Live, m: &Matching) -> Result<BTreeMap<u32, u32>, String> {
    Ok(pairs_by_uid(a, b, m)?.into_iter().collect())
}

/// Independent of arena layout: operations by uid.
pub fn norm(a: &Live, b: &Live, ops: &[EditOp<Ty>]) -> Vec<String> {
    let ua = |i: &NodeId| a.uid_of.get(i).map(|u| u.to_string()).unwrap_or_else(|| "?".into());
    let ub = |i: &NodeId| b.uid_of.get(i).map(|u| u.to_string()).unwrap_or_else(|| "?".into());
    ops.iter()
        .map(|o| match o {
            EditOp::UpdateProperties { node_a, node_b, changes } => format!("attrs old#{} new#{} {:?}", ua(node_a), ub(node_b), changes),
            EditOp::Insert { node_b, parent_b, position, kind } => format!("insert new#{} under new#{} @{} kind {}", ub(node_b), ub(parent_b), position, kind),
            EditOp::Delete { node_a } => format!("delete old#{}", ua(node_a)),
            EditOp::Move { node_a, node_b, new_parent_b, new_position } => format!("move old#{} new#{} under new#{} @{}", ua(node_a), ub(node_b), ub(new_parent_b), new_position),
            EditOp::SetText { node_a, node_b, text } => format!("text old#{} new#{} {}", ua(node_a), ub(node_b), text),
        })
        .collect()
}

/// The correspondence is one-to-one, among the nodes of the two documents, kind to kind, root to
/// root, consistent in both directions, and never below the similarity floor.
pub fn check_matching(da: &Doc, db: &Doc, a: &Live, b: &Live, m: &Matching, thr: f64) -> Result<(), String> {
    let pairs = pairs_by_uid(a, b, m)?;
    let mut map = BTreeMap::new();
    let mut rmap = BTreeMap::new();
    if m.len() != pairs.len() || m.is_empty() != pairs.is_empty() {
        return Err(format!("the correspondence says it has {} pairs and lists {}", m.len(), pairs.len()));
    }
    for (u, v) in &pairs {
        if let Some(w) = map.insert(*u, *v) {
            return Err(format!("old #{u} corresponds to both new #{w} and new #{v}"));
        }
        if let Some(w) = rmap.insert(*v, *u) {
            return Err(format!("new #{v} corresponds to both old #{w} and old #{u}"));
        }
        let (x, y) = (a.id_of[u], b.id_of[v]);
        if m.get_b(x) != Some(y) || m.get_a(y) != Some(x) || !m.contains_a(x) || !m.contains_b(y) {
            return Err(format!("old #{u} / new #{v}: the two directions of the correspondence disagree"));
        }
        let (nu, nv) = (&da.nodes[u], &db.nodes[v]);
        if nu.tag != nv.tag {
            return Err(format!("old #{u} of kind {} corresponds to new #{v} of kind {}", nu.tag, nv.tag));
        }
        if (*u == da.root) != (*v == db.root) {
            return Err(format!("old #{u} corresponds to new #{v}, and only one of them is a root"));
        }
        if *u != da.root && !nu.opaque && !nv.opaque && da.hash(*u) != db.hash(*v) {
            let sim = Attrs(nu.attrs.clone()).similarity(&Attrs(nv.attrs.clone()));
            if sim < thr {
                return Err(format!("old #{u} corresponds to new #{v} with attribute similarity {sim} below the floor {thr}"));
            }
        }
    }
    for (u, x) in &a.id_of {
        if m.contains_a(*x) != map.contains_key(u) || m.get_b(*x).is_some() != map.contains_key(u) {
            return Err(format!("old #{u}: lookup and pair list disagree"));
        }
    }
    for (v, y) in &b.id_of {
        if m.contains_b(*y) != rmap.contains_key(v) || m.get_a(*y).is_some() != rmap.contains_key(v) {
            return Err(format!("new #{v}: lookup and pair list disagree"));
        }
    }
    if da.nodes[&da.root].tag == db.nodes[&db.root].tag && !map.contains_key(&da.root) {
        return Err("the two roots are of one kind and do not correspond".into());
    }
    Ok(())
}

/// Equal documents: nothing to do, everything corresponds.
pub fn check_quiet(da: &Doc, db: &Doc, a: &Live, b: &Live, o: &DiffOut) -> Result<(), String> {
    if da.digest() != db.digest() {
        return Ok(());
    }
    if !o.ops.is_empty() {
        return Err(format!("equal documents, yet {} operations: {:?}", o.ops.len(), norm(a, b, &o.ops)));
    }
    let map = map_of(a, b, &o.m)?;
    for (u, v) in da.preorder().iter().zip(db.preorder().iter()) {
        if da.inside_opaque(*u) {
            continue;
        }
        if map.get(u) != Some(v) {
            return Err(format!("equal documents, yet old #{u} does not correspond to new #{v}"));
        }
    }
    Ok(())
}

/// No operation is superfluous, and no node is touched twice the same way.
pub fn check_economy(da: &Doc, db: &Doc, a: &Live, b: &Live, o: &DiffOut) -> Result<(), String> {
    let map = map_of(a, b, &o.m)?;
    let mut seen: BTreeSet<(u8, u32)> = BTreeSet::new();
    let mut once = |k: u8, u: u32| -> Result<(), String> {
        if seen.insert((k, u)) {
            Ok(())
        } else {
            Err(format!("node #{u} is {} twice", ["retexted", "re-attributed", "inserted", "moved", "deleted"][k as usize]))
        }
    };
    for op in &o.ops {
        match op {
            EditOp::SetText { node_a, text, .. } => {
                let u = a.uid_of[node_a];
                once(0, u)?;
                if da.nodes[&u].text == text.0 {
                    return Err(format!("old #{u} is given the text it already has"));
                }
            }
            EditOp::UpdateProperties { node_a, node_b, .. } => {
                let (u, v) = (a.uid_of[node_a], b.uid_of[node_b]);
                once(1, u)?;
                if da.nodes[&u].attrs == db.nodes[&v].attrs {
                    return Err(format!("old #{u} is given the attributes it already has"));
                }
            }
            EditOp::Insert { node_b, .. } => {
                let v = b.uid_of[node_b];
                once(2, v)?;
                if map.values().any(|x| *x == v) {
                    return Err(format!("new #{v} is inserted although old content corresponds to it"));
                }
            }
            EditOp::Move { node_a, node_b, .. } => {
                let (u, v) = (a.uid_of[node_a], b.uid_of[node_b]);
                once(3, u)?;
                let (pu, pv) = (da.nodes[&u].parent, db.nodes[&v].parent);
                let same_parent = pu.and_then(|p| map.get(&p).copied()) == pv;
                if same_parent && da.pos(u) == db.pos(v) {
                    return Err(format!("old #{u} is moved to where it already is"));
                }
            }
            EditOp::Delete { node_a } => {
                let u = a.uid_of[node_a];
                once(4, u)?;
                if map.contains_key(&u) {
                    return Err(format!("old #{u} is deleted although it corresponds to new content"));
                }
            }
        }
    }
    Ok(())
}

/// No operation reaches inside an opaque node.
pub fn check_opaque(da: &Doc, db: &Doc, a: &Live, b: &Live, o: &DiffOut) -> Result<(), String> {
    let ia = |i: &NodeId| a.uid_of.get(i).is_some_and(|u| da.inside_opaque(*u));
    let ib = |i: &NodeId| b.uid_of.get(i).is_some_and(|u| db.inside_opaque(*u));
    for (op, n) in o.ops.iter().zip(norm(a, b, &o.ops)) {
        let bad = match op {
            EditOp::SetText { node_a, node_b, .. } | EditOp::UpdateProperties { node_a, node_b, .. } => ia(node_a) || ib(node_b),
            EditOp::Insert { node_b, parent_b, .. } => ib(node_b) || b.opaque.contains(parent_b),
            EditOp::Move { node_a, node_b, new_parent_b, .. } => ia(node_a) || ib(node_b) || b.opaque.contains(new_parent_b),
            EditOp::Delete { node_a } => ia(node_a),
        };
        if bad {
            return Err(format!("operation reaches inside an opaque node: {n}"));
        }
    }
    Ok(())
}

/// Work bound, in callbacks into the caller's trees. Measured: up to 8 per pair of nodes; a rewrite
/// that reads a value twice is still in proportion, a walk per pair is not.
pub fn work_bound(na: usize, nb: usize) -> u64 {
    let (na, nb) = (na as u64, nb as u64);
    32 * (na * nb + 20 * (na + nb)) + 200
}

/// A correspondence of the caller's own: same nodes (by author identity) of the same kind, minus a
/// pseudo-random part; the roots always correspond. Deterministic in (da, db, salt).
pub fn own_matching(da: &Doc, db: &Doc, a: &Live, b: &Live, salt: u64) -> Matching {
    let mut m = Matching::with_capacity((salt % 7) as usize, (salt % 5) as usize);
    m.add(a.id_of[&da.root], b.id_of[&db.root]);
    let drop = salt % 4;
    for u in da.preorder() {
        if u == da.root || da.inside_opaque(u) {
            continue;
        }
        let Some(n) = db.nodes.get(&u) else { continue };
        if u == db.root || db.inside_opaque(u) || n.tag != da.nodes[&u].tag {
            continue;
        }
        if simcore::mix(salt, u as u64) % 4 < drop {
            continue;
        }
        m.add(a.id_of[&u], b.id_of[&u]);
    }
    m
}

/// Nodes that can be told apart and stayed keep their identity (see `simcore::ident`). Returns how many
/// pairs were owed, by rule.
pub fn check_identity(da: &Doc, db: &Doc, a: &Live, b: &Live, o: &DiffOut, thr: f64, min_height: usize) -> Result<[usize; 7], String> {
    use simcore::ident;
    let ((fa, ua), (fb, ub)) = (flat(da), flat(db));
    let at = |us: &[u32]| us.iter().enumerate().map(|(i, u)| (*u, i)).collect::<std::collections::HashMap<_, _>>();
    let (ia, ib) = (at(&ua), at(&ub));
    let kept = map_of(a, b, &o.m)?.into_iter().map(|(u, v)| (ia[&u], ib[&v])).collect();
    let sim = |x: usize, y: usize| Attrs(da.nodes[&ua[x]].attrs.clone()).similarity(&Attrs(db.nodes[&ub[y]].attrs.clone()));
    let mut n = [0; 7];
    for w in ident::owed(&fa, &fb, &sim, thr, min_height, &kept) {
        n[w.rule] += 1;
        if kept.get(&w.a) != Some(&w.b) {
            return Err(format!("old #{} and new #{} do not correspond: {}", ua[w.a], ub[w.b], ident::RULES[w.rule]));
        }
    }
    Ok(n)
}
fn flat(d: &Doc) -> (simcore::ident::Flat, Vec<u32>) {
    fn go(d: &Doc, u: u32, parent: Option<usize>, f: &mut simcore::ident::Flat, us: &mut Vec<u32>) {
        let n = &d.nodes[&u];
        let i = f.open(parent, n.tag as u64, n.opaque);
        us.push(u);
        for k in &n.kids {
            go(d, *k, Some(i), f, us)
        }
        f.close(i, d.hash(u));
    }
    let (mut f, mut us) = Default::default();
    go(d, d.root, None, &mut f, &mut us);
    (f, us)
}
