//! Documents nested thousands of levels deep, on a thread with the stack an ordinary thread has.
use crate::live::*;
use crate::oracle::*;
use cinereus::{MatchingConfig, NodeData, NodeHash, Tree};
use simcore::choices::*;
use simcore::{mix, Choices, Obs, Scenario, Violation};
use std::collections::{BTreeMap, HashMap, HashSet};

/// What std gives a thread by default.
const STACK: usize = 2 << 20;

pub struct Deep;

#[derive(Clone, PartialEq)]
struct Level {
    kind: u8,
    attrs: Vec<(u8, u8)>,
    left: Option<u16>,
    right: Option<u16>,
    opaque: bool,
}
/// Built from the innermost level outwards, so that appending never walks up a long chain.
fn build(levels: &[Level], hash_attrs: bool) -> (Live, usize) {
    let text = |t: u16| NodeData::new(NodeHash(mix(7, t as u64)), 0u8, Attrs::default(), Some(Txt(t)));
    let mut tree: Tree<Ty> = Tree::new(text(9));
    let mut opaque = HashSet::new();
    let (mut inner, mut h, mut n) = (tree.root, tree.get(tree.root).hash.0, 1);
    for l in levels.iter().rev() {
        let mut hash = mix(11, l.kind as u64);
        if hash_attrs {
            hash = l.attrs.iter().fold(mix(hash, l.opaque as u64), |x, a| mix(x, (a.0 as u64) << 8 | a.1 as u64));
        }
        let mut kids = vec![];
        if let Some(t) = l.left {
            kids.push(tree.arena.new_node(text(t)));
            hash = mix(hash, mix(7, t as u64));
        }
        kids.push(inner);
        hash = mix(hash, h);
        if let Some(t) = l.right {
            kids.push(tree.arena.new_node(text(t)));
            hash = mix(hash, mix(7, t as u64));
        }
        n += kids.len();
        inner = tree.arena.new_node(NodeData::new(NodeHash(hash), l.kind, Attrs(l.attrs.clone()), None));
        h = hash;
        if l.opaque {
            opaque.insert(inner);
        }
        for k in kids {
            inner.append(k, &mut tree.arena);
        }
    }
    tree.root = inner;
    (Live { tree, opaque, id_of: BTreeMap::new(), uid_of: HashMap::new() }, n)
}

impl Scenario for Deep {
    fn name(&self) -> &'static str {
        "work-deep"
    }
    fn run(&self, ch: &mut Choices, obs: &mut Obs) -> Result<(), Violation> {
        let hs = ch.draw(S_ENV, u64::MAX);
        let depth = *ch.pick(S_CFG, &[300usize, 1000, 3000, 12000, 20000]);
        let p_side = *ch.pick(S_CFG, &[0u64, 10, 50]);
        let kinds = ch.range(S_CFG, 1, 3);
        let hash_attrs = ch.chance(S_CFG, 1, 2);
        // a few decisions per document, not per level: the pattern repeats
        let period = ch.range(S_CFG, 1, 40) as usize;
        let pattern: Vec<Level> = (0..period)
            .map(|_| Level {
                kind: 2 + ch.draw(S_DOC, kinds) as u8,
                attrs: if ch.chance(S_DOC, 1, 3) { vec![(ch.draw(S_DOC, 3) as u8, ch.draw(S_DOC, 3) as u8)] } else { vec![] },
                left: ch.chance(S_DOC, p_side, 100).then(|| ch.draw(S_DOC, 5) as u16),
                right: ch.chance(S_DOC, p_side, 100).then(|| ch.draw(S_DOC, 5) as u16),
                opaque: false,
            })
            .collect();
        let a: Vec<Level> = (0..depth).map(|i| pattern[i % period].clone()).collect();
        let mut b = a.clone();
        let mut shifted = 0;
        for _ in 0..ch.range(S_EDIT, 0, 3) {
            // far down, a change makes every level above it differ: keep to the top in the deepest ones
            let at = ch.idx(S_EDIT, b.len().min(if depth > 1000 { 6 } else { 1000 }));
            match ch.draw(S_EDIT, 5) {
                0 => b[at].left = Some(100),
                1 => b[at].right = None,
                2 => b[at].attrs.push((5, 1)),
                3 if depth <= 1000 && b.len() > 2 && at > 0 => {
                    b.remove(at);
                    shifted += 1;
                }
                4 if depth <= 1000 && at > 0 => {
                    b.insert(at, Level { kind: 2, attrs: vec![], left: None, right: None, opaque: false });
                    shifted += 1;
                }
                _ => b[at].right = Some(101),
            }
        }
        let mut a = a;
        if ch.chance(S_EDIT, 1, 8) {
            let at = 1 + ch.idx(S_EDIT, 5);
            a[at].opaque = true;
            if b[at].kind == a[at].kind {
                b[at].opaque = true;
            }
        }
        let mc = MatchingConfig { similarity_threshold: *ch.pick(S_CFG, &[0.5, 0.3, 0.8]), min_height: *ch.pick(S_CFG, &[1usize, 0, 2]) };
        let ((la, na), (lb, nb)) = (build(&a, hash_attrs), build(&b, hash_attrs));
        let same = a == b;
        obs.log(|| format!("{depth} levels ({na} and {nb} nodes), {kinds} kinds, side texts {p_side} %, pattern of {period}, {shifted} levels more or less, same={same}"));
        let bound = work_bound(na, nb);
        let what = format!("documents of {depth} nested levels, {na} and {nb} nodes");
        let r = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, || {
                    simcore::hashseed::set_thread_seed(hs);
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let h = Budget::new(bound);
                        let o = diff(&la, &lb, &mc, Via::View, &h);
                        (o, h.n.get())
                    }))
                    .map_err(|p| simcore::runner::panic_text(&p))
                })
                .expect("spawn")
                .join()
                .unwrap()
        });
        let (o, steps) = match r {
            Ok(x) => x,
            Err(m) if m.contains(BUDGET_PANIC) => return Err(Violation::new("work:bound", format!("more than {bound} callbacks for {what}"))),
            Err(m) => return Err(Violation::new("panic:diff", format!("{m} for {what}"))),
        };
        obs.nontrivial = true;
        obs.add("steps", steps);
        obs.sim_time = steps;
        obs.count("oracle.deep");
        obs.state(mix(mix(na as u64, nb as u64), steps));
        obs.sample = Some(format!("{what}: {steps} callbacks, {} operations", o.ops.len()));
        if same && a.iter().all(|l| !l.opaque) && (!o.ops.is_empty() || o.m.len() != na) {
            return Err(Violation::new("work:deep-equal", format!("{} operations and {} of {na} nodes paired between two equal {what}", o.ops.len(), o.m.len())));
        }
        Ok(())
    }
}
