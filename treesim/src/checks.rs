//! Which scenarios decide which property.
use crate::deep::Deep;
use crate::session::*;
use crate::threads::Threads;
use simcore::{CheckSpec, Scenario};

const REAL: &[&str] = &["cinereus::compute_matching", "cinereus::generate_edit_script", "cinereus::diff_trees_with_matching", "cinereus::Tree / DiffTree (incl. trait defaults)", "indextree arenas (slot recycling)"];
const STUB: &[&str] = &["author, publisher session and subscriber documents", "network", "subscribers' journals (disk)", "virtual clock", "keys of std hash containers (getrandom seam)", "std clocks (clock_gettime seam)"];

fn s(name: &'static str, want: Want, edits: &'static [Edits], faults: bool) -> Session {
    Session { name, want, edits, faults, own: false, max_size: 40, force_opaque: false }
}
const ANY: &[Edits] = &[Edits::Any];
const LOCAL: &[Edits] = &[Edits::Texts, Edits::Attrs, Edits::Append, Edits::RemoveLast, Edits::Swap];
const ALL: &[Edits] = &[Edits::Any, Edits::Any, Edits::Texts, Edits::Attrs, Edits::Append, Edits::RemoveLast, Edits::Swap];

/// Every scenario runs this many times the number given with it.
const RUNS: u64 = 3;

pub fn spec(id: &str) -> Option<CheckSpec> {
    let mk = |property: &'static str, scenarios: Vec<(Box<dyn Scenario>, u64)>, rule: &'static str, assumptions: Vec<&'static str>| CheckSpec {
        property,
        scenarios: scenarios.into_iter().map(|(s, n)| (s, n * RUNS)).collect(),
        level: "exploration",
        rule,
        assumptions,
        real: REAL.to_vec(),
        stub: STUB.to_vec(),
        thorough_factor: 10,
    };
    let common = vec!["Seeded search over histories, schedules and faults: a sample, not an enumeration.", "Documents of up to about 60 nodes (about 400 in the -large scenarios), up to 8 revisions, up to 3 subscribers per run."];
    Some(match id {
        "C01" => mk(
            "C01",
            vec![
                (Box::new(s("replicate-calm", Want::Converge, ALL, false)), 12000),
                (Box::new(s("replicate-faults", Want::Converge, ALL, true)), 14000),
                (Box::new(Session { max_size: 400, ..s("replicate-large", Want::Converge, ALL, true) }), 800),
                (Box::new(Session { own: true, ..s("replicate-own-correspondence", Want::Converge, ANY, true) }), 5000),
            ],
            "a run counts when a subscriber completed a script between two different documents; distinct by the digest of its event and fault sequence",
            common,
        ),
        "C02" => mk(
            "C02",
            vec![
                (Box::new(s("correspond-calm", Want::Matching, ALL, false)), 10000),
                (Box::new(Session { max_size: 400, ..s("correspond-large", Want::Matching, ALL, false) }), 1200),
                (Box::new(Session { force_opaque: true, ..s("correspond-opaque", Want::Matching, ANY, false) }), 5000), (Box::new(s("correspond-faults", Want::Matching, ANY, true)), 8000)],
            "a run counts when at least one correspondence was computed and checked; distinct by the digest of its event and fault sequence",
            common,
        ),
        "C03" => mk(
            "C03",
            vec![
                (Box::new(s("quiet-calm", Want::Quiet, ALL, false)), 10000),
                (Box::new(Session { max_size: 400, ..s("quiet-large", Want::Quiet, ALL, false) }), 1200),
                (Box::new(Session { force_opaque: true, ..s("quiet-opaque", Want::Quiet, ANY, false) }), 5000), (Box::new(s("quiet-faults", Want::Quiet, ANY, true)), 8000)],
            "a run counts when two equal documents (same or different trees) were compared; distinct by the digest of its event and fault sequence",
            common,
        ),
        "C04" => mk(
            "C04",
            vec![
                (Box::new(s("economy-local-edits", Want::Economy, LOCAL, false)), 14000),
                (Box::new(Session { max_size: 400, ..s("economy-large", Want::Economy, ALL, false) }), 1200),
                (Box::new(s("economy-local-edits-faults", Want::Economy, LOCAL, true)), 8000), (Box::new(s("economy-any", Want::Economy, ANY, true)), 8000)],
            "a run counts when at least one script was checked; distinct by the digest of its event and fault sequence",
            common,
        ),
        "C05" => mk(
            "C05",
            vec![
                (Box::new(s("recompute-calm", Want::Deterministic, ALL, false)), 7000),
                (Box::new(s("recompute-faults", Want::Deterministic, ALL, true)), 9000),
                (Box::new(Session { max_size: 400, ..s("recompute-large", Want::Deterministic, ALL, false) }), 700),
                (Box::new(Threads { name: "recompute-alike", class: "determinism", aborts: false, nested: false, many: false, alike: true }), 3000),
                (Box::new(Threads { name: "recompute-threads", class: "determinism", aborts: false, nested: false, many: false, alike: false }), 3000),
            ],
            "a run counts when a script was computed at least twice in different environments (arena layout, recycled slots, process, hash keys, tree view, thread interleaving)",
            common,
        ),
        "C06" => mk(
            "C06",
            vec![
                (Box::new(Session { force_opaque: true, ..s("opaque-any", Want::Opaque, ANY, false) }), 10000),
                (Box::new(s("opaque-bystander", Want::Opaque, &[Edits::TextsBesideOpaque], false)), 6000),
                (Box::new(s("opaque-interior-only", Want::Opaque, &[Edits::OpaqueOnly], false)), 6000),
                (Box::new(Session { force_opaque: true, max_size: 400, ..s("opaque-large", Want::Opaque, &[Edits::Any, Edits::Any, Edits::TextsBesideOpaque], false) }), 1000),
                (Box::new(Session { force_opaque: true, ..s("opaque-faults", Want::Opaque, ANY, true) }), 7000),
            ],
            "a run counts when at least one script was checked; distinct by the digest of its event and fault sequence",
            common,
        ),
        "C07" => mk(
            "C07",
            vec![
                (Box::new(s("prefix-calm", Want::Prefix, ANY, false)), 8000),
                (Box::new(s("prefix-crashes", Want::Prefix, ALL, true)), 14000),
                (Box::new(Session { max_size: 400, ..s("prefix-large", Want::Prefix, ALL, true) }), 800),
                (Box::new(Session { own: true, ..s("prefix-own-correspondence", Want::Prefix, ANY, true) }), 5000),
            ],
            "a run counts when a subscriber completed a script between two different documents operation by operation; distinct by the digest of its event and fault sequence",
            common,
        ),
        "C08" => mk(
            "C08",
            vec![
                (Box::new(Threads { name: "threads", class: "isolation", aborts: false, nested: false, many: false, alike: false }), 3000),
                (Box::new(Threads { name: "threads-aborts-reentrant", class: "isolation", aborts: true, nested: true, many: false, alike: false }), 5000),
                (Box::new(Threads { name: "threads-alike", class: "isolation", aborts: true, nested: true, many: false, alike: true }), 3000),
                (Box::new(Threads { name: "threads-many-aborts", class: "isolation", aborts: true, nested: false, many: true, alike: false }), 160),
                (Box::new(s("inputs-untouched", Want::Inputs, ALL, true)), 6000),
            ],
            "a run counts when at least one thread switch happened inside a computation (thread scenarios) or an input was fingerprinted around a computation",
            common,
        ),
        "C09" => mk(
            "C09",
            vec![
                (Box::new(s("work-calm", Want::Work, ALL, false)), 8000),
                (Box::new(Session { max_size: 400, ..s("work-large", Want::Work, ALL, false) }), 1500),
                (Box::new(s("work-faults", Want::Work, ANY, true)), 6000),
                (Box::new(Deep), 400),
            ],
            "a run counts when at least one computation ran under its step budget; distinct by the digest of its event and fault sequence",
            common,
        ),
        "C17" => mk(
            "C17",
            vec![
                (Box::new(s("identity-keyed", Want::Identity, &[Edits::Keyed, Edits::KeyedUnique, Edits::KeyedUnique], false)), 14000),
                (Box::new(s("identity-any", Want::Identity, ALL, false)), 6000),
                (Box::new(Session { max_size: 400, ..s("identity-large", Want::Identity, &[Edits::Any, Edits::Keyed, Edits::KeyedUnique, Edits::KeyedUnique], false) }), 1200),
                (Box::new(Session { force_opaque: true, ..s("identity-opaque", Want::Identity, &[Edits::Any, Edits::KeyedUnique], false) }), 6000),
                (Box::new(s("identity-faults", Want::Identity, &[Edits::Keyed, Edits::KeyedUnique, Edits::Any], true)), 8000),
            ],
            "a run counts when some node of two different documents was owed its identity for its place, its content or its parent; distinct by the digest of its event and fault sequence",
            common,
        ),
        _ => return None,
    })
}
