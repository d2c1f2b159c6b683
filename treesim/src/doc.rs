//! The author's documents: a plain tree of uid-named nodes, random generation and edits.
use simcore::choices::*;
use simcore::{mix, Choices};
use std::collections::BTreeMap;
use std::fmt::Write;

pub const TEXT: u8 = 0;
pub const COMMENT: u8 = 1;
pub const FIRST_EL: u8 = 2;
/// Kind of every document's root (like `body`): used nowhere else.
pub const ROOT: u8 = 60;
/// Elements of this kind carry a text of their own besides their children.
pub const LABELLED: u8 = 30;
pub fn has_text(tag: u8) -> bool {
    tag < FIRST_EL || tag == LABELLED
}

#[derive(Clone, Debug, PartialEq)]
pub struct DNode {
    pub tag: u8,
    pub attrs: Vec<(u8, u8)>,
    pub text: u16,
    pub opaque: bool,
    pub kids: Vec<u32>,
    pub parent: Option<u32>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    /// does the structural hash cover attributes (and opacity)? hotmeal's does not
    pub hash_attrs: bool,
    pub nodes: BTreeMap<u32, DNode>,
    pub root: u32,
    pub next: u32,
}

/// Shape parameters, drawn per run (swarm).
#[derive(Clone, Debug)]
pub struct DocCfg {
    pub size: usize,
    pub tags: u8,
    pub attr_keys: u8,
    pub attr_vals: u8,
    pub texts: u16,
    pub max_kids: usize,
    pub p_leaf: u64,   // of 100
    pub p_opaque: u64, // of 100
    pub dup: u64,      // chance (of 100) that a new subtree copies an existing one
    pub deep: bool,
    /// the root's kind also occurs below it
    pub common_root: bool,
    /// elements of the first kind carry a text
    pub labels: bool,
}
impl DocCfg {
    pub fn draw(ch: &mut Choices, max_size: usize) -> DocCfg {
        let large = max_size > 40;
        let size = if large { [60usize, 100, 160, 260, 400][ch.idx(S_CFG, 5)].min(max_size) } else { 1 + [3usize, 6, 10, 16, 24, 40][ch.idx(S_CFG, 6)].min(max_size) };
        DocCfg {
            size,
            tags: ch.range(S_CFG, 1, 5) as u8,
            attr_keys: ch.range(S_CFG, 0, 4) as u8,
            attr_vals: ch.range(S_CFG, 1, 4) as u8,
            texts: *ch.pick(S_CFG, &[2u16, 4, 30, 1000]),
            max_kids: *ch.pick(S_CFG, if large { &[2usize, 4, 30, 400] } else { &[2usize, 3, 5, 9] }),
            p_leaf: *ch.pick(S_CFG, &[30u64, 45, 60]),
            p_opaque: *ch.pick(S_CFG, &[0u64, 0, 5, 15]),
            dup: *ch.pick(S_CFG, &[0u64, 10, 40]),
            deep: ch.chance(S_CFG, 1, 5),
            common_root: ch.chance(S_CFG, 1, 4),
            labels: ch.chance(S_CFG, 1, 5),
        }
    }
    fn el_tag(&self, ch: &mut Choices, s: usize) -> u8 {
        match ch.draw(s, self.tags as u64) as u8 {
            0 if self.labels => LABELLED,
            t => FIRST_EL + t,
        }
    }
    pub fn describe(&self) -> String {
        format!("size~{} tags={} attrs={}x{} texts={} kids<={} leaf%={} opaque%={} dup%={}{}", self.size, self.tags, self.attr_keys, self.attr_vals, self.texts, self.max_kids, self.p_leaf, self.p_opaque, self.dup, if self.deep { " deep" } else { "" }) + if self.labels { " labels" } else { "" }
    }
}

impl Doc {
    pub fn new_root(tag: u8) -> Doc {
        let mut nodes = BTreeMap::new();
        nodes.insert(0, DNode { tag, attrs: vec![], text: 0, opaque: false, kids: vec![], parent: None });
        Doc { hash_attrs: false, nodes, root: 0, next: 1 }
    }
    pub fn generate(ch: &mut Choices, s: usize, cfg: &DocCfg) -> Doc {
        let mut d = Doc::new_root(if cfg.common_root { FIRST_EL } else { ROOT });
        let n = ch.range(s, 1, cfg.size as u64);
        let mut guard = 0;
        while (d.nodes.len() as u64) < n && guard < 4 * n + 8 {
            guard += 1;
            d.grow(ch, s, cfg);
        }
        d
    }
    /// A new document whose uids start at `next`.
    pub fn generate_from(ch: &mut Choices, s: usize, cfg: &DocCfg, next: u32) -> Doc {
        let mut d = Doc::new_root(if cfg.common_root { FIRST_EL } else { ROOT });
        d.next = next.max(1);
        let n = ch.range(s, 1, cfg.size as u64);
        let mut guard = 0;
        while (d.nodes.len() as u64) < n && guard < 4 * n + 8 {
            guard += 1;
            d.grow(ch, s, cfg);
        }
        d
    }
    /// Every text is distinct and every element contains a text, so no two subtrees are equal.
    pub fn make_unique(&mut self, next_text: &mut u16) {
        self.make_unique_missing(next_text);
        for u in self.preorder() {
            if has_text(self.nodes[&u].tag) {
                self.nodes.get_mut(&u).unwrap().text = *next_text;
                *next_text += 1;
            }
        }
    }
    /// Every element gets an attribute of its own (and loses those that copies brought along).
    pub fn key(&mut self) {
        for u in self.elements() {
            let n = self.nodes.get_mut(&u).unwrap();
            let k = 10 + (u % 240) as u8;
            n.attrs.retain(|a| a.0 < 10);
            n.attrs.push((k, 0));
        }
    }
    /// New and copied texts get values of their own.
    pub fn unique_texts(&mut self, next_text: &mut u16) {
        let mut seen = std::collections::BTreeSet::new();
        for u in self.preorder() {
            let n = self.nodes.get_mut(&u).unwrap();
            if has_text(n.tag) && (n.text < 2000 || !seen.insert(n.text)) {
                n.text = *next_text;
                *next_text = next_text.wrapping_add(1).max(2000);
            }
        }
    }
    pub fn make_unique_missing(&mut self, next_text: &mut u16) {
        for u in self.elements() {
            if self.nodes[&u].kids.is_empty() {
                let v = self.next;
                self.next += 1;
                self.nodes.insert(v, DNode { tag: TEXT, attrs: vec![], text: *next_text, opaque: false, kids: vec![], parent: None });
                *next_text += 1;
                self.attach(u, 0, v);
            }
        }
    }
    /// Adds one node (or a copy of a subtree) at a random place.
    pub fn grow(&mut self, ch: &mut Choices, s: usize, cfg: &DocCfg) {
        let holders = self.elements();
        let p = if cfg.deep {
            let k = holders.len();
            holders[k - 1 - ch.idx(s, k.min(3))]
        } else {
            *ch.pick(s, &holders)
        };
        if self.nodes[&p].kids.len() >= cfg.max_kids {
            return;
        }
        let pos = self.nodes[&p].kids.len() - ch.idx(s, self.nodes[&p].kids.len() + 1);
        if cfg.dup > 0 && ch.chance(s, cfg.dup, 100) && self.nodes.len() < cfg.size.max(60) {
            let all = self.preorder();
            let src = *ch.pick(s, &all);
            if src != self.root && self.size(src) <= 12 {
                let c = self.copy_subtree(src);
                self.attach(p, pos, c);
                return;
            }
        }
        let u = self.fresh(ch, s, cfg);
        self.attach(p, pos, u);
    }
    pub fn fresh(&mut self, ch: &mut Choices, s: usize, cfg: &DocCfg) -> u32 {
        let u = self.next;
        self.next += 1;
        let leaf = ch.chance(s, cfg.p_leaf, 100);
        let node = if leaf {
            let tag = if ch.chance(s, 1, 8) { COMMENT } else { TEXT };
            DNode { tag, attrs: vec![], text: ch.draw(s, cfg.texts as u64) as u16, opaque: false, kids: vec![], parent: None }
        } else {
            let tag = cfg.el_tag(ch, s);
            let mut attrs = vec![];
            for k in 0..cfg.attr_keys {
                if ch.chance(s, 1, 3) {
                    attrs.push((k, ch.draw(s, cfg.attr_vals as u64) as u8));
                }
            }
            let opaque = cfg.p_opaque > 0 && ch.chance(s, cfg.p_opaque, 100);
            DNode { tag, attrs, text: if has_text(tag) { ch.draw(s, cfg.texts as u64) as u16 } else { 0 }, opaque, kids: vec![], parent: None }
        };
        self.nodes.insert(u, node);
        u
    }
    /// Many new siblings at once, at one place.
    pub fn flood(&mut self, ch: &mut Choices, s: usize, cfg: &DocCfg) -> String {
        let hs: Vec<u32> = self.elements().into_iter().filter(|&u| !self.nodes[&u].opaque && !self.inside_opaque(u)).collect();
        if hs.is_empty() {
            return "nop".into();
        }
        let p = *ch.pick(s, &hs);
        let pos = ch.idx(s, self.nodes[&p].kids.len() + 1);
        let n = *ch.pick(s, &[17u64, 33, 70, 110]);
        let leaves = ch.chance(s, 2, 3);
        let same = ch.chance(s, 1, 4);
        let tag = if leaves { [TEXT, TEXT, COMMENT][ch.idx(s, 3)] } else { FIRST_EL + ch.draw(s, cfg.tags as u64) as u8 };
        let mut attrs = vec![];
        for k in 0..cfg.attr_keys {
            if !leaves && ch.chance(s, 1, 2) {
                attrs.push((k, ch.draw(s, cfg.attr_vals as u64) as u8));
            }
        }
        let t0 = ch.draw(s, 30000) as u16;
        for i in 0..n {
            let u = self.next;
            self.next += 1;
            let text = if has_text(tag) { t0 + if same { 0 } else { i as u16 } } else { 0 };
            self.nodes.insert(u, DNode { tag, attrs: attrs.clone(), text, opaque: false, kids: vec![], parent: None });
            self.attach(p, pos, u);
        }
        format!("{n} new children of #{p}@{pos}")
    }
    /// Draws the attributes of the elements anew, and which are opaque.
    pub fn repaint(&mut self, ch: &mut Choices, s: usize, cfg: &DocCfg) {
        for u in self.elements() {
            if ch.chance(s, 1, 3) {
                continue;
            }
            let n = self.nodes.get_mut(&u).unwrap();
            n.attrs.clear();
            for k in 0..cfg.attr_keys {
                if ch.chance(s, 1, 2) {
                    n.attrs.push((k, ch.draw(s, cfg.attr_vals as u64) as u8));
                }
            }
            if cfg.p_opaque > 0 && ch.chance(s, cfg.p_opaque, 100) && u != self.root {
                n.opaque = !n.opaque;
            }
        }
    }
    pub fn attach(&mut self, p: u32, pos: usize, u: u32) {
        let k = &mut self.nodes.get_mut(&p).unwrap().kids;
        let pos = pos.min(k.len());
        k.insert(pos, u);
        self.nodes.get_mut(&u).unwrap().parent = Some(p);
    }
    pub fn detach(&mut self, u: u32) {
        if let Some(p) = self.nodes[&u].parent {
            self.nodes.get_mut(&p).unwrap().kids.retain(|&x| x != u);
            self.nodes.get_mut(&u).unwrap().parent = None;
        }
    }
    pub fn remove(&mut self, u: u32) {
        self.detach(u);
        for x in self.subtree(u) {
            self.nodes.remove(&x);
        }
    }
    pub fn copy_subtree(&mut self, u: u32) -> u32 {
        let n = self.nodes[&u].clone();
        let c = self.next;
        self.next += 1;
        self.nodes.insert(c, DNode { kids: vec![], parent: None, ..n.clone() });
        for k in n.kids {
            let kc = self.copy_subtree(k);
            let l = self.nodes[&c].kids.len();
            self.attach(c, l, kc);
        }
        c
    }
    pub fn subtree(&self, u: u32) -> Vec<u32> {
        let mut out = vec![];
        let mut st = vec![u];
        while let Some(x) = st.pop() {
            out.push(x);
            st.extend(self.nodes[&x].kids.iter().rev());
        }
        out
    }
    pub fn preorder(&self) -> Vec<u32> {
        self.subtree(self.root)
    }
    pub fn size(&self, u: u32) -> usize {
        self.subtree(u).len()
    }
    pub fn elements(&self) -> Vec<u32> {
        self.preorder().into_iter().filter(|u| self.nodes[u].tag >= FIRST_EL).collect()
    }
    pub fn is_under(&self, u: u32, anc: u32) -> bool {
        let mut c = Some(u);
        while let Some(x) = c {
            if x == anc {
                return true;
            }
            c = self.nodes[&x].parent;
        }
        false
    }
    pub fn pos(&self, u: u32) -> usize {
        self.nodes[&u].parent.map(|p| self.nodes[&p].kids.iter().position(|&x| x == u).unwrap()).unwrap_or(0)
    }
    /// strict descendant of an opaque node
    pub fn inside_opaque(&self, u: u32) -> bool {
        let mut c = self.nodes[&u].parent;
        while let Some(x) = c {
            if self.nodes[&x].opaque {
                return true;
            }
            c = self.nodes[&x].parent;
        }
        false
    }
    /// The structural hash handed to the code under test.
    pub fn hash(&self, u: u32) -> u64 {
        self.h(u, false)
    }
    fn h(&self, u: u32, full: bool) -> u64 {
        let n = &self.nodes[&u];
        let mut h = mix(0x51ed, n.tag as u64 | (n.text as u64) << 16);
        if self.hash_attrs || full {
            h = mix(h, n.opaque as u64);
            for (k, v) in &n.attrs {
                h = mix(h, 1000 + *k as u64 * 256 + *v as u64);
            }
        }
        h = mix(h, 77);
        for k in &n.kids {
            h = mix(h, self.h(*k, full));
        }
        h
    }
    pub fn digest(&self) -> u64 {
        self.h(self.root, true)
    }
    pub fn digest_of(&self, u: u32) -> u64 {
        self.h(u, true)
    }
    pub fn show(&self, u: u32, uids: bool) -> String {
        let mut s = String::new();
        self.w(u, uids, &mut s);
        s
    }
    fn w(&self, u: u32, uids: bool, o: &mut String) {
        let n = &self.nodes[&u];
        match n.tag {
            TEXT => {
                let _ = write!(o, "'t{}'", n.text);
            }
            COMMENT => {
                let _ = write!(o, "<!c{}>", n.text);
            }
            t => {
                o.push(if t == LABELLED { 'L' } else { (b'a' + t - FIRST_EL) as char });
                if has_text(t) {
                    let _ = write!(o, "'t{}'", n.text);
                }
                if n.opaque {
                    o.push('*');
                }
                if !n.attrs.is_empty() {
                    o.push('[');
                    for (i, (k, v)) in n.attrs.iter().enumerate() {
                        if i > 0 {
                            o.push(' ');
                        }
                        let _ = write!(o, "k{k}={v}");
                    }
                    o.push(']');
                }
            }
        }
        if uids {
            let _ = write!(o, "#{u}");
        }
        if !n.kids.is_empty() {
            o.push('(');
            for (i, k) in n.kids.iter().enumerate() {
                if i > 0 {
                    o.push(' ');
                }
                self.w(*k, uids, o);
            }
            o.push(')');
        }
    }
    /// One author edit. Returns a description.
    pub fn edit(&mut self, ch: &mut Choices, s: usize, cfg: &DocCfg, mix_w: &[u64; 9]) -> String {
        let all = self.preorder();
        let nonroot: Vec<u32> = all.iter().copied().filter(|&u| u != self.root).collect();
        let kind = ch.weighted(s, mix_w);
        match kind {
            // change a text
            0 => {
                let ts: Vec<u32> = all.iter().copied().filter(|u| has_text(self.nodes[u].tag)).collect();
                if ts.is_empty() {
                    self.grow(ch, s, cfg);
                    return "grow".into();
                }
                let u = *ch.pick(s, &ts);
                let t = ch.draw(s, cfg.texts as u64 + 1) as u16;
                self.nodes.get_mut(&u).unwrap().text = t;
                format!("text #{u}={t}")
            }
            // insert
            1 => {
                let k = ch.range(s, 1, 3);
                for _ in 0..k {
                    self.grow(ch, s, cfg);
                }
                format!("grow x{k}")
            }
            // delete subtree
            2 => {
                if nonroot.is_empty() {
                    return "nop".into();
                }
                let u = *ch.pick(s, &nonroot);
                self.remove(u);
                format!("remove #{u}")
            }
            // move subtree
            3 => {
                if nonroot.is_empty() {
                    return "nop".into();
                }
                let u = *ch.pick(s, &nonroot);
                let hs: Vec<u32> = self.elements().into_iter().filter(|&h| !self.is_under(h, u)).collect();
                let p = *ch.pick(s, &hs);
                self.detach(u);
                let pos = ch.idx(s, self.nodes[&p].kids.len() + 1);
                self.attach(p, pos, u);
                format!("move #{u} -> #{p}@{pos}")
            }
            // attributes
            4 => {
                let es = self.elements();
                let u = *ch.pick(s, &es);
                let n = self.nodes.get_mut(&u).unwrap();
                let k = ch.draw(s, cfg.attr_keys.max(1) as u64) as u8;
                let what = ch.draw(s, 4);
                if let Some(i) = n.attrs.iter().position(|a| a.0 == k) {
                    match what {
                        0 => {
                            n.attrs.remove(i);
                        }
                        1 => {
                            let a = n.attrs.remove(i);
                            n.attrs.push(a);
                        }
                        _ => n.attrs[i].1 = ch.draw(s, cfg.attr_vals as u64 + 1) as u8,
                    }
                } else {
                    let v = ch.draw(s, cfg.attr_vals as u64) as u8;
                    n.attrs.push((k, v));
                }
                format!("attr #{u} k{k}")
            }
            // wrap / unwrap
            5 => {
                if nonroot.is_empty() {
                    return "nop".into();
                }
                let u = *ch.pick(s, &nonroot);
                if ch.chance(s, 1, 2) && self.nodes[&u].tag >= FIRST_EL && !self.nodes[&u].kids.is_empty() {
                    let p = self.nodes[&u].parent.unwrap();
                    let pos = self.pos(u);
                    let kids = self.nodes[&u].kids.clone();
                    for k in &kids {
                        self.detach(*k);
                    }
                    self.remove(u);
                    for (i, k) in kids.into_iter().enumerate() {
                        self.attach(p, pos + i, k);
                    }
                    format!("unwrap #{u}")
                } else {
                    let p = self.nodes[&u].parent.unwrap();
                    let pos = self.pos(u);
                    let w = self.next;
                    self.next += 1;
                    let tag = cfg.el_tag(ch, s);
                    self.nodes.insert(w, DNode { tag, attrs: vec![], text: 0, opaque: false, kids: vec![], parent: None });
                    self.detach(u);
                    self.attach(p, pos, w);
                    self.attach(w, 0, u);
                    format!("wrap #{u} in #{w}")
                }
            }
            // permute children
            6 => {
                let es: Vec<u32> = self.elements().into_iter().filter(|u| self.nodes[u].kids.len() > 1).collect();
                if es.is_empty() {
                    self.grow(ch, s, cfg);
                    return "grow".into();
                }
                let u = *ch.pick(s, &es);
                let mut k = self.nodes[&u].kids.clone();
                if ch.chance(s, 1, 2) {
                    ch.shuffle(s, &mut k);
                } else {
                    let r = 1 + ch.idx(s, k.len() - 1);
                    k.rotate_left(r);
                }
                self.nodes.get_mut(&u).unwrap().kids = k;
                format!("permute #{u}")
            }
            // swap two unrelated subtrees / invert parent and child
            7 => {
                if nonroot.len() < 2 {
                    return "nop".into();
                }
                let a = *ch.pick(s, &nonroot);
                let b = *ch.pick(s, &nonroot);
                if a != b && !self.is_under(a, b) && !self.is_under(b, a) {
                    let (pa, ia, pb, ib) = (self.nodes[&a].parent.unwrap(), self.pos(a), self.nodes[&b].parent.unwrap(), self.pos(b));
                    self.nodes.get_mut(&pa).unwrap().kids[ia] = b;
                    self.nodes.get_mut(&pb).unwrap().kids[ib] = a;
                    self.nodes.get_mut(&a).unwrap().parent = Some(pb);
                    self.nodes.get_mut(&b).unwrap().parent = Some(pa);
                    format!("swap #{a} #{b}")
                } else if a != b && self.is_under(b, a) && self.nodes[&b].tag >= FIRST_EL {
                    // move the ancestor under its own descendant
                    let p = self.nodes[&a].parent.unwrap();
                    let pos = self.pos(a);
                    self.detach(b);
                    self.detach(a);
                    self.attach(p, pos, b);
                    let at = ch.idx(s, self.nodes[&b].kids.len() + 1);
                    self.attach(b, at, a);
                    format!("invert #{a} #{b}")
                } else {
                    "nop".into()
                }
            }
            // retag / toggle opacity
            _ => {
                let es: Vec<u32> = self.elements().into_iter().filter(|&u| u != self.root).collect();
                if es.is_empty() {
                    return "nop".into();
                }
                let u = *ch.pick(s, &es);
                if cfg.p_opaque > 0 && ch.chance(s, 1, 2) {
                    let n = self.nodes.get_mut(&u).unwrap();
                    n.opaque = !n.opaque;
                    format!("opaque #{u}={}", n.opaque)
                } else {
                    let t = cfg.el_tag(ch, s);
                    let n = self.nodes.get_mut(&u).unwrap();
                    n.tag = t;
                    if !has_text(t) {
                        n.text = 0;
                    }
                    format!("retag #{u}")
                }
            }
        }
    }
}
