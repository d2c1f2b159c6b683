//! What the editor writes: HTML documents as trees, random edits of them, and their text form.
use simcore::Choices;

#[derive(Clone, Debug, PartialEq)]
pub enum N {
    El(El),
    Text(String),
    Comment(String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub tag: &'static str,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<N>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct PageDoc {
    pub title: String,
    pub head_extra: u8,
    pub body: El,
    pub style: Style,
    /// what stands around the body of a `Full` document
    pub pro: u8,
    pub ink: Ink,
}
/// How the author's tool writes.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Ink {
    /// leaves out end tags, nests badly, quotes as it likes
    pub sloppy: bool,
    /// ends lines with CR LF
    pub crlf: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    /// doctype, html, head and body tags
    Full,
    /// no head tag
    NoHead,
    /// only body content
    Bare,
}
/// What documents of this run may contain.
#[derive(Clone, Debug, Default)]
pub struct Feat {
    pub opaque: bool,
    pub opaque_rich: bool,
    pub svg: bool,
    pub exotic_attrs: bool,
    pub raw: bool,
    pub body_attrs: bool,
    pub comments: bool,
    pub same_words: bool,
    pub no_head_tag: bool,
    pub unicode: bool,
    pub pre: bool,
    pub max: usize,
    /// edits of attributes inside opaque elements
    pub opaque_attr_edits: bool,
    /// elements become opaque and cease to be
    pub opaque_toggle: bool,
    /// even the body
    pub opaque_body: bool,
    /// text and attribute edits in svg, several namespaces, MathML
    pub foreign: bool,
    /// elements whose content is text only to a browser that runs scripts
    pub raw_more: bool,
    /// words and values that look like character references
    pub refs: bool,
    pub tables: bool,
    pub templates: bool,
    /// comments, attributes and oddities before the body
    pub prologue: bool,
    pub ink: Ink,
}
impl Feat {
    /// The second half of the features.
    pub fn more(self, mut c: impl FnMut(u64, u64) -> bool) -> Feat {
        let wild = c(1, 2);
        let mut c = |n, d| wild & c(n, d);
        Feat {
            foreign: c(1, 3),
            raw_more: c(1, 4),
            refs: c(1, 3),
            tables: c(1, 3),
            templates: c(1, 4),
            prologue: c(1, 3),
            ink: Ink { sloppy: c(1, 3), crlf: c(1, 6) },
            ..self
        }
    }
}
const OPAQUE: &str = "data-hotmeal-opaque";
const REFS: &[&str] = &["use &lt; here", "&amp;", "&quot;x&quot;", "&copy 1", "a&b=c&lt", "&#60;i>", "&amp;lt;", "&notit; &nbsp;"];
const RAW_MORE: &[&str] = &["noscript", "iframe", "xmp", "noembed", "noframes"];
/// Prologues that leave the body tag out.
pub const PRO_NO_BODY: &[u8] = &[5, 6, 10, 12];
/// Prologues that leave the doctype out: the browser is in quirks mode.
pub const PRO_QUIRKS: &[u8] = &[4, 6];
const PROS: usize = 14;

const BLOCK: &[&str] = &["div", "ul", "section", "article", "header", "table-like", "blockquote"];
const INLINE: &[&str] = &["span", "b", "em", "a", "code", "i"];
const WORDS: &[&str] = &["alpha", "beta", "gamma", "delta", "one two", "x < y & z", "a", "\n  ", "it's \"q\""];
const UNI: &[&str] = &["héllo", "日本語", "🦀 crab", "e\u{301}", "nb\u{a0}sp"];
const ATTRS: &[&str] = &["class", "id", "title", "data-x", "href", "lang"];
const EXOTIC: &[&str] = &["@click", ":bind", "v-on:a.b", "[prop]", "(evt)", "#ref", "*if", "data-\u{e9}"];
const VALUES: &[&str] = &["1", "b", "", "a \"q\" & <t>", "c d", "long value with spaces"];

pub struct Gen<'c> {
    pub ch: &'c mut Choices,
    pub f: &'c Feat,
    pub s: usize,
    pub fresh: &'c mut u32,
}
impl Gen<'_> {
    fn c(&mut self, num: u64, den: u64) -> bool {
        self.ch.chance(self.s, num, den)
    }
    fn n(&mut self, n: usize) -> usize {
        self.ch.idx(self.s, n)
    }
    fn fresh(&mut self) -> u32 {
        *self.fresh += 1;
        *self.fresh
    }
    pub fn words(&mut self) -> String {
        if self.f.unicode && self.c(1, 4) {
            let k = self.n(UNI.len());
            return UNI[k].into();
        }
        if self.f.refs && self.c(1, 3) {
            let k = self.n(REFS.len());
            return REFS[k].into();
        }
        let k = self.n(WORDS.len());
        if self.f.same_words || self.c(1, 4) { WORDS[k].into() } else { format!("{} {}", WORDS[k], self.fresh()) }
    }
    fn attrs(&mut self, max: usize) -> Vec<(String, String)> {
        let mut out: Vec<(String, String)> = vec![];
        let n = self.n(max + 1);
        for _ in 0..n {
            let name = self.attr_name();
            if out.iter().all(|a| a.0 != name) {
                let v = self.value();
                out.push((name, v))
            }
        }
        out
    }
    fn attr_name(&mut self) -> String {
        if self.f.exotic_attrs && self.c(1, 3) {
            let k = self.n(EXOTIC.len());
            return EXOTIC[k].into();
        }
        let k = self.n(ATTRS.len());
        ATTRS[k].into()
    }
    fn value(&mut self) -> String {
        if self.f.refs && self.c(1, 3) {
            let k = self.n(REFS.len());
            return REFS[k].into();
        }
        let k = self.n(VALUES.len());
        VALUES[k].into()
    }
    /// `ctx`: 0 block content, 1 list content, 2 phrasing content
    pub fn node(&mut self, ctx: u8, budget: &mut usize, depth: usize) -> N {
        *budget = budget.saturating_sub(1);
        if ctx == 1 {
            let attrs = self.attrs(1);
            return N::El(El { tag: "li", attrs, kids: self.kids(0, budget, depth + 1) });
        }
        let roll = self.n(20);
        if roll < 6 || depth > 6 {
            return N::Text(self.words());
        }
        if roll == 6 && self.f.comments {
            return N::Comment(format!(" c{} ", self.n(4)));
        }
        if roll == 7 {
            let k = self.n(4);
            let tag = ["br", "img", "input", "hr"][if ctx == 2 && k == 3 { 0 } else { k }];
            return N::El(El { tag, attrs: self.attrs(2), kids: vec![] });
        }
        if roll == 8 && self.f.svg {
            return self.svg(budget);
        }
        if roll == 9 && self.f.raw_more && self.c(2, 3) {
            let tag = RAW_MORE[self.n(RAW_MORE.len())];
            let t = ["plain", "<b>x</b> & y", "a < b &amp;&amp; c", "<!-- c --><p>", "  "][self.n(5)];
            return N::El(El { tag, attrs: self.attrs(1), kids: vec![N::Text(t.into())] });
        }
        if roll == 12 && self.f.foreign {
            return if self.c(1, 3) { self.math(budget) } else { self.svg(budget) };
        }
        if matches!(roll, 13 | 14) && self.f.tables && ctx == 0 && depth < 4 {
            return self.table(budget, depth);
        }
        if roll == 15 && self.f.templates && depth < 4 {
            let attrs = self.attrs(1);
            let inner = if ctx == 0 { 0 } else { 2 };
            return N::El(El { tag: "template", attrs, kids: self.kids(inner, budget, depth + 1) });
        }
        if roll == 9 && self.f.raw {
            let tag = ["script", "style", "textarea"][self.n(3)];
            let t = match tag {
                "textarea" => self.words(),
                _ => format!("a{} > b && c < \"d\";", self.n(5)),
            };
            return N::El(El { tag, attrs: self.attrs(1), kids: vec![N::Text(t)] });
        }
        if (roll == 10 || self.f.opaque_rich && (11..14).contains(&roll)) && self.f.opaque && ctx == 0 {
            return self.opaque(budget, depth);
        }
        if roll == 11 && self.f.pre && ctx == 0 {
            let t = self.words();
            return N::El(El { tag: "pre", attrs: self.attrs(1), kids: vec![N::Text(t)] });
        }
        if ctx == 2 || roll < 13 {
            let k = self.n(INLINE.len());
            let attrs = self.attrs(2);
            // nested anchors would be taken apart by a parser
            return N::El(El { tag: INLINE[k], attrs, kids: self.kids(if INLINE[k] == "a" { 3 } else { 2 }, budget, depth + 1) });
        }
        if roll < 16 {
            let attrs = self.attrs(2);
            return N::El(El { tag: "p", attrs, kids: self.kids(2, budget, depth + 1) });
        }
        let k = self.n(BLOCK.len());
        let attrs = self.attrs(2);
        match BLOCK[k] {
            "table-like" => N::El(El { tag: "dl", attrs, kids: self.kids(0, budget, depth + 1) }),
            "ul" => N::El(El { tag: "ul", attrs, kids: self.kids(1, budget, depth + 1) }),
            t => N::El(El { tag: t, attrs, kids: self.kids(0, budget, depth + 1) }),
        }
    }
    /// Keys are the author's: any text, the empty one too (`tidy` keeps that one unique).
    fn key(&mut self) -> String {
        match self.n(8) {
            0 => String::new(),
            1 => format!("k {} \"q\" & <\u{e9}>", self.fresh()),
            _ => format!("k{}", self.fresh()),
        }
    }
    fn opaque(&mut self, budget: &mut usize, depth: usize) -> N {
        let key = self.key();
        let mut attrs = vec![(OPAQUE.to_string(), key)];
        attrs.extend(self.attrs(1));
        N::El(El { tag: ["div", "section", "figure"][self.n(3)], attrs, kids: self.kids(0, budget, depth + 1) })
    }
    fn table(&mut self, budget: &mut usize, depth: usize) -> N {
        let attrs = self.attrs(1);
        let mut kids = vec![];
        if self.c(1, 4) {
            kids.push(N::El(El { tag: "caption", attrs: vec![], kids: self.kids(2, budget, depth + 2) }))
        }
        for _ in 0..1 + self.n(3) {
            if self.c(1, 10) {
                // a text here ends up in front of the table
                kids.push(N::Text(self.words()))
            }
            let mut row = El { tag: "tr", attrs: self.attrs(1), kids: vec![] };
            for _ in 0..self.n(4) {
                let tag = if self.c(1, 5) { "th" } else { "td" };
                row.kids.push(N::El(El { tag, attrs: vec![], kids: self.kids(0, budget, depth + 2) }))
            }
            let row = N::El(row);
            match kids.last_mut() {
                Some(N::El(b)) if b.tag == "tbody" && self.c(2, 3) => b.kids.push(row),
                _ => kids.push(N::El(El { tag: ["tbody", "tbody", "thead", "tfoot"][self.n(4)], attrs: vec![], kids: vec![row] })),
            }
        }
        N::El(El { tag: "table", attrs, kids })
    }
    fn math(&mut self, budget: &mut usize) -> N {
        let attrs = if self.c(1, 3) { vec![("display".to_string(), "block".to_string())] } else { vec![] };
        let n = self.n(4);
        let kids = (0..n).map(|_| self.math_inner(budget, 0)).collect();
        N::El(El { tag: "math", attrs, kids })
    }
    fn math_inner(&mut self, budget: &mut usize, depth: usize) -> N {
        *budget = budget.saturating_sub(1);
        let k = if depth < 2 { self.n(6) } else { self.n(3) };
        let tag = ["mi", "mo", "mn", "mrow", "mfrac", "mtext"][k];
        let mut attrs = vec![];
        if self.c(1, 4) {
            attrs.push((["definitionurl", "xlink:href", "class"][self.n(3)].to_string(), self.value()))
        }
        let kids = match tag {
            "mrow" | "mfrac" => (0..self.n(3)).map(|_| self.math_inner(budget, depth + 1)).collect(),
            "mtext" => (0..self.n(2)).map(|_| self.node(2, budget, 6)).collect(),
            _ => vec![N::Text(format!("x{}", self.n(4)))],
        };
        N::El(El { tag, attrs, kids })
    }
    fn svg(&mut self, budget: &mut usize) -> N {
        let mut attrs = vec![];
        if self.c(1, 2) {
            attrs.push(("viewBox".to_string(), format!("0 0 {} 8", self.n(9))));
        }
        if self.c(1, 4) {
            attrs.push(("class".to_string(), self.value()));
        }
        let n = self.n(4);
        let kids = (0..n).map(|_| self.svg_inner(budget, 0)).collect();
        N::El(El { tag: "svg", attrs, kids })
    }
    fn svg_inner(&mut self, budget: &mut usize, depth: usize) -> N {
        *budget = budget.saturating_sub(1);
        let k = self.n(if self.f.foreign { 12 } else { 6 });
        let tag = ["path", "g", "circle", "use", "linearGradient", "foreignObject", "use", "title", "desc", "text", "style", "g"][k];
        let mut attrs = vec![];
        if self.f.foreign {
            for name in ["id", "href", "xml:lang", "xlink:title", "fill"] {
                if self.c(1, 5) {
                    attrs.push((name.to_string(), self.value()))
                }
            }
        }
        if self.c(1, 2) {
            attrs.push((if tag == "use" { "xlink:href" } else { "d" }.to_string(), format!("#{}", self.n(9))));
        }
        let kids = match tag {
            "g" | "linearGradient" if depth < 2 => (0..self.n(3)).map(|_| self.svg_inner(budget, depth + 1)).collect(),
            "foreignObject" => (0..self.n(2)).map(|_| self.node(2, budget, 6)).collect(),
            "title" | "desc" | "text" => vec![N::Text(self.words())],
            "style" => vec![N::Text(["b{}", "a<b", "use &lt; here", "a > b"][self.n(4)].into())],
            _ => vec![],
        };
        N::El(El { tag, attrs, kids })
    }
    pub fn kids(&mut self, ctx: u8, budget: &mut usize, depth: usize) -> Vec<N> {
        let mut out = vec![];
        let n = self.n(if depth < 2 { 6 } else { 4 });
        for _ in 0..n {
            if *budget == 0 {
                break;
            }
            let k = self.node(if ctx == 3 { 2 } else { ctx }, budget, depth);
            if ctx == 3 && has_tag(&k, "a") {
                continue;
            }
            out.push(k)
        }
        out
    }
    pub fn doc(&mut self) -> PageDoc {
        let style = self.style();
        let mut budget = self.f.max;
        let attrs = if self.f.body_attrs && style == Style::Full { self.attrs(2) } else { vec![] };
        let n = self.ch.range(self.s, 0, 5) as usize;
        let mut kids = vec![];
        for _ in 0..n {
            kids.push(self.node(0, &mut budget, 0))
        }
        let pro = if self.f.prologue { self.n(PROS) as u8 } else { 0 };
        let mut d = PageDoc { title: format!("t{}", self.n(3)), head_extra: 0, body: El { tag: "body", attrs, kids }, style, pro, ink: self.f.ink };
        tidy(&mut d);
        d
    }
    fn style(&mut self) -> Style {
        if !self.f.no_head_tag {
            return Style::Full;
        }
        match self.n(3) {
            0 => Style::Full,
            1 => Style::NoHead,
            _ => Style::Bare,
        }
    }

    // ------------------------------------------------------------------ edits
    /// One edit of the body (never of the head).
    pub fn edit(&mut self, d: &mut PageDoc) {
        let mut budget = 12;
        let paths = paths(&d.body);
        match self.n(13) {
            0 => self.edit_text(d, &paths),
            1 => self.edit_attr(d, &paths),
            2 => {
                // insert
                let p = self.some_element(d, &paths);
                let at = {
                    let e = get_el(&mut d.body, &p).unwrap();
                    let l = e.kids.len() + 1;
                    self.ch.idx(self.s, l)
                };
                let ctx = content_ctx(get_el(&mut d.body, &p).unwrap().tag);
                let Some(ctx) = ctx else { return };
                let n = self.node(ctx, &mut budget, 2);
                get_el(&mut d.body, &p).unwrap().kids.insert(at, n);
            }
            3 => {
                // delete
                if let Some(p) = self.some_path(&paths) {
                    take(&mut d.body, &p);
                }
            }
            4 | 5 => {
                // move anywhere
                if let Some(p) = self.some_path(&paths)
                    && let Some(n) = take(&mut d.body, &p)
                {
                    let paths = self::paths(&d.body);
                    let q = self.some_element(d, &paths);
                    let e = get_el(&mut d.body, &q).unwrap();
                    let l = e.kids.len() + 1;
                    let at = self.ch.idx(self.s, l);
                    e.kids.insert(at, n);
                }
            }
            6 => {
                // child and parent change places
                if let Some(p) = self.some_path(&paths)
                    && p.len() >= 2
                {
                    swap_with_parent(&mut d.body, &p)
                }
            }
            7 => {
                // wrap
                if let Some(p) = self.some_path(&paths)
                    && let Some(n) = take(&mut d.body, &p)
                {
                    let k = self.n(3);
                    let w = N::El(El { tag: ["div", "section", "span"][k], attrs: self.attrs(1), kids: vec![n] });
                    put(&mut d.body, &p, w)
                }
            }
            8 => {
                // unwrap
                if let Some(p) = self.some_path(&paths)
                    && let Some(N::El(e)) = take(&mut d.body, &p)
                {
                    for k in e.kids.into_iter().rev() {
                        put(&mut d.body, &p, k)
                    }
                }
            }
            9 => {
                // shuffle the children of one element
                let p = self.some_element(d, &paths);
                let s = self.s;
                let e = get_el(&mut d.body, &p).unwrap();
                self.ch.shuffle(s, &mut e.kids)
            }
            10 => {
                // duplicate
                if let Some(p) = self.some_path(&paths) {
                    let n = get(&mut d.body, &p).cloned();
                    if let Some(mut n) = n {
                        rekey(&mut n, self.fresh);
                        put(&mut d.body, &p, n)
                    }
                }
            }
            11 => {
                if self.f.body_attrs {
                    let mut v = std::mem::take(&mut d.body.attrs);
                    self.edit_attrs(&mut v);
                    if !self.f.opaque_body {
                        v.retain(|a| a.0 != OPAQUE)
                    }
                    d.body.attrs = v
                } else {
                    self.edit_text(d, &paths)
                }
            }
            _ => {
                // replace an element by another kind of element with the same content
                let k = self.n(3);
                if let Some(p) = self.some_path(&paths)
                    && let Some(N::El(e)) = get(&mut d.body, &p)
                    && !matches!(e.tag, "li" | "pre" | "br" | "img" | "input" | "hr" | "template")
                    && !is_raw(e.tag)
                    && !in_table(e.tag)
                    && foreign(e.tag) == 0
                {
                    e.tag = ["div", "section", "article"][k]
                }
            }
        }
        if self.f.no_head_tag && self.c(1, 10) {
            d.style = self.style();
        }
        if self.f.prologue && self.c(1, 10) {
            d.pro = self.n(PROS) as u8;
        }
        tidy(d);
    }
    fn edit_text(&mut self, d: &mut PageDoc, paths: &[Vec<usize>]) {
        let w = self.words();
        let start = self.n(paths.len().max(1));
        for k in 0..paths.len() {
            let p = &paths[(start + k) % paths.len()];
            if let Some(N::Text(t)) = get(&mut d.body, p) {
                *t = w;
                return;
            }
        }
    }
    fn edit_attr(&mut self, d: &mut PageDoc, paths: &[Vec<usize>]) {
        let start = self.n(paths.len().max(1));
        for k in 0..paths.len() {
            let p = &paths[(start + k) % paths.len()];
            if let Some(N::El(e)) = get(&mut d.body, p)
                && (self.f.foreign || foreign(e.tag) == 0)
            {
                let f = foreign(e.tag);
                let mut v = std::mem::take(&mut e.attrs);
                if f == 0 { self.edit_attrs(&mut v) } else { self.edit_foreign_attrs(&mut v) }
                if let Some(N::El(e)) = get(&mut d.body, p) {
                    e.attrs = v
                }
                return;
            }
        }
    }
    fn edit_foreign_attrs(&mut self, v: &mut Vec<(String, String)>) {
        let k = self.n(7);
        let name = ["href", "xlink:href", "xml:lang", "xlink:title", "fill", "viewBox", "class"][k];
        let value = self.value();
        match v.iter().position(|a| a.0 == name) {
            Some(i) if self.c(1, 2) => drop(v.remove(i)),
            Some(i) => v[i].1 = value,
            None => v.push((name.into(), value)),
        }
    }
    fn edit_attrs(&mut self, v: &mut Vec<(String, String)>) {
        match self.n(if self.f.opaque_toggle { 5 } else { 4 }) {
            4 => {
match v.iter().position(|a| a.0 == OPAQUE) {
                    Some(i) => drop(v.remove(i)),
                    None => v.push((OPAQUE.into(), self.key())),
                }
            }
            0 => {
                let (name, value) = (self.attr_name(), self.value());
                match v.iter_mut().find(|a| a.0 == name) {
                    Some(a) => a.1 = value,
                    None => v.push((name, value)),
                }
            }
            1 if !v.is_empty() => {
                let k = self.n(v.len());
                if v[k].0 != OPAQUE || self.f.opaque_toggle {
                    v.remove(k);
                }
            }
            2 if !v.is_empty() => {
                let k = self.n(v.len());
                v[k].1 = if v[k].0 == OPAQUE { self.key() } else { self.value() }
            }
            _ if v.len() > 1 => {
                let k = self.n(v.len());
                let x = v.remove(k);
                v.push(x)
            }
            _ => {}
        }
    }
    fn some_path(&mut self, paths: &[Vec<usize>]) -> Option<Vec<usize>> {
        if paths.is_empty() {
            return None;
        }
        let k = self.n(paths.len());
        Some(paths[k].clone())
    }
    /// A path to an element that takes children; the body is the empty path.
    fn some_element(&mut self, d: &mut PageDoc, paths: &[Vec<usize>]) -> Vec<usize> {
        let k = self.n(paths.len() + 1);
        if k == 0 {
            return vec![];
        }
        let mut p = paths[k - 1].clone();
        loop {
            match get(&mut d.body, &p) {
                Some(N::El(e)) if content_ctx(e.tag).is_some() => return p,
                _ => {
                    p.pop();
                    if p.is_empty() {
                        return p;
                    }
                }
            }
        }
    }
    /// An edit strictly inside one opaque element. False when there is none.
    pub fn edit_opaque(&mut self, d: &mut PageDoc) -> bool {
        let all = paths(&d.body);
        let keys: Vec<Vec<usize>> = all.iter().filter(|p| matches!(get(&mut d.body, p), Some(N::El(e)) if is_opaque(e))).cloned().collect();
        if keys.is_empty() {
            return false;
        }
        let k = self.n(keys.len());
        let w = self.words();
        let (kind, attr) = (self.n(if self.f.opaque_attr_edits { 4 } else { 3 }), self.value());
        let mut budget = 4;
        let fresh = self.node(0, &mut budget, 4);
        let Some(N::El(e)) = get(&mut d.body, &keys[k]) else { return false };
        match kind {
            0 => e.kids.push(N::Text(w)),
            1 => e.kids.insert(0, fresh),
            2 => {
                e.kids.pop();
            }
            _ => match e.kids.iter_mut().find_map(|n| if let N::El(x) = n { Some(x) } else { None }) {
                Some(x) if foreign(x.tag) == 0 => x.attrs.push((format!("data-n{}", self.fresh), attr)),
                _ => e.kids.push(N::Text(w)),
            },
        }
        tidy(d);
        true
    }
}
pub fn is_opaque(e: &El) -> bool {
    e.attrs.iter().any(|a| a.0 == OPAQUE)
}
fn rekey(n: &mut N, fresh: &mut u32) {
    if let N::El(e) = n {
        for a in &mut e.attrs {
            if a.0 == OPAQUE {
                *fresh += 1;
                a.1 = format!("k{fresh}")
            }
        }
        for k in &mut e.kids {
            rekey(k, fresh)
        }
    }
}
/// 0 HTML, 1 SVG, 2 MathML; `title`, `style` and the like count where they stand.
fn foreign(tag: &str) -> u8 {
    match tag {
        "path" | "g" | "circle" | "use" | "linearGradient" | "foreignObject" | "svg" | "title" | "desc" | "text" => 1,
        "math" | "mi" | "mo" | "mn" | "mrow" | "mfrac" | "mtext" => 2,
        _ => 0,
    }
}
/// What its children are: an integration point holds HTML.
fn inside(tag: &str) -> u8 {
    match tag {
        "foreignObject" | "mtext" => 0,
        t => foreign(t),
    }
}
fn is_root(tag: &str) -> bool {
    matches!(tag, "svg" | "math")
}
fn is_raw(tag: &str) -> bool {
    matches!(tag, "script" | "style" | "textarea") || RAW_MORE.contains(&tag)
}
fn in_table(tag: &str) -> bool {
    matches!(tag, "table" | "caption" | "tbody" | "thead" | "tfoot" | "tr" | "td" | "th")
}
fn is_group(tag: &str) -> bool {
    matches!(tag, "tbody" | "thead" | "tfoot")
}
fn has_tag(n: &N, tag: &str) -> bool {
    match n {
        N::El(e) => e.tag == tag || e.kids.iter().any(|k| has_tag(k, tag)),
        _ => false,
    }
}
fn content_ctx(tag: &str) -> Option<u8> {
    match tag {
        "ul" => Some(1),
        "p" | "span" | "b" | "em" | "code" | "i" => Some(2),
        "a" => None,
        "pre" | "br" | "img" | "input" | "hr" => None,
        "table" | "tbody" | "thead" | "tfoot" | "tr" => None,
        "caption" => Some(2),
        t if foreign(t) > 0 || is_raw(t) => None,
        _ => Some(0),
    }
}
fn paths(e: &El) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn go(e: &El, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        for (i, k) in e.kids.iter().enumerate() {
            at.push(i);
            out.push(at.clone());
            if let N::El(c) = k
                && (foreign(c.tag) == 0 || is_root(c.tag))
                && !is_raw(c.tag)
            {
                go(c, at, out)
            }
            at.pop();
        }
    }
    go(e, &mut vec![], &mut out);
    out
}
fn get<'a>(e: &'a mut El, p: &[usize]) -> Option<&'a mut N> {
    let k = e.kids.get_mut(*p.first()?)?;
    if p.len() == 1 {
        return Some(k);
    }
    match k {
        N::El(c) => get(c, &p[1..]),
        _ => None,
    }
}
fn get_el<'a>(e: &'a mut El, p: &[usize]) -> Option<&'a mut El> {
    if p.is_empty() {
        return Some(e);
    }
    match get(e, p) {
        Some(N::El(c)) => Some(c),
        _ => None,
    }
}
fn take(e: &mut El, p: &[usize]) -> Option<N> {
    let parent = get_el(e, &p[..p.len() - 1])?;
    let i = p[p.len() - 1];
    (i < parent.kids.len()).then(|| parent.kids.remove(i))
}
fn put(e: &mut El, p: &[usize], n: N) {
    if let Some(parent) = get_el(e, &p[..p.len() - 1]) {
        let i = p[p.len() - 1].min(parent.kids.len());
        parent.kids.insert(i, n)
    }
}
fn swap_with_parent(body: &mut El, p: &[usize]) {
    let Some(N::El(mut child)) = take(body, p) else { return };
    let q = &p[..p.len() - 1];
    let Some(N::El(parent)) = take(body, q) else { return };
    if content_ctx(child.tag).is_none() {
        // cannot become a parent; keep both as siblings
        put(body, q, N::El(child));
        put(body, q, N::El(parent));
        return;
    }
    child.kids.push(N::El(parent));
    put(body, q, N::El(child));
}
/// Keeps documents inside what any parser leaves alone: no block in a paragraph, no anchor in an
/// anchor, list items only in lists, and no two neighbouring texts.
pub fn tidy(d: &mut PageDoc) {
    fn fix(e: &mut El, phrasing: bool, anchor: bool, template: bool) {
        let mut out: Vec<N> = vec![];
        let space = inside(e.tag);
        for k in std::mem::take(&mut e.kids) {
            let k = match k {
                N::Text(t) if t.is_empty() => continue,
                N::El(mut c) => {
                    let svg_style = c.tag == "style" && space == 1;
                    if foreign(c.tag) > 0 && !is_root(c.tag) && foreign(c.tag) != space {
                        c.tag = "span";
                        c.attrs.retain(|a| a.0 != "xlink:href");
                    }
                    if space > 0 && foreign(c.tag) != space && !svg_style {
                        continue;
                    }
                    if template {
                        c.attrs.retain(|a| a.0 != OPAQUE);
                    }
                    // parts of tables only where they belong, and nothing else there
                    let fits = match c.tag {
                        "td" | "th" => e.tag == "tr",
                        "tr" => is_group(e.tag),
                        "caption" => e.tag == "table",
                        t if is_group(t) => e.tag == "table",
                        _ => true,
                    };
                    if !fits {
                        c.tag = if phrasing { "span" } else { "div" };
                    }
                    let wrap = |c: El, tags: &[&'static str]| tags.iter().rev().fold(c, |c, t| El { tag: t, attrs: vec![], kids: vec![N::El(c)] });
                    match e.tag {
                        "table" if !is_group(c.tag) && c.tag != "caption" => c = wrap(c, &["tbody", "tr", "td"]),
                        "tr" if !matches!(c.tag, "td" | "th") => c = wrap(c, &["td"]),
                        t if is_group(t) && c.tag != "tr" => c = wrap(c, &["tr", "td"]),
                        _ => {}
                    }
                    if c.tag == "li" && e.tag != "ul" {
                        c.tag = if phrasing { "span" } else { "div" };
                    }
                    if e.tag == "ul" && c.tag != "li" {
                        c = El { tag: "li", attrs: vec![], kids: vec![N::El(c)] };
                    }
                    if c.tag == "a" && anchor {
                        c.tag = "span";
                    }
                    let block = matches!(c.tag, "div" | "section" | "article" | "header" | "blockquote" | "dl" | "ul" | "p" | "pre" | "hr" | "figure" | "li" | "table" | "xmp");
                    if phrasing && block && c.tag != "li" {
                        if matches!(c.tag, "hr" | "xmp") {
                            continue;
                        }
                        c.tag = "span";
                    }
                    // in a cell, anything again
                    let inner = phrasing && !matches!(c.tag, "td" | "th") || matches!(c.tag, "p" | "caption" | "foreignObject" | "mtext");
                    let a = anchor || c.tag == "a";
                    if svg_style || is_raw(c.tag) || c.tag == "pre" {
                        c.kids.retain(|k| matches!(k, N::Text(_)));
                        c.kids.truncate(1);
                        // the parser drops a newline right after these tags, and so does
                        // any serialisation of them
                        if matches!(c.tag, "pre" | "textarea") {
                            if let Some(N::Text(t)) = c.kids.first_mut() {
                                *t = t.trim_start_matches('\n').to_string();
                                if t.is_empty() {
                                    c.kids.clear()
                                }
                            }
                        }
                    } else {
                        let t = template || c.tag == "template";
                        fix(&mut c, inner, a, t)
                    }
                    N::El(c)
                }
                N::Text(t) if e.tag == "ul" => N::El(El { tag: "li", attrs: vec![], kids: vec![N::Text(t)] }),
                N::Text(_) | N::Comment(_) if matches!(e.tag, "svg" | "math" | "g" | "linearGradient" | "mrow" | "mfrac") => continue,
                N::Text(_) if e.tag == "tr" || is_group(e.tag) => continue,
                k => k,
            };
            // neighbouring texts would be one text after parsing
            if let (Some(N::Text(a)), N::Text(b)) = (out.last_mut(), &k) {
                a.push_str(b);
                continue;
            }
            out.push(k)
        }
        e.kids = out;
    }
    fix(&mut d.body, false, false, false);
    // no two opaque elements have the same key
    fn keys(e: &mut El, seen: &mut Vec<String>) {
        if let Some(a) = e.attrs.iter_mut().find(|a| a.0 == OPAQUE) {
            let mut n = 0;
            while seen.contains(&a.1) {
                n += 1;
                a.1 = format!("e{n}");
            }
            seen.push(a.1.clone())
        }
        for k in &mut e.kids {
            if let N::El(c) = k {
                keys(c, seen)
            }
        }
    }
    keys(&mut d.body, &mut vec![]);
    if d.style == Style::Full && PRO_NO_BODY.contains(&d.pro) {
        d.body.attrs.clear();
    }
    if d.style != Style::Full {
        d.body.attrs.clear();
        // what comes first would otherwise be read as part of the head, or trimmed
        while let Some(first) = d.body.kids.first() {
            match first {
                N::Text(t) if t.starts_with(|c: char| c.is_ascii_whitespace()) => {
                    d.body.kids.remove(0);
                }
                N::Comment(_) => {
                    d.body.kids.remove(0);
                }
                N::El(e) if matches!(e.tag, "script" | "style" | "noscript" | "noframes" | "template") => {
                    d.body.kids.remove(0);
                }
                _ => break,
            }
        }
    }
}
fn esc(s: &str, quotes: bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '"' if quotes => o.push_str("&quot;"),
            c => o.push(c),
        }
    }
    o
}
/// As people write it: escaped only where it would be misread otherwise, and sometimes needlessly.
fn sloppy_text(s: &str, h: u64) -> String {
    let mut o = String::new();
    let cs: Vec<char> = s.chars().collect();
    for (i, c) in cs.iter().enumerate() {
        let next = cs.get(i + 1);
        let r = h.rotate_left(i as u32 * 7) % 5;
        match c {
            '&' if next.is_some_and(|n| *n == ' ') && r < 3 => o.push('&'),
            '&' => o.push_str(["&amp;", "&#38;", "&AMP;", "&amp", "&#x26;"][if next.is_none_or(|n| n.is_ascii_alphanumeric() || matches!(n, ';' | '=')) { r as usize % 2 } else { r as usize }]),
            '<' if next.is_some_and(|n| *n == ' ') && r < 3 => o.push('<'),
            '<' => o.push_str(if r < 2 { "&lt;" } else { "&#60;" }),
            '\u{a0}' if r < 3 => o.push_str("&nbsp;"),
            '\u{e9}' if r < 2 => o.push_str("&#xE9;"),
            c => o.push(*c),
        }
    }
    o
}
struct Pen {
    o: String,
    ink: Ink,
    /// a `</p>` may be left out: the browser is not in quirks mode
    drop_p: bool,
}
impl Pen {
    fn node(&mut self, n: &N, parent: &str) {
        match n {
            N::Text(t) => {
                let raw = is_raw(parent) && parent != "textarea";
                let x = match (raw, self.ink.sloppy) {
                    (true, _) => t.clone(),
                    (_, true) => sloppy_text(t, simcore::fnv(t.as_bytes())),
                    _ => esc(t, false),
                };
                self.o.push_str(&x)
            }
            N::Comment(t) => {
                self.o.push_str("<!--");
                self.o.push_str(t);
                self.o.push_str("-->")
            }
            N::El(e) => {
                let (h, end) = self.element(e, parent);
                self.end(e, h, end)
            }
        }
    }
    /// Everything but the end tag; whether there is to be one.
    fn element(&mut self, e: &El, parent: &str) -> (u64, bool) {
        // the same element is written the same way in every revision
        let h = simcore::fnv(format!("{}{:?}{}", e.tag, e.attrs, e.kids.len()).as_bytes());
        let h = h ^ (h >> 29);
        self.open(e, h);
        if matches!(e.tag, "br" | "img" | "input" | "hr") {
            return (h, false);
        }
        // the parser eats one newline here
        if matches!(e.tag, "pre" | "textarea") && matches!(e.kids.first(), Some(N::Text(t)) if t.starts_with('\n')) {
            self.o.push('\n')
        }
        let svg_style = e.tag == "style" && inside(parent) == 1;
        let me = if svg_style { "text" } else { e.tag };
        let (last, front) = match e.kids.split_last() {
            Some((N::El(l), f)) if self.ink.sloppy && formatting(e.tag) && formatting(l.tag) && h % 3 == 0 => (Some(l), f),
            _ => (None, &e.kids[..]),
        };
        for k in front {
            self.node(k, me)
        }
        if let Some(l) = last {
            // <b><i></b></i>
            let (lh, _) = self.element(l, me);
            self.end(e, h, true);
            self.end(l, lh, true);
            return (h, false);
        }
        let drop = self.ink.sloppy
            && match e.tag {
                "p" => self.drop_p && (h >> 16) % 3 == 0,
                "li" | "td" | "th" | "tr" | "tbody" | "thead" | "tfoot" => (h >> 16) % 3 == 0,
                t if formatting(t) => (h >> 16) % 8 == 0,
                _ => false,
            };
        (h, !drop)
    }
    fn end(&mut self, e: &El, h: u64, end: bool) {
        if end {
            self.o.push_str("</");
            if self.ink.sloppy && (h >> 5) % 4 == 0 && foreign(e.tag) == 0 {
                self.o.push_str(&e.tag.to_uppercase());
                self.o.push(' ')
            } else {
                self.o.push_str(e.tag);
            }
            self.o.push('>')
        }
        if self.ink.sloppy && (h >> 24) % 20 == 0 && foreign(e.tag) == 0 && !in_table(e.tag) && e.tag != "li" {
            self.o.push_str(["</b>", "</br>", "</i>", "</x-y>", "<body data-s=1 class=late>", "<HTML lang=fr data-s=2>", "<body data-t='2'>", "</b>"][(h >> 30) as usize % 8])
        }
    }
    fn open(&mut self, e: &El, h: u64) {
        let sloppy = self.ink.sloppy && foreign(e.tag) == 0;
        self.o.push('<');
        if sloppy && (h >> 7) % 5 == 0 { self.o.push_str(&e.tag.to_uppercase()) } else { self.o.push_str(e.tag) }
        for (k, v) in &e.attrs {
            self.o.push(' ');
            if sloppy && (h >> 9) % 6 == 0 { self.o.push_str(&k.to_uppercase()) } else { self.o.push_str(k) }
            let plain = !v.is_empty() && v.chars().all(|c| c.is_ascii_alphanumeric() || c == '#');
            match (h >> 11) % 4 {
                0 if sloppy && plain => {
                    self.o.push('=');
                    self.o.push_str(v)
                }
                1 if sloppy && v.is_empty() => {}
                2 if sloppy => {
                    self.o.push_str(" = '");
                    self.o.push_str(&esc(v, false).replace('\'', "&#39;"));
                    self.o.push('\'')
                }
                _ => {
                    self.o.push_str("=\"");
                    self.o.push_str(&esc(v, true));
                    self.o.push('"')
                }
            }
        }
        if sloppy && (h >> 13) % 7 == 0 {
            // comes too late to count
            if let Some(a) = e.attrs.first() {
                self.o.push_str(&format!(" {}=late", a.0))
            }
        }
        if sloppy && (h >> 17) % 3 == 0 && matches!(e.tag, "br" | "img" | "input" | "hr") {
            self.o.push_str(" /")
        }
        self.o.push('>')
    }
}
fn formatting(tag: &str) -> bool {
    matches!(tag, "b" | "i" | "em" | "a" | "code")
}
impl PageDoc {
    pub fn head(&self) -> String {
        let mut h = format!("<title>{}</title>", self.title);
        for k in 0..self.head_extra {
            h.push_str(&format!("<link rel=\"stylesheet\" href=\"s{k}.css\">"))
        }
        h
    }
    fn pen(&self) -> Pen {
        let quirks = match self.style {
            Style::Full => PRO_QUIRKS.contains(&self.pro),
            Style::NoHead => false,
            Style::Bare => true,
        };
        Pen { o: String::new(), ink: self.ink, drop_p: !quirks }
    }
    fn lines(&self, o: String) -> String {
        if self.ink.crlf { o.replace('\n', "\r\n") } else { o }
    }
    pub fn raw_inner(&self) -> String {
        let mut w = self.pen();
        for k in &self.body.kids {
            w.node(k, "body")
        }
        w.o
    }
    pub fn inner(&self) -> String {
        self.lines(self.raw_inner())
    }
    /// The same page in tidy spelling; failing that, an empty one.
    pub fn plainer(&mut self) {
        if self.ink.sloppy {
            self.ink.sloppy = false
        } else {
            self.body.kids.clear()
        }
    }
    /// A whole document around this body.
    pub fn around(&self, inner: &str) -> String {
        let head = self.head();
        let mut w = Pen { ink: Ink::default(), ..self.pen() };
        w.open(&self.body, 0);
        let body = w.o;
        let html = match self.pro {
            1 => format!("<!-- saved by K\u{212a}, \u{130}zmir --><!DOCTYPE html><html><head>{head}</head>{body}{inner}</body></html>"),
            2 => format!("<!DOCTYPE html>\n<!-- \u{130}\u{130}\u{130}\u{130}\u{130}\u{130}\u{130}\u{130}\u{130} goes into <head> -->\n<html lang=\"en\">\n<head data-x=\"a>b\">\n{head}\n</head>\n{body}{inner}</body>\n</html>\n"),
            3 => format!("<!doctype HTML><HTML LANG=en><HEAD\n>{head}</HEAD>{body}{inner}</BODY></HTML>"),
            4 => format!("<html><head>{head}</head>{body}{inner}</body></html>"),
            5 => format!("<!DOCTYPE html><head>{head}</head>{inner}"),
            6 => format!("<head>{head}</head>{inner}"),
            7 => format!("<!DOCTYPE html><html><!-- <head> is next --><head class='a>b'>{head}</head><!-- c -->{body}{inner}</body></html><!-- the end -->"),
            8 => format!("\u{feff}<!DOCTYPE html><html><head>{head}</head>{body}{inner}</body></html>"),
            9 => format!("<!DOCTYPE html><html data-x=\"<head>\"><head>{head}</head>{body}{inner}</body></html>"),
            10 => format!("\n \n<!DOCTYPE html>\n{head}{inner}"),
            11 => format!("<?xml version=\"1.0\"?>\n<!-- c -->\n<!DOCTYPE html><html><head>{head}</head>{body}{inner}</body></html>"),
            12 => format!("<!-- c -->\n<!DOCTYPE html>\n{head}{inner}"),
            13 => format!("\n<!DOCTYPE html>{head}{body}{inner}"),
            _ => format!("<!DOCTYPE html><html><head>{head}</head>{body}{inner}</body></html>"),
        };
        self.lines(html)
    }
    pub fn html(&self) -> String {
        let inner = self.raw_inner();
        match self.style {
            Style::Full => self.around(&inner),
            Style::NoHead => self.lines(format!("<!DOCTYPE html><html><body>{inner}</body></html>")),
            Style::Bare => self.lines(inner),
        }
    }
    pub fn torn(&self, part: u64) -> String {
        let mut html = self.html();
        let from = self.may_tear_from();
        let mut k = from + (html.len() - from) * part as usize / 1000;
        while !html.is_char_boundary(k) {
            k -= 1
        }
        html.truncate(k);
        html
    }
    /// Where a file that is being written may be cut off for a reader: anywhere, except that what
    /// remains must not begin with a comment and nothing else (see DESIGN.md).
    fn may_tear_from(&self) -> usize {
        self.html().to_ascii_lowercase().find("<!doctype html>").map_or(0, |i| i + 15)
    }
    pub fn count(&self) -> usize {
        fn c(e: &El) -> usize {
            e.kids.iter().map(|k| if let N::El(x) = k { 1 + c(x) } else { 1 }).sum()
        }
        c(&self.body)
    }
}
