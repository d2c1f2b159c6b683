use crate::tree_builder::*;
use crate::{Attribute, LocalName, Prefix, QualName, ns};
use tendril::{StrTendril, TendrilSink};

#[derive(Clone, Default)]
pub struct ParseOpts {
    pub tree_builder: TreeBuilderOpts,
}
pub struct Parser<S: TreeSink> {
    sink: S,
    context: Option<(QualName, Vec<Attribute>)>,
}
pub fn parse_document<S: TreeSink>(sink: S, _opts: ParseOpts) -> Parser<S> {
    Parser { sink, context: None }
}
pub fn parse_fragment<S: TreeSink>(sink: S, _opts: ParseOpts, context_name: QualName, context_attrs: Vec<Attribute>, _scripting: bool) -> Parser<S> {
    Parser { sink, context: Some((context_name, context_attrs)) }
}
impl<S: TreeSink> TendrilSink for Parser<S> {
    type Output = S::Output;
    fn one<T: Into<StrTendril>>(self, t: T) -> S::Output {
        let input = t.into();
        let mut b = Builder {
            sink: &self.sink,
            stack: vec![],
            fmt: vec![],
            mode: Mode::Initial,
            templates: vec![],
            html: None,
            head: None,
            form: None,
            foster: false,
            pending: vec![],
            context: None,
            quirks: false,
        };
        if let Some((name, attrs)) = self.context {
            let local = name.local.to_string();
            b.sink.create_element(name, attrs, ElementFlags { template: local == "template", ..Default::default() });
            let doc = b.sink.get_document();
            let html = b.sink.create_element(QualName::new(None, ns!(html), LocalName::from("html")), vec![], ElementFlags::default());
            b.sink.append(&doc, NodeOrText::AppendNode(html.clone()));
            b.html = Some(html.clone());
            b.push(html, vec![]);
            if local == "template" {
                b.templates.push(Mode::InTemplate);
            }
            b.context = Some(local);
            b.reset_mode();
        }
        tokenize(&input, &mut b);
        b.eof();
        self.sink.finish()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Initial,
    BeforeHtml,
    BeforeHead,
    InHead,
    AfterHead,
    InBody,
    InTable,
    InCaption,
    InColumnGroup,
    InTableBody,
    InRow,
    InCell,
    InTemplate,
    AfterBody,
    AfterAfterBody,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ns {
    Html,
    Svg,
    Math,
}
struct Open<H> {
    h: H,
    name: String,
    ns: Ns,
    attrs: Vec<Attribute>,
}
struct Fmt<H> {
    h: H,
    name: String,
    attrs: Vec<Attribute>,
}
struct Builder<'s, S: TreeSink> {
    sink: &'s S,
    stack: Vec<Open<S::Handle>>,
    /// active formatting elements; None is a marker
    fmt: Vec<Option<Fmt<S::Handle>>>,
    mode: Mode,
    templates: Vec<Mode>,
    html: Option<S::Handle>,
    head: Option<S::Handle>,
    form: Option<S::Handle>,
    foster: bool,
    /// characters met directly in a table
    pending: Vec<StrTendril>,
    context: Option<String>,
    /// no doctype came first
    quirks: bool,
}
enum Place<H> {
    Last(H),
    Table(H, H),
}
pub fn is_void(tag: &str) -> bool {
    matches!(tag, "area" | "base" | "br" | "col" | "embed" | "hr" | "img" | "input" | "link" | "meta" | "param" | "source" | "track" | "wbr")
}
fn in_head_tag(tag: &str) -> bool {
    matches!(tag, "base" | "basefont" | "bgsound" | "link" | "meta" | "title" | "script" | "style" | "noframes" | "template")
}
fn block(tag: &str) -> bool {
    matches!(
        tag,
        "address" | "article" | "aside" | "blockquote" | "center" | "details" | "dialog" | "dir" | "div" | "dl" | "fieldset" | "figcaption" | "figure" | "footer" | "header" | "hgroup" | "main" | "menu" | "nav" | "ol" | "p" | "search" | "section" | "summary" | "ul"
    )
}
fn heading(tag: &str) -> bool {
    matches!(tag, "h1" | "h2" | "h3" | "h4" | "h5" | "h6")
}
fn formatting(tag: &str) -> bool {
    matches!(tag, "a" | "b" | "big" | "code" | "em" | "font" | "i" | "nobr" | "s" | "small" | "strike" | "strong" | "tt" | "u")
}
fn breaks_out(tag: &str) -> bool {
    heading(tag)
        || matches!(
            tag,
            "b" | "big" | "blockquote" | "body" | "br" | "center" | "code" | "dd" | "div" | "dl" | "dt" | "em" | "embed" | "head" | "hr" | "i" | "img" | "li" | "listing" | "menu" | "meta" | "nobr" | "ol" | "p" | "pre" | "ruby" | "s" | "small" | "span" | "strong" | "strike" | "sub" | "sup" | "table" | "tt" | "u" | "ul" | "var"
        )
}
fn implied(tag: &str) -> bool {
    matches!(tag, "dd" | "dt" | "li" | "optgroup" | "option" | "p" | "rb" | "rp" | "rt" | "rtc")
}
fn special(name: &str, ns: Ns) -> bool {
    match ns {
        Ns::Html => {
            block(name) && name != "dialog"
                || heading(name)
                || is_void(name)
                || matches!(
                    name,
                    "applet" | "basefont" | "bgsound" | "body" | "button" | "caption" | "colgroup" | "dd" | "dt" | "form" | "frame" | "frameset" | "head" | "html" | "iframe" | "keygen" | "li" | "listing" | "marquee" | "noembed" | "noframes" | "noscript" | "object" | "plaintext" | "pre" | "script" | "select" | "style" | "table" | "tbody" | "td" | "template" | "textarea" | "tfoot" | "th" | "thead" | "title" | "tr" | "xmp"
                )
        }
        Ns::Svg => matches!(name, "foreignObject" | "desc" | "title"),
        Ns::Math => matches!(name, "mi" | "mo" | "mn" | "ms" | "mtext" | "annotation-xml"),
    }
}
fn default_scope(name: &str, ns: Ns) -> bool {
    match ns {
        Ns::Html => matches!(name, "applet" | "caption" | "html" | "table" | "td" | "th" | "marquee" | "object" | "template"),
        _ => special(name, ns),
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Scope {
    Default,
    List,
    Button,
    Table,
}
fn lead_ws(t: &StrTendril) -> usize {
    t.len() - t.trim_start_matches(|c: char| c.is_ascii_whitespace()).len()
}
fn cut(t: &StrTendril, at: usize) -> (StrTendril, StrTendril) {
    (t.subtendril(0, at as u32), t.subtendril(at as u32, (t.len() - at) as u32))
}
/// Raw text: what is read before the end tag is not markup.
#[derive(Clone, Copy, PartialEq)]
enum Raw {
    Text,
    Rcdata,
}

impl<S: TreeSink> Builder<'_, S> {
    // ------------------------------------------------------------------ stack
    fn push(&mut self, h: S::Handle, attrs: Vec<Attribute>) {
        let (name, ns) = {
            let n = self.sink.elem_name(&h);
            let ns = match &**n.ns() {
                "http://www.w3.org/2000/svg" => Ns::Svg,
                "http://www.w3.org/1998/Math/MathML" => Ns::Math,
                _ => Ns::Html,
            };
            (n.local_name().to_string(), ns)
        };
        self.stack.push(Open { h, name, ns, attrs })
    }
    fn pop(&mut self) -> Option<S::Handle> {
        let o = self.stack.pop()?;
        self.sink.pop(&o.h);
        Some(o.h)
    }
    fn cur(&self) -> &Open<S::Handle> {
        self.stack.last().expect("open elements")
    }
    fn cur_is(&self, tags: &[&str]) -> bool {
        self.stack.last().is_some_and(|o| o.ns == Ns::Html && tags.contains(&o.name.as_str()))
    }
    fn html_at(&self, i: usize, tag: &str) -> bool {
        self.stack[i].ns == Ns::Html && self.stack[i].name == tag
    }
    fn has(&self, tag: &str) -> bool {
        (0..self.stack.len()).any(|i| self.html_at(i, tag))
    }
    fn pop_until(&mut self, tags: &[&str]) {
        while let Some(o) = self.stack.last() {
            let hit = o.ns == Ns::Html && tags.contains(&o.name.as_str());
            if self.stack.len() == 1 && !hit {
                return;
            }
            self.pop();
            if hit {
                return;
            }
        }
    }
    fn pop_to_context(&mut self, tags: &[&str]) {
        while !self.cur_is(tags) && self.stack.len() > 1 {
            self.pop();
        }
    }
    fn in_scope(&self, tags: &[&str], scope: Scope) -> bool {
        for o in self.stack.iter().rev() {
            if o.ns == Ns::Html && tags.contains(&o.name.as_str()) {
                return true;
            }
            let stop = match scope {
                Scope::Table => o.ns == Ns::Html && matches!(o.name.as_str(), "html" | "table" | "template"),
                Scope::List => default_scope(&o.name, o.ns) || o.ns == Ns::Html && matches!(o.name.as_str(), "ol" | "ul"),
                Scope::Button => default_scope(&o.name, o.ns) || o.ns == Ns::Html && o.name == "button",
                Scope::Default => default_scope(&o.name, o.ns),
            };
            if stop {
                return false;
            }
        }
        false
    }
    fn implied_end_tags(&mut self, except: &str) {
        while self.stack.last().is_some_and(|o| o.ns == Ns::Html && implied(&o.name) && o.name != except) {
            self.pop();
        }
    }
    fn close_p(&mut self) {
        if self.in_scope(&["p"], Scope::Button) {
            self.implied_end_tags("p");
            self.pop_until(&["p"])
        }
    }
    fn reset_mode(&mut self) {
        for i in (0..self.stack.len()).rev() {
            let last = i == 0;
            let name = if last && self.context.is_some() { self.context.clone().unwrap() } else { self.stack[i].name.clone() };
            if !last && self.stack[i].ns != Ns::Html {
                continue;
            }
            self.mode = match name.as_str() {
                "td" | "th" if !last => Mode::InCell,
                "tr" => Mode::InRow,
                "tbody" | "thead" | "tfoot" => Mode::InTableBody,
                "caption" => Mode::InCaption,
                "colgroup" => Mode::InColumnGroup,
                "table" => Mode::InTable,
                "template" => *self.templates.last().unwrap_or(&Mode::InBody),
                "head" if !last => Mode::InHead,
                "body" => Mode::InBody,
                "html" => {
                    if self.head.is_none() {
                        Mode::BeforeHead
                    } else {
                        Mode::AfterHead
                    }
                }
                _ if last => Mode::InBody,
                _ => continue,
            };
            return;
        }
    }

    // ------------------------------------------------------------------ insertion
    fn place(&self, over: Option<usize>) -> Place<S::Handle> {
        let i = over.unwrap_or(self.stack.len() - 1);
        let t = &self.stack[i];
        if !(self.foster && t.ns == Ns::Html && matches!(t.name.as_str(), "table" | "tbody" | "tfoot" | "thead" | "tr")) {
            if t.ns == Ns::Html && t.name == "template" {
                return Place::Last(self.sink.get_template_contents(&t.h));
            }
            return Place::Last(t.h.clone());
        }
        for k in (0..self.stack.len()).rev() {
            if self.html_at(k, "template") {
                return Place::Last(self.sink.get_template_contents(&self.stack[k].h));
            }
            if self.html_at(k, "table") {
                return Place::Table(self.stack[k].h.clone(), self.stack[k - 1].h.clone());
            }
        }
        Place::Last(self.stack[0].h.clone())
    }
    fn put(&self, at: Place<S::Handle>, n: NodeOrText<S::Handle>) {
        match at {
            Place::Last(p) => self.sink.append(&p, n),
            Place::Table(t, prev) => self.sink.append_based_on_parent_node(&t, &prev, n),
        }
    }
    fn create(&self, tag: &str, ns: Ns, attrs: Vec<Attribute>) -> S::Handle {
        let n = match ns {
            Ns::Html => ns!(html),
            Ns::Svg => ns!(svg),
            Ns::Math => ns!(mathml),
        };
        let flags = ElementFlags { template: tag == "template" && ns == Ns::Html, ..Default::default() };
        self.sink.create_element(QualName::new(None, n, LocalName::from(tag)), attrs, flags)
    }
    fn insert(&mut self, tag: &str, ns: Ns, attrs: Vec<Attribute>, open: bool) -> S::Handle {
        let e = self.create(tag, ns, attrs.clone());
        if self.stack.is_empty() {
            let d = self.sink.get_document();
            self.sink.append(&d, NodeOrText::AppendNode(e.clone()))
        } else {
            self.put(self.place(None), NodeOrText::AppendNode(e.clone()))
        }
        if open {
            self.push(e.clone(), attrs);
        }
        e
    }
    fn insert_html(&mut self, tag: &str, attrs: Vec<Attribute>) {
        self.insert(tag, Ns::Html, attrs, true);
    }
    fn put_text(&mut self, t: StrTendril) {
        if !t.is_empty() {
            self.put(self.place(None), NodeOrText::AppendText(t))
        }
    }

    // ------------------------------------------------------------------ formatting elements
    fn push_fmt(&mut self, tag: &str, attrs: Vec<Attribute>) {
        let mut same = vec![];
        for (i, f) in self.fmt.iter().enumerate().rev() {
            match f {
                None => break,
                Some(f) => {
                    let (mut a, mut b) = (f.attrs.clone(), attrs.clone());
                    a.sort();
                    b.sort();
                    if f.name == tag && a == b {
                        same.push(i)
                    }
                }
            }
        }
        if same.len() >= 3 {
            self.fmt.remove(*same.last().unwrap());
        }
        let h = self.insert(tag, Ns::Html, attrs.clone(), true);
        self.fmt.push(Some(Fmt { h, name: tag.into(), attrs }))
    }
    fn clear_to_marker(&mut self) {
        while let Some(x) = self.fmt.pop() {
            if x.is_none() {
                return;
            }
        }
    }
    fn stack_pos(&self, h: &S::Handle) -> Option<usize> {
        self.stack.iter().rposition(|o| self.sink.same_node(&o.h, h))
    }
    fn fmt_pos(&self, h: &S::Handle) -> Option<usize> {
        self.fmt.iter().rposition(|f| f.as_ref().is_some_and(|f| self.sink.same_node(&f.h, h)))
    }
    fn reconstruct(&mut self) {
        let settled = |b: &Self, i: usize| match &b.fmt[i] {
            None => true,
            Some(f) => b.stack_pos(&f.h).is_some(),
        };
        let n = self.fmt.len();
        if n == 0 || settled(self, n - 1) {
            return;
        }
        let mut i = n - 1;
        while i > 0 && !settled(self, i - 1) {
            i -= 1
        }
        for k in i..n {
            let (name, attrs) = self.fmt[k].as_ref().map(|f| (f.name.clone(), f.attrs.clone())).unwrap();
            let h = self.insert(&name, Ns::Html, attrs, true);
            self.fmt[k].as_mut().unwrap().h = h
        }
    }
    /// The "adoption agency algorithm".
    fn adopt(&mut self, tag: &str) {
        if self.stack.last().is_some_and(|o| o.ns == Ns::Html && o.name == tag && self.fmt_pos(&o.h).is_none()) {
            self.pop();
            return;
        }
        for _ in 0..8 {
            let mut found = None;
            for (i, f) in self.fmt.iter().enumerate().rev() {
                match f {
                    None => break,
                    Some(f) if f.name == tag => {
                        found = Some(i);
                        break;
                    }
                    _ => {}
                }
            }
            let Some(fi) = found else { return self.any_other_end(tag) };
            let fh = self.fmt[fi].as_ref().unwrap().h.clone();
            let Some(si) = self.stack_pos(&fh) else {
                self.fmt.remove(fi);
                return;
            };
            // the formatting element must be in scope
            let hidden = self.stack[si + 1..].iter().any(|o| default_scope(&o.name, o.ns));
            if hidden {
                return;
            }
            let Some(bi) = (si + 1..self.stack.len()).find(|i| special(&self.stack[*i].name, self.stack[*i].ns)) else {
                while self.stack.len() > si {
                    self.pop();
                }
                self.fmt.remove(fi);
                return;
            };
            let block_h = self.stack[bi].h.clone();
            let ancestor = si - 1;
            let mut bookmark = fi;
            let mut last_h = block_h.clone();
            let mut ni = bi;
            let mut inner = 0;
            loop {
                inner += 1;
                ni -= 1;
                if ni == si {
                    break;
                }
                let nh = self.stack[ni].h.clone();
                let mut at = self.fmt_pos(&nh);
                if inner > 3
                    && let Some(p) = at
                {
                    self.fmt.remove(p);
                    if p < bookmark {
                        bookmark -= 1
                    }
                    at = None
                }
                let Some(p) = at else {
                    self.stack.remove(ni);
                    continue;
                };
                let (name, attrs) = self.fmt[p].as_ref().map(|f| (f.name.clone(), f.attrs.clone())).unwrap();
                let fresh = self.create(&name, Ns::Html, attrs.clone());
                self.fmt[p].as_mut().unwrap().h = fresh.clone();
                self.stack[ni] = Open { h: fresh.clone(), name, ns: Ns::Html, attrs };
                if self.sink.same_node(&last_h, &block_h) {
                    bookmark = p + 1
                }
                self.sink.remove_from_parent(&last_h);
                self.sink.append(&fresh, NodeOrText::AppendNode(last_h));
                last_h = fresh
            }
            self.sink.remove_from_parent(&last_h);
            let was = self.foster;
            self.foster = true;
            let place = self.place(Some(ancestor));
            self.foster = was;
            self.put(place, NodeOrText::AppendNode(last_h));
            let fi = self.fmt_pos(&fh).unwrap();
            let (name, attrs) = self.fmt[fi].as_ref().map(|f| (f.name.clone(), f.attrs.clone())).unwrap();
            let fresh = self.create(&name, Ns::Html, attrs.clone());
            self.sink.reparent_children(&block_h, &fresh);
            self.sink.append(&block_h, NodeOrText::AppendNode(fresh.clone()));
            self.fmt.remove(fi);
            if fi < bookmark {
                bookmark -= 1
            }
            let bookmark = bookmark.min(self.fmt.len());
            self.fmt.insert(bookmark, Some(Fmt { h: fresh.clone(), name: name.clone(), attrs: attrs.clone() }));
            let si = self.stack_pos(&fh).unwrap();
            self.stack.remove(si);
            let bi = self.stack_pos(&block_h).unwrap();
            self.stack.insert(bi + 1, Open { h: fresh, name, ns: Ns::Html, attrs });
        }
    }
    fn any_other_end(&mut self, tag: &str) {
        for i in (0..self.stack.len()).rev() {
            if self.html_at(i, tag) {
                self.implied_end_tags(tag);
                while self.stack.len() > i {
                    self.pop();
                }
                return;
            }
            if special(&self.stack[i].name, self.stack[i].ns) {
                self.sink.parse_error("Unexpected end tag".into());
                return;
            }
        }
    }

    // ------------------------------------------------------------------ before the body
    fn need_html(&mut self, attrs: Vec<Attribute>) {
        if matches!(self.mode, Mode::Initial | Mode::BeforeHtml) {
            if self.mode == Mode::Initial {
                self.quirks = true;
                self.sink.set_quirks_mode(QuirksMode::Quirks)
            }
            self.html = Some(self.insert("html", Ns::Html, attrs, true));
            self.mode = Mode::BeforeHead
        }
    }
    fn need_head(&mut self, attrs: Vec<Attribute>) {
        self.need_html(vec![]);
        if self.mode == Mode::BeforeHead {
            self.head = Some(self.insert("head", Ns::Html, attrs, true));
            self.mode = Mode::InHead
        }
    }
    fn leave_head(&mut self) {
        self.need_head(vec![]);
        if self.mode == Mode::InHead {
            self.pop();
            self.mode = Mode::AfterHead
        }
    }
    fn need_body(&mut self, attrs: Vec<Attribute>) {
        self.leave_head();
        if self.mode == Mode::AfterHead {
            self.insert_html("body", attrs);
            self.mode = Mode::InBody
        }
    }

    // ------------------------------------------------------------------ characters
    fn foreign(&self) -> bool {
        self.stack.last().is_some_and(|o| o.ns != Ns::Html)
    }
    fn math_text_point(&self) -> bool {
        self.stack.last().is_some_and(|o| o.ns == Ns::Math && matches!(o.name.as_str(), "mi" | "mo" | "mn" | "ms" | "mtext"))
    }
    fn html_point(&self) -> bool {
        self.stack.last().is_some_and(|o| match o.ns {
            Ns::Svg => matches!(o.name.as_str(), "foreignObject" | "desc" | "title"),
            Ns::Math => {
                o.name == "annotation-xml"
                    && (self.sink.is_mathml_annotation_xml_integration_point(&o.h)
                        || o.attrs.iter().any(|a| &*a.name.local == "encoding" && (a.value.eq_ignore_ascii_case("text/html") || a.value.eq_ignore_ascii_case("application/xhtml+xml"))))
            }
            Ns::Html => false,
        })
    }
    fn text(&mut self, t: StrTendril) {
        if t.is_empty() {
            return;
        }
        if self.foreign() && !self.math_text_point() && !self.html_point() {
            return self.put_text(t);
        }
        match self.mode {
            Mode::Initial | Mode::BeforeHtml | Mode::BeforeHead => {
                let n = lead_ws(&t);
                if n < t.len() {
                    self.leave_head();
                    self.text(cut(&t, n).1)
                }
            }
            Mode::InHead | Mode::AfterHead => {
                let (ws, rest) = cut(&t, lead_ws(&t));
                self.put_text(ws);
                if !rest.is_empty() {
                    if self.mode == Mode::InHead {
                        self.leave_head()
                    } else {
                        self.need_body(vec![])
                    }
                    self.text(rest)
                }
            }
            Mode::InTable | Mode::InTableBody | Mode::InRow if self.cur_is(&["table", "tbody", "tfoot", "thead", "tr"]) => self.pending.push(t),
            Mode::InTable | Mode::InTableBody | Mode::InRow => self.fostered(|b| b.body_text(t)),
            Mode::InColumnGroup => {
                let (ws, rest) = cut(&t, lead_ws(&t));
                self.put_text(ws);
                if !rest.is_empty() && self.cur_is(&["colgroup"]) {
                    self.pop();
                    self.mode = Mode::InTable;
                    self.text(rest)
                }
            }
            Mode::AfterBody | Mode::AfterAfterBody => {
                if lead_ws(&t) < t.len() {
                    self.mode = Mode::InBody
                }
                self.body_text(t)
            }
            _ => self.body_text(t),
        }
    }
    fn body_text(&mut self, t: StrTendril) {
        self.reconstruct();
        self.put_text(t)
    }
    fn fostered(&mut self, f: impl FnOnce(&mut Self)) {
        let was = self.foster;
        self.foster = true;
        f(self);
        self.foster = was
    }
    fn flush(&mut self) {
        let all = std::mem::take(&mut self.pending);
        if all.iter().any(|t| lead_ws(t) < t.len()) {
            for t in all {
                self.fostered(|b| b.body_text(t))
            }
        } else {
            for t in all {
                self.put_text(t)
            }
        }
    }
    fn comment(&mut self, t: StrTendril) {
        self.flush();
        let c = self.sink.create_comment(t);
        match self.mode {
            Mode::Initial | Mode::BeforeHtml | Mode::AfterAfterBody => {
                let d = self.sink.get_document();
                self.sink.append(&d, NodeOrText::AppendNode(c))
            }
            Mode::AfterBody => {
                let h = self.stack[0].h.clone();
                self.sink.append(&h, NodeOrText::AppendNode(c))
            }
            _ => self.put(self.place(None), NodeOrText::AppendNode(c)),
        }
    }
    fn eof(&mut self) {
        self.flush();
        while !self.templates.is_empty() && self.has("template") {
            self.end_template()
        }
        if self.context.is_none() {
            self.need_body(vec![])
        }
        while self.pop().is_some() {}
    }

    // ------------------------------------------------------------------ start tags
    fn start(&mut self, tag: &str, attrs: Vec<Attribute>, self_closing: bool) -> Option<Raw> {
        self.flush();
        if self.foreign() {
            let html = self.math_text_point() && !matches!(tag, "mglyph" | "malignmark") || self.html_point() || self.cur().ns == Ns::Math && self.cur().name == "annotation-xml" && tag == "svg";
            if !html {
                let font = tag == "font" && attrs.iter().any(|a| matches!(&*a.name.local, "color" | "face" | "size"));
                if breaks_out(tag) || font {
                    while self.foreign() && !self.math_text_point() && !self.html_point() {
                        self.pop();
                    }
                    return self.by_mode(tag, attrs, self_closing);
                }
                let ns = self.cur().ns;
                self.insert_foreign(tag, ns, attrs, self_closing);
                return None;
            }
        }
        self.by_mode(tag, attrs, self_closing)
    }
    fn insert_foreign(&mut self, tag: &str, ns: Ns, mut attrs: Vec<Attribute>, self_closing: bool) {
        let plain = |s: &str| QualName::new(None, ns!(), LocalName::from(s));
        let mut tag = tag;
        if ns == Ns::Svg {
            const CASED: &[&str] = &["clipPath", "feBlend", "feFlood", "feGaussianBlur", "feOffset", "foreignObject", "linearGradient", "radialGradient", "textPath", "animateTransform"];
            tag = CASED.iter().find(|c| c.eq_ignore_ascii_case(tag)).copied().unwrap_or(tag);
            const ATTRS: &[&str] = &["viewBox", "gradientUnits", "gradientTransform", "preserveAspectRatio", "patternUnits", "textLength", "markerWidth", "pathLength", "refX", "stdDeviation"];
            for a in &mut attrs {
                if let Some(c) = ATTRS.iter().find(|c| c.eq_ignore_ascii_case(&a.name.local)) {
                    a.name = plain(c)
                }
            }
        } else {
            for a in &mut attrs {
                if &*a.name.local == "definitionurl" {
                    a.name = plain("definitionURL")
                }
            }
        }
        for a in &mut attrs {
            let (p, l, u) = match &*a.name.local {
                "xlink:href" => ("xlink", "href", ns!(xlink)),
                "xlink:title" => ("xlink", "title", ns!(xlink)),
                "xlink:role" => ("xlink", "role", ns!(xlink)),
                "xlink:type" => ("xlink", "type", ns!(xlink)),
                "xlink:show" => ("xlink", "show", ns!(xlink)),
                "xml:lang" => ("xml", "lang", ns!(xml)),
                "xml:space" => ("xml", "space", ns!(xml)),
                "xmlns" => ("", "xmlns", ns!(xmlns)),
                "xmlns:xlink" => ("xmlns", "xlink", ns!(xmlns)),
                _ => continue,
            };
            a.name = QualName::new(if p.is_empty() { None } else { Some(Prefix::from(p)) }, u, LocalName::from(l));
        }
        self.insert(tag, ns, attrs, !self_closing);
    }
    fn by_mode(&mut self, tag: &str, attrs: Vec<Attribute>, self_closing: bool) -> Option<Raw> {
        loop {
            match self.mode {
                Mode::Initial | Mode::BeforeHtml | Mode::BeforeHead => match tag {
                    "html" if self.mode != Mode::BeforeHead => {
                        self.need_html(attrs);
                        return None;
                    }
                    "html" => return self.in_body(tag, attrs, self_closing),
                    "head" => {
                        self.need_head(attrs);
                        return None;
                    }
                    _ => self.need_head(vec![]),
                },
                Mode::InHead => match tag {
                    "html" => return self.in_body(tag, attrs, self_closing),
                    "noscript" => return self.in_head("noframes-like", tag, attrs),
                    "head" => return None,
                    t if in_head_tag(t) => return self.in_head(t, t, attrs),
                    _ => self.leave_head(),
                },
                Mode::AfterHead => match tag {
                    "html" => return self.in_body(tag, attrs, self_closing),
                    "body" => {
                        self.need_body(attrs);
                        return None;
                    }
                    "head" => return None,
                    t if in_head_tag(t) => {
                        // these still go to the head
                        let head = self.head.clone().unwrap();
                        self.push(head.clone(), vec![]);
                        let r = self.in_head(t, t, attrs);
                        let i = self.stack_pos(&head).unwrap();
                        self.stack.remove(i);
                        return r;
                    }
                    _ => self.need_body(vec![]),
                },
                Mode::AfterBody | Mode::AfterAfterBody => {
                    if tag == "html" {
                        return self.in_body(tag, attrs, self_closing);
                    }
                    self.mode = Mode::InBody
                }
                Mode::InBody => return self.in_body(tag, attrs, self_closing),
                Mode::InTemplate => {
                    let next = match tag {
                        "template" | "base" | "link" | "meta" | "script" | "style" | "title" | "noframes" => return self.in_head(tag, tag, attrs),
                        "caption" | "colgroup" | "tbody" | "tfoot" | "thead" => Mode::InTable,
                        "col" => Mode::InColumnGroup,
                        "tr" => Mode::InTableBody,
                        "td" | "th" => Mode::InRow,
                        _ => Mode::InBody,
                    };
                    self.templates.pop();
                    self.templates.push(next);
                    self.mode = next
                }
                Mode::InTable => match tag {
                    "caption" => {
                        self.pop_to_context(&["table", "template", "html"]);
                        self.fmt.push(None);
                        self.insert_html(tag, attrs);
                        self.mode = Mode::InCaption;
                        return None;
                    }
                    "colgroup" => {
                        self.pop_to_context(&["table", "template", "html"]);
                        self.insert_html(tag, attrs);
                        self.mode = Mode::InColumnGroup;
                        return None;
                    }
                    "col" => {
                        self.pop_to_context(&["table", "template", "html"]);
                        self.insert_html("colgroup", vec![]);
                        self.mode = Mode::InColumnGroup
                    }
                    "tbody" | "tfoot" | "thead" => {
                        self.pop_to_context(&["table", "template", "html"]);
                        self.insert_html(tag, attrs);
                        self.mode = Mode::InTableBody;
                        return None;
                    }
                    "td" | "th" | "tr" => {
                        self.pop_to_context(&["table", "template", "html"]);
                        self.insert_html("tbody", vec![]);
                        self.mode = Mode::InTableBody
                    }
                    "table" => {
                        if !self.in_scope(&["table"], Scope::Table) {
                            return None;
                        }
                        self.pop_until(&["table"]);
                        self.reset_mode()
                    }
                    "style" | "script" | "template" => return self.in_head(tag, tag, attrs),
                    "input" if attrs.iter().any(|a| &*a.name.local == "type" && a.value.eq_ignore_ascii_case("hidden")) => {
                        self.insert(tag, Ns::Html, attrs, false);
                        return None;
                    }
                    "form" => {
                        if self.form.is_none() && !self.has("template") {
                            self.form = Some(self.insert(tag, Ns::Html, attrs, false))
                        }
                        return None;
                    }
                    _ => {
                        let was = self.foster;
                        self.foster = true;
                        let r = self.in_body(tag, attrs, self_closing);
                        self.foster = was;
                        return r;
                    }
                },
                Mode::InCaption => match tag {
                    "caption" | "col" | "colgroup" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr" => {
                        if !self.close_caption() {
                            return None;
                        }
                    }
                    _ => return self.in_body(tag, attrs, self_closing),
                },
                Mode::InColumnGroup => match tag {
                    "html" => return self.in_body(tag, attrs, self_closing),
                    "col" => {
                        self.insert(tag, Ns::Html, attrs, false);
                        return None;
                    }
                    "template" => return self.in_head(tag, tag, attrs),
                    _ => {
                        if !self.cur_is(&["colgroup"]) {
                            return None;
                        }
                        self.pop();
                        self.mode = Mode::InTable
                    }
                },
                Mode::InTableBody => match tag {
                    "tr" => {
                        self.pop_to_context(&["tbody", "tfoot", "thead", "template", "html"]);
                        self.insert_html(tag, attrs);
                        self.mode = Mode::InRow;
                        return None;
                    }
                    "th" | "td" => {
                        self.pop_to_context(&["tbody", "tfoot", "thead", "template", "html"]);
                        self.insert_html("tr", vec![]);
                        self.mode = Mode::InRow
                    }
                    "caption" | "col" | "colgroup" | "tbody" | "tfoot" | "thead" => {
                        if !self.in_scope(&["tbody", "thead", "tfoot"], Scope::Table) {
                            return None;
                        }
                        self.pop_to_context(&["tbody", "tfoot", "thead", "template", "html"]);
                        self.pop();
                        self.mode = Mode::InTable
                    }
                    _ => return self.as_table(tag, attrs, self_closing),
                },
                Mode::InRow => match tag {
                    "th" | "td" => {
                        self.pop_to_context(&["tr", "template", "html"]);
                        self.insert_html(tag, attrs);
                        self.mode = Mode::InCell;
                        self.fmt.push(None);
                        return None;
                    }
                    "caption" | "col" | "colgroup" | "tbody" | "tfoot" | "thead" | "tr" => {
                        if !self.in_scope(&["tr"], Scope::Table) {
                            return None;
                        }
                        self.pop_to_context(&["tr", "template", "html"]);
                        self.pop();
                        self.mode = Mode::InTableBody
                    }
                    _ => return self.as_table(tag, attrs, self_closing),
                },
                Mode::InCell => match tag {
                    "caption" | "col" | "colgroup" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr" => {
                        if !self.in_scope(&["td", "th"], Scope::Table) {
                            return None;
                        }
                        self.close_cell()
                    }
                    _ => return self.in_body(tag, attrs, self_closing),
                },
            }
        }
    }
    /// The rules for "in table", from another table mode.
    fn as_table(&mut self, tag: &str, attrs: Vec<Attribute>, self_closing: bool) -> Option<Raw> {
        let was = self.mode;
        self.mode = Mode::InTable;
        let r = self.by_mode(tag, attrs, self_closing);
        if self.mode == Mode::InTable {
            if tag == "table" {
                self.reset_mode()
            } else {
                self.mode = was
            }
        }
        r
    }
    fn close_cell(&mut self) {
        self.implied_end_tags("");
        self.pop_until(&["td", "th"]);
        self.clear_to_marker();
        self.mode = Mode::InRow
    }
    fn close_caption(&mut self) -> bool {
        if !self.in_scope(&["caption"], Scope::Table) {
            return false;
        }
        self.implied_end_tags("");
        self.pop_until(&["caption"]);
        self.clear_to_marker();
        self.mode = Mode::InTable;
        true
    }
    fn in_head(&mut self, kind: &str, tag: &str, attrs: Vec<Attribute>) -> Option<Raw> {
        match kind {
            "base" | "basefont" | "bgsound" | "link" | "meta" => {
                self.insert(tag, Ns::Html, attrs, false);
                None
            }
            "title" => {
                self.insert_html(tag, attrs);
                Some(Raw::Rcdata)
            }
            "template" => {
                self.insert_html(tag, attrs);
                self.fmt.push(None);
                self.templates.push(Mode::InTemplate);
                self.mode = Mode::InTemplate;
                None
            }
            _ => {
                self.insert_html(tag, attrs);
                Some(Raw::Text)
            }
        }
    }
    fn in_body(&mut self, tag: &str, attrs: Vec<Attribute>, self_closing: bool) -> Option<Raw> {
        match tag {
            "html" => {
                if !self.has("template") {
                    let h = self.stack[0].h.clone();
                    self.sink.add_attrs_if_missing(&h, attrs)
                }
            }
            "body" => {
                if self.stack.len() > 1 && self.html_at(1, "body") && !self.has("template") {
                    let b = self.stack[1].h.clone();
                    self.sink.add_attrs_if_missing(&b, attrs)
                }
            }
            "frameset" | "frame" | "head" | "caption" | "col" | "colgroup" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr" => self.sink.parse_error("Unexpected tag".into()),
            t if in_head_tag(t) => return self.in_head(t, t, attrs),
            t if block(t) => {
                self.close_p();
                self.insert_html(t, attrs)
            }
            t if heading(t) => {
                self.close_p();
                if self.cur_is(&["h1", "h2", "h3", "h4", "h5", "h6"]) {
                    self.pop();
                }
                self.insert_html(t, attrs)
            }
            "pre" | "listing" => {
                self.close_p();
                self.insert_html(tag, attrs)
            }
            "form" => {
                let templated = self.has("template");
                if self.form.is_none() || templated {
                    self.close_p();
                    let f = self.insert(tag, Ns::Html, attrs, true);
                    if !templated {
                        self.form = Some(f)
                    }
                }
            }
            "li" | "dd" | "dt" => {
                let group: &[&str] = if tag == "li" { &["li"] } else { &["dd", "dt"] };
                for i in (0..self.stack.len()).rev() {
                    if let Some(t) = group.iter().find(|t| self.html_at(i, t)) {
                        self.implied_end_tags(t);
                        self.pop_until(&[t]);
                        break;
                    }
                    let o = &self.stack[i];
                    if special(&o.name, o.ns) && !(o.ns == Ns::Html && matches!(o.name.as_str(), "address" | "div" | "p")) {
                        break;
                    }
                }
                self.close_p();
                self.insert_html(tag, attrs)
            }
            "button" => {
                if self.in_scope(&["button"], Scope::Default) {
                    self.implied_end_tags("");
                    self.pop_until(&["button"])
                }
                self.reconstruct();
                self.insert_html(tag, attrs)
            }
            "a" => {
                let mut open = None;
                for f in self.fmt.iter().rev() {
                    match f {
                        None => break,
                        Some(f) if f.name == "a" => {
                            open = Some(f.h.clone());
                            break;
                        }
                        _ => {}
                    }
                }
                if let Some(h) = open {
                    self.adopt("a");
                    if let Some(i) = self.fmt_pos(&h) {
                        self.fmt.remove(i);
                    }
                    if let Some(i) = self.stack_pos(&h) {
                        self.stack.remove(i);
                    }
                }
                self.reconstruct();
                self.push_fmt(tag, attrs)
            }
            "nobr" => {
                self.reconstruct();
                if self.in_scope(&["nobr"], Scope::Default) {
                    self.adopt("nobr");
                    self.reconstruct()
                }
                self.push_fmt(tag, attrs)
            }
            t if formatting(t) => {
                self.reconstruct();
                self.push_fmt(t, attrs)
            }
            "applet" | "marquee" | "object" => {
                self.reconstruct();
                self.insert_html(tag, attrs);
                self.fmt.push(None)
            }
            "table" => {
                if !self.quirks {
                    self.close_p()
                }
                self.insert_html(tag, attrs);
                self.mode = Mode::InTable
            }
            "area" | "br" | "embed" | "img" | "keygen" | "wbr" | "input" => {
                self.reconstruct();
                self.insert(tag, Ns::Html, attrs, false);
            }
            "param" | "source" | "track" => {
                self.insert(tag, Ns::Html, attrs, false);
            }
            "hr" => {
                self.close_p();
                self.insert(tag, Ns::Html, attrs, false);
            }
            "image" => return self.in_body("img", attrs, self_closing),
            "textarea" => {
                self.insert_html(tag, attrs);
                return Some(Raw::Rcdata);
            }
            "xmp" => {
                self.close_p();
                self.reconstruct();
                self.insert_html(tag, attrs);
                return Some(Raw::Text);
            }
            "iframe" | "noembed" | "noscript" => {
                self.insert_html(tag, attrs);
                return Some(Raw::Text);
            }
            "optgroup" | "option" => {
                if self.cur_is(&["option"]) {
                    self.pop();
                }
                self.reconstruct();
                self.insert_html(tag, attrs)
            }
            "rb" | "rtc" | "rp" | "rt" => {
                if self.in_scope(&["ruby"], Scope::Default) {
                    self.implied_end_tags(if matches!(tag, "rp" | "rt") { "rtc" } else { "" })
                }
                self.insert_html(tag, attrs)
            }
            "math" => {
                self.reconstruct();
                self.insert_foreign(tag, Ns::Math, attrs, self_closing)
            }
            "svg" => {
                self.reconstruct();
                self.insert_foreign(tag, Ns::Svg, attrs, self_closing)
            }
            _ => {
                self.reconstruct();
                self.insert_html(tag, attrs)
            }
        }
        None
    }

    // ------------------------------------------------------------------ end tags
    fn end(&mut self, tag: &str) {
        self.flush();
        if self.foreign() {
            if matches!(tag, "br" | "p") {
                while self.foreign() && !self.math_text_point() && !self.html_point() {
                    self.pop();
                }
                return self.end_by_mode(tag);
            }
            if self.stack.len() == 1 {
                return; // fragment case: only the root is open
            }
            for i in (1..self.stack.len()).rev() {
                if self.stack[i].ns == Ns::Html {
                    return self.end_by_mode(tag);
                }
                if self.stack[i].name.eq_ignore_ascii_case(tag) {
                    while self.stack.len() > i {
                        self.pop();
                    }
                    return;
                }
            }
            // the walk reached the root, which is HTML: by insertion mode
            return self.end_by_mode(tag);
        }
        self.end_by_mode(tag)
    }
    fn end_by_mode(&mut self, tag: &str) {
        loop {
            match self.mode {
                Mode::Initial | Mode::BeforeHtml | Mode::BeforeHead => match tag {
                    "head" | "body" | "html" | "br" => self.need_head(vec![]),
                    _ => return self.sink.parse_error("Unexpected end tag".into()),
                },
                Mode::InHead => match tag {
                    "head" => return self.leave_head(),
                    "template" => return self.end_template(),
                    "body" | "html" | "br" => self.leave_head(),
                    _ => return self.sink.parse_error("Unexpected end tag".into()),
                },
                Mode::AfterHead => match tag {
                    "template" => return self.end_template(),
                    "body" | "html" | "br" => self.need_body(vec![]),
                    _ => return self.sink.parse_error("Unexpected end tag".into()),
                },
                Mode::AfterBody => match tag {
                    "html" => {
                        if self.context.is_none() {
                            self.mode = Mode::AfterAfterBody
                        }
                        return;
                    }
                    _ => self.mode = Mode::InBody,
                },
                Mode::AfterAfterBody => self.mode = Mode::InBody,
                Mode::InBody => return self.end_in_body(tag),
                Mode::InTemplate => {
                    if tag == "template" {
                        self.end_template()
                    }
                    return;
                }
                Mode::InTable => match tag {
                    "table" => {
                        if self.in_scope(&["table"], Scope::Table) {
                            self.pop_until(&["table"]);
                            self.reset_mode()
                        }
                        return;
                    }
                    "body" | "caption" | "col" | "colgroup" | "html" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr" => return,
                    "template" => return self.end_template(),
                    _ => return self.fostered(|b| b.end_in_body(tag)),
                },
                Mode::InCaption => match tag {
                    "caption" => {
                        self.close_caption();
                        return;
                    }
                    "table" => {
                        if !self.close_caption() {
                            return;
                        }
                    }
                    "body" | "col" | "colgroup" | "html" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr" => return,
                    _ => return self.end_in_body(tag),
                },
                Mode::InColumnGroup => match tag {
                    "colgroup" => {
                        if self.cur_is(&["colgroup"]) {
                            self.pop();
                            self.mode = Mode::InTable
                        }
                        return;
                    }
                    "col" => return,
                    "template" => return self.end_template(),
                    _ => {
                        if !self.cur_is(&["colgroup"]) {
                            return;
                        }
                        self.pop();
                        self.mode = Mode::InTable
                    }
                },
                Mode::InTableBody => match tag {
                    "tbody" | "tfoot" | "thead" => {
                        if self.in_scope(&[tag], Scope::Table) {
                            self.pop_to_context(&["tbody", "tfoot", "thead", "template", "html"]);
                            self.pop();
                            self.mode = Mode::InTable
                        }
                        return;
                    }
                    "table" => {
                        if !self.in_scope(&["tbody", "thead", "tfoot"], Scope::Table) {
                            return;
                        }
                        self.pop_to_context(&["tbody", "tfoot", "thead", "template", "html"]);
                        self.pop();
                        self.mode = Mode::InTable
                    }
                    "body" | "caption" | "col" | "colgroup" | "html" | "td" | "th" | "tr" => return,
                    "template" => return self.end_template(),
                    _ => return self.fostered(|b| b.end_in_body(tag)),
                },
                Mode::InRow => match tag {
                    "tr" => {
                        if self.in_scope(&["tr"], Scope::Table) {
                            self.pop_to_context(&["tr", "template", "html"]);
                            self.pop();
                            self.mode = Mode::InTableBody
                        }
                        return;
                    }
                    "table" | "tbody" | "tfoot" | "thead" => {
                        if !self.in_scope(&["tr"], Scope::Table) || tag != "table" && !self.in_scope(&[tag], Scope::Table) {
                            return;
                        }
                        self.pop_to_context(&["tr", "template", "html"]);
                        self.pop();
                        self.mode = Mode::InTableBody
                    }
                    "body" | "caption" | "col" | "colgroup" | "html" | "td" | "th" => return,
                    "template" => return self.end_template(),
                    _ => return self.fostered(|b| b.end_in_body(tag)),
                },
                Mode::InCell => match tag {
                    "td" | "th" => {
                        if self.in_scope(&[tag], Scope::Table) {
                            self.implied_end_tags("");
                            self.pop_until(&[tag]);
                            self.clear_to_marker();
                            self.mode = Mode::InRow
                        }
                        return;
                    }
                    "body" | "caption" | "col" | "colgroup" | "html" => return,
                    "table" | "tbody" | "tfoot" | "thead" | "tr" => {
                        if !self.in_scope(&[tag], Scope::Table) {
                            return;
                        }
                        self.close_cell()
                    }
                    _ => return self.end_in_body(tag),
                },
            }
        }
    }
    fn end_template(&mut self) {
        if !self.has("template") {
            return;
        }
        while !self.cur_is(&["template"]) {
            self.pop();
        }
        self.pop();
        self.clear_to_marker();
        self.templates.pop();
        self.reset_mode()
    }
    fn end_in_body(&mut self, tag: &str) {
        match tag {
            "template" => self.end_template(),
            "body" | "html" => {
                if self.in_scope(&["body"], Scope::Default) {
                    self.mode = Mode::AfterBody;
                    if tag == "html" {
                        self.end_by_mode(tag)
                    }
                }
            }
            "form" => {
                if self.has("template") {
                    if self.in_scope(&["form"], Scope::Default) {
                        self.implied_end_tags("");
                        self.pop_until(&["form"])
                    }
                } else if let Some(f) = self.form.take()
                    && let Some(i) = self.stack_pos(&f)
                    && self.in_scope(&["form"], Scope::Default)
                {
                    self.implied_end_tags("");
                    let i = i.min(self.stack_pos(&f).unwrap_or(i));
                    self.stack.remove(i);
                }
            }
            "p" => {
                if !self.in_scope(&["p"], Scope::Button) {
                    self.insert_html("p", vec![])
                }
                self.close_p()
            }
            "li" => {
                if self.in_scope(&["li"], Scope::List) {
                    self.implied_end_tags("li");
                    self.pop_until(&["li"])
                }
            }
            "dd" | "dt" => {
                if self.in_scope(&[tag], Scope::Default) {
                    self.implied_end_tags(tag);
                    self.pop_until(&[tag])
                }
            }
            t if block(t) || matches!(t, "pre" | "listing" | "button") => {
                if self.in_scope(&[t], Scope::Default) {
                    self.implied_end_tags("");
                    self.pop_until(&[t])
                }
            }
            t if heading(t) => {
                let all = ["h1", "h2", "h3", "h4", "h5", "h6"];
                if self.in_scope(&all, Scope::Default) {
                    self.implied_end_tags("");
                    self.pop_until(&all)
                }
            }
            t if formatting(t) => self.adopt(t),
            "applet" | "marquee" | "object" => {
                if self.in_scope(&[tag], Scope::Default) {
                    self.implied_end_tags("");
                    self.pop_until(&[tag]);
                    self.clear_to_marker()
                }
            }
            "br" => {
                self.in_body("br", vec![], false);
            }
            t => self.any_other_end(t),
        }
    }
}

// ---------------------------------------------------------------------- tokens
fn tokenize<S: TreeSink>(input: &StrTendril, b: &mut Builder<S>) {
    let s: &str = input;
    let bytes = s.as_bytes();
    let n = s.len();
    let sub = |a: usize, z: usize| input.subtendril(a as u32, (z - a) as u32);
    // a byte order mark is no content
    let mut i = if b.context.is_none() && s.starts_with('\u{feff}') { 3 } else { 0 };
    while i < n {
        if bytes[i] == b'<' {
            if s[i..].starts_with("<!--") {
                let rest = &s[i + 4..];
                let (z, next) = if rest.starts_with('>') {
                    (i + 4, i + 5)
                } else if rest.starts_with("->") {
                    (i + 4, i + 6)
                } else {
                    let a = rest.find("-->").map(|e| (i + 4 + e, i + 4 + e + 3));
                    let c = rest.find("--!>").map(|e| (i + 4 + e, i + 4 + e + 4));
                    match (a, c) {
                        (Some(a), Some(c)) => a.min(c),
                        (Some(x), None) | (None, Some(x)) => x,
                        _ => (n, n),
                    }
                };
                b.comment(newlines(sub(i + 4, z)));
                i = next;
                continue;
            }
            if bytes.get(i + 1) == Some(&b'!') || bytes.get(i + 1) == Some(&b'?') {
                let z = s[i..].find('>').map(|e| i + e).unwrap_or(n);
                let body = &s[i + 2..z];
                if bytes[i + 1] == b'!' && body.len() >= 7 && body.is_char_boundary(7) && body[..7].eq_ignore_ascii_case("doctype") {
                    b.flush();
                    let name = body[7..].trim();
                    let at = i + 2 + 7 + (body[7..].len() - body[7..].trim_start().len());
                    let word = name.split_ascii_whitespace().next().unwrap_or("").len();
                    if b.mode == Mode::Initial {
                        let name = sub(at, at + word);
                        let name = if name.bytes().any(|c| c.is_ascii_uppercase()) { StrTendril::from(name.to_ascii_lowercase()) } else { name };
                        b.sink.append_doctype_to_document(name, StrTendril::new(), StrTendril::new());
                        b.sink.set_quirks_mode(QuirksMode::NoQuirks);
                        b.mode = Mode::BeforeHtml
                    } else {
                        b.sink.parse_error("Unexpected DOCTYPE".into());
                    }
                } else {
                    b.comment(newlines(sub(if bytes[i + 1] == b'!' { i + 2 } else { i + 1 }, z)));
                }
                i = (z + 1).min(n);
                continue;
            }
            if bytes.get(i + 1) == Some(&b'/') && bytes.get(i + 2).is_some_and(|c| c.is_ascii_alphabetic()) {
                let name_end = s[i + 2..].find(|c: char| c.is_ascii_whitespace() || c == '/' || c == '>').map(|e| i + 2 + e).unwrap_or(n);
                let z = s[name_end..].find('>').map(|e| name_end + e).unwrap_or(n);
                if z == n {
                    return;
                }
                b.end(&s[i + 2..name_end].to_ascii_lowercase());
                i = z + 1;
                continue;
            }
            if bytes.get(i + 1).is_some_and(|c| c.is_ascii_alphabetic()) {
                let Some((tag, attrs, self_closing, j)) = read_tag(input, i, b) else { return };
                i = j;
                if let Some(kind) = b.start(&tag, attrs, self_closing) {
                    let close = format!("</{tag}");
                    let mut from = i;
                    let z = loop {
                        match find_ci(bytes, from, close.as_bytes()) {
                            None => break n,
                            Some(at) => {
                                let after = bytes.get(at + close.len());
                                if after.is_none_or(|c| c.is_ascii_whitespace() || *c == b'>' || *c == b'/') {
                                    break at;
                                }
                                from = at + close.len();
                            }
                        }
                    };
                    let mut t = sub(i, z);
                    if tag == "textarea" {
                        t = without_newline(t)
                    }
                    for p in chunks(&t, kind == Raw::Rcdata) {
                        b.put_text(p)
                    }
                    // the matching end tag closes it, whatever the mode
                    i = s[z..].find('>').map(|e| z + e + 1).unwrap_or(n);
                    b.pop();
                } else if matches!(tag.as_str(), "pre" | "listing") && b.cur_is(&["pre", "listing"]) {
                    if s[i..].starts_with("\r\n") {
                        i += 2
                    } else if s[i..].starts_with('\n') || s[i..].starts_with('\r') {
                        i += 1
                    }
                }
                continue;
            }
            if bytes.get(i + 1) == Some(&b'/') {
                match bytes.get(i + 2) {
                    Some(b'>') => {
                        i += 3;
                        continue;
                    }
                    Some(_) => {
                        let z = s[i..].find('>').map(|e| i + e).unwrap_or(n);
                        b.comment(newlines(sub(i + 2, z)));
                        i = (z + 1).min(n);
                        continue;
                    }
                    None => {}
                }
            }
        }
        // text up to the next markup
        let mut j = i + 1;
        while j < n && !(bytes[j] == b'<' && bytes.get(j + 1).is_some_and(|c| c.is_ascii_alphabetic() || matches!(c, b'!' | b'/' | b'?'))) {
            j += 1
        }
        for p in chunks(&sub(i, j), true) {
            b.text(p)
        }
        i = j;
    }
}
fn find_ci(hay: &[u8], from: usize, needle: &[u8]) -> Option<usize> {
    (from..(hay.len() + 1).saturating_sub(needle.len())).find(|i| hay[*i..*i + needle.len()].eq_ignore_ascii_case(needle))
}
fn without_newline(t: StrTendril) -> StrTendril {
    let k = if t.starts_with("\r\n") { 2 } else { usize::from(t.starts_with('\n') || t.starts_with('\r')) };
    cut(&t, k).1
}
fn newlines(t: StrTendril) -> StrTendril {
    if t.contains('\r') { StrTendril::from(t.replace("\r\n", "\n").replace('\r', "\n")) } else { t }
}
#[allow(clippy::type_complexity)]
fn read_tag<S: TreeSink>(input: &StrTendril, i: usize, b: &mut Builder<S>) -> Option<(String, Vec<Attribute>, bool, usize)> {
    let s: &str = input;
    let bytes = s.as_bytes();
    let n = s.len();
    let mut j = i + 1;
    while j < n && !bytes[j].is_ascii_whitespace() && bytes[j] != b'>' && bytes[j] != b'/' {
        j += 1
    }
    let tag = s[i + 1..j].to_ascii_lowercase();
    let mut attrs: Vec<Attribute> = vec![];
    let mut self_closing = false;
    loop {
        while j < n && (bytes[j].is_ascii_whitespace() || bytes[j] == b'/') {
            self_closing = bytes[j] == b'/';
            j += 1
        }
        if j >= n {
            return None; // end of input inside a tag: the tag is dropped
        }
        if bytes[j] == b'>' {
            return Some((tag, attrs, self_closing, j + 1));
        }
        self_closing = false;
        let a = j;
        j += 1;
        while j < n && !bytes[j].is_ascii_whitespace() && !matches!(bytes[j], b'=' | b'>' | b'/') {
            j += 1
        }
        let name = s[a..j].to_ascii_lowercase();
        let mut k = j;
        while k < n && bytes[k].is_ascii_whitespace() {
            k += 1
        }
        let mut value = StrTendril::new();
        if k < n && bytes[k] == b'=' {
            j = k + 1;
            while j < n && bytes[j].is_ascii_whitespace() {
                j += 1
            }
            let (va, vz);
            if j < n && (bytes[j] == b'"' || bytes[j] == b'\'') {
                let q = bytes[j] as char;
                va = j + 1;
                vz = va + s[va..].find(q)?;
                j = vz + 1
            } else {
                va = j;
                while j < n && !bytes[j].is_ascii_whitespace() && bytes[j] != b'>' {
                    j += 1
                }
                vz = j;
            }
            value = newlines(input.subtendril(va as u32, (vz - va) as u32));
            if value.contains('&') {
                let mut o = String::new();
                for c in pieces(&value, true) {
                    match c {
                        Piece::Slice(x, y) => o.push_str(&value[x..y]),
                        Piece::Char(c) => o.push(c),
                    }
                }
                value = StrTendril::from(o);
            }
        }
        if attrs.iter().any(|x| *x.name.local == *name) {
            b.sink.parse_error("Duplicate attribute".into());
        } else {
            attrs.push(Attribute { name: QualName::new(None, ns!(), LocalName::from(name)), value });
        }
    }
}

enum Piece {
    Slice(usize, usize),
    Char(char),
}
/// Character references decoded. In attribute values a reference without its semicolon counts
/// only when no letter, digit or equals sign follows.
fn pieces(s: &str, attr: bool) -> Vec<Piece> {
    const NAMED: &[(&str, char)] = &[("amp", '&'), ("lt", '<'), ("gt", '>'), ("quot", '"'), ("nbsp", '\u{a0}'), ("copy", '©'), ("AMP", '&'), ("LT", '<'), ("GT", '>'), ("eacute", 'é')];
    const CLOSED: &[(&str, char)] = &[("apos", '\''), ("hellip", '…'), ("rarr", '→'), ("mdash", '—')];
    let mut out = vec![];
    let mut from = 0;
    let mut i = 0;
    while let Some(e) = s[i..].find('&') {
        let at = i + e;
        let rest = &s[at + 1..];
        let hit = if let Some(num) = rest.strip_prefix('#') {
            let (digits, radix, skip) = match num.strip_prefix(['x', 'X']) {
                Some(h) => (h, 16, 2),
                None => (num, 10, 1),
            };
            let len = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());
            if len == 0 {
                None
            } else {
                let c = u32::from_str_radix(&digits[..len], radix).ok().and_then(char::from_u32).filter(|c| *c != '\0').unwrap_or('\u{fffd}');
                let semi = usize::from(digits[len..].starts_with(';'));
                Some((c, at + 1 + skip + len + semi))
            }
        } else if let Some((k, c)) = NAMED.iter().chain(CLOSED).find(|(k, _)| rest.strip_prefix(k).is_some_and(|r| r.starts_with(';'))) {
            Some((*c, at + 1 + k.len() + 1))
        } else if let Some((k, c)) = NAMED.iter().find(|(k, _)| rest.starts_with(k)) {
            let next = rest[k.len()..].chars().next();
            let literal = attr && next.is_some_and(|c| c == '=' || c.is_ascii_alphanumeric());
            (!literal).then_some((*c, at + 1 + k.len()))
        } else {
            None
        };
        match hit {
            Some((c, next)) => {
                if from < at {
                    out.push(Piece::Slice(from, at));
                }
                out.push(Piece::Char(c));
                from = next;
                i = next;
            }
            None => i = at + 1,
        }
    }
    if from < s.len() {
        out.push(Piece::Slice(from, s.len()));
    }
    out
}
/// Text as the tokenizer hands it over: in pieces at character references and carriage returns.
fn chunks(t: &StrTendril, refs: bool) -> Vec<StrTendril> {
    let mut out = vec![];
    let mut plain = |a: usize, z: usize, out: &mut Vec<StrTendril>| {
        let s = &t[a..z];
        let mut from = 0;
        let mut i = 0;
        let b = s.as_bytes();
        while i < b.len() {
            if b[i] == b'\r' {
                if from < i {
                    out.push(t.subtendril((a + from) as u32, (i - from) as u32))
                }
                out.push(StrTendril::from("\n"));
                i += if b.get(i + 1) == Some(&b'\n') { 2 } else { 1 };
                from = i;
            } else {
                i += 1
            }
        }
        if from < b.len() {
            out.push(t.subtendril((a + from) as u32, (b.len() - from) as u32))
        }
    };
    if !refs {
        plain(0, t.len(), &mut out);
        return out;
    }
    for p in pieces(t, false) {
        match p {
            Piece::Slice(x, y) => plain(x, y, &mut out),
            Piece::Char(c) => out.push(StrTendril::from(c.to_string())),
        }
    }
    out
}
