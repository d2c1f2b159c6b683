// A page in a stand-in browser, a native document, and a development server, for demonstrations.
#![allow(dead_code)]
use simcore::{Choices, Obs};
use std::rc::Rc;
use web_sys::dom::{self, Kind, Ref};
use web_sys::sim::{self, Page, PageRef};

pub fn patches(old: &str, new: &str) -> Vec<hotmeal::Patch<'static>> {
    let (a, b) = (hotmeal::StrTendril::from(old), hotmeal::StrTendril::from(new));
    hotmeal::diff_html(&a, &b).expect("diff").into_iter().map(|p| p.into_owned()).collect()
}
fn node(n: &Ref, o: &mut String, t: &mut String) {
    match &n.kind {
        Kind::Text(s) => t.push_str(&s.borrow()),
        Kind::Comment(s) => {
            flush(o, t);
            o.push_str(&format!("<!{}>", s.borrow()))
        }
        Kind::Element(e) => {
            flush(o, t);
            let mut at = e.attrs.borrow().clone();
            at.sort();
            let ns = if e.ns == dom::HTML { "" } else if e.ns == dom::SVG { "svg:" } else { "math:" };
            o.push_str(&format!("<{ns}{}", e.local));
            for (k, v, _) in at {
                o.push_str(&format!(" {k}={v:?}"))
            }
            o.push('>');
            o.push_str(&kids(n));
            o.push_str("</>")
        }
        _ => {}
    }
}
fn flush(o: &mut String, t: &mut String) {
    if !t.is_empty() {
        o.push_str(&format!("{t:?}"));
        t.clear()
    }
}
pub fn kids(n: &Ref) -> String {
    let (mut o, mut t) = (String::new(), String::new());
    for k in n.children.borrow().iter() {
        node(k, &mut o, &mut t)
    }
    flush(&mut o, &mut t);
    o
}
fn whole(n: &Ref) -> String {
    let (mut o, mut t) = (String::new(), String::new());
    node(n, &mut o, &mut t);
    o
}
/// The body a browser shows for this source.
pub fn fresh(html: &str) -> String {
    whole(&sim::body(&dom::parse_document(html)).unwrap())
}
/// The body of a native document, through its own HTML output.
pub fn native_after(pages: &[&str]) -> Result<String, String> {
    let src = hotmeal::StrTendril::from(pages[0]);
    let mut d = hotmeal::parse(&src);
    for w in pages.windows(2) {
        d.apply_patches(patches(w[0], w[1])).map_err(|e| format!("{e:?}"))?
    }
    Ok(fresh(&d.to_html()))
}
/// Run a simulated world.
pub fn world<R>(f: impl FnOnce() -> R) -> R {
    let (mut ch, mut obs) = (Choices::record(1), Obs::default());
    simrt::with_runtime(&mut ch, &mut obs, f)
}
pub struct Tab {
    pub page: PageRef,
    pub shown: String,
}
impl Tab {
    pub fn open(html: &str) -> Tab {
        Tab::listening(html, None)
    }
    pub fn listening(html: &str, listener: Option<Rc<dyn Fn(&sim::Fired)>>) -> Tab {
        let page = sim::install(7, Page { doc: dom::parse_document(html), path: "/".into(), on_reload: Rc::new(|| {}), events: vec![], console: vec![], listener });
        Tab { page, shown: html.into() }
    }
    /// The page receives the patches to the next revision.
    pub fn update(&mut self, html: &str) -> Result<usize, String> {
        let blob = facet_postcard::to_vec(&patches(&self.shown, html)).unwrap();
        self.shown = html.into();
        simrt::enter(7, || hotmeal_wasm::apply_patches_postcard_on(&blob, "body")).map_err(|e| format!("{e:?}"))
    }
    pub fn body(&self) -> String {
        whole(&sim::body(&self.page.borrow().doc).unwrap())
    }
    pub fn find(&self, id: &str) -> Ref {
        let mut got = None;
        self.page.borrow().doc.each(&mut |n| {
            if n.get_attr("id").as_deref() == Some(id) {
                got = Some(n.clone())
            }
        });
        got.unwrap_or_else(|| panic!("nothing has id {id}"))
    }
    /// (id of the element, content) of each opaque-changed event so far
    pub fn events(&self) -> Vec<(String, String)> {
        self.page.borrow().events.iter().filter(|e| e.name == "hotmeal:opaque-changed").map(|e| (e.target.get_attr("id").unwrap_or_default(), e.content.clone().unwrap_or_default())).collect()
    }
}
/// Both appliers follow all revisions and show each exactly.
pub fn follows(pages: &[&str]) {
    world(|| {
        let mut t = Tab::open(pages[0]);
        for (i, p) in pages.iter().enumerate().skip(1) {
            if let Err(e) = t.update(p) {
                panic!("the browser cannot apply revision {i}: {e}")
            }
            assert_eq!(t.body(), fresh(p), "browser, revision {i}");
            match native_after(&pages[..=i]) {
                Ok(b) => assert_eq!(b, fresh(p), "native document, revision {i}"),
                Err(e) => panic!("the native document cannot apply revision {i}: {e}"),
            }
        }
    })
}
/// How the server behaves towards each connection attempt.
#[derive(Clone, Copy, PartialEq)]
pub enum Serve {
    Refuse,
    /// accepts, and closes before the handshake is done
    DropEarly,
    /// answers the handshake and every call; closes after so many ms (0: never)
    Answer(u64),
    /// answers the handshake, and closes instead of answering the subscription
    DropCall,
    /// Answer, and after so many ms the connection breaks.
    Reset(u64),
}
/// Start the client of the page and let `ms` of simulated time pass. Returns the times of the attempts.
pub fn attempts(ms: u64, serve: impl Fn(usize) -> Serve + 'static) -> Vec<u64> {
    let times = Rc::new(std::cell::RefCell::new(vec![]));
    let t2 = times.clone();
    let serve = Rc::new(serve);
    roam_websocket::set_network(Some(Rc::new(move |_: &str| {
        let n = t2.borrow().len();
        t2.borrow_mut().push(simrt::now());
        let how = serve(n);
        Box::pin(async move {
            if how == Serve::Refuse {
                return Err(std::io::Error::other("refused"));
            }
            let rx = simrt::pipe::Pipe::default();
            if how == Serve::DropEarly {
                rx.close();
            }
            if let Serve::Reset(ms) = how {
                let rx = rx.clone();
                simrt::after(ms, move || rx.reset())
            }
            if let Serve::Answer(ms) = how {
                if ms > 0 {
                    let rx = rx.clone();
                    simrt::after(ms, move || rx.close())
                }
            }
            let back = rx.clone();
            let tx = Rc::new(move |m: Vec<u8>| {
                let Some((kind, id, _, _)) = roam::decode(&m) else { return };
                match (kind, how) {
                    (0, _) => back.deliver(m),
                    (1, Serve::Answer(_) | Serve::Reset(_)) => back.deliver(roam::encode(2, id, 1, facet::Val::None)),
                    (1, _) => back.close(),
                    _ => {}
                }
            });
            Ok(roam::Link { rx, tx })
        })
    })));
    simrt::enter(7, || hotmeal_wasm::start_live_reload("ws://s/_lr", "body")).unwrap();
    while simrt::now() < ms && simrt::step() {}
    roam_websocket::set_network(None);
    simrt::kill(7);
    let t = times.borrow().clone();
    t
}
