//! Stand-in for roam-websocket: connections go to the simulated network.
use roam::Link;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

pub type Connecting = Pin<Box<dyn Future<Output = Result<Link, std::io::Error>>>>;
type Connector = Rc<dyn Fn(&str) -> Connecting>;
thread_local! {
    static NET: RefCell<Option<Connector>> = const { RefCell::new(None) };
}
pub fn set_network(f: Option<Connector>) {
    NET.with(|n| *n.borrow_mut() = f)
}
pub struct WsTransport(Link);
impl WsTransport {
    pub async fn connect(url: &str) -> Result<WsTransport, std::io::Error> {
        let f = NET.with(|n| n.borrow().clone()).expect("a simulated network");
        Ok(WsTransport(f(url).await?))
    }
    pub fn into_link(self) -> Link {
        self.0
    }
}
impl roam_session::Framed for WsTransport {
    fn link(self) -> Link {
        self.0
    }
}
