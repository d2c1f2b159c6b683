//! Stand-in for roam-session: handshake, then one driver per connection that answers calls in order.
use facet::Val;
use roam::{CallError, Context, Dispatcher, Handle, Link, decode, encode};

#[derive(Debug, Clone, Default)]
pub struct HandshakeConfig {}
#[derive(Debug)]
pub struct ConnectionError(pub String);
impl std::fmt::Display for ConnectionError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for ConnectionError {}
pub trait Framed {
    fn link(self) -> Link;
}
pub struct Incoming {}
pub struct Driver<D> {
    handle: Handle,
    dispatcher: D,
}
const HELLO: u64 = 0;
const CALL: u64 = 1;
const REPLY: u64 = 2;

pub async fn accept_framed<D: Dispatcher>(t: impl Framed, _c: HandshakeConfig, dispatcher: D) -> Result<(Handle, Incoming, Driver<D>), ConnectionError> {
    let link = t.link();
    (link.tx)(encode(HELLO, 0, 0, Val::None));
    match link.rx.recv().await {
        None => return Err(ConnectionError("closed during the handshake".into())),
        Some(m) => {
            if decode(&m).is_none_or(|d| d.0 != HELLO) {
                return Err(ConnectionError("bad handshake".into()));
            }
        }
    }
    let handle = Handle::new(link);
    Ok((handle.clone(), Incoming {}, Driver { handle, dispatcher }))
}
impl<D: Dispatcher> Driver<D> {
    pub async fn run(self) -> Result<(), ConnectionError> {
        let r = self.pump().await;
        self.handle.closed();
        r
    }
    async fn pump(&self) -> Result<(), ConnectionError> {
        let link = self.handle.link().clone();
        while let Some(m) = link.rx.recv().await {
            let Some((kind, id, method, body)) = decode(&m) else {
                return Err(ConnectionError("malformed frame".into()));
            };
            match kind {
                CALL => {
                    let r = self.dispatcher.dispatch(&Context::default(), method as u32, body).await;
                    let (ok, body) = match r {
                        Ok(v) => (1, v),
                        Err(e) => (0, Val::Str(e)),
                    };
                    (link.tx)(encode(REPLY, id, ok, body));
                }
                REPLY => {
                    let r = match (method, body) {
                        (1, v) => Ok(v),
                        (_, Val::Str(s)) => Err(CallError::Remote(s)),
                        _ => Err(CallError::Decode("malformed reply".into())),
                    };
                    self.handle.resolve(id, r)
                }
                _ => return Err(ConnectionError("unexpected frame".into())),
            }
        }
        if link.rx.was_reset() {
            return Err(ConnectionError("connection reset".into()));
        }
        Ok(())
    }
}
pub mod runtime {
    pub async fn sleep(d: std::time::Duration) {
        simrt::sleep(d.as_millis() as u64).await
    }
}
