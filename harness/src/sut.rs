//! Endpoints of the library over an in-memory stream, and tasks whose results can be polled.
use std::cell::{Cell, RefCell};
use std::future::{Future, poll_fn};
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

use ntex_amqp::codec::protocol::{Error, Open};
use ntex_amqp::server::{Handshake, HandshakeAck, Server};
use ntex_amqp::types::Message;
use ntex_amqp::{AmqpServiceConfig, ConnectionRef, ControlFrame, State, client};
use ntex_bytes::ByteString;
use ntex_io::testing::IoTest;
use ntex_io::{Io, IoBoxed, IoConfig};
use ntex_service::cfg::SharedCfg;
use ntex_service::{Service, ServiceCtx, ServiceFactory, fn_factory_with_config};
use ntex_util::channel::oneshot;
use ntex_util::future::{Either, select};

pub type LocalFut<T> = Pin<Box<dyn Future<Output = T>>>;

pub fn block_on<F: Future<Output = R> + 'static, R: 'static>(fut: F) -> R {
    ntex_rt::System::build()
        .name("amqpv")
        .build(ntex_net::DefaultRuntime)
        .block_on(fut)
}

pub async fn yields(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}

pub async fn sleep_ms(ms: u64) {
    tokio::time::sleep(std::time::Duration::from_millis(ms)).await;
}

/// A spawned future with a result slot.
pub struct Task<T> {
    pub slot: Rc<RefCell<Option<T>>>,
    cancel: Option<oneshot::Sender<()>>,
    pub cancelled: bool,
}

impl<T: 'static> Task<T> {
    /// Polls once in place, so that the order of calls is the order of first polls, then spawns.
    pub async fn start<F: Future<Output = T> + 'static>(fut: F, activity: &Rc<Cell<u64>>) -> Task<T> {
        let slot = Rc::new(RefCell::new(None));
        let mut fut: LocalFut<T> = Box::pin(fut);
        let first = poll_fn(|cx| Poll::Ready(fut.as_mut().poll(cx))).await;
        if let Poll::Ready(v) = first {
            *slot.borrow_mut() = Some(v);
            return Task { slot, cancel: None, cancelled: false };
        }
        let (tx, rx) = oneshot::channel::<()>();
        let s = slot.clone();
        let a = activity.clone();
        ntex_rt::spawn(async move {
            if let Either::Left(v) = select(fut, rx).await {
                *s.borrow_mut() = Some(v);
                a.set(a.get() + 1);
            }
        });
        Task { slot, cancel: Some(tx), cancelled: false }
    }
    pub fn done(&self) -> bool {
        self.slot.borrow().is_some()
    }
    pub fn cancel(&mut self) {
        self.cancelled = true;
        self.cancel = None;
    }
}

/// Decision of a test service about one request.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Verdict {
    Accept,
    Refuse,
    Hold,
}

pub type CtlFn = Rc<dyn Fn(&ControlFrame) -> LocalFut<Result<(), Error>>>;
pub type PubFn = Rc<dyn Fn(Message) -> LocalFut<Result<(), Error>>>;

#[derive(Clone)]
pub struct PubService(pub PubFn);
impl Service<Message> for PubService {
    type Response = ();
    type Error = Error;
    async fn call(&self, msg: Message, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        (self.0)(msg).await
    }
}

#[derive(Clone)]
pub struct CtlService(pub CtlFn);
impl Service<ControlFrame> for CtlService {
    type Response = ();
    type Error = Error;
    async fn call(&self, msg: ControlFrame, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        (self.0)(&msg).await
    }
}

/// What became of an endpoint.
pub struct Endpoint {
    pub sink: Rc<RefCell<Option<ConnectionRef>>>,
    pub peer_open: Rc<RefCell<Option<Open>>>,
    pub error: Rc<RefCell<Option<String>>>,
    /// outcome of the connection task
    pub done: Rc<RefCell<Option<Result<(), String>>>>,
    pub activity: Rc<Cell<u64>>,
}

impl Endpoint {
    pub fn new() -> Endpoint {
        Endpoint {
            sink: Rc::default(),
            peer_open: Rc::default(),
            error: Rc::default(),
            done: Rc::default(),
            activity: Rc::default(),
        }
    }
}

pub fn shared(cfg: AmqpServiceConfig) -> SharedCfg {
    SharedCfg::new("AMQPV").add(IoConfig::new()).add(cfg).into()
}

/// Starts a client; the connection task runs detached.
pub fn start_client(
    io: IoTest,
    cfg: AmqpServiceConfig,
    sasl: Option<client::SaslAuth>,
    hostname: Option<ByteString>,
    ctl: CtlFn,
) -> Endpoint {
    start_client_shared(io, shared(cfg), sasl, hostname, ctl)
}

/// A configuration can be shared by many connections.
pub fn start_client_shared(
    io: IoTest,
    cfg: SharedCfg,
    sasl: Option<client::SaslAuth>,
    hostname: Option<ByteString>,
    ctl: CtlFn,
) -> Endpoint {
    let ep = Endpoint::new();
    let (sink, error, done, act) =
        (ep.sink.clone(), ep.error.clone(), ep.done.clone(), ep.activity.clone());
    ntex_rt::spawn(async move {
        let io = IoBoxed::from(Io::new(io, cfg.clone()));
        let conn: client::ConnectorService<String, _> =
            client::Connector::new().create(cfg).await.ok().expect("connector");
        let res = if let Some(auth) = sasl {
            conn.negotiate_sasl(io, auth, hostname).await
        } else {
            conn.negotiate(io, hostname).await
        };
        act.set(act.get() + 1);
        match res {
            Ok(c) => {
                *sink.borrow_mut() = Some(c.sink());
                let r = c.start(CtlService(ctl)).await;
                *done.borrow_mut() = Some(r.map_err(|e| format!("{e:?}")));
            }
            Err(e) => {
                *error.borrow_mut() = Some(format!("{:?}", &*e));
                *done.borrow_mut() = Some(Err(format!("{:?}", &*e)));
            }
        }
        act.set(act.get() + 1);
    });
    ep
}

/// Decides about an accepted connection.
pub type HsFn = Rc<dyn Fn(Handshake) -> LocalFut<Result<HandshakeAck<()>, String>>>;

#[derive(Debug)]
pub struct HsErr(#[allow(dead_code)] pub String);
impl From<HsErr> for Error {
    fn from(_: HsErr) -> Error {
        ntex_amqp::error::AmqpError::internal_error().into()
    }
}

/// Opens plain connections, refuses SASL.
pub fn plain(ep: &Endpoint) -> HsFn {
    let (sink, peer_open, error) = (ep.sink.clone(), ep.peer_open.clone(), ep.error.clone());
    Rc::new(move |hs: Handshake| {
        let (sink, peer_open, error) = (sink.clone(), peer_open.clone(), error.clone());
        Box::pin(async move {
            match hs {
                Handshake::Amqp(h) => match h.open().await {
                    Ok(o) => {
                        *peer_open.borrow_mut() = Some(o.frame().clone());
                        *sink.borrow_mut() = Some(o.sink().get_ref());
                        Ok(o.ack(()))
                    }
                    Err(e) => {
                        let e = format!("{e:?}");
                        *error.borrow_mut() = Some(e.clone());
                        Err(e)
                    }
                },
                Handshake::Sasl(_) => Err("sasl".to_string()),
            }
        })
    })
}

/// Starts a server connection with the given services; the connection task runs detached.
pub fn start_server(io: IoTest, cfg: AmqpServiceConfig, ctl: CtlFn, publish: PubFn) -> Endpoint {
    let ep = Endpoint::new();
    let hs = plain(&ep);
    let pb = fn_factory_with_config(async move |_: State<()>| Ok::<_, ()>(PubService(publish.clone())));
    start_server_with(ep, io, cfg, hs, ctl, pb)
}

/// Starts a server connection with its own handshake and publish service.
pub fn start_server_with<P>(ep: Endpoint, io: IoTest, cfg: AmqpServiceConfig, hs: HsFn, ctl: CtlFn, publish: P) -> Endpoint
where
    P: ServiceFactory<Message, State<()>, Response = (), Error = Error> + 'static,
    P::InitError: std::fmt::Debug,
{
    start_server_shared(ep, io, shared(cfg), hs, ctl, publish)
}

pub fn start_server_shared<P>(ep: Endpoint, io: IoTest, cfg: SharedCfg, hs: HsFn, ctl: CtlFn, publish: P) -> Endpoint
where
    P: ServiceFactory<Message, State<()>, Response = (), Error = Error> + 'static,
    P::InitError: std::fmt::Debug,
{
    let (done, act) = (ep.done.clone(), ep.activity.clone());
    ntex_rt::spawn(async move {
        let srv = Server::build(async move |h: Handshake| hs(h).await.map_err(HsErr))
            .control(fn_factory_with_config(async move |_: State<()>| {
                Ok::<_, ()>(CtlService(ctl.clone()))
            }))
            .finish(publish);
        let svc = ServiceFactory::<IoBoxed, SharedCfg>::create(&srv, cfg.clone())
            .await
            .ok()
            .expect("server");
        let pl = ntex_service::Pipeline::new(svc);
        let r = pl.call(IoBoxed::from(Io::new(io, cfg))).await;
        *done.borrow_mut() = Some(r.map_err(|e: ntex_amqp::server::ServerError<HsErr>| format!("{e:?}")));
        act.set(act.get() + 1);
    });
    ep
}
