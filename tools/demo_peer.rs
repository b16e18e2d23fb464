// A minimal AMQP peer for the demonstrations: frames are built and read with the repository's codec.
#![allow(dead_code)]
use std::{cell::RefCell, future::Future, pin::Pin, rc::Rc, task::Poll, time::Duration};

use ntex_amqp::codec::protocol::*;
use ntex_amqp::codec::{AmqpCodec, AmqpFrame};
use ntex_amqp::server::{Handshake, Server};
use ntex_amqp::types::Message;
use ntex_amqp::{AmqpServiceConfig, ConnectionRef, ControlFrame, Session, State, client};
use ntex_bytes::{ByteString, Bytes, BytesMut};
use ntex_codec::{Decoder, Encoder};
use ntex_io::testing::IoTest;
use ntex_io::{Io, IoBoxed, IoConfig};
use ntex_service::cfg::SharedCfg;
use ntex_service::{Service, ServiceCtx, ServiceFactory, fn_factory_with_config};
use ntex_util::time::{Millis, sleep};

pub type Fut<T> = Pin<Box<dyn Future<Output = T>>>;
pub type Done = Rc<RefCell<Option<Result<(), String>>>>;
pub type Ctl = Rc<dyn Fn(ControlFrame) -> Fut<Result<(), Error>>>;
pub type Pub = Rc<dyn Fn(Message) -> Fut<Result<(), Error>>>;

pub fn block_on<F: Future<Output = ()> + 'static>(fut: F) {
    ntex_rt::System::build().name("demo").build(ntex_net::DefaultRuntime).block_on(fut)
}
pub async fn ms(n: u32) {
    sleep(Millis(n)).await;
}
pub async fn within<F: Future>(what: &str, fut: F) -> F::Output {
    match ntex_util::time::timeout(Millis(3000), fut).await {
        Ok(v) => v,
        Err(_) => panic!("did not complete: {what}"),
    }
}
/// spawns a future; its result can be looked at
pub fn go<T: 'static, F: Future<Output = T> + 'static>(f: F) -> Rc<RefCell<Option<T>>> {
    let r = Rc::new(RefCell::new(None));
    let r2 = r.clone();
    ntex_rt::spawn(async move {
        let v = f.await;
        *r2.borrow_mut() = Some(v);
    });
    r
}
/// polls once, then spawns the rest: calls keep their order
pub async fn start<T: 'static, F: Future<Output = T> + 'static>(f: F) -> Rc<RefCell<Option<T>>> {
    let mut f: Fut<T> = Box::pin(f);
    match std::future::poll_fn(|cx| Poll::Ready(f.as_mut().poll(cx))).await {
        Poll::Ready(v) => Rc::new(RefCell::new(Some(v))),
        Poll::Pending => go(f),
    }
}

#[derive(Clone)]
struct CtlSvc(Ctl);
impl Service<ControlFrame> for CtlSvc {
    type Response = ();
    type Error = Error;
    async fn call(&self, m: ControlFrame, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        (self.0)(m).await
    }
}
#[derive(Clone)]
struct PubSvc(Pub);
impl Service<Message> for PubSvc {
    type Response = ();
    type Error = Error;
    async fn call(&self, m: Message, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        (self.0)(m).await
    }
}
#[derive(Debug)]
struct HsErr;
impl From<HsErr> for Error {
    fn from(_: HsErr) -> Error {
        ntex_amqp::error::AmqpError::internal_error().into()
    }
}

pub struct Peer {
    pub io: Option<IoTest>,
    buf: BytesMut,
    header: Vec<u8>,
    codec: AmqpCodec<AmqpFrame>,
    pub seen: Vec<(u16, Frame)>,
    /// everything, including what was taken by `next`
    pub all: Vec<(u16, Frame)>,
}

impl Peer {
    pub fn new() -> (Peer, IoTest) {
        let (a, b) = IoTest::create();
        a.remote_buffer_cap(1 << 30);
        let p = Peer {
            io: Some(a),
            buf: BytesMut::new(),
            header: vec![],
            codec: AmqpCodec::new(),
            seen: vec![],
            all: vec![],
        };
        (p, b)
    }
    pub fn bytes(&self, b: &[u8]) {
        if let Some(io) = &self.io {
            io.write(b);
        }
    }
    pub fn send(&self, ch: u16, f: Frame) {
        let mut b = BytesMut::new();
        AmqpCodec::new().encode(AmqpFrame::new(ch, f), &mut b).unwrap();
        self.bytes(&b);
    }
    /// several frames in one write
    pub fn send_all(&self, fs: Vec<(u16, Frame)>) {
        let mut b = BytesMut::new();
        for (ch, f) in fs {
            AmqpCodec::new().encode(AmqpFrame::new(ch, f), &mut b).unwrap();
        }
        self.bytes(&b);
    }
    pub fn pump(&mut self) {
        let Some(io) = &self.io else { return };
        let data = io.read_any();
        self.buf.extend_from_slice(&data);
        if self.header.len() < 8 {
            if self.buf.len() < 8 {
                return;
            }
            self.header = self.buf.split_to(8).to_vec();
        }
        while let Some(f) = self.codec.decode(&mut self.buf).expect("unreadable frame") {
            let (ch, f) = f.into_parts();
            self.seen.push((ch, f.clone()));
            self.all.push((ch, f));
        }
    }
    /// gives the endpoint time to do what it can, and reads what it wrote
    pub async fn settle(&mut self) {
        for _ in 0..8 {
            ms(5).await;
            self.pump();
        }
    }
    /// the next frame of a kind; panics if it does not come
    pub async fn next(&mut self, what: &str, f: impl Fn(&Frame) -> bool) -> (u16, Frame) {
        for _ in 0..300 {
            self.pump();
            if let Some(k) = self.seen.iter().position(|(_, x)| f(x)) {
                return self.seen.remove(k);
            }
            ms(5).await;
        }
        panic!("{what} did not come; seen: {:?}", self.seen);
    }
    pub fn drop_io(&mut self) {
        self.io = None;
    }
    pub async fn close_io(&mut self) {
        if let Some(io) = self.io.take() {
            io.close().await;
        }
    }
    pub fn transfers(&self) -> Vec<Transfer> {
        self.all.iter().filter_map(|(_, f)| if let Frame::Transfer(t) = f { Some(t.clone()) } else { None }).collect()
    }
    pub fn flows(&self) -> Vec<Flow> {
        self.all.iter().filter_map(|(_, f)| if let Frame::Flow(t) = f { Some(t.clone()) } else { None }).collect()
    }
    pub fn dispositions(&self) -> Vec<Disposition> {
        self.all.iter().filter_map(|(_, f)| if let Frame::Disposition(t) = f { Some(t.clone()) } else { None }).collect()
    }
    pub fn detaches(&self) -> Vec<Detach> {
        self.all.iter().filter_map(|(_, f)| if let Frame::Detach(t) = f { Some(t.clone()) } else { None }).collect()
    }
    pub fn ends(&self) -> Vec<u16> {
        self.all.iter().filter_map(|(c, f)| if let Frame::End(_) = f { Some(*c) } else { None }).collect()
    }
    pub fn begins(&self) -> Vec<(u16, Begin)> {
        self.all.iter().filter_map(|(c, f)| if let Frame::Begin(b) = f { Some((*c, b.clone())) } else { None }).collect()
    }
    pub fn attaches(&self) -> Vec<Attach> {
        self.all.iter().filter_map(|(_, f)| if let Frame::Attach(b) = f { Some(b.clone()) } else { None }).collect()
    }
    pub fn closes(&self) -> Vec<Close> {
        self.all.iter().filter_map(|(_, f)| if let Frame::Close(b) = f { Some(b.clone()) } else { None }).collect()
    }
}

pub fn open() -> OpenInner {
    OpenInner { container_id: ByteString::from_static("peer"), max_frame_size: u32::MAX, channel_max: 1024, ..Default::default() }
}
pub fn begin(remote: Option<u16>, window: u32) -> Frame {
    Frame::Begin(Begin(Box::new(BeginInner {
        remote_channel: remote,
        next_outgoing_id: 1,
        incoming_window: window,
        outgoing_window: 5000,
        handle_max: u32::MAX,
        ..Default::default()
    })))
}
pub fn attach(name: &str, handle: u32, role: Role) -> AttachInner {
    AttachInner {
        name: ByteString::from(name),
        handle,
        role,
        source: Some(src(name)),
        target: Some(tgt(name)),
        initial_delivery_count: if role == Role::Sender { Some(0) } else { None },
        ..Default::default()
    }
}
pub fn src(addr: &str) -> Source {
    Source {
        address: Some(ByteString::from(addr)),
        durable: TerminusDurability::None,
        expiry_policy: TerminusExpiryPolicy::SessionEnd,
        timeout: 0,
        dynamic: false,
        dynamic_node_properties: None,
        distribution_mode: None,
        filter: None,
        default_outcome: None,
        outcomes: None,
        capabilities: None,
    }
}
pub fn tgt(addr: &str) -> Target {
    Target {
        address: Some(ByteString::from(addr)),
        durable: TerminusDurability::None,
        expiry_policy: TerminusExpiryPolicy::SessionEnd,
        timeout: 0,
        dynamic: false,
        dynamic_node_properties: None,
        capabilities: None,
    }
}
pub fn fattach(a: AttachInner) -> Frame {
    Frame::Attach(Attach(Box::new(a)))
}
/// session level flow
pub fn sflow(next_in: Option<u32>, window: u32) -> FlowInner {
    FlowInner { next_incoming_id: next_in, incoming_window: window, next_outgoing_id: 1, outgoing_window: 5000, ..Default::default() }
}
/// link flow granting credit
pub fn lflow(next_in: Option<u32>, window: u32, handle: u32, count: Option<u32>, credit: u32) -> FlowInner {
    FlowInner { handle: Some(handle), delivery_count: count, link_credit: Some(credit), ..sflow(next_in, window) }
}
pub fn fflow(f: FlowInner) -> Frame {
    Frame::Flow(Flow(Box::new(f)))
}
pub fn xfer(handle: u32, id: u32, body: &[u8]) -> TransferInner {
    TransferInner {
        handle,
        delivery_id: Some(id),
        delivery_tag: Some(Bytes::copy_from_slice(&id.to_be_bytes())),
        message_format: Some(0),
        settled: Some(false),
        body: Some(TransferBody::Data(Bytes::copy_from_slice(body))),
        ..Default::default()
    }
}
pub fn fxfer(t: TransferInner) -> Frame {
    Frame::Transfer(Transfer(Box::new(t)))
}
pub fn disp(role: Role, first: u32, last: Option<u32>, settled: bool, state: Option<DeliveryState>) -> Frame {
    Frame::Disposition(Disposition(Box::new(DispositionInner { role, first, last, settled, state, batchable: false })))
}
pub fn accepted() -> DeliveryState {
    DeliveryState::Accepted(Accepted {})
}
pub fn fdetach(handle: u32, error: Option<Error>) -> Frame {
    Frame::Detach(Detach(Box::new(DetachInner { handle, closed: true, error })))
}
pub fn err(cond: &'static str, d: Option<&str>) -> Error {
    Error(Box::new(ErrorInner {
        condition: ErrorCondition::Custom(ntex_amqp::codec::types::Symbol::from_static(cond)),
        description: d.map(ByteString::from),
        info: None,
    }))
}
pub fn payload(t: &Transfer) -> Vec<u8> {
    match t.body() {
        Some(TransferBody::Data(b)) => b.to_vec(),
        Some(b) => panic!("{b:?}"),
        None => vec![],
    }
}

pub fn ctl(f: impl Fn(ControlFrame) -> Fut<Result<(), Error>> + 'static) -> Ctl {
    Rc::new(f)
}
pub fn ctl_ok() -> Ctl {
    Rc::new(|_| Box::pin(async { Ok(()) }))
}

/// A client of the library, opened with the peer.
pub async fn client(cfg: AmqpServiceConfig, peer_open: OpenInner, ctl: Ctl) -> (Peer, ConnectionRef, Done) {
    let (mut p, io) = Peer::new();
    let sink = Rc::new(RefCell::new(None));
    let done: Done = Rc::default();
    let (s2, d2) = (sink.clone(), done.clone());
    ntex_rt::spawn(async move {
        let cfg: SharedCfg = SharedCfg::new("DEMO").add(IoConfig::new()).add(cfg).into();
        let io = IoBoxed::from(Io::new(io, cfg.clone()));
        let c: client::ConnectorService<String, _> = client::Connector::new().create(cfg).await.ok().unwrap();
        match c.negotiate(io, None).await {
            Ok(c) => {
                *s2.borrow_mut() = Some(c.sink());
                let r = c.start(CtlSvc(ctl)).await;
                *d2.borrow_mut() = Some(r.map_err(|e| format!("{e:?}")));
            }
            Err(e) => *d2.borrow_mut() = Some(Err(format!("{:?}", &*e))),
        }
    });
    p.bytes(b"AMQP\x00\x01\x00\x00");
    p.next("open", |f| matches!(f, Frame::Open(_))).await;
    p.send(0, Frame::Open(Open(Box::new(peer_open))));
    for _ in 0..300 {
        if sink.borrow().is_some() {
            break;
        }
        ms(5).await;
    }
    let s: ConnectionRef = sink.borrow().clone().expect("client did not open");
    (p, s, done)
}

/// A server of the library with the given publish service, opened by the peer.
pub async fn server_with<P>(cfg: AmqpServiceConfig, peer_open: OpenInner, ctl: Ctl, publish: P) -> (Peer, ConnectionRef, Done)
where
    P: ServiceFactory<Message, State<()>, Response = (), Error = Error> + 'static,
    P::InitError: std::fmt::Debug,
{
    let (mut p, io) = Peer::new();
    let sink = Rc::new(RefCell::new(None));
    let done: Done = Rc::default();
    let (s2, d2) = (sink.clone(), done.clone());
    ntex_rt::spawn(async move {
        let srv = Server::build(async move |h: Handshake| match h {
            Handshake::Amqp(h) => {
                let o = h.open().await.map_err(|_| HsErr)?;
                *s2.borrow_mut() = Some(o.sink().get_ref());
                Ok(o.ack(()))
            }
            Handshake::Sasl(_) => Err(HsErr),
        })
        .control(fn_factory_with_config(async move |_: State<()>| Ok::<_, ()>(CtlSvc(ctl.clone()))))
        .finish(publish);
        let cfg: SharedCfg = SharedCfg::new("DEMO").add(IoConfig::new()).add(cfg).into();
        let svc = ServiceFactory::<IoBoxed, SharedCfg>::create(&srv, cfg.clone()).await.ok().unwrap();
        let pl = ntex_service::Pipeline::new(svc);
        let r = pl.call(IoBoxed::from(Io::new(io, cfg))).await;
        *d2.borrow_mut() = Some(r.map_err(|e: ntex_amqp::server::ServerError<HsErr>| format!("{e:?}")));
    });
    p.bytes(b"AMQP\x00\x01\x00\x00");
    p.send(0, Frame::Open(Open(Box::new(peer_open))));
    p.next("open", |f| matches!(f, Frame::Open(_))).await;
    for _ in 0..300 {
        if sink.borrow().is_some() {
            break;
        }
        ms(5).await;
    }
    let s: ConnectionRef = sink.borrow().clone().expect("server did not open");
    (p, s, done)
}
pub async fn server(cfg: AmqpServiceConfig, peer_open: OpenInner, ctl: Ctl) -> (Peer, ConnectionRef, Done) {
    let pb = fn_factory_with_config(async move |_: State<()>| Ok::<_, ()>(PubSvc(Rc::new(|_| Box::pin(async { Ok(()) })))));
    server_with(cfg, peer_open, ctl, pb).await
}
pub async fn plain_client() -> (Peer, ConnectionRef, Done) {
    client(AmqpServiceConfig::new(), open(), ctl_ok()).await
}

/// A session opened by the endpoint; the peer answers on channel `ch`. Returns the endpoint's channel too.
pub async fn session(p: &mut Peer, c: &ConnectionRef, ch: u16, window: u32) -> (Session, u16) {
    let c2 = c.clone();
    let t = start(async move { c2.open_session().await }).await;
    let (lc, _) = p.next("begin", |f| matches!(f, Frame::Begin(_))).await;
    p.send(ch, begin(Some(lc), window));
    for _ in 0..300 {
        if t.borrow().is_some() {
            break;
        }
        ms(5).await;
    }
    let s = t.borrow_mut().take().expect("session did not open").expect("session");
    (s, lc)
}
/// A sender link of the endpoint, answered with the peer's handle. Returns the endpoint's handle too.
pub async fn sender(p: &mut Peer, s: &Session, ch: u16, name: &str, handle: u32) -> (ntex_amqp::SenderLink, u32) {
    let (s2, n) = (s.clone(), name.to_string());
    let t = start(async move { s2.build_sender_link(n.clone(), n).attach().await }).await;
    let (_, f) = p.next("attach", |f| matches!(f, Frame::Attach(_))).await;
    let Frame::Attach(a) = f else { unreachable!() };
    p.send(ch, fattach(attach(name, handle, Role::Receiver)));
    for _ in 0..300 {
        if t.borrow().is_some() {
            break;
        }
        ms(5).await;
    }
    let l = t.borrow_mut().take().expect("link did not attach").expect("link");
    (l, a.handle())
}
/// A receiver link of the endpoint.
pub async fn receiver(p: &mut Peer, s: &Session, ch: u16, name: &str, handle: u32) -> (ntex_amqp::ReceiverLink, u32) {
    let (s2, n) = (s.clone(), name.to_string());
    let t = start(async move { s2.build_receiver_link(n.clone(), n).attach().await }).await;
    let (_, f) = p.next("attach", |f| matches!(f, Frame::Attach(_))).await;
    let Frame::Attach(a) = f else { unreachable!() };
    p.send(ch, fattach(attach(name, handle, Role::Sender)));
    for _ in 0..300 {
        if t.borrow().is_some() {
            break;
        }
        ms(5).await;
    }
    let l = t.borrow_mut().take().expect("link did not attach").expect("link");
    (l, a.handle())
}
