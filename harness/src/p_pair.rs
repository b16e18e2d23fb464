//! E19: a client and a server of the library, connected by a stream that delays, fragments and breaks.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

use ntex_amqp::codec::{Message as Msg, protocol as p};
use ntex_amqp::server::{Handshake, Router};
use ntex_amqp::types::{Link, Message, Outcome};
use ntex_amqp::{AmqpServiceConfig, ConnectionRef, ControlFrame, ControlFrameKind, Delivery, ReceiverLink, SenderLink, Session, State};
use ntex_bytes::{ByteString, Bytes};
use ntex_io::testing::IoTest;
use ntex_service::{fn_factory_with_config, fn_service};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use crate::runner::{Case, Prop, sub};
use crate::sut::*;

// ------------------------------------------------------------------ input

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LinkSpec {
    session: u8,
    by_client: bool,
    /// the client is the one that sends
    up: bool,
    credit: u32,
    /// limit announced by the receiver, if it attaches
    max: Option<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SendSpec {
    link: u16,
    size: u32,
    /// a message with sections instead of bytes
    msg: bool,
    tag: Option<Vec<u8>>,
    settled: bool,
    format: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Send(SendSpec),
    Burst(u8, SendSpec),
    /// bytes carried in one direction
    Move { up: bool, n: u32 },
    Yield(u8),
    /// settles what the receivers hold
    Release(u8),
    /// everything that can happen happens
    Drain,
    CloseLink { link: u16, sender: bool, err: bool },
    EndSession { s: u16, client: bool },
    /// gives up a send that has not completed
    Cancel(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum End {
    Close { client: bool, err: bool },
    /// both sides at once
    Both,
    Force { client: bool },
    Cut,
    /// cut after some more bytes got through
    CutAfter { up: u32, down: u32 },
    /// close, the stream breaks meanwhile
    CloseCut { client: bool, up: u32, down: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PCase {
    c_frame: u32,
    s_frame: u32,
    sasl: bool,
    /// 0: the application takes deliveries from the links, 1: publish service, 2: router
    mode: u8,
    sessions: Vec<bool>,
    links: Vec<LinkSpec>,
    outcomes: u64,
    /// share of deliveries the application keeps for a while, of 8
    hold: u8,
    /// readers take a delivery only when told to, the others as soon as they can
    #[serde(default)]
    lag: bool,
    /// bytes carried at a time while draining
    chunk_up: u32,
    chunk_down: u32,
    /// bytes an endpoint can write before the stream takes no more
    cap: Option<u32>,
    ops: Vec<Op>,
    drained: bool,
    end: End,
}

fn send_spec() -> BoxedStrategy<SendSpec> {
    (
        any::<u16>(),
        prop_oneof![
            6 => 0..60u32,
            4 => 400..620u32,
            2 => 900..3000u32,
            1 => select(vec![65_000u32, 65_535, 65_536, 70_000, 100_000]),
        ],
        proptest::bool::weighted(0.3),
        proptest::option::weighted(0.4, vec(any::<u8>(), 0..33)),
        proptest::bool::weighted(0.3),
        proptest::option::weighted(0.3, any::<u32>()),
    )
        .prop_map(|(link, size, msg, tag, settled, format)| SendSpec { link, size, msg, tag, settled, format })
        .boxed()
}

fn bytes_n() -> BoxedStrategy<u32> {
    prop_oneof![4 => 0..40u32, 4 => 40..700u32, 2 => 700..5000u32, 1 => Just(u32::MAX)].boxed()
}
fn chunk() -> BoxedStrategy<u32> {
    prop_oneof![3 => Just(u32::MAX), 3 => 1..16u32, 4 => 16..600u32, 2 => 600..20_000u32].boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        12 => send_spec().prop_map(Op::Send),
        2 => (2..40u8, send_spec()).prop_map(|(n, mut s)| {
            s.size = s.size.min(3000);
            Op::Burst(n, s)
        }),
        10 => (any::<bool>(), bytes_n()).prop_map(|(up, n)| Op::Move { up, n }),
        3 => (1..6u8).prop_map(Op::Yield),
        2 => any::<u8>().prop_map(Op::Release),
        2 => Just(Op::Drain),
    ]
    .boxed()
}

fn disturb() -> BoxedStrategy<Op> {
    prop_oneof![
        3 => (any::<u16>(), any::<bool>(), any::<bool>()).prop_map(|(link, sender, err)| Op::CloseLink { link, sender, err }),
        2 => (any::<u16>(), any::<bool>()).prop_map(|(s, client)| Op::EndSession { s, client }),
        2 => any::<u16>().prop_map(Op::Cancel),
    ]
    .boxed()
}

fn pcase() -> BoxedStrategy<PCase> {
    let frame = || prop_oneof![3 => Just(65535u32), 2 => Just(512), 3 => 512..700u32, 2 => 700..9000u32, 1 => Just(1 << 20)];
    (
        (frame(), frame(), proptest::bool::weighted(0.2), 0..3u8, vec(proptest::bool::weighted(0.8), 1..3)),
        vec(
            (any::<u8>(), any::<bool>(), any::<bool>(), prop_oneof![3 => 1..4u32, 3 => 4..20u32, 2 => Just(100)], proptest::option::weighted(0.15, select(vec![10u64, 100, 500, 1000, 66_000])))
                .prop_map(|(session, by_client, up, credit, max)| LinkSpec { session, by_client, up, credit, max }),
            1..6,
        ),
        (any::<u64>(), prop_oneof![2 => Just(0u8), 2 => 1..8u8], proptest::bool::weighted(0.3)),
        (chunk(), chunk(), proptest::option::weighted(0.25, prop_oneof![16..200u32, 200..5000u32])),
        vec(op(), 1..40),
        prop_oneof![3 => Just(vec![]), 2 => vec((any::<u16>(), disturb()), 1..4)],
        proptest::bool::weighted(0.6),
        prop_oneof![
            4 => (any::<bool>(), any::<bool>()).prop_map(|(client, err)| End::Close { client, err }),
            1 => Just(End::Both),
            1 => any::<bool>().prop_map(|client| End::Force { client }),
            2 => Just(End::Cut),
            3 => (bytes_n(), bytes_n()).prop_map(|(up, down)| End::CutAfter { up, down }),
            2 => (any::<bool>(), bytes_n(), bytes_n()).prop_map(|(client, up, down)| End::CloseCut { client, up, down }),
        ],
    )
        .prop_map(|((c_frame, s_frame, sasl, mode, sessions), links, (outcomes, hold, lag), (chunk_up, chunk_down, cap), mut ops, extra, drained, end)| {
            for (at, o) in extra {
                let i = at as usize * (ops.len() + 1) / 65536;
                ops.insert(i, o);
            }
            PCase { c_frame, s_frame, sasl, mode, sessions, links, outcomes, hold, lag, chunk_up, chunk_down, cap, ops, drained, end }
        })
        .boxed()
}

// ------------------------------------------------------------ application

/// What a receiver got.
#[derive(Clone, Debug, PartialEq)]
struct Got {
    body: Vec<u8>,
    tag: Option<Vec<u8>>,
    format: Option<u32>,
    settled: bool,
}

struct Sent {
    id: u32,
    spec: SendSpec,
    body: Vec<u8>,
    task: Task<Result<(Option<p::DeliveryState>, Vec<u8>), String>>,
    sent_ok: Rc<Cell<bool>>,
}

impl LinkSt {
    /// closed by the side that sends
    fn leaves(&mut self) {
        if !self.disturbed {
            self.disturbed = true;
            self.sure = Some(self.sent.iter().filter(|s| s.sent_ok.get()).count());
        }
    }
    /// closed by the side that receives
    fn left(&mut self) {
        self.disturbed = true;
        self.sure = None;
    }
}

#[derive(Default)]
struct LinkSt {
    sender: Option<SenderLink>,
    receiver: Option<ReceiverLink>,
    queue: VecDeque<(u32, SendSpec)>,
    sent: Vec<Sent>,
    got: Vec<Got>,
    /// a side closed it, its session ended, or an attach failed
    disturbed: bool,
    /// the sender or its session was closed by the sender, deliveries that were sent by then; None: a receiver did
    sure: Option<usize>,
    failed: Option<String>,
    loop_ended: Option<String>,
    running: bool,
}

struct Sh {
    links: Vec<LinkSt>,
    specs: Vec<LinkSpec>,
    outcomes: u64,
    hold: u8,
    lag: bool,
    gates: Vec<ntex_util::channel::oneshot::Sender<()>>,
    held: Vec<(u32, Delivery)>,
    waiting: Vec<ntex_util::channel::oneshot::Sender<()>>,
    given: BTreeMap<u32, u8>,
    err: Vec<String>,
    trace: Vec<String>,
}

#[derive(Clone)]
struct App(Rc<RefCell<Sh>>, Rc<Cell<u64>>);

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    x ^= x >> 31;
    x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x ^ (x >> 29)
}

fn app_err(k: u8) -> p::Error {
    ntex_amqp::error::AmqpError::internal_error().text("refused").description(if k % 2 == 0 { "even" } else { "odd" }).into()
}

fn state_of(k: u8) -> p::DeliveryState {
    match k {
        0 => p::DeliveryState::Accepted(p::Accepted {}),
        1 => p::DeliveryState::Rejected(p::Rejected { error: None }),
        2 => p::DeliveryState::Rejected(p::Rejected { error: Some(app_err(0)) }),
        3 => p::DeliveryState::Rejected(p::Rejected { error: Some(app_err(1)) }),
        4 => p::DeliveryState::Released(p::Released {}),
        _ => p::DeliveryState::Modified(p::Modified { delivery_failed: Some(true), undeliverable_here: Some(k % 2 == 0), message_annotations: None }),
    }
}

/// payload of a delivery, it starts with the number of the send
fn body_of(id: u32, size: u32) -> Vec<u8> {
    let mut v = id.to_be_bytes().to_vec();
    v.extend((0..size).map(|i| (i as u8).wrapping_mul(31).wrapping_add(id as u8)));
    v
}

fn message_of(id: u32, size: u32) -> Msg {
    let mut m = Msg::with_body(Bytes::from(body_of(id, size)));
    m.set_properties(|x| {
        x.message_id = Some(u64::from(id).into());
        x.subject = Some(ByteString::from("s"));
    });
    m.set_app_property("k", id);
    if id % 2 == 0 {
        m.set_header(p::Header { durable: true, priority: 7, ttl: Some(id), first_acquirer: false, delivery_count: 3 });
    }
    m
}

fn encoded(id: u32, s: &SendSpec) -> Vec<u8> {
    if s.msg {
        use ntex_amqp::codec::Encode;
        let m = message_of(id, s.size);
        let mut b = ntex_bytes::BytesMut::with_capacity(m.encoded_size());
        m.encode(&mut b);
        b.to_vec()
    } else {
        body_of(id, s.size)
    }
}

impl App {
    fn t(&self, s: impl Into<String>) {
        let mut a = self.0.borrow_mut();
        if a.trace.len() < 300 {
            a.trace.push(s.into());
        }
    }
    fn bad(&self, s: impl Into<String>) {
        self.0.borrow_mut().err.push(s.into());
    }
    fn bump(&self) {
        self.1.set(self.1.get() + 1);
    }

    fn index(name: &str) -> Option<usize> {
        name.strip_prefix("link").and_then(|s| s.parse().ok())
    }

    /// what arrived; the number of the send and the outcome it gets
    fn take(&self, i: usize, tr: &p::Transfer) -> Option<(u32, u8)> {
        let body = match tr.body() {
            Some(p::TransferBody::Data(b)) => b.to_vec(),
            None => vec![],
            Some(_) => {
                self.bad("a received transfer carries an encoded message");
                return None;
            }
        };
        let mut a = self.0.borrow_mut();
        let g = Got { body, tag: tr.delivery_tag().map(|b| b.to_vec()), format: tr.message_format(), settled: tr.settled().unwrap_or(false) };
        a.links[i].got.push(g.clone());
        let n = a.links[i].got.len();
        // number of the send it is expected to be
        let id = a.links[i].sent.iter().filter(|s| !s.spec_too_large(&a.specs[i])).nth(n - 1).map(|s| s.id);
        drop(a);
        self.bump();
        self.t(format!("app: link{i} takes {} bytes ({id:?})", g.body.len()));
        let Some(id) = id else {
            self.bad(format!("link{i}: more deliveries than sends"));
            return None;
        };
        let a = self.0.borrow();
        Some((id, (mix(a.outcomes, u64::from(id)) % 6) as u8))
    }

    fn holds(&self, id: u32) -> bool {
        let a = self.0.borrow();
        mix(a.outcomes ^ 77, u64::from(id)) % 8 < u64::from(a.hold)
    }

    fn settle(&self, id: u32, k: u8, mut d: Delivery) {
        self.0.borrow_mut().given.insert(id, k);
        d.settle(state_of(k));
    }

    fn taken(&self, i: usize, d: Delivery, tr: &p::Transfer) {
        let Some((id, k)) = self.take(i, tr) else { return };
        if self.holds(id) {
            self.0.borrow_mut().held.push((id, d));
        } else {
            self.settle(id, k, d);
        }
    }

    fn release(&self, n: usize) {
        for _ in 0..n {
            let x = {
                let mut a = self.0.borrow_mut();
                if a.held.is_empty() {
                    break;
                }
                let i = a.outcomes as usize % a.held.len();
                a.held.remove(i)
            };
            let k = (mix(self.0.borrow().outcomes, u64::from(x.0)) % 6) as u8;
            self.settle(x.0, k, x.1);
        }
        let l: Vec<_> = {
            let mut a = self.0.borrow_mut();
            let n1 = n.min(a.waiting.len());
            let mut l: Vec<_> = a.waiting.drain(..n1).collect();
            let n2 = n.min(a.gates.len());
            l.extend(a.gates.drain(..n2));
            l
        };
        for tx in l {
            let _ = tx.send(());
        }
    }

    fn start_loop(&self, i: usize, l: ReceiverLink) {
        let app = self.clone();
        let credit = self.0.borrow().specs[i].credit;
        self.0.borrow_mut().links[i].receiver = Some(l.clone());
        self.0.borrow_mut().links[i].running = true;
        l.set_link_credit(credit);
        ntex_rt::spawn(async move {
            loop {
                let gate = {
                    let mut a = app.0.borrow_mut();
                    a.lag.then(|| {
                        let (tx, rx) = ntex_util::channel::oneshot::channel();
                        a.gates.push(tx);
                        rx
                    })
                };
                if let Some(rx) = gate {
                    let _ = rx.await;
                }
                match l.recv().await {
                    Some(Ok((d, t))) => {
                        if l.credit() == 0 {
                            l.set_link_credit(credit);
                        }
                        app.taken(i, d, &t);
                    }
                    Some(Err(e)) => {
                        app.0.borrow_mut().links[i].loop_ended = Some(format!("{e:?}"));
                        break;
                    }
                    None => {
                        app.0.borrow_mut().links[i].loop_ended = Some("end".into());
                        break;
                    }
                }
            }
            app.0.borrow_mut().links[i].running = false;
            app.bump();
        });
    }

    /// handles attaches of the other side
    fn ctl(&self, take_here: bool) -> CtlFn {
        let app = self.clone();
        Rc::new(move |f: &ControlFrame| {
            match f.kind() {
                ControlFrameKind::AttachSender(a, _, l) => {
                    if let Some(i) = App::index(a.name()) {
                        app.0.borrow_mut().links[i].sender = Some(l.clone());
                    }
                }
                ControlFrameKind::AttachReceiver(a, _, l) => {
                    if let Some(i) = App::index(a.name()) {
                        if take_here {
                            app.start_loop(i, l.clone());
                        } else {
                            let c = app.0.borrow().specs[i].credit;
                            l.set_link_credit(c);
                        }
                    }
                }
                _ => {}
            }
            app.bump();
            Box::pin(async { Ok(()) })
        })
    }

    fn publish(&self, take_here: bool) -> PubFn {
        let app = self.clone();
        Rc::new(move |m: Message| {
            let app = app.clone();
            Box::pin(async move {
                if take_here
                    && let Message::Transfer(l) = m
                    && let Some(i) = App::index(l.name())
                    && app.0.borrow().specs[i].by_client
                {
                    if let Some((d, t)) = l.get_delivery() {
                        if l.credit() == 0 {
                            let c = app.0.borrow().specs[i].credit;
                            l.set_link_credit(c);
                        }
                        app.taken(i, d, &t);
                    } else {
                        app.bad(format!("link{i}: publish service is called, there is no delivery"));
                    }
                }
                Ok(())
            })
        })
    }
}

#[derive(Debug)]
struct HE(p::Error);
impl std::fmt::Display for HE {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("refused")
    }
}
impl From<HE> for p::Error {
    fn from(e: HE) -> p::Error {
        e.0
    }
}
impl TryFrom<HE> for Outcome {
    type Error = p::Error;
    fn try_from(e: HE) -> Result<Outcome, p::Error> {
        Err(e.0)
    }
}

fn router(app: App) -> Router<()> {
    Router::<()>::default().service(
        ["q/{name}"],
        fn_factory_with_config(async move |link: Link<()>| {
            let i = App::index(link.frame().name()).unwrap_or(0);
            let app = app.clone();
            Ok::<_, HE>(fn_service(move |t: p::Transfer| {
                let app = app.clone();
                async move {
                    let Some((id, k)) = app.take(i, &t) else { return Ok(Outcome::Accept) };
                    if app.holds(id) {
                        let (tx, rx) = ntex_util::channel::oneshot::channel();
                        app.0.borrow_mut().waiting.push(tx);
                        let _ = rx.await;
                    }
                    app.0.borrow_mut().given.insert(id, k % 4);
                    match k % 4 {
                        0 => Ok(Outcome::Accept),
                        1 => Ok(Outcome::Reject),
                        2 => Ok(Outcome::Error(app_err(0))),
                        _ => Err(HE(app_err(1))),
                    }
                }
            }))
        }),
    )
}

impl Sent {
    fn too_large(spec: &SendSpec, id: u32, l: &LinkSpec) -> bool {
        limit(l).is_some_and(|m| encoded_len(id, spec) > m)
    }
    fn spec_too_large(&self, l: &LinkSpec) -> bool {
        Sent::too_large(&self.spec, self.id, l) || (self.task.cancelled && !self.sent_ok.get())
    }
}

/// limit of the receiver that the sender knows of
fn limit(l: &LinkSpec) -> Option<u64> {
    let receiver_attaches = l.by_client != l.up;
    if receiver_attaches { l.max } else { None }
}

fn encoded_len(id: u32, s: &SendSpec) -> u64 {
    encoded(id, s).len() as u64
}

// ----------------------------------------------------------------- stream

struct Pipe {
    /// harness end of the client's stream, of the server's
    c: Option<IoTest>,
    s: Option<IoTest>,
    cap: Option<u32>,
    moved: u64,
}

impl Pipe {
    fn pump(&mut self, up: bool, n: u32) -> usize {
        let (Some(c), Some(s)) = (&self.c, &self.s) else { return 0 };
        let (from, to) = if up { (c, s) } else { (s, c) };
        let b = from.local_buffer(|b| {
            let k = b.len().min(n as usize);
            b.split_to(k)
        });
        let k = b.len();
        if k > 0 {
            to.write(&b);
            self.moved += k as u64;
        } else if to.remote_buffer(|b| !b.is_empty()) {
            to.write([]);
        }
        if let Some(cap) = self.cap
            && from.local_buffer(|b| b.is_empty())
        {
            from.remote_buffer_cap(cap as usize);
        }
        k
    }
    fn cut(&mut self, broken: bool) {
        for io in [self.c.take(), self.s.take()].into_iter().flatten() {
            if broken {
                io.write_error(std::io::Error::other("broken"));
            } else {
                // what is written from now on is lost
                io.remote_buffer_cap(1 << 30);
            }
        }
    }
}

struct W {
    app: App,
    pipe: Pipe,
    c: Endpoint,
    s: Endpoint,
    chunk: (u32, u32),
    ops: Vec<(String, Box<dyn Fn() -> bool>)>,
    next_id: u32,
}

impl W {
    fn activity(&self) -> u64 {
        self.app.1.get() + self.c.activity.get() + self.s.activity.get()
    }

    async fn flush_sends(&mut self) {
        let n = self.app.0.borrow().links.len();
        for i in 0..n {
            loop {
                let x = {
                    let mut a = self.app.0.borrow_mut();
                    let l = &mut a.links[i];
                    let Some(s) = l.sender.clone() else { break };
                    let Some((id, spec)) = l.queue.pop_front() else { break };
                    (s, id, spec)
                };
                let (s, id, spec) = x;
                let body = encoded(id, &spec);
                let mut b = if spec.msg {
                    s.transfer(message_of(id, spec.size))
                } else {
                    s.transfer(Bytes::from(body.clone()))
                };
                if let Some(t) = &spec.tag {
                    b = b.tag(Bytes::from(t.clone()));
                }
                if spec.settled {
                    b = b.settled();
                }
                if let Some(f) = spec.format {
                    b = b.format(f);
                }
                let sent_ok = Rc::new(Cell::new(false));
                let ok = sent_ok.clone();
                let settled = spec.settled;
                let task = Task::start(
                    async move {
                        let d = b.send().await.map_err(|e| format!("send: {e:?}"))?;
                        ok.set(true);
                        let tag = d.tag().to_vec();
                        if settled {
                            return Ok((None, tag));
                        }
                        let st = d.wait().await.map_err(|e| format!("wait: {e:?}"))?;
                        Ok((st, tag))
                    },
                    &self.app.1,
                )
                .await;
                self.app.t(format!("app: link{i} sends {id}, {} bytes{}", body.len(), if settled { ", settled" } else { "" }));
                self.app.0.borrow_mut().links[i].sent.push(Sent { id, spec, body, task, sent_ok });
            }
        }
    }

    /// everything that can happen without the passing of time
    async fn quiesce(&mut self, done: impl Fn(&W) -> bool) -> bool {
        let mut idle = 0;
        let mut last = (0, 0);
        let mut rounds = 0;
        while idle < 30 && rounds < 400_000 {
            let (u, d) = self.chunk;
            self.pipe.pump(true, u);
            self.pipe.pump(false, d);
            yields(1).await;
            self.flush_sends().await;
            let now = (self.pipe.moved, self.activity());
            if now == last {
                idle += 1;
                if done(self) {
                    return true;
                }
            } else {
                idle = 0;
                last = now;
            }
            rounds += 1;
        }
        done(self)
    }

    /// waits for a condition with ample time
    async fn drain(&mut self, done: impl Fn(&W) -> bool) -> bool {
        for naps in 0..15 {
            if self.quiesce(&done).await {
                return true;
            }
            sleep_ms(if naps < 5 { 3 } else { 25 }).await;
        }
        false
    }

    async fn op<T: 'static, F: Future<Output = T> + 'static>(&mut self, what: impl Into<String>, f: F) {
        let t = Rc::new(Task::start(f, &self.app.1).await);
        self.ops.push((what.into(), Box::new(move || t.done())));
    }
}

fn setup_links(w: &mut W, c: &PCase, sessions: &[Rc<RefCell<Option<Session>>>]) -> Vec<(String, std::pin::Pin<Box<dyn Future<Output = ()>>>)> {
    let mut out: Vec<(String, std::pin::Pin<Box<dyn Future<Output = ()>>>)> = vec![];
    for (i, l) in c.links.iter().enumerate() {
        // sessions[2k] is the client's end if the client opened it
        let k = l.session as usize % c.sessions.len();
        let spec = LinkSpec { by_client: c.sessions[k], ..l.clone() };
        let app = w.app.clone();
        let slot = sessions[k].clone();
        let sends = spec.up == spec.by_client;
        out.push((
            format!("attach of link{i}"),
            Box::pin(async move {
                let Some(s) = slot.borrow().clone() else {
                    app.0.borrow_mut().links[i].failed = Some("no session".into());
                    return;
                };
                let name = format!("link{i}");
                let addr = format!("q/{i}");
                if sends {
                    match s.build_sender_link(name, addr).attach().await {
                        Ok(l) => app.0.borrow_mut().links[i].sender = Some(l),
                        Err(e) => app.0.borrow_mut().links[i].failed = Some(format!("{e:?}")),
                    }
                } else {
                    let mut b = s.build_receiver_link(name, addr);
                    if let Some(m) = spec.max {
                        b = b.max_message_size(m);
                    }
                    match b.attach().await {
                        Ok(l) => app.start_loop(i, l),
                        Err(e) => app.0.borrow_mut().links[i].failed = Some(format!("{e:?}")),
                    }
                }
                app.bump();
            }),
        ));
    }
    out
}

fn e19(c: &PCase, case: &mut Case) -> Result<(), String> {
    let mut c = c.clone();
    // a link is attached by the side that opened its session
    for i in 0..c.links.len() {
        let k = c.links[i].session as usize % c.sessions.len();
        c.links[i].by_client = c.sessions[k];
    }
    let (r, labels, n) = block_on(run(c));
    for l in labels {
        case.label(l);
    }
    case.count("deliveries handed over", n as u64);
    if n > 0 {
        case.nontrivial();
    }
    r
}

async fn run(c: PCase) -> (Result<(), String>, Vec<&'static str>, usize) {
    let sh = Sh {
        links: c.links.iter().map(|_| LinkSt::default()).collect(),
        specs: c.links.clone(),
        outcomes: c.outcomes,
        hold: c.hold,
        lag: c.lag,
        gates: vec![],
        held: vec![],
        waiting: vec![],
        given: BTreeMap::new(),
        err: vec![],
        trace: vec![],
    };
    let app = App(Rc::new(RefCell::new(sh)), Rc::default());
    let (pc, ic) = IoTest::create();
    let (ps, is) = IoTest::create();
    let cap = c.cap.map_or(1 << 30, |c| c as usize);
    pc.remote_buffer_cap(cap);
    ps.remote_buffer_cap(cap);
    let cfg = |n: u32| AmqpServiceConfig::new().set_max_frame_size(n);
    let auth = c.sasl.then(|| ntex_amqp::client::SaslAuth { authz_id: "z".into(), authn_id: "u".into(), password: "p".into() });
    let cl = start_client(ic, cfg(c.c_frame), auth, None, app.ctl(true));
    let ep = Endpoint::new();
    let hs: HsFn = {
        let sink = ep.sink.clone();
        Rc::new(move |h: Handshake| {
            let sink = sink.clone();
            Box::pin(async move {
                let o = match h {
                    Handshake::Amqp(h) => h.open().await.map_err(|e| format!("{e:?}"))?,
                    Handshake::Sasl(s) => {
                        let i = s.mechanism("PLAIN").init().await.map_err(|e| format!("{e:?}"))?;
                        let ok = i.outcome(p::SaslCode::Ok).await.map_err(|e| format!("{e:?}"))?;
                        ok.open().await.map_err(|e| format!("{e:?}"))?
                    }
                };
                *sink.borrow_mut() = Some(o.sink().get_ref());
                Ok(o.ack(()))
            })
        })
    };
    let srv = if c.mode == 2 {
        start_server_with(ep, is, cfg(c.s_frame), hs, app.ctl(false), router(app.clone()).build())
    } else {
        let f = app.publish(c.mode == 1);
        let pb = fn_factory_with_config(async move |_: State<()>| Ok::<_, ()>(PubService(f.clone())));
        start_server_with(ep, is, cfg(c.s_frame), hs, app.ctl(c.mode == 0), pb)
    };
    let mut w = W { app: app.clone(), pipe: Pipe { c: Some(pc), s: Some(ps), cap: c.cap, moved: 0 }, c: cl, s: srv, chunk: (c.chunk_up, c.chunk_down), ops: vec![], next_id: 0 };
    let mut labels = vec![];
    let r = inner(&c, &mut w, &mut labels).await;
    let n = app.0.borrow().links.iter().map(|l| l.got.len()).sum();
    let r = r.map_err(|e| format!("{e}\n{}", app.0.borrow().trace.join("\n")));
    w.pipe.cut(true);
    let x = {
        let mut a = app.0.borrow_mut();
        a.lag = false;
        (std::mem::take(&mut a.held), std::mem::take(&mut a.waiting), std::mem::take(&mut a.gates))
    };
    drop(x);
    yields(30).await;
    let l = std::mem::take(&mut app.0.borrow_mut().links);
    drop(l);
    yields(10).await;
    (r, labels, n)
}

async fn inner(c: &PCase, w: &mut W, labels: &mut Vec<&'static str>) -> Result<(), String> {
    // the handshake
    if !w.drain(|w| w.c.sink.borrow().is_some() && w.s.sink.borrow().is_some()).await {
        return Err(format!("the connection is not opened: client {:?} {:?}, server {:?} {:?}", w.c.error.borrow(), w.c.done.borrow(), w.s.error.borrow(), w.s.done.borrow()));
    }
    let sink = |w: &W, client: bool| -> ConnectionRef { if client { w.c.sink.borrow().clone().unwrap() } else { w.s.sink.borrow().clone().unwrap() } };
    let mut sessions: Vec<Rc<RefCell<Option<Session>>>> = vec![];
    for by_client in &c.sessions {
        let slot: Rc<RefCell<Option<Session>>> = Rc::default();
        sessions.push(slot.clone());
        let s = sink(w, *by_client);
        w.op("open_session", async move {
            if let Ok(s) = s.open_session().await {
                *slot.borrow_mut() = Some(s);
            }
        })
        .await;
    }
    if !w.drain(|w| w.ops.iter().all(|o| (o.1)())).await || sessions.iter().any(|s| s.borrow().is_none()) {
        return Err("a session is not opened".into());
    }
    for (n, f) in setup_links(w, c, &sessions) {
        w.op(n, f).await;
    }
    let mut disturbed = false;
    for (i, op) in c.ops.iter().enumerate() {
        w.app.t(format!("-- {i}: {op:?}").chars().take(150).collect::<String>());
        match op {
            Op::Send(s) => enqueue(w, s),
            Op::Burst(n, s) => {
                labels.push("burst");
                for _ in 0..*n {
                    enqueue(w, s);
                }
            }
            Op::Move { up, n } => {
                w.pipe.pump(*up, *n);
                yields(1).await;
            }
            Op::Yield(n) => yields(*n as usize).await,
            Op::Release(n) => w.app.release(1 + *n as usize % 4),
            Op::Drain => {
                w.quiesce(|_| false).await;
            }
            Op::CloseLink { link, sender, err } => {
                let k = *link as usize * c.links.len() / 65536;
                let (s, r) = {
                    let a = w.app.0.borrow();
                    (a.links[k].sender.clone(), a.links[k].receiver.clone())
                };
                let err = *err;
                if *sender && let Some(l) = s {
                    w.app.0.borrow_mut().links[k].leaves();
                    disturbed = true;
                    w.op(format!("close of the sender of link{k}"), async move {
                        if err { l.close_with_error(app_err(0)).await } else { l.close().await }
                    })
                    .await;
                } else if !*sender && let Some(l) = r {
                    w.app.0.borrow_mut().links[k].left();
                    disturbed = true;
                    w.op(format!("close of the receiver of link{k}"), async move {
                        if err { l.close_with_error(app_err(0)).await } else { l.close().await }
                    })
                    .await;
                }
            }
            Op::EndSession { s, client } => {
                let k = *s as usize * sessions.len() / 65536;
                let Some(mut s) = sessions[k].borrow().clone() else { continue };
                if *client != c.sessions[k] {
                    // the other end of the session is known by its channel
                    let Some(x) = sink(w, *client).get_session_by_local_id(s.remote_channel_id()) else { continue };
                    s = x;
                }
                for (i, l) in c.links.iter().enumerate() {
                    if l.session as usize % c.sessions.len() == k {
                        let st = &mut w.app.0.borrow_mut().links[i];
                        if l.up == *client { st.leaves() } else { st.left() }
                    }
                }
                disturbed = true;
                w.op(format!("end of session {k}"), async move { s.end().await }).await;
            }
            Op::Cancel(n) => {
                let mut a = w.app.0.borrow_mut();
                let all: Vec<(usize, usize)> = a
                    .links
                    .iter()
                    .enumerate()
                    .flat_map(|(i, l)| l.sent.iter().enumerate().filter(|(_, s)| !s.task.done() && !s.sent_ok.get() && !s.task.cancelled).map(move |(k, _)| (i, k)))
                    .collect();
                if !all.is_empty() {
                    let (i, k) = all[*n as usize * all.len() / 65536];
                    a.links[i].sent[k].task.cancel();
                    drop(a);
                    labels.push("cancelled send");
                    yields(2).await;
                }
            }
        }
        w.flush_sends().await;
        if let Some(e) = w.app.0.borrow().err.first() {
            return Err(e.clone());
        }
    }
    if disturbed {
        labels.push("links or sessions closed");
    }
    if c.drained {
        labels.push("everything delivered");
        if std::mem::take(&mut w.app.0.borrow_mut().lag) {
            labels.push("late readers");
        }
        w.app.t("-- drain");
        let all = |w: &W| {
            let a = w.app.0.borrow();
            w.ops.iter().all(|o| (o.1)())
                && a.links.iter().all(|l| l.queue.is_empty() || l.disturbed)
                && a.links.iter().all(|l| l.sent.iter().all(|s| s.task.done() || s.task.cancelled))
                && a.links.iter().all(|l| l.sure.is_none_or(|n| l.got.len() >= n))
                && a.links.iter().zip(&c.links).all(|(l, spec)| l.disturbed || l.got.len() >= l.sent.iter().filter(|s| !s.spec_too_large(spec)).count())
        };
        let mut ok = false;
        for _ in 0..400 {
            w.quiesce(|_| false).await;
            if all(w) {
                ok = true;
                break;
            }
            let n = w.app.0.borrow().held.len() + w.app.0.borrow().waiting.len() + w.app.0.borrow().gates.len();
            if n == 0 {
                break;
            }
            w.app.release(1000);
        }
        if !ok {
            ok = w.drain(all).await;
        }
        if !ok {
            check(c, w, false)?;
            let a = w.app.0.borrow();
            let ops: Vec<&str> = w.ops.iter().filter(|o| !(o.1)()).map(|o| o.0.as_str()).collect();
            let sends: Vec<String> = a
                .links
                .iter()
                .enumerate()
                .flat_map(|(i, l)| l.sent.iter().filter(|s| !s.task.done() && !s.task.cancelled).map(move |s| format!("link{i}/{}{}", s.id, if s.sent_ok.get() { " (sent)" } else { "" })))
                .collect();
            return Err(format!("the exchange does not complete: operations {ops:?}, sends {sends:?}, client {:?}, server {:?}", w.c.done.borrow(), w.s.done.borrow()));
        }
        check(c, w, true)?;
    } else {
        check(c, w, false)?;
    }
    if let Some(e) = w.app.0.borrow().err.first() {
        return Err(e.clone());
    }
    // the end
    w.app.t(format!("-- end: {:?}", c.end));
    let mut graceful = false;
    match &c.end {
        End::Close { client, err } => {
            labels.push("closed");
            graceful = true;
            let s = sink(w, *client);
            let err = *err;
            w.op("close", async move { if err { s.close_with_error(app_err(0)).await } else { s.close().await } }).await;
        }
        End::Both => {
            labels.push("closed by both");
            graceful = true;
            for x in [true, false] {
                let s = sink(w, x);
                w.op("close", async move { s.close().await }).await;
            }
        }
        End::Force { client } => {
            labels.push("dropped by an endpoint");
            sink(w, *client).force_close();
            // what the endpoint does to its stream reaches the other side
            w.quiesce(|_| false).await;
            w.pipe.cut(c.outcomes & 1 == 0);
        }
        End::Cut => {
            labels.push("cut");
            w.pipe.cut(c.outcomes & 1 == 0);
        }
        End::CutAfter { up, down } => {
            labels.push("cut");
            w.pipe.pump(true, *up);
            w.pipe.pump(false, *down);
            yields(3).await;
            w.pipe.cut(c.outcomes & 1 == 0);
        }
        End::CloseCut { client, up, down } => {
            labels.push("cut while closing");
            let s = sink(w, *client);
            w.op("close", async move { s.close().await }).await;
            yields(2).await;
            w.pipe.pump(true, *up);
            w.pipe.pump(false, *down);
            yields(3).await;
            w.pipe.cut(c.outcomes & 1 == 0);
        }
    }
    let over = |w: &W| w.c.done.borrow().is_some() && w.s.done.borrow().is_some();
    let mut ok = w.drain(over).await;
    if !ok {
        // handlers still wait for the application
        w.app.release(1000);
        ok = w.drain(over).await;
    }
    if !ok {
        return Err(format!("a connection task does not complete: client {:?}, server {:?}", w.c.done.borrow(), w.s.done.borrow()));
    }
    w.app.0.borrow_mut().lag = false;
    w.app.release(1000);
    let done = |w: &W| {
        let a = w.app.0.borrow();
        w.ops.iter().all(|o| (o.1)()) && a.links.iter().all(|l| !l.running && l.sent.iter().all(|s| s.task.done() || s.task.cancelled))
    };
    if !w.drain(done).await {
        let a = w.app.0.borrow();
        let mut l: Vec<String> = w.ops.iter().filter(|o| !(o.1)()).map(|o| o.0.clone()).collect();
        for (i, k) in a.links.iter().enumerate() {
            if k.running {
                l.push(format!("recv on link{i}"));
            }
            l.extend(k.sent.iter().filter(|s| !s.task.done() && !s.task.cancelled).map(|s| format!("send {}{}", s.id, if s.sent_ok.get() { " (sent)" } else { "" })));
        }
        return Err(format!("these do not complete after the end: {l:?}"));
    }
    if graceful {
        for (n, e) in [("client", &w.c), ("server", &w.s)] {
            // the task of the side that is told to close reports it
            if let Some(Err(e)) = &*e.done.borrow()
                && !e.contains("Closed(")
            {
                return Err(format!("the connection task of the {n} fails after a close: {e}"));
            }
        }
    }
    check(c, w, false)?;
    if let Some(e) = w.app.0.borrow().err.first() {
        return Err(e.clone());
    }
    Ok(())
}

fn enqueue(w: &mut W, s: &SendSpec) {
    let n = w.app.0.borrow().links.len();
    let i = s.link as usize * n / 65536;
    let id = w.next_id;
    w.next_id += 1;
    w.app.0.borrow_mut().links[i].queue.push_back((id, s.clone()));
}

/// what was handed over against what was sent
fn check(c: &PCase, w: &W, all: bool) -> Result<(), String> {
    let a = w.app.0.borrow();
    for (i, l) in a.links.iter().enumerate() {
        let spec = &c.links[i];
        if let Some(e) = &l.failed
            && !l.disturbed
            && all
        {
            return Err(format!("link{i} is not attached: {e}"));
        }
        let exp: Vec<&Sent> = l.sent.iter().filter(|s| !s.spec_too_large(spec)).collect();
        if l.got.len() > exp.len() {
            return Err(format!("link{i}: {} sends, {} deliveries", exp.len(), l.got.len()));
        }
        for (k, (g, s)) in l.got.iter().zip(&exp).enumerate() {
            if g.body != s.body {
                return Err(format!("link{i}: delivery {k} is not what send {} passed: {} bytes for {}", s.id, g.body.len(), s.body.len()));
            }
            if g.settled != s.spec.settled {
                return Err(format!("link{i}: delivery {k} (send {}) is settled: {}", s.id, g.settled));
            }
            if s.spec.format.is_some() && g.format != s.spec.format {
                return Err(format!("link{i}: format of delivery {k} is {:?}, sent with {:?}", g.format, s.spec.format));
            }
            if s.spec.tag.is_some() && g.tag != s.spec.tag {
                return Err(format!("link{i}: tag of delivery {k} is {:?}, sent with {:?}", g.tag, s.spec.tag));
            }
            if let Some(Ok((_, t))) = &*s.task.slot.borrow()
                && g.tag.as_ref() != Some(t)
            {
                return Err(format!("link{i}: tag of delivery {k} is {:?}, the sender was told {t:?}", g.tag));
            }
            if s.spec.msg {
                use ntex_amqp::codec::Decode;
                let mut b = Bytes::from(g.body.clone());
                match Msg::decode(&mut b).map(|mut m| {
                    m.0.message_format = Some(0);
                    m
                }) {
                    // the format is not part of the bytes
                    Ok(m) if m == message_of(s.id, s.spec.size) => {}
                    r => return Err(format!("link{i}: delivery {k} parses to {r:?}")),
                }
                if s.spec.format.is_none() && g.format != Some(0) {
                    return Err(format!("link{i}: format of delivery {k} is {:?}, the message has 0", g.format));
                }
            }
        }
        if all && !l.disturbed && l.got.len() < exp.len() {
            return Err(format!("link{i}: {} sends, {} deliveries", exp.len(), l.got.len()));
        }
        if all
            && let Some(n) = l.sure
            && l.got.len() < n
        {
            return Err(format!("link{i}: {n} were sent before the sender closed the link, {} deliveries", l.got.len()));
        }
        for s in &l.sent {
            if s.task.cancelled {
                continue;
            }
            let large = s.spec_too_large(spec);
            match &*s.task.slot.borrow() {
                None if large => return Err(format!("link{i}: send {} exceeds the limit of the receiver and does not fail", s.id)),
                Some(Ok(_)) if large => return Err(format!("link{i}: send {} exceeds the limit of the receiver and succeeds", s.id)),
                None => {}
                Some(Err(_)) if large => {}
                Some(Err(e)) => {
                    if all && !l.disturbed {
                        return Err(format!("link{i}: send {} fails: {e}", s.id));
                    }
                    if e.contains("BodyTooLarge") {
                        return Err(format!("link{i}: send {} of {} bytes is refused: {e}", s.id, s.body.len()));
                    }
                }
                Some(Ok((st, _))) => {
                    if s.spec.settled {
                        continue;
                    }
                    let Some(k) = a.given.get(&s.id) else {
                        return Err(format!("link{i}: send {} completes with {st:?}, the receiver gave no outcome", s.id));
                    };
                    if *st != Some(state_of(*k)) {
                        return Err(format!("link{i}: send {} completes with {st:?}, the receiver gave {:?}", s.id, state_of(*k)));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "E19",
        rule: "non-trivial if at least one delivery was handed over",
        assumptions: &[],
        spin_secs: None,
        subs: vec![sub("pair", 25_000, 800_000, |_| pcase(), e19)],
    }]
}
