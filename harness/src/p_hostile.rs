//! E15: a peer that does not play by the rules.
use std::cell::{Cell, RefCell};
use std::rc::Rc;

use ntex_amqp::codec::protocol as p;
use ntex_amqp::server::{Router, Server};
use ntex_amqp::types::{Link, Message, Outcome};
use ntex_amqp::{AmqpServiceConfig, ControlFrame, ControlFrameKind, Delivery, ReceiverLink, SenderLink, Session, State};
use ntex_bytes::Bytes;
use ntex_io::testing::IoTest;
use ntex_io::{Io, IoBoxed};
use ntex_service::cfg::SharedCfg;
use ntex_service::{ServiceFactory, fn_factory_with_config, fn_service};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use crate::alloc;
use crate::conv::mk;
use crate::r#gen;
use crate::raw::Raw;
use crate::refcodec::Val;
use crate::runner::{Case, Prop, sub};
use crate::schema;
use crate::sut::*;
use crate::wire::{self, HDR_AMQP, HDR_SASL, Item, Xfer};

// ------------------------------------------------------------------ input

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// with `fix` below the level of the case, channel, handle, name and ids are made to fit
    Frame { ch: u16, v: Val, body: Vec<u8>, fix: u8 },
    /// the same frame many times
    Flood { n: u16, ch: u16, v: Val, size: u16, fix: u8 },
    /// a frame of the sasl type
    Sasl { v: Val },
    Bytes(Vec<u8>),
    Empty,
    App(App),
    Rest,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum App {
    Open,
    Sender { s: u16, name: u8 },
    Receiver { s: u16, name: u8, credit: Option<u32> },
    Send { l: u16, size: u32, settled: bool },
    Credit { l: u16, n: u32 },
    /// wait for the link to have credit
    Ready { l: u16 },
    CloseSender { l: u16, err: bool },
    CloseReceiver { l: u16, err: bool },
    Settle { k: u16, how: u8 },
    EndSession { s: u16 },
    Close { err: bool },
    Force,
    /// forget everything the application holds
    Drop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HCase {
    client: bool,
    router: bool,
    /// what is done before the history starts, in rule-abiding steps
    pre: u16,
    /// the history starts instead of the open (0), the header (1), a SASL exchange (2)
    early: Option<u8>,
    max_frame: u32,
    own_frame: u32,
    ch_max: Option<u16>,
    idle: Option<u32>,
    ctl: u8,
    verdict: u8,
    enc: u64,
    frag: u8,
    /// percentage of frames made to fit the state of the connection
    sane: u8,
    /// end and detach are answered
    polite: bool,
    ops: Vec<Op>,
    /// the stream ends within the bytes of the next frame
    part: Option<(Val, u8)>,
}

fn handle() -> BoxedStrategy<u32> {
    prop_oneof![12 => 0..5u32, 1 => select(vec![255u32, 256, 65535, 65536, u32::MAX - 1, u32::MAX])].boxed()
}
fn chan() -> BoxedStrategy<u16> {
    prop_oneof![12 => select(vec![0u16, 0, 0, 5, 5, 1, 2]), 1 => select(vec![255u16, 256, 1023, 1024, 1025, 65534, 65535])].boxed()
}
fn seq() -> BoxedStrategy<u32> {
    prop_oneof![
        12 => 0..8u32,
        3 => select(vec![i32::MAX as u32 - 1, i32::MAX as u32, 1 << 31, (1 << 31) + 1, u32::MAX - 2, u32::MAX - 1, u32::MAX]),
        1 => any::<u32>(),
    ]
    .boxed()
}
fn size() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => 0..5u32,
        4 => select(vec![10u32, 50, 100, 1000, 2048]),
        2 => select(vec![u32::MAX, u32::MAX - 1, 1 << 31, i32::MAX as u32]),
    ]
    .boxed()
}
fn osome<T: Clone + std::fmt::Debug + 'static>(w: f64, s: BoxedStrategy<T>) -> BoxedStrategy<Option<T>> {
    proptest::option::weighted(w, s).boxed()
}
fn state() -> BoxedStrategy<Val> {
    prop_oneof![
        6 => Just(wire::accepted()),
        2 => Just(wire::released()),
        2 => Just(wire::rejected(None)),
        1 => Just(wire::rejected(Some(wire::error("amqp:not-found", Some("x"))))),
        1 => Just(wire::modified(Some(true), None)),
        1 => (seq(), any::<u64>()).prop_map(|(n, o)| wire::received(n, o)),
        1 => Just(mk(0x33, vec![Val::Bin(vec![1, 2])])),
        1 => Just(mk(0x34, vec![Val::Bin(vec![1]), wire::accepted()])),
        1 => r#gen::val(2, 6),
    ]
    .boxed()
}
fn err() -> BoxedStrategy<Option<Val>> {
    osome(0.4, prop_oneof![3 => Just(wire::error("amqp:internal-error", None)), 1 => schema::comp_gen(&schema::ERROR)].boxed())
}
fn name() -> BoxedStrategy<String> {
    prop_oneof![10 => select(vec!["a", "b", "c", "x0", "x1", "y0", "y1", ""]).prop_map(String::from), 1 => r#gen::string()].boxed()
}
fn tag() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![8 => vec(any::<u8>(), 0..5), 1 => vec(any::<u8>(), 30..40)].boxed()
}
fn payload() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![6 => vec(any::<u8>(), 0..20), 2 => vec(any::<u8>(), 100..600), 1 => (2000..9000usize).prop_map(|n| vec![7u8; n])].boxed()
}
fn terminus() -> BoxedStrategy<Option<Val>> {
    let addr = || osome(0.8, prop_oneof![6 => select(vec!["a", "r/1", "x"]).prop_map(String::from), 1 => r#gen::string()].boxed());
    prop_oneof![
        6 => addr().prop_map(|a| Some(wire::target(a.as_deref()))),
        6 => addr().prop_map(|a| Some(wire::source(a.as_deref()))),
        1 => Just(None),
        1 => Just(Some(mk(0x30, vec![]))),
        1 => schema::comp_gen(&schema::TARGET).prop_map(Some),
        1 => schema::comp_gen(&schema::SOURCE).prop_map(Some),
    ]
    .boxed()
}

/// performatives with plausible and extreme values
fn perf() -> BoxedStrategy<Val> {
    prop_oneof![
        4 => (osome(0.4, chan()), seq(), size(), size(), handle()).prop_map(|(r, n, i, o, h)| {
            mk(wire::BEGIN, vec![r.map_or(Val::Null, Val::Ushort), wire::u(n), wire::u(i), wire::u(o), wire::u(h), Val::Null, Val::Null, Val::Null])
        }),
        6 => (name(), handle(), any::<bool>(), terminus(), terminus(), osome(0.8, seq()), osome(0.4, r#gen::edge_u64()), 0..3u8, 0..2u8)
            .prop_map(|(n, h, r, s, t, d, m, a, b)| {
                mk(wire::ATTACH, vec![
                    Val::str(&n), wire::u(h), wire::b(r), Val::Ubyte(a), Val::Ubyte(b),
                    s.unwrap_or(Val::Null), t.unwrap_or(Val::Null), Val::Null, wire::b(false),
                    wire::ou(d), m.map_or(Val::Null, Val::Ulong), Val::Null, Val::Null, Val::Null,
                ])
            }),
        6 => (osome(0.8, seq()), size(), seq(), size(), osome(0.7, handle()), osome(0.8, seq()), osome(0.9, size()), any::<bool>(), any::<bool>())
            .prop_map(|(a, b, c, d, h, dc, lc, drain, echo)| {
                mk(wire::FLOW, vec![
                    wire::ou(a), wire::u(b), wire::u(c), wire::u(d), wire::ou(h), wire::ou(dc), wire::ou(lc),
                    Val::Null, wire::b(drain), wire::b(echo), Val::Null,
                ])
            }),
        8 => (handle(), osome(0.8, seq()), osome(0.8, tag()), osome(0.7, any::<u32>().boxed()), osome(0.6, any::<bool>().boxed()),
              proptest::bool::weighted(0.3), osome(0.1, state()), proptest::bool::weighted(0.1))
            .prop_map(|(h, id, tag, fmt, settled, more, state, aborted)| {
                wire::transfer(&Xfer { handle: h, id, tag, fmt, settled, more, state, aborted, payload: vec![] })
            }),
        6 => (any::<bool>(), seq(), osome(0.5, seq()), any::<bool>(), osome(0.8, state()))
            .prop_map(|(r, f, l, s, st)| wire::disposition(r, f, l, s, st)),
        3 => (handle(), any::<bool>(), err()).prop_map(|(h, c, e)| wire::detach(h, c, e)),
        1 => err().prop_map(wire::end),
        1 => schema::frame_gen().prop_map(|v| if matches!(code_of(&v), wire::CLOSE | wire::OPEN) { wire::begin(None, 0, 10, 10) } else { v }),
    ]
    .boxed()
}

fn app() -> BoxedStrategy<App> {
    let k = any::<u16>;
    prop_oneof![
        2 => Just(App::Open),
        3 => (k(), 0..3u8).prop_map(|(s, name)| App::Sender { s, name }),
        3 => (k(), 0..3u8, osome(0.5, size())).prop_map(|(s, name, credit)| App::Receiver { s, name, credit }),
        6 => (k(), prop_oneof![4 => 0..50u32, 1 => 100..5000u32, 1 => Just(100_000u32)], any::<bool>()).prop_map(|(l, size, settled)| App::Send { l, size, settled }),
        2 => (k(), size()).prop_map(|(l, n)| App::Credit { l, n }),
        1 => k().prop_map(|l| App::Ready { l }),
        1 => (k(), any::<bool>()).prop_map(|(l, err)| App::CloseSender { l, err }),
        1 => (k(), any::<bool>()).prop_map(|(l, err)| App::CloseReceiver { l, err }),
        2 => (k(), any::<u8>()).prop_map(|(k, how)| App::Settle { k, how }),
        1 => k().prop_map(|s| App::EndSession { s }),
    ]
    .boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        24 => (chan(), perf(), prop_oneof![3 => Just(vec![]), 2 => payload()], 0..100u8)
            .prop_map(|(ch, v, body, fix)| Op::Frame { ch, body: if code_of(&v) == wire::TRANSFER { body } else { vec![] }, v, fix }),
        1 => (2..400u16, chan(), perf(), prop_oneof![Just(0u16), Just(3), Just(600)], 0..100u8).prop_map(|(n, ch, v, size, fix)| Op::Flood { n, ch, v, size, fix }),
        8 => app().prop_map(Op::App),
        6 => Just(Op::Rest),
        1 => Just(Op::Empty),
    ]
    .boxed()
}

fn hcase() -> BoxedStrategy<HCase> {
    // what ends a connection comes rarely, and not in the middle
    let wild = prop_oneof![
        2 => vec(any::<u8>(), 0..40).prop_map(Op::Bytes),
        2 => (vec(any::<u8>(), 0..20), any::<u8>()).prop_map(|(b, d)| {
            let mut v = ((b.len() + 8) as u32).to_be_bytes().to_vec();
            v.extend([2, d % 3, 0, 0]);
            v.extend(b);
            Op::Bytes(v)
        }),
        1 => (size(), any::<u16>(), osome(0.5, size())).prop_map(|(m, c, i)| Op::Frame { ch: 0, v: wire::open("again", None, m, c, i), body: vec![], fix: 100 }),
        1 => Just(Op::Bytes(HDR_AMQP.to_vec())),
        1 => Just(Op::Bytes(HDR_SASL.to_vec())),
        1 => schema::sasl_gen().prop_map(|v| Op::Sasl { v }),
        1 => any::<bool>().prop_map(|err| Op::App(App::Close { err })),
        1 => Just(Op::App(App::Force)),
        1 => Just(Op::App(App::Drop)),
        1 => err().prop_map(|e| Op::Frame { ch: 0, v: wire::close(e), body: vec![], fix: 100 }),
        1 => (chan(), err()).prop_map(|(ch, e)| Op::Frame { ch, v: wire::end(e), body: vec![], fix: 100 }),
    ];
    (
        (
            any::<bool>(),
            any::<bool>(),
            prop_oneof![4 => any::<u16>(), 1 => Just(0u16), 3 => Just(u16::MAX)],
            proptest::option::weighted(0.08, 0..3u8),
            prop_oneof![4 => Just(65536u32), 2 => Just(512), 1 => select(vec![0u32, 1, 8, 9, 20, 60, 100, 300, 511, 513, u32::MAX])],
            prop_oneof![4 => Just(65535u32), 1 => Just(512), 1 => Just(1024)],
            proptest::option::weighted(0.8, select(vec![0u16, 1, 7, 1024, 65535])),
            proptest::option::weighted(0.3, select(vec![0u32, 1, 2, 10, 1000, 60_000, u32::MAX])),
        ),
        prop_oneof![6 => Just(0u8), 1 => any::<u8>()],
        any::<u8>(),
        prop_oneof![2 => Just(0u64), 1 => any::<u64>()],
        prop_oneof![6 => Just(0u8), 1 => 1..60u8],
        prop_oneof![6 => vec(op(), 1..14), 4 => vec(op(), 10..60)],
        (prop_oneof![2 => Just(vec![]), 1 => vec(wild, 1..3)], select(vec![0u8, 90, 97, 97, 100, 100, 100]), any::<bool>()),
        vec(op(), 0..4),
        proptest::option::weighted(0.1, (perf(), any::<u8>())),
    )
        .prop_map(|((client, router, pre, early, max_frame, own_frame, ch_max, idle), ctl, verdict, enc, frag, mut ops, (wild, sane, polite), tail, part)| {
            if !wild.is_empty() {
                ops.extend(wild);
                ops.extend(tail);
            }
            HCase { client, router, pre, early, max_frame, own_frame, ch_max, idle, ctl, verdict, enc, frag, sane, polite, ops, part }
        })
        .boxed()
}

// ------------------------------------------------------------ application

#[derive(Default)]
struct AppSt {
    senders: Vec<SenderLink>,
    receivers: Vec<ReceiverLink>,
    held: Vec<Delivery>,
    sessions: Vec<Session>,
    calls: u32,
    ctl: u32,
    got: Vec<Vec<u8>>,
}

type Shared = Rc<RefCell<AppSt>>;

fn app_err() -> p::Error {
    ntex_amqp::error::AmqpError::internal_error().text("refused").into()
}

fn ctl_fn(app: Shared, verdict: u8) -> CtlFn {
    Rc::new(move |f: &ControlFrame| {
        let mut a = app.borrow_mut();
        a.ctl += 1;
        let refuse = verdict != 0 && (a.ctl * 7 + u32::from(verdict)) % 5 == 0;
        if let ControlFrameKind::AttachSender(_, _, l) = f.kind()
            && !refuse
        {
            a.senders.push(l.clone());
        }
        if let ControlFrameKind::AttachReceiver(_, _, l) = f.kind()
            && !refuse
        {
            a.receivers.push(l.clone());
        }
        Box::pin(async move { if refuse { Err(app_err()) } else { Ok(()) } })
    })
}

fn pub_fn(app: Shared, verdict: u8) -> PubFn {
    Rc::new(move |m: Message| {
        let app = app.clone();
        Box::pin(async move {
            match m {
                Message::Transfer(l) => {
                    let n = {
                        let mut a = app.borrow_mut();
                        a.calls += 1;
                        a.calls
                    };
                    if let Some((mut d, t)) = l.get_delivery() {
                        let body = match t.body() {
                            Some(p::TransferBody::Data(b)) => b.to_vec(),
                            _ => vec![],
                        };
                        app.borrow_mut().got.push(body);
                        match (u32::from(verdict) + n) % 6 {
                            0 => app.borrow_mut().held.push(d),
                            1 => {}
                            2 => d.settle(p::DeliveryState::Rejected(p::Rejected { error: Some(app_err()) })),
                            3 => return Err(app_err()),
                            _ => d.settle(p::DeliveryState::Accepted(p::Accepted {})),
                        }
                        if l.credit() == 0 {
                            l.set_link_credit(50);
                        }
                    }
                    Ok(())
                }
                Message::Attached(..) if verdict % 16 == 3 => Err(app_err()),
                _ => Ok(()),
            }
        })
    })
}

#[derive(Debug)]
struct HE(p::Error);
impl std::fmt::Display for HE {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("refused")
    }
}
impl From<HE> for p::Error {
    fn from(e: HE) -> p::Error {
        e.0
    }
}
impl TryFrom<HE> for Outcome {
    type Error = p::Error;
    fn try_from(e: HE) -> Result<Outcome, p::Error> {
        Err(e.0)
    }
}

fn router(app: Shared, verdict: u8) -> Router<()> {
    Router::<()>::default().service(
        ["a", "r/{x}", "x", "probe"],
        fn_factory_with_config(async move |link: Link<()>| {
            if verdict % 16 == 3 {
                return Err(HE(app_err()));
            }
            app.borrow_mut().receivers.push(link.receiver().clone());
            let app = app.clone();
            Ok::<_, HE>(fn_service(move |t: p::Transfer| {
                let app = app.clone();
                async move {
                    let n = {
                        let mut a = app.borrow_mut();
                        a.calls += 1;
                        let body = match t.body() {
                            Some(p::TransferBody::Data(b)) => b.to_vec(),
                            _ => vec![],
                        };
                        a.got.push(body);
                        a.calls
                    };
                    match (u32::from(verdict) + n) % 6 {
                        0 => Ok(Outcome::Reject),
                        1 => Ok(Outcome::Error(app_err())),
                        2 => Err(HE(app_err())),
                        _ => Ok::<_, HE>(Outcome::Accept),
                    }
                }
            }))
        }),
    )
}

/// One server, several connections.
fn start_servers(ios: Vec<IoTest>, cfg: AmqpServiceConfig, apps: Vec<(Shared, Endpoint)>, ctl: u8, verdict: u8, with_router: bool) -> Vec<Endpoint> {
    // connections are told apart by the order in which they are opened
    let app = apps[0].0.clone();
    let eps: Vec<Endpoint> = apps.into_iter().map(|a| a.1).collect();
    let slots: Vec<_> = eps.iter().map(|e| (e.sink.clone(), e.done.clone(), e.activity.clone())).collect();
    ntex_rt::spawn(async move {
        let next = Rc::new(Cell::new(0));
        let sinks: Vec<_> = slots.iter().map(|s| s.0.clone()).collect();
        let b = Server::build(async move |h: ntex_amqp::server::Handshake| {
            match h {
                ntex_amqp::server::Handshake::Amqp(h) => {
                    let o = h.open().await.map_err(|e| HsErr(format!("{e:?}")))?;
                    let i = if o.frame().container_id().as_str() == "second" { 1 } else { 0 };
                    next.set(next.get() + 1);
                    *sinks[i].borrow_mut() = Some(o.sink().get_ref());
                    Ok::<_, HsErr>(o.ack(()))
                }
                ntex_amqp::server::Handshake::Sasl(s) => {
                    let init = s.mechanism("PLAIN").init().await.map_err(|e| HsErr(format!("{e:?}")))?;
                    let ok = init.outcome(p::SaslCode::Ok).await.map_err(|e| HsErr(format!("{e:?}")))?;
                    let o = ok.open().await.map_err(|e| HsErr(format!("{e:?}")))?;
                    *sinks[0].borrow_mut() = Some(o.sink().get_ref());
                    Ok(o.ack(()))
                }
            }
        })
        .control(fn_factory_with_config({
            let c = ctl_fn(app.clone(), ctl);
            async move |_: State<()>| Ok::<_, ()>(CtlService(c.clone()))
        }));
        let cfg = shared(cfg);
        async fn run<S>(srv: S, cfg: SharedCfg, ios: Vec<IoTest>, slots: Vec<(Rc<RefCell<Option<ntex_amqp::ConnectionRef>>>, Rc<RefCell<Option<Result<(), String>>>>, Rc<Cell<u64>>)>)
        where
            S: ServiceFactory<IoBoxed, SharedCfg, Response = ()>,
            S::Error: std::fmt::Debug,
            S::Service: 'static,
        {
            let Ok(svc) = srv.create(cfg.clone()).await else { panic!("server") };
            let pl = ntex_service::Pipeline::new(svc);
            for (io, (_, done, act)) in ios.into_iter().zip(slots) {
                let pl = pl.clone();
                let cfg = cfg.clone();
                ntex_rt::spawn(async move {
                    let r = pl.call(IoBoxed::from(Io::new(io, cfg))).await;
                    *done.borrow_mut() = Some(r.map_err(|e| format!("{e:?}")));
                    act.set(act.get() + 1);
                });
            }
        }
        if with_router {
            run(b.finish(router(app, verdict).build()), cfg, ios, slots).await;
        } else {
            let f = pub_fn(app, verdict);
            run(b.finish(fn_factory_with_config(async move |_: State<()>| Ok::<_, ()>(PubService(f.clone())))), cfg, ios, slots).await;
        }
    });
    eps
}

// ---------------------------------------------------------------- history

struct H {
    r: Raw,
    app: Shared,
    act: Rc<Cell<u64>>,
    tasks: Vec<(String, Box<dyn Fn() -> bool>)>,
    labels: Vec<&'static str>,
    seen: usize,
    closed: bool,
    chans: Vec<Chan>,
    own_frame: u32,
    ch_max: u16,
    names: u32,
}

/// a session as the peer left it
struct Chan {
    ch: u16,
    /// channel of the endpoint
    sut: Option<u16>,
    links: Vec<Link1>,
    next_id: u32,
}

struct Link1 {
    h: u32,
    receiver: bool,
    name: String,
    more: bool,
}

fn code_of(v: &Val) -> u64 {
    match v {
        Val::Desc(d, _) => match **d {
            Val::Ulong(c) => c,
            _ => u64::MAX,
        },
        _ => u64::MAX,
    }
}

fn set(v: &mut Val, i: usize, x: Val) {
    if let Val::Desc(_, b) = v
        && let Val::List(l) = &mut **b
    {
        while l.len() <= i {
            l.push(Val::Null);
        }
        l[i] = x;
    }
}
fn get(v: &Val, i: usize) -> Val {
    wire::fields(v).get(i).cloned().unwrap_or(Val::Null)
}
fn num(v: &Val, i: usize) -> u32 {
    match get(v, i) {
        Val::Uint(x) => x,
        _ => 0,
    }
}

fn fit_state(v: &mut Val, i: usize) {
    let s = get(v, i);
    if s != Val::Null && !matches!(s, Val::Desc(..) if (0x23..0x28).contains(&code_of(&s))) {
        set(v, i, wire::accepted());
    }
}

impl H {
    /// keeps track of what the peer did
    fn track(&mut self, ch: u16, v: &Val) {
        let code = code_of(v);
        let k = self.chans.iter().position(|c| c.ch == ch);
        match (code, k) {
            (wire::BEGIN, None) => {
                let sut = match get(v, 0) {
                    Val::Ushort(x) => Some(x),
                    _ => None,
                };
                self.chans.push(Chan { ch, sut, links: vec![], next_id: 0 });
            }
            (wire::ATTACH, Some(k)) => {
                let (h, receiver) = (num(v, 1), get(v, 2) == Val::Bool(true));
                let name = match get(v, 0) {
                    Val::Str(s) => s,
                    _ => String::new(),
                };
                self.chans[k].links.push(Link1 { h, receiver, name, more: false });
            }
            (wire::DETACH, Some(k)) => {
                let h = num(v, 0);
                self.chans[k].links.retain(|l| l.h != h);
            }
            (wire::END, Some(k)) => {
                self.chans.remove(k);
            }
            (wire::TRANSFER, Some(k)) => {
                let h = num(v, 0);
                let (more, aborted) = (get(v, 5) == Val::Bool(true), get(v, 9) == Val::Bool(true));
                let c = &mut self.chans[k];
                if let Some(l) = c.links.iter_mut().find(|l| l.h == h) {
                    if !l.more {
                        c.next_id = c.next_id.wrapping_add(1);
                    }
                    l.more = more && !aborted;
                }
            }
            _ => {}
        }
    }

    /// the channel of the endpoint that a channel of the peer is paired with
    fn paired(&self, k: usize) -> Option<u16> {
        let c = &self.chans[k];
        c.sut.or_else(|| self.r.frames().filter(|f| f.code == wire::BEGIN && f.u16(0) == Some(c.ch)).last().map(|f| f.ch))
    }

    /// channel, handle, name and ids that fit; everything else stays
    fn fit(&mut self, ch: u16, mut v: Val, body: &[u8]) -> (u16, Val, Vec<u8>) {
        let mut code = code_of(&v);
        if self.chans.is_empty() && matches!(code, wire::ATTACH..=wire::END) {
            v = wire::begin(None, 0, 1000, 1000);
            code = wire::BEGIN;
        }
        if code == wire::BEGIN && self.chans.len() > usize::from(self.ch_max) {
            v = wire::flow(None, 1000, 0, 1000, None, true);
            code = wire::FLOW;
        }
        if code == wire::BEGIN {
            let ch = (0..).find(|n| self.chans.iter().all(|c| c.ch != *n)).unwrap_or(0);
            let waiting = self
                .r
                .frames()
                .filter(|f| f.code == wire::BEGIN && f.u16(0).is_none())
                .map(|f| f.ch)
                .filter(|n| self.chans.iter().all(|c| c.sut != Some(*n)))
                .next();
            set(&mut v, 0, waiting.map_or(Val::Null, Val::Ushort));
            return (ch, v, vec![]);
        }
        if self.chans.is_empty() {
            return (ch, v, vec![]);
        }
        let k = ch as usize % self.chans.len();
        let ch = self.chans[k].ch;
        let sut = self.paired(k);
        let room = (self.own_frame as usize).saturating_sub(120);
        let body = body[..body.len().min(room)].to_vec();
        let on = |h: u32, links: &[Link1]| (!links.is_empty()).then(|| links[h as usize % links.len()].h);
        let c = &self.chans[k];
        match code {
            wire::ATTACH => {
                let h = (0..).find(|n| c.links.iter().all(|l| l.h != *n)).unwrap_or(0);
                set(&mut v, 1, Val::Uint(h));
                // an attach that waits for the peer
                let wait = self
                    .r
                    .frames()
                    .filter(|f| f.code == wire::ATTACH && Some(f.ch) == sut)
                    .filter_map(|f| Some((f.str(0)?.to_string(), f.bool(2).unwrap_or(false))))
                    .find(|(n, r)| c.links.iter().all(|l| !(l.name == *n && l.receiver != *r)));
                if let Some((n, r)) = wait {
                    set(&mut v, 0, Val::str(&n));
                    set(&mut v, 2, Val::Bool(!r));
                } else if num(&v, 1) < 4 && c.links.iter().any(|l| get(&v, 0) == Val::str(&l.name)) {
                    self.names += 1;
                    set(&mut v, 0, Val::str(&format!("n{}", self.names)));
                }
                for (i, code) in [(5, 0x28), (6, 0x29)] {
                    let t = get(&v, i);
                    if t != Val::Null && code_of(&t) != code && (code == 0x28 || code_of(&t) != 0x30) {
                        set(&mut v, i, if code == 0x28 { wire::source(Some("a")) } else { wire::target(Some("a")) });
                    }
                }
                if get(&v, 2) == Val::Bool(false) && get(&v, 9) == Val::Null {
                    set(&mut v, 9, Val::Uint(0));
                }
            }
            wire::FLOW => {
                let sent = self.r.frames().filter(|f| f.code == wire::TRANSFER && Some(f.ch) == sut).count() as u32;
                let first = self.r.frames().filter(|f| f.code == wire::BEGIN && Some(f.ch) == sut).last().and_then(|f| f.u32(1)).unwrap_or(0);
                set(&mut v, 0, Val::Uint(first.wrapping_add(sent)));
                match (get(&v, 4), on(num(&v, 4), &c.links)) {
                    (Val::Uint(_), Some(h)) => set(&mut v, 4, Val::Uint(h)),
                    _ => {
                        for i in 4..9 {
                            set(&mut v, i, Val::Null);
                        }
                    }
                }
            }
            wire::TRANSFER => {
                fit_state(&mut v, 7);
                let h = num(&v, 0) as usize;
                let answered = |l: &Link1| self.r.frames().any(|f| f.code == wire::ATTACH && Some(f.ch) == sut && f.str(0) == Some(&l.name) && f.bool(2) == Some(true));
                let from: Vec<&Link1> = c.links.iter().filter(|l| !l.receiver && answered(l)).collect();
                if from.is_empty() {
                    // nothing to send on
                    return (ch, wire::flow(None, 100, 0, 100, None, true), vec![]);
                }
                let l = from[h % from.len()];
                set(&mut v, 0, Val::Uint(l.h));
                if l.more {
                    set(&mut v, 1, Val::Null);
                    set(&mut v, 2, Val::Null);
                } else {
                    set(&mut v, 1, Val::Uint(c.next_id));
                    if get(&v, 2) == Val::Null {
                        set(&mut v, 2, Val::Bin(vec![1]));
                    }
                }
            }
            wire::DISPOSITION => {
                fit_state(&mut v, 4);
                let ids: Vec<u32> = self.r.frames().filter(|f| f.code == wire::TRANSFER && Some(f.ch) == sut).filter_map(|f| f.u32(1)).collect();
                if !ids.is_empty() && num(&v, 1) < 8 {
                    let a = ids[num(&v, 1) as usize % ids.len()];
                    set(&mut v, 0, Val::Bool(true));
                    set(&mut v, 1, Val::Uint(a));
                    if let Val::Uint(n) = get(&v, 2)
                        && n < 8
                    {
                        set(&mut v, 2, Val::Uint(a.wrapping_add(n)));
                    }
                }
            }
            wire::DETACH => {
                let Some(h) = on(num(&v, 0), &c.links) else {
                    return (ch, wire::flow(None, 100, 0, 100, None, false), vec![]);
                };
                set(&mut v, 0, Val::Uint(h));
            }
            _ => {}
        }
        (ch, v, if code == wire::TRANSFER { body } else { vec![] })
    }

    async fn send(&mut self, ch: u16, v: &Val) {
        self.track(ch, v);
        self.r.amqp(ch, v).await;
    }

    /// answers to what the endpoint ended
    async fn answer(&mut self, from: usize) {
        let l: Vec<(u64, u16, u32)> = self.r.items[from..]
            .iter()
            .filter_map(|i| match i {
                Item::Frame(f) if f.ftype == 0 && (f.code == wire::END || f.code == wire::DETACH) => Some((f.code, f.ch, f.u32(0).unwrap_or(0))),
                _ => None,
            })
            .collect();
        for (code, ch, h) in l {
            let Some(k) = (0..self.chans.len()).find(|k| self.paired(*k) == Some(ch)) else { continue };
            let pc = self.chans[k].ch;
            if code == wire::END {
                let v = wire::end(None);
                self.track(pc, &v);
                self.r.amqp(pc, &v).await;
            } else {
                // the link of the endpoint is known by its name
                let a = self.r.frames().filter(|f| f.code == wire::ATTACH && f.ch == ch && f.u32(1) == Some(h)).last();
                let Some((n, r)) = a.map(|f| (f.str(0).unwrap_or("").to_string(), f.bool(2).unwrap_or(false))) else { continue };
                let Some(l) = self.chans[k].links.iter().find(|l| l.name == n && l.receiver != r) else { continue };
                let v = wire::detach(l.h, true, None);
                self.track(pc, &v);
                self.r.amqp(pc, &v).await;
            }
        }
    }

    fn take(&mut self) -> Result<(), String> {
        self.r.pump();
        if let Some(e) = &self.r.err {
            return Err(format!("the endpoint writes what is not AMQP: {e}"));
        }
        while self.seen < self.r.items.len() {
            let i = &self.r.items[self.seen];
            self.seen += 1;
            if self.closed {
                return Err(format!("{i:?} is written after close"));
            }
            if let Item::Frame(f) = i
                && f.ftype == 0
                && f.code == wire::CLOSE
            {
                self.closed = true;
            }
        }
        Ok(())
    }

    async fn spawn<T: 'static, F: Future<Output = T> + 'static>(&mut self, what: impl Into<String>, f: F) {
        let t = Task::start(f, &self.act).await;
        // the task must not be cancelled when it goes out of scope
        let t = Rc::new(t);
        self.tasks.push((what.into(), Box::new(move || t.done())));
    }

    async fn app(&mut self, a: &App, ep: &Endpoint) {
        fn pick<T: Clone>(l: &[T], k: u16) -> Option<T> {
            (!l.is_empty()).then(|| l[k as usize * l.len() / 65536].clone())
        }
        let Some(sink) = ep.sink.borrow().clone() else { return };
        let app = self.app.clone();
        match a {
            App::Open => {
                self.spawn("open_session", async move {
                    if let Ok(s) = sink.open_session().await {
                        app.borrow_mut().sessions.push(s);
                    }
                })
                .await;
            }
            App::Sender { s, name } => {
                let Some(s) = pick(&app.borrow().sessions, *s) else { return };
                let b = s.build_sender_link(format!("x{name}"), "a");
                self.spawn("attach of a sender", async move {
                    if let Ok(l) = b.attach().await {
                        app.borrow_mut().senders.push(l);
                    }
                })
                .await;
            }
            App::Receiver { s, name, credit } => {
                let Some(s) = pick(&app.borrow().sessions, *s) else { return };
                let b = s.build_receiver_link(format!("y{name}"), "a");
                let credit = *credit;
                self.spawn("attach of a receiver", async move {
                    if let Ok(l) = b.attach().await {
                        if let Some(c) = credit {
                            l.set_link_credit(c);
                        }
                        app.borrow_mut().receivers.push(l.clone());
                        // deliveries are not taken here if the connection has a service for them
                        while let Some(Ok((d, _))) = l.recv().await {
                            app.borrow_mut().held.push(d);
                        }
                    }
                })
                .await;
            }
            App::Send { l, size, settled } => {
                let Some(l) = pick(&app.borrow().senders, *l) else { return };
                let t = l.transfer(Bytes::from(vec![5u8; *size as usize]));
                let settled = *settled;
                self.spawn("send", async move {
                    let _ = if settled { t.settled().send().await.map(|_| ()) } else {
                        match t.send().await {
                            Ok(d) => d.wait().await.map(|_| ()),
                            Err(e) => Err(e),
                        }
                    };
                })
                .await;
            }
            App::Credit { l, n } => {
                if let Some(l) = pick(&app.borrow().receivers, *l) {
                    l.set_link_credit(*n);
                }
            }
            App::Ready { l } => {
                let Some(l) = pick(&app.borrow().senders, *l) else { return };
                self.spawn("ready", async move { l.ready().await }).await;
            }
            App::CloseSender { l, err } => {
                let Some(l) = pick(&app.borrow().senders, *l) else { return };
                let err = *err;
                self.spawn("close of a sender", async move {
                    if err { l.close_with_error(app_err()).await } else { l.close().await }
                })
                .await;
            }
            App::CloseReceiver { l, err } => {
                let Some(l) = pick(&app.borrow().receivers, *l) else { return };
                let err = *err;
                self.spawn("close of a receiver", async move {
                    if err { l.close_with_error(app_err()).await } else { l.close().await }
                })
                .await;
            }
            App::Settle { k, how } => {
                let d = {
                    let mut a = app.borrow_mut();
                    if a.held.is_empty() {
                        return;
                    }
                    let i = *k as usize * a.held.len() / 65536;
                    a.held.swap_remove(i)
                };
                let mut d = d;
                match how % 4 {
                    0 => d.settle(p::DeliveryState::Accepted(p::Accepted {})),
                    1 => d.settle(p::DeliveryState::Released(p::Released {})),
                    2 => {
                        d.update_state(p::DeliveryState::Accepted(p::Accepted {}));
                        app.borrow_mut().held.push(d);
                    }
                    _ => drop(d),
                }
            }
            App::EndSession { s } => {
                let Some(s) = pick(&app.borrow().sessions, *s) else { return };
                self.spawn("end of a session", async move { s.end().await }).await;
            }
            App::Close { err } => {
                self.labels.push("application closes");
                if *err {
                    let _ = sink.close_with_error(app_err()).await;
                } else {
                    let _ = sink.close().await;
                }
            }
            App::Force => {
                self.labels.push("application drops the connection");
                sink.force_close();
            }
            App::Drop => {
                let mut a = app.borrow_mut();
                let x = (
                    std::mem::take(&mut a.senders),
                    std::mem::take(&mut a.receivers),
                    std::mem::take(&mut a.held),
                    std::mem::take(&mut a.sessions),
                );
                drop(a);
                drop(x);
            }
        }
    }
}

async fn open_second(r: &mut Raw, ep: &Endpoint) -> Result<(), String> {
    r.bytes(&HDR_AMQP).await;
    r.amqp(0, &wire::open("second", None, 65536, 1000, None)).await;
    if !r.until(|r| r.count(wire::OPEN) == 1 && ep.sink.borrow().is_some()).await {
        return Err("second connection is not opened".into());
    }
    Ok(())
}

/// a session, a link and a delivery on a connection that must be in working order
async fn probe(r: &mut Raw, app: &Shared, ch: u16, what: &str, server: bool, full: bool) -> Result<(), String> {
    let n = r.count(wire::BEGIN);
    r.amqp(ch, &wire::begin(None, 0, 1000, 1000)).await;
    if !r.until(|r| r.count(wire::BEGIN) == n + 1).await {
        return Err(format!("{what} does not answer a begin"));
    }
    if !server || !full {
        return Ok(());
    }
    let v = wire::attach("probe", 0, false, Some(wire::source(None)), Some(wire::target(Some("probe"))), Some(0), None);
    let n = r.frames().filter(|f| f.code == wire::ATTACH && f.str(0) == Some("probe")).count();
    r.amqp(ch, &v).await;
    if !r.until(|r| r.frames().filter(|f| f.code == wire::ATTACH && f.str(0) == Some("probe")).count() == n + 1).await {
        return Err(format!("{what} does not answer an attach"));
    }
    let body = b"probe body".to_vec();
    let before = app.borrow().got.iter().filter(|b| **b == body).count();
    let x = Xfer { handle: 0, id: Some(0), tag: Some(vec![1]), fmt: Some(0), settled: Some(true), ..Xfer::default() };
    r.frame(0, ch, &wire::transfer(&x), &body).await;
    let a = app.clone();
    if !r.until(|_| a.borrow().got.iter().filter(|b| **b == body).count() == before + 1).await {
        return Err(format!("{what} does not hand over a delivery"));
    }
    Ok(())
}

fn e15(c: &HCase, case: &mut Case) -> Result<(), String> {
    let c2 = c.clone();
    let ((r, labels, n, sent), peak) = alloc::measure(3 << 30, move || block_on(run(c2)));
    for l in labels {
        case.label(l);
    }
    case.count("frames written by the endpoint", n as u64);
    case.nontrivial();
    r?;
    // what the harness keeps of the exchange is part of the measurement
    let bound = (96 << 20) + 600 * sent as i64 + 1000 * n as i64;
    if peak > bound {
        return Err(format!("memory peaks at {peak} bytes, the peer sent {sent}"));
    }
    Ok(())
}

async fn run(c: HCase) -> (Result<(), String>, Vec<&'static str>, usize, usize) {
    let app: Shared = Rc::default();
    let mut eps;
    let ep0 = Endpoint::new();
    let (r, io) = Raw::pair(c.enc, c.frag, &ep0.activity);
    let cfg = AmqpServiceConfig::new().set_max_frame_size(c.own_frame);
    let mut second = None;
    if c.client {
        let auth = (c.early == Some(2)).then(|| ntex_amqp::client::SaslAuth {
            authz_id: "z".into(),
            authn_id: "u".into(),
            password: "p".into(),
        });
        eps = vec![start_client(io, cfg, auth, None, ctl_fn(app.clone(), c.ctl))];
    } else {
        let ep1 = Endpoint::new();
        let (r2, io2) = Raw::pair(0, 0, &ep1.activity);
        eps = start_servers(vec![io, io2], cfg, vec![(app.clone(), ep0), (app.clone(), ep1)], c.ctl, c.verdict, c.router);
        second = Some((r2, eps.pop().unwrap()));
    }
    let ep = eps.pop().unwrap();
    let mut h = H { r, app: app.clone(), act: ep.activity.clone(), tasks: vec![], labels: vec![], seen: 0, closed: false, chans: vec![], own_frame: c.own_frame, ch_max: c.ch_max.unwrap_or(1000), names: 0 };
    h.r.act = ep.activity.clone();
    let res = inner(&c, &mut h, &ep, &mut second).await.map_err(|e| format!("{e}\n{}", h.r.log()));
    h.labels.sort_unstable();
    h.labels.dedup();
    let n = h.seen;
    let sent = h.r.sent;
    h.r.cut();
    if let Some((r2, _)) = &mut second {
        r2.cut();
    }
    h.r.settle().await;
    let a = std::mem::take(&mut *app.borrow_mut());
    drop(a);
    h.r.settle().await;
    (res, h.labels, n, sent)
}

async fn prelude(c: &HCase, h: &mut H, ep: &Endpoint) {
    let p = c.pre;
    if p & 1 != 0 {
        h.send(0, &wire::begin(None, 0, 1000, 1000)).await;
        h.r.settle().await;
        if p & 2 != 0 {
            let v = wire::attach("a", 0, false, Some(wire::source(None)), Some(wire::target(Some("a"))), Some(0), None);
            h.send(0, &v).await;
        }
        if p & 4 != 0 {
            let v = wire::attach("b", 1, true, Some(wire::source(Some("a"))), Some(wire::target(None)), None, None);
            h.send(0, &v).await;
            h.r.settle().await;
            if p & 8 != 0 {
                let f = h.r.frames().filter(|f| f.code == wire::ATTACH).last().map_or(0, |f| f.u32(9).unwrap_or(0));
                h.send(0, &wire::flow(Some(1), 1000, 0, 1000, Some((1, Some(f), Some(10))), false)).await;
            }
        }
        h.r.settle().await;
    }
    if p & 16 != 0 {
        h.app(&App::Open, ep).await;
        h.r.settle().await;
        let Some(ch) = h.r.frames().filter(|f| f.code == wire::BEGIN && f.u16(0).is_none()).last().map(|f| f.ch) else { return };
        h.send(5, &wire::begin(Some(ch), 0, 1000, 1000)).await;
        h.r.settle().await;
        if p & 32 != 0 {
            h.app(&App::Sender { s: 65535, name: 0 }, ep).await;
            let v = wire::attach("x0", 0, true, Some(wire::source(Some("a"))), Some(wire::target(Some("a"))), None, None);
            h.send(5, &v).await;
            h.r.settle().await;
            if p & 64 != 0 {
                h.send(5, &wire::flow(Some(1), 1000, 0, 1000, Some((0, Some(0), Some(5))), false)).await;
            }
            for k in 0..(p >> 7) & 3 {
                h.app(&App::Send { l: 65535, size: 3 + u32::from(k) * 700, settled: k == 2 }, ep).await;
            }
        }
        if p & 512 != 0 {
            h.app(&App::Receiver { s: 65535, name: 0, credit: Some(10) }, ep).await;
            let v = wire::attach("y0", 1, false, Some(wire::source(Some("a"))), Some(wire::target(Some("a"))), Some(0), None);
            h.send(5, &v).await;
        }
        h.r.settle().await;
    }
}

async fn inner(c: &HCase, h: &mut H, ep: &Endpoint, second: &mut Option<(Raw, Endpoint)>) -> Result<(), String> {
    if let Some((r2, ep2)) = second {
        open_second(r2, ep2).await?;
    }
    let mut framing = true;
    let mut peer_closed = false;
    let mut sent_open = false;
    match c.early {
        Some(1) => h.labels.push("instead of the header"),
        Some(2) => {
            h.labels.push("within sasl");
            h.r.bytes(&HDR_SASL).await;
            h.r.settle().await;
            h.r.enc.loose = true;
            if c.pre & 1 != 0 {
                let v = if c.client { mk(0x40, vec![wire::syms(&["PLAIN"])]) } else { mk(0x41, vec![Val::sym("PLAIN"), Val::Bin(b"\0a\0b".to_vec()), Val::Null]) };
                h.r.frame(1, 0, &v, &[]).await;
            }
        }
        Some(_) => {
            h.labels.push("instead of open");
            h.r.bytes(&HDR_AMQP).await;
        }
        None => {
            h.r.bytes(&HDR_AMQP).await;
            let mut o = wire::open("c", None, c.max_frame, c.ch_max.unwrap_or(u16::MAX), c.idle);
            if c.ch_max.is_none() {
                o = mk(wire::OPEN, vec![Val::str("c"), Val::Null, Val::Uint(c.max_frame), Val::Null, wire::ou(c.idle)]);
            }
            h.r.amqp(0, &o).await;
            h.r.until(|r| r.count(wire::OPEN) == 1 && (ep.sink.borrow().is_some() || ep.done.borrow().is_some())).await;
            sent_open = ep.sink.borrow().is_some();
            if !sent_open {
                h.labels.push("not opened");
                if c.max_frame >= 512 {
                    return Err("not opened".into());
                }
            } else {
                prelude(c, h, ep).await;
            }
        }
    }
    h.take()?;
    let n0 = h.seen;
    let sane_end = c.ops.iter().all(|o| match o {
        Op::Frame { fix, .. } | Op::Flood { fix, .. } => *fix < c.sane,
        Op::Sasl { .. } | Op::Bytes(_) => false,
        _ => true,
    });
    if sane_end {
        h.labels.push("every frame made to fit");
    }
    h.r.enc.loose = true;
    for (i, op) in c.ops.iter().enumerate() {
        h.r.t(format!("-- {i}: {}", format!("{op:?}").chars().take(120).collect::<String>()));
        match op {
            Op::Frame { ch, v, body, fix } => {
                if code_of(v) == wire::CLOSE {
                    peer_closed = true;
                }
                let (ch, v, body) = if *fix < c.sane { h.fit(*ch, v.clone(), body) } else { (*ch, v.clone(), body.clone()) };
                h.track(ch, &v);
                h.r.frame(0, ch, &v, &body).await;
            }
            Op::Flood { n, ch, v, size, fix } => {
                h.labels.push("flood");
                let b = if code_of(v) == wire::TRANSFER { vec![3u8; *size as usize] } else { vec![] };
                if code_of(v) == wire::CLOSE {
                    peer_closed = true;
                }
                for k in 0..*n {
                    if *fix < c.sane {
                        let (ch, v, b) = h.fit(*ch, v.clone(), &b);
                        h.track(ch, &v);
                        h.r.frame(0, ch, &v, &b).await;
                    } else {
                        h.r.frame(0, *ch, v, &b).await;
                    }
                    if k % 64 == 63 {
                        yields(2).await;
                        h.r.pump();
                    }
                }
            }
            Op::Sasl { v } => h.r.frame(1, 0, v, &[]).await,
            Op::Bytes(b) => {
                framing = false;
                h.labels.push("bytes");
                h.r.bytes(b).await;
            }
            Op::Empty => {
                let e = wire::empty();
                h.r.bytes(&e).await;
            }
            Op::App(a) => h.app(a, ep).await,
            Op::Rest => {
                let n = h.seen;
                h.r.settle().await;
                h.take()?;
                if c.polite {
                    h.answer(n).await;
                }
            }
        }
    }
    if let Some((v, k)) = &c.part {
        let b = h.r.enc.frame(0, 0, v, b"body");
        let k = 1 + *k as usize * (b.len() - 1) / 256;
        h.r.t(format!("peer> {k} bytes of a frame"));
        h.r.bytes(&b[..k]).await;
        framing = false;
        h.labels.push("cut within a frame");
    }
    h.r.settle().await;
    h.take()?;
    if h.seen > n0 {
        h.labels.push("the endpoint answers");
    }
    let over = h.closed || ep.done.borrow().is_some();
    if over {
        h.labels.push("connection is over");
    }
    if !over && framing && !peer_closed && sent_open && h.app_open(ep) {
        h.labels.push("connection still works");
        // only a fresh channel is known to be unused
        let used = h.r.frames().filter(|f| f.code == wire::BEGIN).map(|f| f.ch).max().unwrap_or(0);
        let room = u32::from(c.ch_max.unwrap_or(u16::MAX).min(1024)) > u32::from(used) + 1;
        if room {
            let full = c.verdict % 16 != 3 && c.ctl == 0 && c.own_frame >= 512;
            h.r.t("-- probe");
            let app = h.app.clone();
            probe(&mut h.r, &app, 40_000, "the connection", !c.client, full).await?;
            h.take()?;
        }
    }
    // the end
    if over {
        if !h.r.until(|_| ep.done.borrow().is_some()).await {
            h.r.cut();
        }
    } else {
        h.r.cut();
    }
    if !h.r.until(|_| ep.done.borrow().is_some()).await {
        return Err("the connection task does not complete after the stream ended".into());
    }
    let tasks = std::mem::take(&mut h.tasks);
    if !h.r.until(|_| tasks.iter().all(|t| (t.1)())).await {
        let l: Vec<&str> = tasks.iter().filter(|t| !(t.1)()).map(|t| t.0.as_str()).collect();
        return Err(format!("these operations do not complete after the end of the connection: {l:?}"));
    }
    if let Some((r2, ep2)) = second {
        h.r.t("-- second connection");
        let full = c.verdict % 16 != 3 && c.ctl == 0;
        let app = h.app.clone();
        probe(r2, &app, 7, "another connection of the server", true, full).await?;
        if ep2.done.borrow().is_some() {
            return Err("another connection of the server is over".into());
        }
    }
    Ok(())
}

impl H {
    fn app_open(&self, ep: &Endpoint) -> bool {
        ep.sink.borrow().as_ref().is_some_and(|s| s.is_opened())
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "E15",
        rule: "every case is non-trivial: a peer sends at least one frame that is not part of a correct exchange, or stops in the middle",
        assumptions: &[],
        spin_secs: Some(20),
        subs: vec![sub("peer", 50_000, 1_500_000, |_| hcase(), e15)],
    }]
}
