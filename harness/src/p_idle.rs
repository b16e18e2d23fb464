//! E17: real time on many connections at once.
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::{Duration, Instant};

use ntex_amqp::codec::protocol::Error;
use ntex_amqp::types::Message;
use ntex_amqp::{AmqpServiceConfig, ControlFrame, ControlFrameKind, SenderLink, State};
use ntex_bytes::Bytes;
use ntex_service::{Service, ServiceCtx, fn_factory_with_config};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use crate::raw::Raw;
use crate::runner::{Case, Prop, sub};
use crate::sut::*;
use crate::wire::{self, HDR_AMQP, Item, Xfer};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ev {
    Empty { ch: u16 },
    /// flow frames of the peer that need no answer
    Flow(u8),
    Echo,
    /// a delivery of the peer
    Deliver,
    /// the application sends
    Send(u32),
    Begin,
    /// the application closes and the peer does not answer
    Close,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Busy {
    No,
    /// a control message is not answered
    Control,
    /// the publish service does not complete a delivery
    Publish,
    /// the publish service is not ready
    NotReady,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conn {
    client: bool,
    idle: Option<u32>,
    own: u16,
    session: bool,
    busy: Busy,
    frag: u8,
    ev: Vec<(u16, Ev)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ICase {
    conns: Vec<Conn>,
    ms: u16,
}

fn idle() -> BoxedStrategy<Option<u32>> {
    prop_oneof![
        2 => Just(None),
        1 => Just(Some(0)),
        6 => (300..1100u32).prop_map(Some),
        4 => (1000..2600u32).prop_map(Some),
        2 => select(vec![999u32, 1000, 1001, 1024, 1999, 2000, 2001, 2500]).prop_map(Some),
        2 => select(vec![3000u32, 60_000, 120_000, 65_535, 65_536, 1 << 24, i32::MAX as u32, 1 << 31, u32::MAX - 1, u32::MAX]).prop_map(Some),
    ]
    .boxed()
}

fn conn() -> BoxedStrategy<Conn> {
    let ev = prop_oneof![
        3 => select(vec![0u16, 0, 1, 7, 65535]).prop_map(|ch| Ev::Empty { ch }),
        3 => (1..20u8).prop_map(Ev::Flow),
        2 => Just(Ev::Echo),
        2 => Just(Ev::Deliver),
        3 => prop_oneof![0..50u32, Just(3000)].prop_map(Ev::Send),
        1 => Just(Ev::Begin),
    ];
    (
        any::<bool>(),
        idle(),
        prop_oneof![Just(0u16), Just(1), Just(120), any::<u16>()],
        any::<bool>(),
        prop_oneof![6 => Just(Busy::No), 1 => Just(Busy::Control), 1 => Just(Busy::Publish), 1 => Just(Busy::NotReady)],
        prop_oneof![3 => Just(0u8), 1 => 1..9u8],
        prop_oneof![
            3 => Just(vec![]),
            // some, or a steady stream
            3 => vec((0..2800u16, ev.clone()), 1..8),
            2 => (ev, 5..60u16, 0..2800u16).prop_map(|(e, step, until)| (0..until / step).map(|k| (k * step, e.clone())).collect()),
        ],
        proptest::option::weighted(0.1, 0..2000u16),
    )
        .prop_map(|(client, idle, own, session, busy, frag, mut ev, close)| {
            if let Some(at) = close {
                ev.push((at, Ev::Close));
            }
            ev.sort_by_key(|e| e.0);
            let busy = if client && (busy == Busy::Publish || busy == Busy::NotReady) { Busy::No } else { busy };
            Conn { client, idle, own, session: session || busy != Busy::No, busy, frag, ev }
        })
        .boxed()
}

struct Pb {
    hold: bool,
    ready: Rc<Cell<bool>>,
}
impl Service<Message> for Pb {
    type Response = ();
    type Error = Error;
    async fn ready(&self, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        if !self.ready.get() {
            std::future::pending::<()>().await;
        }
        Ok(())
    }
    async fn call(&self, m: Message, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        if let Message::Transfer(l) = m {
            if self.hold {
                std::future::pending::<()>().await;
            }
            drop(l.get_delivery());
            if l.credit() == 0 {
                l.set_link_credit(50);
            }
        }
        Ok(())
    }
}

struct Live {
    c: Conn,
    r: Raw,
    ep: Endpoint,
    link: Rc<RefCell<Option<SenderLink>>>,
    ready: Rc<Cell<bool>>,
    up: bool,
    closed: bool,
    next: usize,
    seen: usize,
    last: Instant,
    gap: Duration,
    id: u32,
    chan: u16,
    begins: usize,
}

/// what the endpoint may write on its own at rest
fn step(l: &mut Live, now: Instant) -> Result<(), String> {
    l.r.pump();
    if let Some(e) = &l.r.err {
        return Err(format!("unreadable output: {e}"));
    }
    while l.seen < l.r.items.len() {
        let f = match &l.r.items[l.seen] {
            Item::Frame(f) => f.clone(),
            Item::Header(_) => return Err("a second header".into()),
        };
        l.seen += 1;
        l.gap = l.gap.max(now - l.last);
        l.last = now;
        if l.closed && f.code != wire::CLOSE {
            return Err(format!("{} is written after close", f.brief()));
        }
        if f.code == wire::EMPTY {
            if l.c.idle.unwrap_or(0) == 0 {
                return Err("an empty frame is sent, the peer announced no idle timeout".into());
            }
            if f.ch != 0 || !f.payload.is_empty() {
                return Err(format!("keep-alive is {}", f.brief()));
            }
        }
        if f.code == wire::CLOSE {
            if !l.c.ev.iter().any(|e| matches!(e.1, Ev::Close)) || !l.closed {
                return Err(format!("the connection is closed: {}", f.brief()));
            }
        } else if l.c.ev.is_empty() && f.code != wire::EMPTY {
            return Err(format!("{} is written on a silent connection", f.brief()));
        }
    }
    Ok(())
}

async fn setup(c: &Conn) -> Live {
    let link: Rc<RefCell<Option<SenderLink>>> = Rc::default();
    let ready = Rc::new(Cell::new(true));
    let ep0 = Endpoint::new();
    let (r, io) = Raw::pair(0, 0, &ep0.activity);
    let cfg = AmqpServiceConfig::new().set_idle_timeout(c.own);
    let (lk, hold) = (link.clone(), c.busy == Busy::Control);
    let ctl: CtlFn = Rc::new(move |f: &ControlFrame| {
        let mut wait = false;
        match f.kind() {
            ControlFrameKind::AttachSender(_, _, l) => *lk.borrow_mut() = Some(l.clone()),
            ControlFrameKind::AttachReceiver(a, _, l) => {
                wait = hold && a.name().as_str() == "held";
                if !wait {
                    l.set_link_credit(1000);
                }
            }
            _ => {}
        }
        Box::pin(async move {
            if wait {
                std::future::pending::<()>().await;
            }
            Ok(())
        })
    });
    let ep = if c.client {
        start_client(io, cfg, None, None, ctl)
    } else {
        let hs = plain(&ep0);
        let (hold, rd) = (c.busy == Busy::Publish, ready.clone());
        let pb = fn_factory_with_config(async move |_: State<()>| Ok::<_, ()>(Pb { hold, ready: rd.clone() }));
        start_server_with(ep0, io, cfg, hs, ctl, pb)
    };
    let now = Instant::now();
    let mut l = Live { c: c.clone(), r, ep, link, ready, up: false, closed: false, next: 0, seen: 0, last: now, gap: Duration::ZERO, id: 0, chan: 0, begins: 0 };
    l.r.act = l.ep.activity.clone();
    l.r.bytes(&HDR_AMQP).await;
    l.r.amqp(0, &wire::open("c", None, 65536, 1000, c.idle)).await;
    if !l.r.until(|r| r.count(wire::OPEN) == 1 && l.ep.sink.borrow().is_some()).await {
        return l;
    }
    if c.session {
        l.r.amqp(0, &wire::begin(None, 0, 100_000, 100_000)).await;
        l.r.settle().await;
        let v = wire::attach("p", 0, false, Some(wire::source(None)), Some(wire::target(Some("a"))), Some(0), None);
        l.r.amqp(0, &v).await;
        let v = wire::attach("q", 1, true, Some(wire::source(Some("a"))), Some(wire::target(None)), None, None);
        l.r.amqp(0, &v).await;
        l.r.settle().await;
        l.r.amqp(0, &wire::flow(Some(1), 100_000, 0, 100_000, Some((1, Some(0), Some(100_000))), false)).await;
        if c.busy == Busy::Control {
            let v = wire::attach("held", 2, false, Some(wire::source(None)), Some(wire::target(Some("a"))), Some(0), None);
            l.r.amqp(0, &v).await;
        }
        if c.busy == Busy::Publish {
            deliver(&mut l).await;
        }
        l.r.settle().await;
    }
    if c.busy == Busy::NotReady {
        l.ready.set(false);
        // readiness is asked for the next frame
        l.r.amqp(0, &wire::flow(Some(1), 100_000, l.id, 100_000, None, false)).await;
        l.r.settle().await;
    }
    l.r.frag = c.frag;
    l.up = true;
    l.seen = l.r.items.len();
    l.begins = l.r.count(wire::BEGIN);
    l.last = Instant::now();
    l
}

async fn deliver(l: &mut Live) {
    let x = Xfer { handle: 0, id: Some(l.id), tag: Some(vec![1]), fmt: Some(0), settled: Some(true), ..Xfer::default() };
    l.id += 1;
    l.r.frame(0, 0, &wire::transfer(&x), b"x").await;
}

async fn event(l: &mut Live, e: &Ev) {
    if l.closed {
        return;
    }
    match e {
        Ev::Empty { ch } => {
            let mut e = wire::empty();
            let n = e.len();
            e[n - 2..].copy_from_slice(&ch.to_be_bytes());
            l.r.bytes(&e).await;
        }
        Ev::Flow(n) if l.c.session => {
            for _ in 0..*n {
                l.r.amqp(0, &wire::flow(None, 100_000, l.id, 100_000, None, false)).await;
            }
        }
        Ev::Echo if l.c.session => l.r.amqp(0, &wire::flow(None, 100_000, l.id, 100_000, None, true)).await,
        Ev::Deliver if l.c.session && l.id < 40 => deliver(l).await,
        Ev::Send(n) => {
            let k = l.link.borrow().clone();
            if let Some(k) = k {
                let f = k.transfer(Bytes::from(vec![1u8; *n as usize])).settled().send();
                let mut t = Task::start(f, &l.ep.activity).await;
                if !t.done() {
                    yields(1).await;
                }
                t.cancel();
            }
        }
        Ev::Begin if l.chan < 100 => {
            l.chan += 1;
            let ch = l.chan;
            l.r.amqp(ch, &wire::begin(None, 0, 100, 100)).await;
        }
        Ev::Close => {
            let s = l.ep.sink.borrow().clone().unwrap();
            l.closed = true;
            ntex_rt::spawn(async move {
                let _ = s.close().await;
            });
            yields(2).await;
        }
        _ => {}
    }
}

fn e17(c: &ICase, case: &mut Case) -> Result<(), String> {
    let c2 = c.clone();
    let (r, labels, sent) = block_on(run(c2));
    for (l, n) in labels {
        case.count(l, n);
    }
    case.count("keep-alive frames", sent);
    if sent > 0 {
        case.nontrivial();
    }
    r
}

async fn run(c: ICase) -> (Result<(), String>, Vec<(&'static str, u64)>, u64) {
    let mut live = vec![];
    for k in &c.conns {
        live.push(setup(k).await);
    }
    let mut labels = vec![];
    let r = watch(&c, &mut live, &mut labels).await;
    let n = live.iter().map(|l| l.r.count(wire::EMPTY) as u64).sum();
    for l in &mut live {
        l.ready.set(true);
        l.r.cut();
    }
    yields(50).await;
    (r, labels, n)
}

async fn watch(c: &ICase, live: &mut [Live], labels: &mut Vec<(&'static str, u64)>) -> Result<(), String> {
    let tell = |i: usize, l: &Live, e: String| format!("connection {i} ({:?}): {e}\n{}", l.c, l.r.log());
    for (i, l) in live.iter_mut().enumerate() {
        if !l.up {
            return Err(tell(i, l, "not opened".into()));
        }
        // what was written while the other connections were set up
        let now = Instant::now();
        l.r.pump();
        l.seen = l.r.items.len();
        l.last = now;
    }
    let start = Instant::now();
    let mut tick = start;
    let mut lag = Duration::ZERO;
    let total = Duration::from_millis(u64::from(c.ms));
    loop {
        sleep_ms(2).await;
        let now = Instant::now();
        lag = lag.max(now - tick);
        tick = now;
        for (i, l) in live.iter_mut().enumerate() {
            step(l, now).map_err(|e| tell(i, l, e))?;
            while l.next < l.c.ev.len() && start + Duration::from_millis(u64::from(l.c.ev[l.next].0)) <= now {
                let e = l.c.ev[l.next].1.clone();
                l.next += 1;
                event(l, &e).await;
                // what follows at once belongs to the event
                yields(2).await;
                step(l, now).map_err(|e| tell(i, l, e))?;
            }
        }
        if now - start > total {
            break;
        }
    }
    let end = Instant::now();
    labels.push(("connections", live.len() as u64));
    // a machine that is not given time proves nothing
    let steady = lag < Duration::from_millis(100);
    if !steady {
        labels.push(("timing not judged", 1));
    }
    for (i, l) in live.iter_mut().enumerate() {
        if l.closed {
            continue;
        }
        let gap = l.gap.max(end - l.last);
        let idle = l.c.idle.unwrap_or(0);
        if steady && idle > 0 && gap >= Duration::from_millis(u64::from(idle)) {
            return Err(tell(i, l, format!("nothing is sent for {gap:?}, the peer announced {idle} ms (the loop was late by {lag:?} at most)")));
        }
        if idle > 0 && total > Duration::from_millis(u64::from(idle)) {
            labels.push(("connections watched for a whole idle timeout", 1));
        }
        if l.ep.done.borrow().is_some() {
            return Err(tell(i, l, format!("the connection is over: {:?}", l.ep.done.borrow())));
        }
    }
    // still in order
    for (i, l) in live.iter_mut().enumerate() {
        if l.closed || l.c.busy == Busy::NotReady {
            continue;
        }
        let n = l.r.count(wire::BEGIN);
        l.r.frag = 0;
        l.r.amqp(300, &wire::begin(None, 0, 100, 100)).await;
        if !l.r.until(|r| r.count(wire::BEGIN) > n).await {
            return Err(tell(i, l, "a begin is not answered at the end".into()));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let case = |n: usize, ms: u16| (vec(conn(), n / 2..n), Just(ms)).prop_map(|(conns, ms)| ICase { conns, ms }).boxed();
    vec![Prop {
        id: "E17",
        rule: "non-trivial if at least one keep-alive frame was sent",
        assumptions: &["the event loop of the check is scheduled at least every 100 ms; a case in which it is not is counted and its timing not judged"],
        spin_secs: None,
        subs: vec![
            sub("idle", 48, 400, move |_| case(120, 3000), e17),
            sub("long", 8, 64, move |_| case(60, 6500), e17),
        ],
    }]
}
