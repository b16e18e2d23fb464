//! E25: the time a handshake may take, on many connections at once.
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::{Duration, Instant};

use ntex_amqp::server::{Handshake, HandshakeAck};
use ntex_amqp::types::Message;
use ntex_amqp::{AmqpServiceConfig, ControlFrame, ConnectionRef, client};
use ntex_bytes::ByteString;
use ntex_io::testing::IoTest;
use ntex_io::{Io, IoBoxed};
use ntex_net::connect::Connect;
use ntex_service::{Pipeline, ServiceFactory, fn_service};
use ntex_util::time::Seconds;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use crate::conv::mk;
use crate::raw::Raw;
use crate::refcodec::{ElemTy, Val};
use crate::runner::{Case, Prop, sub};
use crate::sut::*;
use crate::wire::{self, HDR_AMQP, HDR_SASL, Item};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hs {
    client: bool,
    sasl: bool,
    /// seconds; none is the default
    limit: Option<u16>,
    /// ms the connector or the handshake service of the application takes
    app: u16,
    /// the peer writes its part of the handshake: when, and up to which share of it
    pace: Vec<(u16, u8)>,
    enc: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TCase {
    conns: Vec<Hs>,
    ms: u16,
}

fn hs(ms: u16) -> BoxedStrategy<Hs> {
    let limit = if ms > 5000 {
        prop_oneof![2 => Just(None), 1 => Just(Some(0u16)), 3 => (1..6u16).prop_map(Some)].boxed()
    } else {
        prop_oneof![1 => Just(None), 2 => Just(Some(0u16)), 6 => (1..3u16).prop_map(Some), 1 => select(vec![60u16, 18_000, 65_535]).prop_map(Some)].boxed()
    };
    let at = prop_oneof![2 => Just(0u16), 2 => 0..700u16, 4 => 0..ms];
    let share = prop_oneof![3 => Just(255u8), 2 => any::<u8>(), 1 => 0..4u8, 1 => 250..255u8];
    (
        any::<bool>(),
        any::<bool>(),
        limit,
        prop_oneof![5 => Just(0u16), 2 => 0..700u16, 3 => 0..ms],
        prop_oneof![
            2 => Just(vec![(0u16, 255u8)]),
            1 => Just(vec![]),
            4 => vec((at.clone(), share), 1..6),
            // a trickle
            2 => (10..300u16, any::<u8>()).prop_map(move |(step, top)| (0..ms / step).map(|k| (k * step, (u32::from(k) * u32::from(top) * u32::from(step) / u32::from(ms)) as u8)).collect()),
        ],
        any::<u64>(),
    )
        .prop_map(|(client, sasl, limit, app, mut pace, enc)| {
            pace.sort();
            Hs { client, sasl, limit, app, pace, enc }
        })
        .boxed()
}

struct Live {
    c: Hs,
    r: Raw,
    io: IoTest,
    sink: Rc<RefCell<Option<ConnectionRef>>>,
    /// outcome of the call, and when
    over: Rc<RefCell<Option<(Result<(), String>, Instant)>>>,
    /// handshake futures of the application alive
    inside: Rc<Cell<i32>>,
    script: Vec<u8>,
    wrote: usize,
    next: usize,
    /// when the first 8 bytes and when everything was written
    head: Option<Instant>,
    full: Option<Instant>,
    start: Instant,
    up: Option<Instant>,
}

struct Inside(Rc<Cell<i32>>);
impl Drop for Inside {
    fn drop(&mut self) {
        self.0.set(self.0.get() - 1);
    }
}

fn script(c: &Hs, r: &mut Raw) -> Vec<u8> {
    let open = wire::open("peer", None, 65536, 100, None);
    let syms = |s: &str| Val::Array(None, ElemTy::Sym, vec![Val::sym(s)]);
    let mut b = vec![];
    if c.sasl {
        b.extend_from_slice(&HDR_SASL);
        if c.client {
            b.extend(r.enc.frame(1, 0, &mk(0x40, vec![syms("PLAIN")]), &[]));
            b.extend(r.enc.frame(1, 0, &mk(0x44, vec![Val::Ubyte(0), Val::Null]), &[]));
        } else {
            b.extend(r.enc.frame(1, 0, &mk(0x41, vec![Val::sym("PLAIN"), Val::Bin(b"\0u\0p".to_vec()), Val::Null]), &[]));
        }
    }
    b.extend_from_slice(&HDR_AMQP);
    b.extend(r.enc.frame(0, 0, &open, &[]));
    b
}

async fn app_side(h: Handshake, wait: u16, sink: Rc<RefCell<Option<ConnectionRef>>>, n: Rc<Cell<i32>>) -> Result<HandshakeAck<()>, HsErr> {
    n.set(n.get() + 1);
    let _inside = Inside(n);
    if wait > 0 {
        sleep_ms(u64::from(wait)).await;
    }
    let e = |e: ntex_amqp::server::HandshakeError| HsErr(format!("{e:?}"));
    let o = match h {
        Handshake::Amqp(h) => h.open().await.map_err(e)?,
        Handshake::Sasl(s) => {
            let i = s.mechanism("PLAIN").init().await.map_err(e)?;
            let o = i.outcome(ntex_amqp::codec::protocol::SaslCode::Ok).await.map_err(e)?;
            o.open().await.map_err(e)?
        }
    };
    *sink.borrow_mut() = Some(o.sink().get_ref());
    Ok(o.ack(()))
}

fn begin(c: &Hs) -> Live {
    let act: Rc<Cell<u64>> = Rc::default();
    let (mut r, io) = Raw::pair(c.enc, 0, &act);
    let sink: Rc<RefCell<Option<ConnectionRef>>> = Rc::default();
    let over: Rc<RefCell<Option<(Result<(), String>, Instant)>>> = Rc::default();
    let inside: Rc<Cell<i32>> = Rc::default();
    let script = script(c, &mut r);
    let peer = r.io.clone().unwrap();
    let mut cfg = AmqpServiceConfig::new();
    if let Some(s) = c.limit {
        cfg = cfg.set_handshake_timeout(Seconds(s));
    }
    let cfg = shared(cfg);
    let start = Instant::now();
    let ctl: CtlFn = Rc::new(|_: &ControlFrame| Box::pin(async { Ok(()) }));
    let (s2, o2, n2, c2) = (sink.clone(), over.clone(), inside.clone(), c.clone());
    if c.client {
        ntex_rt::spawn(async move {
            let io = Rc::new(RefCell::new(Some(Io::new(io, cfg.clone()))));
            let wait = c2.app;
            let conn = client::Connector::<String>::new().connector(fn_service(async move |_: Connect<String>| {
                n2.set(n2.get() + 1);
                let _inside = Inside(n2.clone());
                if wait > 0 {
                    sleep_ms(u64::from(wait)).await;
                }
                let io = io.borrow_mut().take().expect("one connection");
                Ok::<_, ntex_error::Error<ntex_net::connect::ConnectError>>(IoBoxed::from(io))
            }));
            let svc = conn.create(cfg).await.ok().expect("connector");
            let mut rq = client::Connect::new("peer".to_string());
            if c2.sasl {
                rq = rq.sasl_auth(ByteString::new(), "u".into(), "p".into());
            }
            let res = Pipeline::new(svc).call(rq).await;
            match res {
                Ok(c) => {
                    *s2.borrow_mut() = Some(c.sink());
                    let r = c.start(CtlService(ctl)).await;
                    *o2.borrow_mut() = Some((r.map_err(|e| format!("{e:?}")), Instant::now()));
                }
                Err(e) => *o2.borrow_mut() = Some((Err(format!("{:?}", &*e)), Instant::now())),
            }
        });
    } else {
        ntex_rt::spawn(async move {
            let wait = c2.app;
            let publ: PubFn = Rc::new(|_: Message| Box::pin(async { Ok(()) }));
            let srv = ntex_amqp::server::Server::build(async move |h: Handshake| app_side(h, wait, s2.clone(), n2.clone()).await)
                .control(ntex_service::fn_factory_with_config(async move |_: ntex_amqp::State<()>| Ok::<_, ()>(CtlService(ctl.clone()))))
                .finish(ntex_service::fn_factory_with_config(async move |_: ntex_amqp::State<()>| Ok::<_, ()>(PubService(publ.clone()))));
            let svc = ServiceFactory::<IoBoxed, _>::create(&srv, cfg.clone()).await.ok().expect("server");
            let r = Pipeline::new(svc).call(IoBoxed::from(Io::new(io, cfg))).await;
            *o2.borrow_mut() = Some((r.map_err(|e: ntex_amqp::server::ServerError<HsErr>| format!("{e:?}")), Instant::now()));
        });
    }
    Live { c: c.clone(), r, io: peer, sink, over, inside, script, wrote: 0, next: 0, head: None, full: None, start, up: None }
}

async fn run(c: TCase) -> (Result<(), String>, Vec<(&'static str, u64)>) {
    let mut live: Vec<Live> = c.conns.iter().map(begin).collect();
    let mut labels = vec![("connections", live.len() as u64)];
    let r = watch(&c, &mut live, &mut labels).await;
    for l in &mut live {
        l.r.cut();
        l.io.close().await;
    }
    yields(50).await;
    (r, labels)
}

const SLACK: Duration = Duration::from_millis(450);

async fn watch(c: &TCase, live: &mut [Live], labels: &mut Vec<(&'static str, u64)>) -> Result<(), String> {
    let start = Instant::now();
    let mut tick = start;
    let mut lag = Duration::ZERO;
    let total = Duration::from_millis(u64::from(c.ms));
    loop {
        sleep_ms(2).await;
        let now = Instant::now();
        lag = lag.max(now - tick);
        tick = now;
        for l in live.iter_mut() {
            while l.next < l.c.pace.len() && start + Duration::from_millis(u64::from(l.c.pace[l.next].0)) <= now {
                let to = l.script.len() * l.c.pace[l.next].1 as usize / 255;
                l.next += 1;
                if to > l.wrote {
                    let b = l.script[l.wrote..to].to_vec();
                    l.r.bytes(&b).await;
                    l.wrote = to;
                }
                if l.wrote >= 8 && l.head.is_none() {
                    l.head = Some(now);
                }
                if l.wrote == l.script.len() && l.full.is_none() {
                    l.full = Some(now);
                }
            }
            l.r.pump();
            if l.up.is_none() && l.r.count(wire::OPEN) == 1 && l.sink.borrow().is_some() {
                l.up = Some(now);
            }
        }
        if now - start > total {
            break;
        }
    }
    let end = Instant::now();
    let steady = lag < Duration::from_millis(100);
    if !steady {
        labels.push(("timing not judged", 1));
        return Ok(());
    }
    for (i, l) in live.iter_mut().enumerate() {
        let tell = |l: &Live, e: String| {
            let over = l.over.borrow().as_ref().map(|(r, t)| (r.clone(), *t - l.start));
            Err(format!(
                "connection {i} ({:?}): {e}\ncall {over:?}, up after {:?}, complete after {:?}, late by {lag:?}\n{}",
                l.c,
                l.up.map(|t| t - l.start),
                l.full.map(|t| t - l.start),
                l.r.log()
            ))
        };
        // when the handshake can be complete
        let app = Duration::from_millis(u64::from(l.c.app));
        let can = match (l.head, l.full) {
            (Some(h), Some(f)) => Some(f.max(if l.c.client { l.start + app } else { h + app }) - l.start),
            _ => None,
        };
        let limit = match l.c.limit {
            None => Some(Duration::from_secs(5)),
            Some(0) => None,
            Some(s) => Some(Duration::from_secs(u64::from(s))),
        };
        let over = l.over.borrow().clone();
        let whole = end - l.start;
        let in_time = can.is_some_and(|t| limit.is_none_or(|m| t + SLACK < m));
        let too_late = limit.is_some_and(|m| can.is_none_or(|t| t > m + SLACK));
        if in_time {
            let can = can.unwrap();
            if let Some((r, _)) = over {
                return tell(l, format!("completes in time, and ends with {r:?}"));
            }
            if can + SLACK < whole {
                labels.push(("completed in time", 1));
                match l.up {
                    Some(t) if t - l.start < can + SLACK => {}
                    _ => return tell(l, "complete, but not connected".into()),
                }
            }
        } else if too_late && limit.unwrap() + SLACK < whole {
            let limit = limit.unwrap();
            labels.push(("timed out", 1));
            if l.up.is_some() {
                return tell(l, "connected after the time is over".into());
            }
            match over {
                None => return tell(l, "not given up".into()),
                Some((r, t)) => {
                    let t = t - l.start;
                    if t + Duration::from_millis(100) < limit || t > limit + SLACK {
                        return tell(l, format!("given up after {t:?}"));
                    }
                    match r {
                        Err(e) if e.contains("Timeout") => {}
                        r => return tell(l, format!("ends with {r:?}")),
                    }
                }
            }
            if l.inside.get() != 0 {
                return tell(l, "the application's future is kept".into());
            }
            // the stream is over
            if !l.io.is_closed() {
                return tell(l, "the stream is left open".into());
            }
        } else if over.is_some() && !too_late && limit.is_none_or(|m| m > whole + SLACK) {
            return tell(l, "over before its time".into());
        }
        // never in the way of what follows
        if l.up.is_some() && over_none(l) {
            labels.push(("in use at the end", 1));
            l.r.amqp(0, &wire::begin(None, 0, 100, 100)).await;
            if !l.r.until(|r| r.count(wire::BEGIN) == 1).await {
                return tell(l, "a begin is not answered".into());
            }
        }
        if let Some(e) = &l.r.err {
            return tell(l, format!("unreadable output: {e}"));
        }
        // a header comes first, and nothing after the handshake is done
        if l.up.is_none() && l.r.items.iter().any(|i| matches!(i, Item::Frame(f) if f.ftype == 0 && f.code != wire::OPEN)) {
            return tell(l, "goes on before it is connected".into());
        }
    }
    Ok(())
}

fn over_none(l: &Live) -> bool {
    l.over.borrow().is_none()
}

fn e25(c: &TCase, case: &mut Case) -> Result<(), String> {
    let (r, labels) = block_on(run(c.clone()));
    let mut n = 0;
    for (l, k) in labels {
        if l == "timed out" {
            n += k;
        }
        case.count(l, k);
    }
    if n > 0 {
        case.nontrivial();
    }
    r
}

pub fn props() -> Vec<Prop> {
    let case = |n: usize, ms: u16| (vec(hs(ms), n / 2..n), Just(ms)).prop_map(|(conns, ms)| TCase { conns, ms }).boxed();
    vec![Prop {
        id: "E25",
        rule: "non-trivial if at least one handshake ran into its limit",
        assumptions: &["the event loop of the check is scheduled at least every 100 ms; a case in which it is not is counted and not judged; what happens within 450 ms of a limit is not judged"],
        spin_secs: None,
        subs: vec![
            sub("handshake", 24, 400, move |_| case(160, 3000), e25),
            sub("long", 8, 80, move |_| case(100, 6500), e25),
        ],
    }]
}
