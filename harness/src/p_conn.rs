//! Connection level properties: open and close, SASL, channel limits.
use std::cell::{Cell, RefCell};
use std::rc::Rc;

use ntex_amqp::codec::protocol as p;
use ntex_amqp::error::AmqpProtocolError;
use ntex_amqp::server::{Handshake, HandshakeAck, Sasl};
use ntex_amqp::{AmqpServiceConfig, ControlFrame, ControlFrameKind, Session, client};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::conv::{self, Fld, mk};
use crate::raw::Raw;
use crate::refcodec::{ElemTy, Val};
use crate::runner::{Case, Prop, sub};
use crate::schema;
use crate::sut::*;
use crate::wire::{self, HDR_AMQP, HDR_SASL, Item};

const MECHS: u64 = 0x40;
const INIT: u64 = 0x41;
const CHALLENGE: u64 = 0x42;
const RESPONSE: u64 = 0x43;
const OUTCOME: u64 = 0x44;

/// What the peer does instead of the next expected step.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Dev {
    /// an eight byte protocol header
    Header(u8),
    /// a SASL frame of another kind than expected
    Sasl(u8),
    /// an AMQP frame of another kind than expected
    Amqp(u8),
    /// nothing: the stream ends
    Cut,
    /// the expected bytes, cut short
    Part(u8),
    /// bytes that are neither
    Junk(u8),
}

fn dev() -> BoxedStrategy<Dev> {
    prop_oneof![
        2 => any::<u8>().prop_map(Dev::Header),
        4 => any::<u8>().prop_map(Dev::Sasl),
        4 => any::<u8>().prop_map(Dev::Amqp),
        1 => Just(Dev::Cut),
        1 => any::<u8>().prop_map(Dev::Part),
        1 => any::<u8>().prop_map(Dev::Junk),
    ]
    .boxed()
}

/// one step of the peer's side of an exchange
#[derive(Clone, Debug)]
enum Step {
    Header([u8; 8]),
    Sasl(Val),
    Amqp(Val),
}

fn bin(b: &[u8]) -> Val {
    Val::Bin(b.to_vec())
}
fn syms_val(l: &[String]) -> Val {
    Val::Array(None, ElemTy::Sym, l.iter().map(|s| Val::sym(s)).collect())
}
fn obin(b: &Option<Vec<u8>>) -> Val {
    b.as_ref().map_or(Val::Null, |b| bin(b))
}
fn ostr(b: &Option<String>) -> Val {
    b.as_ref().map_or(Val::Null, |b| Val::str(b))
}

impl Raw {
    async fn step(&mut self, s: &Step) {
        match s {
            Step::Header(h) => {
                self.t(format!("peer> header {:?}", &h[4..]));
                self.bytes(h).await;
            }
            Step::Sasl(v) => self.frame(1, 0, v, &[]).await,
            Step::Amqp(v) => self.frame(0, 0, v, &[]).await,
        }
    }

    /// performs the deviation; false if it is not one
    async fn deviate(&mut self, d: &Dev, expected: &Step) -> bool {
        match d {
            Dev::Header(k) => {
                let all: [[u8; 8]; 7] = [
                    HDR_AMQP,
                    HDR_SASL,
                    *b"AMQP\x02\x01\x00\x00",
                    *b"AMQP\x00\x00\x09\x01",
                    *b"AMQP\x00\x01\x01\x00",
                    *b"AMQP\x01\x01\x00\x00",
                    *b"AMQP\x04\x01\x00\x00",
                ];
                let h = all[*k as usize % all.len()];
                if let Step::Header(e) = expected
                    && *e == h
                {
                    return false;
                }
                self.t(format!("peer> header {:?} (deviation)", &h[4..]));
                self.bytes(&h).await;
            }
            Dev::Sasl(k) => {
                let all = [
                    mk(MECHS, vec![syms_val(&["PLAIN".into()])]),
                    mk(INIT, vec![Val::sym("PLAIN"), bin(b"\0a\0b"), Val::Null]),
                    mk(CHALLENGE, vec![bin(b"c")]),
                    mk(RESPONSE, vec![bin(b"r")]),
                    mk(OUTCOME, vec![Val::Ubyte(0), Val::Null]),
                    mk(OUTCOME, vec![Val::Ubyte(1), Val::Null]),
                ];
                let v = &all[*k as usize % all.len()];
                if let Step::Sasl(e) = expected
                    && conv::code_of(e) == conv::code_of(v)
                {
                    return false;
                }
                self.t("deviation:");
                self.frame(1, 0, v, &[]).await;
            }
            Dev::Amqp(k) => {
                let all = [
                    wire::open("dev", None, 4096, 10, None),
                    wire::begin(None, 0, 10, 10),
                    wire::attach("x", 0, true, Some(wire::source(Some("a"))), Some(wire::target(Some("a"))), None, None),
                    wire::flow(None, 10, 0, 10, None, false),
                    wire::detach(0, true, None),
                    wire::end(None),
                    wire::close(None),
                    wire::disposition(true, 0, None, true, Some(wire::accepted())),
                ];
                let k = *k as usize % (all.len() + 1);
                self.t("deviation:");
                if k == all.len() {
                    let e = wire::empty();
                    self.bytes(&e).await;
                    return true;
                }
                if let Step::Amqp(e) = expected
                    && conv::code_of(e) == conv::code_of(&all[k])
                {
                    return false;
                }
                self.frame(0, 0, &all[k], &[]).await;
            }
            Dev::Cut => self.cut(),
            Dev::Part(n) => {
                let b = match expected {
                    Step::Header(h) => h.to_vec(),
                    Step::Sasl(v) => self.enc.frame(1, 0, v, &[]),
                    Step::Amqp(v) => self.enc.frame(0, 0, v, &[]),
                };
                let n = *n as usize % b.len();
                self.t(format!("peer> {n} of {} bytes", b.len()));
                self.bytes(&b[..n]).await;
            }
            Dev::Junk(k) => {
                let b: &[u8] = match k % 4 {
                    0 => b"GET / HTTP/1.1\r\nHost: x\r\n\r\n",
                    1 => &[0, 0, 0, 4, 2, 1, 0, 0, 0, 0, 0, 0],
                    2 => &[0, 0, 0, 16, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
                    _ => &[0, 0, 0, 12, 2, 7, 0, 0, 0x40, 0x40, 0x40, 0x40],
                };
                self.t("peer> junk");
                self.bytes(b).await;
            }
        }
        true
    }
}

fn fail(r: &Raw, m: impl Into<String>) -> Result<(), String> {
    Err(format!("{}\n{}", m.into(), r.log()))
}

fn no_ctl() -> CtlFn {
    Rc::new(|_| Box::pin(async { Ok(()) }))
}
fn no_pub() -> PubFn {
    Rc::new(|_| Box::pin(async { Ok(()) }))
}

fn ident() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-z]{1,6}",
        1 => Just(String::new()),
        1 => "[a-zA-Z0-9.:/_-]{0,40}",
        1 => "\\PC{0,12}",
    ]
    .boxed()
}
fn symstr() -> BoxedStrategy<String> {
    prop_oneof![4 => "[A-Z0-9-]{1,10}", 1 => "[ -~]{0,30}", 1 => "[a-z]{250,270}"].boxed()
}
fn blob() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => vec(any::<u8>(), 0..12),
        1 => vec(any::<u8>(), 0..80),
        1 => (250usize..262).prop_map(|n| vec![7u8; n]),
        1 => Just(vec![]),
    ]
    .boxed()
}
fn fragsize() -> BoxedStrategy<u8> {
    prop_oneof![4 => Just(0u8), 1 => 1u8..4, 1 => 4u8..60].boxed()
}
fn encseed() -> BoxedStrategy<u64> {
    prop_oneof![1 => Just(0u64), 2 => any::<u64>()].boxed()
}

// ====================================================================== E16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SaslSrv {
    mechs: Vec<String>,
    mech: String,
    host: Option<String>,
    resp: Option<Vec<u8>>,
    challenge: Option<Vec<u8>>,
    response: Vec<u8>,
    code: u8,
    /// the application goes on to open
    go_on: bool,
    dev: Option<(u8, Dev)>,
    pipelined: bool,
    frag: u8,
    enc: u64,
}

fn sasl_srv() -> BoxedStrategy<SaslSrv> {
    (
        (vec(symstr(), 1..6), symstr(), proptest::option::of(ident()), proptest::option::of(blob())),
        (proptest::option::of(blob()), blob(), 0u8..5, prop::bool::weighted(0.8)),
        (proptest::option::weighted(0.4, (0u8..5, dev())), any::<bool>(), fragsize(), encseed()),
    )
        .prop_map(|((mechs, mech, host, resp), (challenge, response, code, go_on), (dev, pipelined, frag, enc))| SaslSrv {
            mechs,
            mech,
            host,
            resp,
            challenge,
            response,
            code,
            go_on,
            dev,
            pipelined,
            frag,
            enc,
        })
        .boxed()
}

#[derive(Default, Debug)]
struct SaslSeen {
    init: Option<(String, Option<String>, Option<Vec<u8>>)>,
    response: Option<Vec<u8>>,
    outcome_sent: bool,
    opened: bool,
}

fn code_of(c: u8) -> p::SaslCode {
    match c {
        0 => p::SaslCode::Ok,
        1 => p::SaslCode::Auth,
        2 => p::SaslCode::Sys,
        3 => p::SaslCode::SysPerm,
        _ => p::SaslCode::SysTemp,
    }
}

async fn sasl_app(s: Sasl, plan: SaslSrv, seen: Rc<RefCell<SaslSeen>>, ep_sink: Rc<RefCell<Option<ntex_amqp::ConnectionRef>>>) -> Result<HandshakeAck<()>, String> {
    let e = |e: ntex_amqp::server::HandshakeError| format!("{e:?}");
    let mut s = s;
    for m in &plan.mechs {
        s = s.mechanism(m.clone());
    }
    let init = s.init().await.map_err(e)?;
    seen.borrow_mut().init = Some((
        init.mechanism().to_string(),
        init.hostname().map(|s| s.to_string()),
        init.initial_response().map(|s| s.to_vec()),
    ));
    let code = code_of(plan.code);
    let succ = if let Some(c) = &plan.challenge {
        let r = if c.is_empty() {
            init.challenge().await
        } else {
            init.challenge_with(ntex_bytes::Bytes::copy_from_slice(c)).await
        };
        let r = r.map_err(e)?;
        seen.borrow_mut().response = Some(r.response().to_vec());
        r.outcome(code).await.map_err(e)?
    } else {
        init.outcome(code).await.map_err(e)?
    };
    seen.borrow_mut().outcome_sent = true;
    if !plan.go_on {
        return Err("declined".into());
    }
    let o = succ.open().await.map_err(e)?;
    seen.borrow_mut().opened = true;
    *ep_sink.borrow_mut() = Some(o.sink().get_ref());
    Ok(o.ack(()))
}

/// checks what the endpoint has written so far against the longest admissible sequence
fn is_prefix(r: &Raw, exp: &[Exp]) -> Result<(), String> {
    for (i, it) in r.items.iter().enumerate() {
        let Some(e) = exp.get(i) else { return Err(format!("item {i} is not expected: {it:?}")) };
        e.check(it).map_err(|m| format!("item {i}: {m}"))?;
    }
    Ok(())
}

/// expected item
enum Exp {
    Header([u8; 8]),
    /// type, performative with its fields in normal form
    Sasl(Val),
    Code(u64),
}

impl Exp {
    fn check(&self, i: &Item) -> Result<(), String> {
        match (self, i) {
            (Exp::Header(h), Item::Header(g)) if h == g => Ok(()),
            (Exp::Sasl(v), Item::Frame(f)) if f.ftype == 1 => {
                let n = schema::normalize(v, schema::SASL_FRAMES).map_err(|e| format!("harness: {e}"))?;
                if wire::fields(&n) == f.f && conv::code_of(&n) == f.code {
                    Ok(())
                } else {
                    Err(format!("expected {n:?}, got {:#x} {:?}", f.code, f.f))
                }
            }
            (Exp::Code(c), Item::Frame(f)) if f.ftype == 0 && f.code == *c && f.ch == 0 => Ok(()),
            (Exp::Header(h), g) => Err(format!("expected header {h:?}, got {g:?}")),
            (Exp::Sasl(v), g) => Err(format!("expected {v:?}, got {g:?}")),
            (Exp::Code(c), g) => Err(format!("expected frame {c:#x}, got {g:?}")),
        }
    }
}

fn e16_server(c: &SaslSrv, case: &mut Case) -> Result<(), String> {
    let c = c.clone();
    let (r, labels) = block_on(e16_server_run(c));
    for l in labels {
        case.label(l);
    }
    case.nontrivial();
    r
}

async fn e16_server_run(c: SaslSrv) -> (Result<(), String>, Vec<&'static str>) {
    let ep = Endpoint::new();
    let (mut r, io) = Raw::pair(c.enc, c.frag, &ep.activity);
    let seen: Rc<RefCell<SaslSeen>> = Rc::default();
    let hs: HsFn = {
        let (plan, seen, sink) = (c.clone(), seen.clone(), ep.sink.clone());
        Rc::new(move |h| {
            let (plan, seen, sink) = (plan.clone(), seen.clone(), sink.clone());
            Box::pin(async move {
                match h {
                    Handshake::Sasl(s) => sasl_app(s, plan, seen, sink).await,
                    Handshake::Amqp(_) => Err("plain".into()),
                }
            })
        })
    };
    let pb = ntex_service::fn_factory_with_config(async move |_: ntex_amqp::State<()>| Ok::<_, ()>(PubService(no_pub())));
    let ep = start_server_with(ep, io, AmqpServiceConfig::new(), hs, no_ctl(), pb);

    let mut steps = vec![
        Step::Header(HDR_SASL),
        Step::Sasl(mk(INIT, vec![Val::sym(&c.mech), obin(&c.resp), ostr(&c.host)])),
    ];
    // what the endpoint writes, and how much of it before each step of the peer
    let mut exp = vec![Exp::Header(HDR_SASL), Exp::Sasl(mk(MECHS, vec![syms_val(&c.mechs)]))];
    let mut before = vec![0, 2];
    if let Some(ch) = &c.challenge {
        exp.push(Exp::Sasl(mk(CHALLENGE, vec![bin(ch)])));
        before.push(exp.len());
        steps.push(Step::Sasl(mk(RESPONSE, vec![bin(&c.response)])));
    }
    exp.push(Exp::Sasl(mk(OUTCOME, vec![Val::Ubyte(c.code), Val::Null])));
    before.push(exp.len());
    steps.push(Step::Header(HDR_AMQP));
    if c.go_on {
        exp.push(Exp::Header(HDR_AMQP));
    }
    before.push(exp.len());
    steps.push(Step::Amqp(wire::open("peer", None, 4096, 10, None)));
    if c.go_on {
        exp.push(Exp::Code(wire::OPEN));
    }

    let mut labels = vec![];
    let mut deviated = None;
    let devat = c.dev.as_ref().map(|(i, _)| *i as usize % steps.len());
    for (i, s) in steps.iter().enumerate() {
        if !c.pipelined {
            let n = before[i];
            if !r.until(|r| r.items.len() >= n || r.err.is_some()).await {
                return (fail(&r, format!("{n} items expected before step {i}, application saw {:?}", seen.borrow())), labels);
            }
        }
        if devat == Some(i) && r.deviate(&c.dev.as_ref().unwrap().1, s).await {
            deviated = Some(i);
            break;
        }
        r.step(s).await;
        if i + 2 >= steps.len() && !c.go_on {
            break;
        }
    }
    let seen_init = (c.mech.clone(), c.host.clone(), c.resp.clone());
    let res = (async || {
        if let Some(i) = deviated {
            labels.push("deviation");
            r.settle().await;
            // nothing that needs step `i` may have happened
            let n = before.get(i + 1).copied().unwrap_or(exp.len());
            let _ = n;
            let mut allowed = if i == 0 { 0 } else { before[i] };
            if matches!(c.dev, Some((_, Dev::Header(_)))) && i == 0 && r.items.len() == 1 {
                // a refusal may name the protocol that is supported
                if let Item::Header(_) = r.items[0] {
                    allowed = 1;
                }
                r.items.clear();
            }
            if let Err(m) = is_prefix(&r, &exp) {
                return fail(&r, m);
            }
            if r.items.len() > allowed {
                return fail(&r, format!("goes on although step {i} was not what is expected"));
            }
            let s = seen.borrow();
            if s.opened || ep.sink.borrow().is_some() {
                return fail(&r, "connection is opened after a deviation");
            }
            if i <= 1 && s.init.is_some() || c.challenge.is_some() && i <= 2 && s.response.is_some() {
                return fail(&r, format!("application sees {s:?} after a deviation at {i}"));
            }
            drop(s);
            if r.io.is_some() {
                r.cut();
            }
            if !r.until(|_| ep.done.borrow().is_some()).await {
                return fail(&r, "connection task does not complete after the stream ended");
            }
            return match &*ep.done.borrow() {
                Some(Ok(())) => fail(&r, "a broken exchange is reported as success"),
                _ => Ok(()),
            };
        }
        let n = exp.len();
        let full = r.until(|r| r.items.len() >= n || r.err.is_some()).await;
        if let Some(e) = &r.err {
            return fail(&r, e.clone());
        }
        if let Err(m) = is_prefix(&r, &exp) {
            return fail(&r, m);
        }
        if !full {
            return fail(&r, format!("{n} items expected, application saw {:?}, task {:?}", seen.borrow(), ep.done.borrow()));
        }
        r.settle().await;
        if r.items.len() != n {
            return fail(&r, "more than the exchange is written");
        }
        let s = seen.borrow();
        if s.init.as_ref() != Some(&seen_init) {
            return fail(&r, format!("application sees {:?}", s.init));
        }
        if c.challenge.is_some() && s.response.as_ref() != Some(&c.response) {
            return fail(&r, format!("application sees response {:?}", s.response));
        }
        if c.go_on {
            if !s.opened || ep.sink.borrow().is_none() {
                return fail(&r, "not opened");
            }
            drop(s);
            labels.push("opened");
            // the connection works
            r.amqp(0, &wire::begin(None, 0, 100, 100)).await;
            if !r.until(|r| r.count(wire::BEGIN) == 1).await {
                return fail(&r, "begin is not answered after sasl");
            }
            r.cut();
        } else {
            labels.push("declined");
        }
        if !r.until(|_| ep.done.borrow().is_some()).await {
            return fail(&r, "connection task does not complete");
        }
        Ok(())
    })()
    .await;
    if c.challenge.is_some() {
        labels.push("challenge");
    }
    (res, labels)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SaslCli {
    authz: String,
    authn: String,
    password: String,
    conf_host: Option<String>,
    host: Option<String>,
    mechs: Vec<String>,
    code: u8,
    extra: Option<Vec<u8>>,
    dev: Option<(u8, Dev)>,
    pipelined: bool,
    frag: u8,
    enc: u64,
}

fn sasl_cli() -> BoxedStrategy<SaslCli> {
    (
        (ident(), ident(), ident(), proptest::option::of(ident()), proptest::option::of(ident())),
        (vec(symstr(), 0..4), 0usize..4, prop_oneof![3 => Just(0u8), 2 => 1u8..5], proptest::option::of(blob())),
        (proptest::option::weighted(0.4, (0u8..5, dev())), any::<bool>(), fragsize(), encseed()),
    )
        .prop_map(|((authz, authn, password, conf_host, host), (mut mechs, at, code, extra), (dev, pipelined, frag, enc))| {
            mechs.insert(at.min(mechs.len()), "PLAIN".into());
            SaslCli { authz, authn, password, conf_host, host, mechs, code, extra, dev, pipelined, frag, enc }
        })
        .boxed()
}

fn e16_client(c: &SaslCli, case: &mut Case) -> Result<(), String> {
    let c = c.clone();
    let (r, labels) = block_on(e16_client_run(c));
    for l in labels {
        case.label(l);
    }
    case.nontrivial();
    r
}

async fn e16_client_run(c: SaslCli) -> (Result<(), String>, Vec<&'static str>) {
    let act: Rc<Cell<u64>> = Rc::default();
    let (mut r, io) = Raw::pair(c.enc, c.frag, &act);
    let mut cfg = AmqpServiceConfig::new();
    if let Some(h) = &c.conf_host {
        cfg = cfg.set_hostname(h);
    }
    let auth = client::SaslAuth {
        authz_id: c.authz.as_str().into(),
        authn_id: c.authn.as_str().into(),
        password: c.password.as_str().into(),
    };
    let ep = start_client(io, cfg, Some(auth), c.host.as_deref().map(Into::into), no_ctl());
    let mut creds = c.authz.as_bytes().to_vec();
    creds.push(0);
    creds.extend_from_slice(c.authn.as_bytes());
    creds.push(0);
    creds.extend_from_slice(c.password.as_bytes());
    let host = c.host.clone().or(c.conf_host.clone());
    let steps = [
        Step::Header(HDR_SASL),
        Step::Sasl(mk(MECHS, vec![syms_val(&c.mechs)])),
        Step::Sasl(mk(OUTCOME, vec![Val::Ubyte(c.code), obin(&c.extra)])),
        Step::Header(HDR_AMQP),
        Step::Amqp(wire::open("peer", None, 4096, 10, None)),
    ];
    let exp = [
        Exp::Header(HDR_SASL),
        Exp::Sasl(mk(INIT, vec![Val::sym("PLAIN"), bin(&creds), ostr(&host)])),
        Exp::Header(HDR_AMQP),
        Exp::Code(wire::OPEN),
    ];
    // items the endpoint writes before it needs the step
    let before = [1usize, 1, 2, 3, 4];
    let mut labels = vec![];
    let mut deviated = None;
    let devat = c.dev.as_ref().map(|(i, _)| *i as usize % steps.len());
    for (i, s) in steps.iter().enumerate() {
        if !c.pipelined {
            let n = before[i];
            if !r.until(|r| r.items.len() >= n || r.err.is_some()).await {
                return (fail(&r, format!("{n} items expected before step {i}, {:?}", ep.error.borrow())), labels);
            }
        }
        if devat == Some(i) && r.deviate(&c.dev.as_ref().unwrap().1, s).await {
            deviated = Some(i);
            break;
        }
        r.step(s).await;
        if i == 2 && c.code != 0 {
            break;
        }
    }
    let res = (async || {
        r.settle().await;
        if let Some(e) = &r.err {
            return fail(&r, e.clone());
        }
        if let Err(m) = is_prefix(&r, &exp) {
            return fail(&r, m);
        }
        if let Some(i) = deviated {
            labels.push("deviation");
            if r.items.len() > before[i] {
                return fail(&r, format!("goes on although step {i} was not what is expected"));
            }
            if ep.sink.borrow().is_some() {
                return fail(&r, "connected after a deviation");
            }
            if r.io.is_some() {
                r.cut();
            }
            if !r.until(|_| ep.done.borrow().is_some()).await {
                return fail(&r, "connect does not complete after the stream ended");
            }
            return if ep.error.borrow().is_none() { fail(&r, "a broken exchange is reported as success") } else { Ok(()) };
        }
        if c.code != 0 {
            labels.push("refused");
            if !r.until(|_| ep.done.borrow().is_some()).await {
                return fail(&r, "connect does not complete after a refusal");
            }
            if let Err(m) = is_prefix(&r, &exp[..2]) {
                return fail(&r, m);
            }
            let want = format!("Sasl({:?})", code_of(c.code));
            return if ep.error.borrow().as_deref() == Some(&want) {
                Ok(())
            } else {
                fail(&r, format!("code {} is reported as {:?}", c.code, ep.error.borrow()))
            };
        }
        labels.push("connected");
        if !r.until(|r| r.items.len() == 4 && ep.sink.borrow().is_some()).await {
            return fail(&r, format!("not connected: {:?}", ep.error.borrow()));
        }
        if let Err(m) = is_prefix(&r, &exp) {
            return fail(&r, m);
        }
        if let Item::Frame(f) = &r.items[3]
            && f.str(1) != host.as_deref()
        {
            return fail(&r, format!("open names host {:?}", f.str(1)));
        }
        r.amqp(0, &wire::begin(None, 0, 100, 100)).await;
        if !r.until(|r| r.count(wire::BEGIN) == 1).await {
            return fail(&r, "begin is not answered after sasl");
        }
        r.cut();
        if !r.until(|_| ep.done.borrow().is_some()).await {
            return fail(&r, "connection task does not complete");
        }
        Ok(())
    })()
    .await;
    (res, labels)
}


// ====================================================================== E13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conf {
    frame: u32,
    chan: u16,
    idle: u32,
    host: Option<String>,
    offered: Option<Vec<String>>,
    desired: Option<Vec<String>>,
}

fn conf() -> BoxedStrategy<Conf> {
    (
        prop_oneof![3 => 512u32..70_000, 1 => Just(512u32), 1 => Just(u32::MAX), 1 => 512u32..],
        crate::r#gen::edge_u16(),
        prop_oneof![2 => Just(0u32), 2 => 1u32..100_000, 1 => any::<u32>()],
        proptest::option::of(ident()),
        proptest::option::of(vec(symstr(), 1..4)),
        proptest::option::of(vec(symstr(), 1..4)),
    )
        .prop_map(|(frame, chan, idle, host, offered, desired)| Conf { frame, chan, idle, host, offered, desired })
        .boxed()
}

fn symbols(l: &Option<Vec<String>>) -> Option<p::Symbols> {
    l.as_ref().map(|l| {
        let mut s = p::Symbols::default();
        for x in l {
            s.push(conv::bs(x).into());
        }
        s
    })
}

impl Conf {
    fn build(&self) -> AmqpServiceConfig {
        let mut c = AmqpServiceConfig::new().set_max_frame_size(self.frame).set_channel_max(self.chan);
        c.idle_time_out = self.idle;
        if let Some(h) = &self.host {
            c = c.set_hostname(h);
        }
        if let Some(l) = symbols(&self.offered) {
            c = c.set_offered_capabilities(l);
        }
        if let Some(l) = symbols(&self.desired) {
            c = c.set_desired_capabilities(l);
        }
        c
    }
    /// fields of the open that announces this, without the container id
    fn open(&self, host: &Option<String>) -> Vec<Val> {
        let osyms = |l: &Option<Vec<String>>| l.as_ref().map_or(Val::Null, |l| syms_val(l));
        let v = mk(
            wire::OPEN,
            vec![
                Val::str("x"),
                ostr(host),
                Val::Uint(self.frame),
                Val::Ushort(self.chan),
                if self.idle == 0 { Val::Null } else { Val::Uint(self.idle) },
                Val::Null,
                Val::Null,
                osyms(&self.offered),
                osyms(&self.desired),
                Val::Null,
            ],
        );
        wire::fields(&schema::normalize(&v, schema::FRAMES).expect("open"))[1..].to_vec()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fin {
    /// the peer closes, and goes on writing when `more`
    Peer { err: Option<Val>, more: bool },
    /// the application closes; the peer answers or its own close is already on the way
    Local { err: Option<Val>, again: bool, cross: Option<Option<Val>>, answer: bool },
    Cut,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OpenCase {
    server: bool,
    conf: Conf,
    host: Option<String>,
    open: Val,
    dev: Option<(u8, Dev)>,
    pipelined: bool,
    sessions: u8,
    fin: Fin,
    frag: u8,
    enc: u64,
}

fn oerr() -> BoxedStrategy<Option<Val>> {
    proptest::option::weighted(0.7, schema::comp_gen(&schema::ERROR)).boxed()
}

/// leaves out what does not fit into a frame
fn fit(err: &mut Option<Val>, max: u32) {
    if let Some(v) = err {
        for i in [2, 1] {
            if crate::refcodec::canonical(v).len() * 3 + 64 > max as usize {
                let mut l = wire::fields(v).to_vec();
                l.resize(3, Val::Null);
                l[i] = Val::Null;
                *v = mk(29, l);
            }
        }
        if crate::refcodec::canonical(v).len() * 3 + 64 > max as usize {
            *err = None;
        }
    }
}

fn peer_open(max: usize) -> BoxedStrategy<Val> {
    (schema::comp_gen(&schema::OPEN), prop_oneof![512u32..70_000, Just(512u32), 512u32..], 3u8..10)
        .prop_map(move |(v, frame, short)| {
            let mut l = wire::fields(&v).to_vec();
            l.resize(10, Val::Null);
            if let Val::Uint(x) = l[2]
                && x < 512
            {
                l[2] = Val::Uint(frame);
            }
            if let Val::Uint(x) = l[4]
                && x < 60_000
            {
                l[4] = if x % 2 == 0 { Val::Null } else { Val::Uint(x.saturating_add(60_000)) };
            }
            // the first frame may not be larger than 512 octets
            let size = |l: &[Val]| crate::refcodec::canonical(&mk(wire::OPEN, l.to_vec())).len() * 3 + 64;
            for i in (5..10).rev() {
                if size(&l) > max {
                    l[i] = Val::Null;
                }
            }
            if size(&l) > max {
                l[0] = Val::str(&"c".repeat(short as usize));
                l[1] = Val::Null;
            }
            mk(wire::OPEN, l)
        })
        .boxed()
}

fn open_case() -> BoxedStrategy<OpenCase> {
    let fin = prop_oneof![
        4 => (oerr(), any::<bool>()).prop_map(|(err, more)| Fin::Peer { err, more }),
        4 => (oerr(), any::<bool>(), proptest::option::weighted(0.3, oerr()), any::<bool>())
            .prop_map(|(err, again, cross, answer)| Fin::Local { err, again, cross, answer }),
        1 => Just(Fin::Cut),
    ];
    (
        (any::<bool>(), conf(), proptest::option::of(ident()), peer_open(500)),
        (proptest::option::weighted(0.25, (0u8..2, dev())), any::<bool>(), 0u8..4, fin),
        (fragsize(), encseed()),
    )
        .prop_map(|((server, conf, host, open), (dev, pipelined, sessions, mut fin), (frag, enc))| {
            // no frame is larger than its receiver allows
            let peer_max = match &wire::fields(&open)[2] {
                Val::Uint(x) => *x,
                _ => u32::MAX,
            };
            match &mut fin {
                Fin::Peer { err, .. } => fit(err, conf.frame),
                Fin::Local { err, cross, .. } => {
                    fit(err, peer_max);
                    if let Some(e) = cross {
                        fit(e, conf.frame);
                    }
                }
                Fin::Cut => {}
            }
            OpenCase { server, conf, host, open, dev, pipelined, sessions, fin, frag, enc }
        })
        .boxed()
}

/// text of an error; errors of the peer in a form that does not depend on how they were written
fn perr(e: &AmqpProtocolError) -> String {
    match e {
        AmqpProtocolError::Closed(Some(e)) => format!("Closed({:?})", e.to_val().map(|v| v.normalized())),
        AmqpProtocolError::Closed(None) => "Closed()".into(),
        e => format!("{e:?}"),
    }
}

#[derive(Default)]
struct Seen {
    errors: Vec<String>,
    closed: usize,
    disconnected: usize,
    other: usize,
}

fn watch(seen: &Rc<RefCell<Seen>>) -> CtlFn {
    let seen = seen.clone();
    Rc::new(move |f: &ControlFrame| {
        let mut s = seen.borrow_mut();
        match f.kind() {
            ControlFrameKind::ProtocolError(e) => s.errors.push(perr(e)),
            ControlFrameKind::Closed => s.closed += 1,
            ControlFrameKind::Disconnected(_) => s.disconnected += 1,
            _ => s.other += 1,
        }
        Box::pin(async { Ok(()) })
    })
}

fn e13(c: &OpenCase, case: &mut Case) -> Result<(), String> {
    let (r, labels) = block_on(e13_run(c.clone()));
    for l in labels {
        case.label(l);
    }
    case.nontrivial();
    r
}

type SeenOpen = Rc<RefCell<Option<(p::Open, [Option<String>; 6])>>>;

async fn e13_run(c: OpenCase) -> (Result<(), String>, Vec<&'static str>) {
    let mut labels = vec![if c.server { "server" } else { "client" }];
    let r = e13_inner(c, &mut labels).await;
    (r, labels)
}

async fn e13_inner(c: OpenCase, labels: &mut Vec<&'static str>) -> Result<(), String> {
    let ep = Endpoint::new();
    let (mut r, io) = Raw::pair(c.enc, c.frag, &ep.activity);
    let seen: Rc<RefCell<Seen>> = Rc::default();
    let opened: SeenOpen = Rc::default();
    let cfg = c.conf.build();
    let ep = if c.server {
        let hs: HsFn = {
            let (sink, opened, error) = (ep.sink.clone(), opened.clone(), ep.error.clone());
            Rc::new(move |h| {
                let (sink, opened, error) = (sink.clone(), opened.clone(), error.clone());
                Box::pin(async move {
                    let Handshake::Amqp(h) = h else { return Err("sasl".into()) };
                    let o = h.open().await.map_err(|e| {
                        let e = format!("{e:?}");
                        *error.borrow_mut() = Some(e.clone());
                        e
                    })?;
                    let rc = o.remote_config();
                    let txt = [
                        Some(rc.max_frame_size.to_string()),
                        Some(rc.channel_max.to_string()),
                        Some(rc.idle_time_out.to_string()),
                        rc.hostname.as_ref().map(|s| s.to_string()),
                        rc.offered_capabilities.as_ref().map(|s| format!("{s:?}")),
                        rc.desired_capabilities.as_ref().map(|s| format!("{s:?}")),
                    ];
                    *opened.borrow_mut() = Some((o.frame().clone(), txt));
                    *sink.borrow_mut() = Some(o.sink().get_ref());
                    Ok(o.ack(()))
                })
            })
        };
        let pb = ntex_service::fn_factory_with_config(async move |_: ntex_amqp::State<()>| Ok::<_, ()>(PubService(no_pub())));
        start_server_with(ep, io, cfg, hs, watch(&seen), pb)
    } else {
        let e2 = start_client(io, cfg, None, c.host.as_deref().map(Into::into), watch(&seen));
        r.act = e2.activity.clone();
        e2
    };
    let host = if c.server { c.conf.host.clone() } else { c.host.clone().or(c.conf.host.clone()) };
    let exp = [Exp::Header(HDR_AMQP), Exp::Code(wire::OPEN)];
    let steps = [Step::Header(HDR_AMQP), Step::Amqp(c.open.clone())];
    let before = if c.server { [0usize, 1] } else { [1, 2] };
    let devat = c.dev.as_ref().map(|(i, _)| *i as usize % 2);
    let mut deviated = None;
    for (i, s) in steps.iter().enumerate() {
        if !c.pipelined && !r.until(|r| r.items.len() >= before[i] || r.err.is_some()).await {
            return fail(&r, format!("{} items expected before step {i}: {:?}", before[i], ep.error.borrow()));
        }
        if devat == Some(i) && !(c.server && i == 0 && matches!(c.dev, Some((_, Dev::Header(k))) if k % 7 == 1)) {
            let d = &c.dev.as_ref().unwrap().1;
            if r.deviate(d, s).await {
                deviated = Some(i);
                break;
            }
        }
        r.step(s).await;
    }
    r.settle().await;
    if let Some(e) = &r.err {
        return fail(&r, e.clone());
    }
    if let Some(i) = deviated {
        labels.push("deviation");
        let mut allowed = before[i];
        if c.server && i == 0 && matches!(r.items.first(), Some(Item::Header(_))) {
            // a refusal may name the protocol that is supported
            allowed = 1;
        }
        is_prefix(&r, &exp).or_else(|m| fail(&r, m))?;
        if r.items.len() > allowed {
            return fail(&r, format!("goes on although step {i} was not what is expected"));
        }
        if ep.sink.borrow().is_some() || opened.borrow().is_some() {
            return fail(&r, "connection is opened after a deviation");
        }
        // something complete that is not an open is refused at once
        let whole = match &c.dev.as_ref().unwrap().1 {
            Dev::Amqp(_) => i == 1,
            Dev::Cut => true,
            _ => false,
        };
        if whole && !r.until(|_| ep.done.borrow().is_some()).await {
            return fail(&r, "the connection attempt goes on");
        }
        if r.io.is_some() {
            r.cut();
        }
        if !r.until(|_| ep.done.borrow().is_some()).await {
            return fail(&r, "connection task does not complete after the stream ended");
        }
        return match &*ep.done.borrow() {
            Some(Ok(())) => fail(&r, "a broken exchange is reported as success"),
            _ => Ok(()),
        };
    }
    if !r.until(|r| r.items.len() == 2 && ep.sink.borrow().is_some()).await {
        return fail(&r, format!("not opened: {:?}", ep.error.borrow()));
    }
    is_prefix(&r, &exp).or_else(|m| fail(&r, m))?;
    let want = c.conf.open(&host);
    if let Item::Frame(f) = &r.items[1] {
        if f.f[1..] != want[..] {
            return fail(&r, format!("open announces {:?}, configured is {want:?}", &f.f[1..]));
        }
        if f.str(0).is_none_or(str::is_empty) {
            return fail(&r, "open without container id");
        }
    }
    // what the application is told
    let sent = schema::normalize(&c.open, schema::FRAMES).map_err(|e| format!("harness: {e}"))?;
    if c.server {
        let o = opened.borrow();
        let Some((o, txt)) = &*o else { return fail(&r, "application was not asked") };
        let (got, _) = conv::frame_val(&p::Frame::Open(o.clone()))?;
        let got = schema::normalize(&got, schema::FRAMES)?;
        if got.normalized() != sent.normalized() {
            return fail(&r, format!("application sees {got:?}, sent was {sent:?}"));
        }
        let f = wire::fields(&sent);
        let num = |v: &Val| match v {
            Val::Uint(x) => Some(x.to_string()),
            Val::Ushort(x) => Some(x.to_string()),
            Val::Null => Some("0".to_string()),
            _ => None,
        };
        let st = |v: &Val| match v {
            Val::Str(s) => Some(s.clone()),
            _ => None,
        };
        if txt[0] != num(&f[2]) || txt[1] != num(&f[3]) || txt[2] != num(&f[4]) || txt[3] != st(&f[1]) {
            return fail(&r, format!("remote configuration is {txt:?}"));
        }
        if txt[4].is_some() != (f[7] != Val::Null) || txt[5].is_some() != (f[8] != Val::Null) {
            return fail(&r, format!("remote configuration is {txt:?}"));
        }
    }
    let sink = ep.sink.borrow().clone().unwrap();
    if !sink.is_opened() || sink.get_error().is_some() {
        return fail(&r, "connection is not open");
    }

    // sessions, each with a link and a message that waits for credit
    let chans = match &wire::fields(&sent)[3] {
        Val::Ushort(x) => (*x).min(c.conf.chan),
        _ => c.conf.chan,
    };
    let mut sess: Vec<(Session, ntex_amqp::SenderLink)> = vec![];
    let mut pending = vec![];
    for k in 0..(c.sessions as u32).min(chans as u32 + 1) as u16 {
        let s2 = sink.clone();
        let t = Task::start(async move { s2.open_session().await }, &ep.activity).await;
        let n = k as usize + 1;
        if !r.until(|r| r.count(wire::BEGIN) == n).await {
            return fail(&r, "no begin");
        }
        let ch = r.frames().filter(|f| f.code == wire::BEGIN).last().unwrap().ch;
        r.amqp(k, &wire::begin(Some(ch), 0, 1000, 1000)).await;
        if !r.until(|_| t.done()).await {
            return fail(&r, "open_session does not complete");
        }
        let s = match t.slot.borrow_mut().take().unwrap() {
            Ok(s) => s,
            Err(e) => return fail(&r, format!("open_session: {e:?}")),
        };
        let b = s.build_sender_link(format!("l{k}"), "addr");
        let t = Task::start(async move { b.attach().await }, &ep.activity).await;
        if !r.until(|r| r.count(wire::ATTACH) == n).await {
            return fail(&r, "no attach");
        }
        let name = format!("l{k}");
        r.amqp(k, &wire::attach(&name, 0, true, Some(wire::source(Some("addr"))), Some(wire::target(Some("addr"))), None, None)).await;
        if !r.until(|_| t.done()).await {
            return fail(&r, "attach does not complete");
        }
        let l = match t.slot.borrow_mut().take().unwrap() {
            Ok(l) => l,
            Err(e) => return fail(&r, format!("attach: {e:?}")),
        };
        let l2 = l.clone();
        pending.push(
            Task::start(
                async move { l2.transfer(ntex_bytes::Bytes::from_static(b"x")).send().await.map(|_| ()) },
                &ep.activity,
            )
            .await,
        );
        sess.push((s, l));
    }
    r.settle().await;
    let on_close = {
        let w = sink.on_close();
        Task::start(async move { w.await }, &ep.activity).await
    };
    let n0 = r.items.len();
    let n_close = |r: &Raw| r.count(wire::CLOSE);
    let close_err = |r: &Raw| -> Option<Val> {
        let f = r.frames().find(|f| f.code == wire::CLOSE)?;
        Some(f.f.first().cloned().unwrap_or(Val::Null))
    };
    let norm_err = |e: &Option<Val>| -> Result<Val, String> {
        let v = mk(wire::CLOSE, vec![e.clone().unwrap_or(Val::Null)]);
        Ok(wire::fields(&schema::normalize(&v, schema::FRAMES)?)[0].clone())
    };
    let mut peer_err = None;
    match &c.fin {
        Fin::Peer { err, more } => {
            labels.push("closed by the peer");
            r.amqp(0, &wire::close(err.clone())).await;
            if *more {
                r.amqp(0, &wire::flow(None, 10, 0, 10, None, true)).await;
                r.amqp(99, &wire::begin(None, 0, 10, 10)).await;
                r.amqp(0, &wire::close(None)).await;
                let e = wire::empty();
                r.bytes(&e).await;
            }
            if !r.until(|r| r.count(wire::CLOSE) == 1 && ep.done.borrow().is_some()).await {
                return fail(&r, format!("close of the peer: answered {} times, task {:?}", n_close(&r), ep.done.borrow()));
            }
            r.settle().await;
            if r.items.len() != n0 + 1 {
                return fail(&r, "more than the answer to the close is written");
            }
            if close_err(&r) != Some(Val::Null) {
                return fail(&r, "the answer to the close carries an error");
            }
            let e: Option<p::Error> = match err {
                Some(v) => Some(Fld::from_val(v)),
                None => None,
            };
            let want = perr(&AmqpProtocolError::Closed(e));
            if seen.borrow().errors != [want.clone()] {
                return fail(&r, format!("control service is told {:?}, not {want}", seen.borrow().errors));
            }
            peer_err = Some(want);
        }
        Fin::Local { err, again, cross, answer } => {
            labels.push("closed locally");
            if let Some(e) = cross {
                // may or may not be seen before the application closes
                r.amqp(0, &wire::close(e.clone())).await;
            }
            match err {
                Some(v) => {
                    let e: p::Error = Fld::from_val(v);
                    let _ = sink.close_with_error(e).await;
                }
                None => {
                    let _ = sink.close().await;
                }
            }
            r.t("app: close");
            if *again {
                let _ = sink.close().await;
            }
            if sink.is_opened() {
                return fail(&r, "open after close");
            }
            if !r.until(|r| r.count(wire::CLOSE) >= 1).await {
                return fail(&r, "no close is sent");
            }
            if *answer && cross.is_none() {
                r.amqp(0, &wire::close(None)).await;
            }
            r.settle().await;
            if r.items.len() != n0 + 1 || n_close(&r) != 1 {
                return fail(&r, "more than one close is written");
            }
            let got = close_err(&r);
            let want = norm_err(err)?;
            if got.as_ref().map(Val::normalized) != Some(want.normalized()) && !(cross.is_some() && got == Some(Val::Null)) {
                return fail(&r, format!("close carries {got:?}, not {want:?}"));
            }
            if !r.until(|_| ep.done.borrow().is_some()).await {
                r.cut();
                if !r.until(|_| ep.done.borrow().is_some()).await {
                    return fail(&r, "connection task does not complete after close");
                }
            }
        }
        Fin::Cut => {
            labels.push("cut");
            r.cut();
            if !r.until(|_| ep.done.borrow().is_some()).await {
                return fail(&r, "connection task does not complete after the stream ended");
            }
        }
    }
    // everything is over
    if !r.until(|_| on_close.done() && pending.iter().all(Task::done) && seen.borrow().closed > 0).await {
        return fail(&r, "operations do not complete after the connection ended");
    }
    if sink.is_opened() || sink.get_error().is_none() {
        return fail(&r, format!("connection reports opened {} and error {:?}", sink.is_opened(), sink.get_error()));
    }
    if seen.borrow().closed != 1 {
        return fail(&r, format!("control service is told {} times of the end", seen.borrow().closed));
    }
    for t in &pending {
        match &*t.slot.borrow() {
            Some(Err(e)) => {
                if let Some(w) = &peer_err
                    && perr(e) != *w
                {
                    return fail(&r, format!("a send fails with {e:?}, not {w}"));
                }
            }
            _ => return fail(&r, "a send without credit succeeded"),
        }
    }
    for (s, l) in &sess {
        if !l.is_closed() || l.is_opened() {
            return fail(&r, "link is open after the connection ended");
        }
        let b = s.build_sender_link("late", "late");
        let t = Task::start(async move { b.attach().await.map(|_| ()) }, &ep.activity).await;
        if !r.until(|_| t.done()).await {
            return fail(&r, "attach on a dead connection does not complete");
        }
        match (&*t.slot.borrow(), &peer_err) {
            (Some(Ok(())), _) => return fail(&r, "attach on a dead connection succeeds"),
            (Some(Err(e)), Some(w)) if perr(e) != *w => {
                return fail(&r, format!("attach on a dead connection fails with {e:?}, not {w}"));
            }
            _ => {}
        }
    }
    let s2 = sink.clone();
    let t = Task::start(async move { s2.open_session().await.map(|_| ()) }, &ep.activity).await;
    if !r.until(|_| t.done()).await {
        return fail(&r, "open_session on a dead connection does not complete");
    }
    match (&*t.slot.borrow(), &peer_err) {
        (Some(Ok(())), _) => return fail(&r, "open_session on a dead connection succeeds"),
        (Some(Err(e)), Some(w)) if perr(e) != *w => {
            return fail(&r, format!("open_session on a dead connection fails with {e:?}, not {w}"));
        }
        _ => {}
    }
    if let Some(w) = &peer_err
        && sink.get_error().map(|e| perr(&e)).as_ref() != Some(w)
    {
        return fail(&r, format!("connection reports {:?}, not {w}", sink.get_error()));
    }
    if r.io.is_some() {
        r.settle().await;
        if r.items.len() != n0 + usize::from(!matches!(c.fin, Fin::Cut)) {
            return fail(&r, "something is written after close");
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "E13",
            rule: "every case is non-trivial: a connection with generated parameters is opened and closed, or refused",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("life", 30_000, 600_000, |_| open_case(), e13)],
        },
        Prop {
        id: "E16",
        rule: "every exchange is non-trivial: it runs from the protocol header to an open connection, a refusal or a deviation",
        assumptions: &[],
        spin_secs: None,
        subs: vec![
            sub("server", 20_000, 400_000, |_| sasl_srv(), e16_server),
            sub("client", 20_000, 400_000, |_| sasl_cli(), e16_client),
        ],
    }]
}
