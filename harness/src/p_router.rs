//! The router: handlers are found by address, called in order, and decide the outcome.
use std::cell::RefCell;
use std::future::poll_fn;
use std::rc::Rc;
use std::task::{Poll, Waker};

use ntex_amqp::codec::protocol as p;
use ntex_amqp::server::Router;
use ntex_amqp::types::{Link, Outcome, Transfer};
use ntex_amqp::{AmqpServiceConfig, ControlFrame};
use ntex_bytes::ByteString;
use ntex_service::{Service, ServiceCtx, fn_factory_with_config};
use ntex_util::channel::oneshot;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::conv::{Fld, mk};
use crate::raw::Raw;
use crate::refcodec::Val;
use crate::runner::{Case, Prop, sub};
use crate::schema;
use crate::sut::*;
use crate::wire::{self, HDR_AMQP, Item, WF, Xfer};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Out {
    Accept,
    Reject,
    Error(Val),
    /// the handler fails, and its error names an outcome
    ErrAccept,
    ErrOutcome(Val),
    /// the handler fails with an error that is no outcome
    ErrFatal(Val),
}

/// a part of a pattern
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Seg {
    Text(String),
    Param,
    /// text followed by a parameter
    Pre,
    /// the rest of the address, at the end of a pattern only
    Tail,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Addr {
    /// an address made from a route's pattern
    Route { route: u8, pat: u8, vals: Vec<String> },
    Text(String),
    NoAddress,
    NoTarget,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Begin { s: u8 },
    Attach { s: u8, name: u8, addr: Addr, hold: bool, fail: Option<Val>, credit: Option<u8>, idc: Option<u32> },
    Send { l: u16, n: u8, settled: bool, hold: bool, out: Out, cuts: Vec<u8>, size: u8 },
    Release { k: u16 },
    ReleaseCreate { k: u16 },
    /// the handler is not ready until unblocked
    Block { l: u16 },
    Unblock { l: u16 },
    /// the handler's readiness fails
    Fail { l: u16, err: Val },
    Detach { l: u16, closed: bool, err: Option<Val> },
    /// the handler closes its link
    Close { l: u16, err: Option<Val> },
    End { s: u8, err: Option<Val> },
    /// the application ends the session of a link
    AppEnd { l: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum End {
    Detach,
    End,
    Close,
    AppClose,
    Cut,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RCase {
    /// a leading slash in all patterns
    slash: bool,
    routes: Vec<Vec<Vec<Seg>>>,
    ops: Vec<(Op, bool)>,
    /// what is held is released before the end
    fin: End,
    fin_held: bool,
    frag: u8,
    enc: u64,
}

fn seg() -> BoxedStrategy<String> {
    prop_oneof![
        4 => prop_oneof![Just("a"), Just("b"), Just("queue"), Just("v1")].prop_map(String::from),
        1 => prop_oneof![Just("x.y"), Just("a-b_c"), Just("A"), Just("%20"), Just("é"), Just("a b")].prop_map(String::from),
    ]
    .boxed()
}

fn pattern() -> BoxedStrategy<Vec<Seg>> {
    (
        vec(prop_oneof![3 => seg().prop_map(Seg::Text), 2 => Just(Seg::Param), 1 => Just(Seg::Pre)], 1..4),
        prop::bool::weighted(0.15),
    )
        .prop_map(|(mut l, tail)| {
            if tail {
                l.push(Seg::Tail);
            }
            l
        })
        .boxed()
}

/// the patterns as text; none if the table makes no sense
fn table(c: &RCase) -> Option<Vec<Vec<String>>> {
    let mut t = vec![];
    for r in &c.routes {
        let mut l = vec![];
        for p in r {
            let n = p.len();
            let mut s = vec![];
            for (i, x) in p.iter().enumerate() {
                s.push(match x {
                    Seg::Text(t) if t.is_empty() || t.contains(['{', '}', '/']) => return None,
                    Seg::Text(t) => t.clone(),
                    Seg::Param => format!("{{p{i}}}"),
                    Seg::Pre => format!("p-{{p{i}}}"),
                    Seg::Tail if i + 1 == n && n > 1 => "{tail}*".to_string(),
                    Seg::Tail => return None,
                });
            }
            if s.is_empty() {
                return None;
            }
            l.push(format!("{}{}", if c.slash { "/" } else { "" }, s.join("/")));
        }
        if l.is_empty() {
            return None;
        }
        t.push(l);
    }
    (!t.is_empty()).then_some(t)
}

fn oerr() -> BoxedStrategy<Option<Val>> {
    proptest::option::of(err()).boxed()
}
fn err() -> BoxedStrategy<Val> {
    schema::comp_gen(&schema::ERROR)
}

fn out() -> BoxedStrategy<Out> {
    prop_oneof![
        4 => Just(Out::Accept),
        2 => Just(Out::Reject),
        2 => err().prop_map(Out::Error),
        1 => Just(Out::ErrAccept),
        1 => err().prop_map(Out::ErrOutcome),
        2 => err().prop_map(Out::ErrFatal),
    ]
    .boxed()
}

fn addr() -> BoxedStrategy<Addr> {
    prop_oneof![
        10 => (any::<u8>(), any::<u8>(), vec(seg(), 4)).prop_map(|(route, pat, vals)| Addr::Route { route, pat, vals }),
        2 => vec(seg(), 1..4).prop_map(|l| Addr::Text(l.join("/"))),
        1 => crate::r#gen::string().prop_map(Addr::Text),
        1 => Just(Addr::NoAddress),
        1 => Just(Addr::NoTarget),
    ]
    .boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        1 => (0u8..2).prop_map(|s| Op::Begin { s }),
        5 => ((0u8..2), 0u8..4, addr(), prop::bool::weighted(0.25), proptest::option::weighted(0.12, err()),
              proptest::option::weighted(0.25, 0u8..60), proptest::option::of(crate::r#gen::edge_u32()))
            .prop_map(|(s, name, addr, hold, fail, credit, idc)| Op::Attach { s, name, addr, hold, fail, credit, idc }),
        10 => (any::<u16>(), prop_oneof![6 => 1u8..3, 1 => 1u8..70], prop::bool::weighted(0.2), prop::bool::weighted(0.45), out(),
              vec(any::<u8>(), 0..3), any::<u8>())
            .prop_map(|(l, n, settled, hold, out, cuts, size)| Op::Send { l, n, settled, hold, out, cuts, size }),
        6 => any::<u16>().prop_map(|k| Op::Release { k }),
        2 => any::<u16>().prop_map(|k| Op::ReleaseCreate { k }),
        2 => any::<u16>().prop_map(|l| Op::Block { l }),
        3 => any::<u16>().prop_map(|l| Op::Unblock { l }),
        1 => (any::<u16>(), err()).prop_map(|(l, err)| Op::Fail { l, err }),
        2 => (any::<u16>(), any::<bool>(), oerr()).prop_map(|(l, closed, err)| Op::Detach { l, closed, err }),
        1 => (any::<u16>(), oerr()).prop_map(|(l, err)| Op::Close { l, err }),
        1 => ((0u8..2), oerr()).prop_map(|(s, err)| Op::End { s, err }),
        1 => any::<u16>().prop_map(|l| Op::AppEnd { l }),
    ]
    .boxed()
}

fn rcase() -> BoxedStrategy<RCase> {
    (
        vec(vec(pattern(), 1..3), 1..4),
        any::<bool>(),
        vec((op(), prop::bool::weighted(0.6)), 3..30),
        prop_oneof![Just(End::Detach), Just(End::End), Just(End::Close), Just(End::AppClose), Just(End::Cut)],
        any::<bool>(),
        prop_oneof![3 => Just(0u8), 1 => 1u8..40],
        prop_oneof![Just(0u64), any::<u64>()],
    )
        .prop_map(|(routes, slash, ops, fin, fin_held, frag, enc)| {
            // first a session and a link that is served
            let mut all = vec![
                (Op::Begin { s: 0 }, true),
                (
                    Op::Attach {
                        s: 0,
                        name: 0,
                        addr: Addr::Route { route: 0, pat: 0, vals: vec!["v".into(), "w".into(), "x".into(), "y".into()] },
                        hold: false,
                        fail: None,
                        credit: None,
                        idc: Some(0),
                    },
                    true,
                ),
            ];
            all.extend(ops);
            RCase { slash, routes, ops: all, fin, fin_held, frag, enc }
        })
        .boxed()
}

// ------------------------------------------------------------- application

#[derive(Debug)]
enum HErr {
    Accept,
    Outcome(p::Error),
    Fatal(p::Error),
}
impl TryFrom<HErr> for Outcome {
    type Error = p::Error;
    fn try_from(e: HErr) -> Result<Outcome, p::Error> {
        match e {
            HErr::Accept => Ok(Outcome::Accept),
            HErr::Outcome(e) => Ok(Outcome::Error(e)),
            HErr::Fatal(e) => Err(e),
        }
    }
}
impl From<HErr> for p::Error {
    fn from(e: HErr) -> p::Error {
        match e {
            HErr::Accept => ntex_amqp::error::LinkError::force_detach().into(),
            HErr::Outcome(e) | HErr::Fatal(e) => e,
        }
    }
}

struct CallRec {
    inst: usize,
    tag: Vec<u8>,
    body: Vec<u8>,
    gate: Option<oneshot::Sender<()>>,
    finished: bool,
}

struct Inst {
    link: Option<Link<()>>,
    route: usize,
    params: Vec<(String, String)>,
    calls: usize,
    shutdown: usize,
    blocked: bool,
    fail: Option<Val>,
    failed: bool,
    waker: Vec<Waker>,
}

#[derive(Default)]
struct App {
    insts: Vec<Inst>,
    calls: Vec<CallRec>,
    /// by link name: hold the creation, fail it, credit granted by the factory
    plans: Vec<(String, bool, Option<Val>, Option<u8>)>,
    /// creations that wait; name and gate
    creating: Vec<(String, oneshot::Sender<()>)>,
    created: usize,
    verdicts: Vec<(bool, Out)>,
    bad: Option<String>,
}

struct H {
    inst: usize,
    app: Rc<RefCell<App>>,
}

fn body_of(t: &Transfer) -> Vec<u8> {
    match t.body() {
        Some(p::TransferBody::Data(b)) => b.to_vec(),
        Some(x) => format!("{x:?}").into_bytes(),
        None => vec![],
    }
}

impl Service<Transfer> for H {
    type Response = Outcome;
    type Error = HErr;

    async fn ready(&self, _: ServiceCtx<'_, Self>) -> Result<(), HErr> {
        poll_fn(|cx| {
            let mut a = self.app.borrow_mut();
            let i = &mut a.insts[self.inst];
            if let Some(e) = &i.fail {
                i.failed = true;
                return Poll::Ready(Err(HErr::Fatal(Fld::from_val(e))));
            }
            if i.blocked {
                // only the last task that asked is remembered
                i.waker = vec![cx.waker().clone()];
                Poll::Pending
            } else {
                Poll::Ready(Ok(()))
            }
        })
        .await
    }

    async fn call(&self, t: Transfer, _: ServiceCtx<'_, Self>) -> Result<Outcome, HErr> {
        let (k, rx, out) = {
            let mut a = self.app.borrow_mut();
            let tag = t.delivery_tag().map(|b| b.to_vec()).unwrap_or_default();
            let n = <[u8; 4]>::try_from(&tag[..]).map(u32::from_be_bytes).unwrap_or(u32::MAX) as usize;
            let Some((hold, out)) = a.verdicts.get(n).cloned() else {
                a.bad = Some(format!("handler is called with tag {tag:?}"));
                return Ok(Outcome::Reject);
            };
            let i = &mut a.insts[self.inst];
            i.calls += 1;
            if i.shutdown > 0 {
                a.bad = Some("handler is called after its shutdown".into());
            } else if i.blocked {
                a.bad = Some("handler is called although it is not ready".into());
            }
            let (tx, rx) = oneshot::channel();
            a.calls.push(CallRec {
                inst: self.inst,
                tag,
                body: body_of(&t),
                gate: hold.then_some(tx),
                finished: !hold,
            });
            (a.calls.len() - 1, hold.then_some(rx), out)
        };
        if let Some(rx) = rx {
            let _ = rx.await;
            self.app.borrow_mut().calls[k].finished = true;
        }
        match out {
            Out::Accept => Ok(Outcome::Accept),
            Out::Reject => Ok(Outcome::Reject),
            Out::Error(v) => Ok(Outcome::Error(Fld::from_val(&v))),
            Out::ErrAccept => Err(HErr::Accept),
            Out::ErrOutcome(v) => Err(HErr::Outcome(Fld::from_val(&v))),
            Out::ErrFatal(v) => Err(HErr::Fatal(Fld::from_val(&v))),
        }
    }

    async fn shutdown(&self) {
        self.app.borrow_mut().insts[self.inst].shutdown += 1;
    }
}

fn build_router(routes: &[Vec<String>], app: &Rc<RefCell<App>>, act: &Rc<std::cell::Cell<u64>>) -> Router<()> {
    let mut r = Router::<()>::default();
    for (k, pats) in routes.iter().enumerate() {
        let (app, act) = (app.clone(), act.clone());
        r = r.service(
            pats.clone(),
            fn_factory_with_config(async move |link: Link<()>| {
                let name = link.receiver().name().to_string();
                let (gate, plan) = {
                    let mut a = app.borrow_mut();
                    act.set(act.get() + 1);
                    a.created += 1;
                    let plan = a.plans.iter().rev().find(|x| x.0 == name).cloned();
                    let Some(plan) = plan else {
                        a.bad = Some(format!("handler is created for {name:?}"));
                        return Err(HErr::Accept);
                    };
                    if plan.1 {
                        let (tx, rx) = oneshot::channel();
                        a.creating.push((name.clone(), tx));
                        (Some(rx), plan)
                    } else {
                        (None, plan)
                    }
                };
                if let Some(c) = plan.3 {
                    link.link_credit(c as u32);
                }
                if let Some(rx) = gate {
                    let _ = rx.await;
                    act.set(act.get() + 1);
                }
                if let Some(e) = &plan.2 {
                    return Err(HErr::Fatal(Fld::from_val(e)));
                }
                let mut a = app.borrow_mut();
                let params = link.path().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                a.insts.push(Inst {
                    link: Some(link),
                    route: k,
                    params,
                    calls: 0,
                    shutdown: 0,
                    blocked: false,
                    fail: None,
                    failed: false,
                    waker: vec![],
                });
                Ok(H { inst: a.insts.len() - 1, app: app.clone() })
            }),
        );
    }
    r
}

// ------------------------------------------------------------------- model

#[derive(PartialEq, Debug, Clone, Copy)]
enum St {
    Attaching,
    Open,
    /// the endpoint refused or detached it
    Gone,
    /// the peer detached, or its session ended
    Over,
}

struct Sent {
    id: u32,
    tag: Vec<u8>,
    body: Vec<u8>,
    settled: bool,
    out: Out,
    disp: Vec<Val>,
}

struct ML {
    s: usize,
    name: String,
    handle: u32,
    sut_handle: Option<u32>,
    /// the route and its parameters
    want: Option<(usize, Vec<(String, String)>)>,
    fail: Option<Val>,
    st: St,
    peer_detached: bool,
    sut_detached: Option<Option<Val>>,
    /// the application closes it
    closing: Option<Option<Val>>,
    inst: Option<usize>,
    count: u32,
    limit: Option<u32>,
    sent: Vec<Sent>,
    target: Option<Val>,
}

#[derive(Default)]
struct MS {
    ch: u16,
    sut_ch: Option<u16>,
    next_id: u32,
    peer_ended: bool,
    sut_ended: bool,
    app_end: bool,
}

struct M {
    r: Raw,
    app: Rc<RefCell<App>>,
    sess: Vec<MS>,
    /// the session of each channel of the peer
    cur: [Option<usize>; 2],
    links: Vec<ML>,
    seen: usize,
    handles: u32,
    closed: bool,
    peer_closed: bool,
    labels: Vec<&'static str>,
    /// frames the peer still has to send as answers
    answers: Vec<(u16, Val)>,
}

fn norm_err(e: &Val) -> Result<Val, String> {
    let v = mk(wire::CLOSE, vec![e.clone()]);
    Ok(wire::fields(&schema::normalize(&v, schema::FRAMES)?)[0].normalized())
}

impl M {
    fn session(&self, s: usize) -> bool {
        let x = &self.sess[s];
        x.sut_ch.is_some() && !x.peer_ended && !x.sut_ended
    }

    /// reads what the endpoint wrote
    fn take(&mut self) -> Result<(), String> {
        if let Some(e) = &self.r.err {
            return Err(e.clone());
        }
        while self.seen < self.r.items.len() {
            let i = self.r.items[self.seen].clone();
            self.seen += 1;
            if let Item::Frame(f) = i {
                self.frame(f)?;
            }
        }
        if let Some(e) = self.app.borrow_mut().bad.take() {
            return Err(e);
        }
        Ok(())
    }

    fn frame(&mut self, f: WF) -> Result<(), String> {
        if f.code == wire::OPEN || f.code == wire::EMPTY {
            return Ok(());
        }
        if f.code == wire::CLOSE {
            self.closed = true;
            return Ok(());
        }
        if f.code == wire::BEGIN {
            let ch = f.u16(0).ok_or("begin without remote channel")?;
            let s = self.sess.iter_mut().find(|s| s.ch == ch && s.sut_ch.is_none()).ok_or("begin for an unknown channel")?;
            s.sut_ch = Some(f.ch);
            return Ok(());
        }
        let Some(s) = self.sess.iter().rposition(|s| s.sut_ch == Some(f.ch)) else {
            return Err(format!("frame on channel {} without session", f.ch));
        };
        if self.sess[s].sut_ended {
            return Err("frame after end".into());
        }
        let ended = self.sess[s].peer_ended;
        let mut ans = None;
        match f.code {
            wire::ATTACH => {
                let name = f.str(0).unwrap_or("").to_string();
                let Some(l) = self.links.iter_mut().find(|l| l.s == s && l.name == name && l.sut_handle.is_none() && (l.st == St::Attaching || l.st == St::Over)) else {
                    return Err(format!("attach for {name:?}"));
                };
                l.sut_handle = f.u32(1);
                if f.f.get(6) != Some(&Val::Null) && l.target.is_none() {
                    return Err("attach names a target that the peer did not".into());
                }
                if l.st == St::Attaching {
                    l.st = St::Open;
                }
            }
            wire::FLOW => {
                if let Some(h) = f.u32(4) {
                    let l = self.by_handle(s, h)?;
                    if let Some(c) = f.u32(6) {
                        let dc = f.u32(5).unwrap_or(0);
                        l.limit = Some(dc.wrapping_add(c));
                    }
                }
            }
            wire::DISPOSITION => {
                if f.bool(0) != Some(true) {
                    return Err("disposition of the sender role".into());
                }
                let first = f.u32(1).unwrap();
                let last = f.u32(2).unwrap_or(first);
                let state = f.f.get(4).cloned().unwrap_or(Val::Null).normalized();
                let mut id = first;
                loop {
                    let d = self.links.iter_mut().filter(|l| l.s == s).flat_map(|l| l.sent.iter_mut()).find(|d| d.id == id);
                    match d {
                        None => return Err(format!("disposition for delivery {id} which was not sent")),
                        Some(d) => {
                            if d.settled {
                                return Err(format!("disposition for the settled delivery {id}"));
                            }
                            if f.bool(3) != Some(true) {
                                return Err(format!("disposition for {id} does not settle it"));
                            }
                            d.disp.push(state.clone());
                        }
                    }
                    if id == last {
                        break;
                    }
                    id = id.wrapping_add(1);
                }
            }
            wire::DETACH => {
                let h = f.u32(0).unwrap();
                let err = f.f.get(2).cloned().filter(|v| *v != Val::Null);
                if f.bool(1) != Some(true) {
                    return Err("link is detached, not closed".into());
                }
                let l = self.by_handle(s, h)?;
                l.sut_detached = Some(err);
                if !l.peer_detached {
                    l.st = St::Gone;
                    l.peer_detached = true;
                    let d = wire::detach(l.handle, true, None);
                    if !ended {
                        ans = Some(d);
                    }
                }
            }
            wire::END => {
                self.sess[s].sut_ended = true;
                for l in self.links.iter_mut().filter(|l| l.s == s) {
                    l.st = if l.st == St::Gone { St::Gone } else { St::Over };
                }
                if !ended {
                    self.sess[s].peer_ended = true;
                    ans = Some(wire::end(None));
                }
            }
            c => return Err(format!("unexpected frame {c:#x}")),
        }
        if let Some(v) = ans {
            self.answers.push((self.sess[s].ch, v));
        }
        Ok(())
    }

    fn by_handle(&mut self, s: usize, h: u32) -> Result<&mut ML, String> {
        self.links
            .iter_mut()
            .find(|l| l.s == s && l.sut_handle == Some(h) && l.sut_detached.is_none())
            .ok_or(format!("handle {h} is not attached"))
    }

    async fn answer(&mut self) -> Result<(), String> {
        self.r.pump();
        self.take()?;
        while !self.answers.is_empty() {
            let (ch, v) = self.answers.remove(0);
            if self.r.io.is_some() && !self.peer_closed {
                self.r.amqp(ch, &v).await;
            }
        }
        Ok(())
    }

    async fn settle(&mut self) -> Result<(), String> {
        loop {
            self.r.settle().await;
            self.take()?;
            if self.answers.is_empty() {
                break;
            }
            self.answer().await?;
        }
        self.bind()
    }

    /// finds the handlers of the links
    fn bind(&mut self) -> Result<(), String> {
        let app = self.app.borrow();
        for (k, i) in app.insts.iter().enumerate() {
            if self.links.iter().any(|l| l.inst == Some(k)) {
                continue;
            }
            let Some(il) = &i.link else { continue };
            let name = il.receiver().name().to_string();
            let ch = il.session().remote_channel_id();
            // handles of the peer are never reused
            let h = il.frame().handle();
            let Some(l) = self.links.iter_mut().find(|l| l.handle == h) else {
                return Err(format!("handler of {name:?} sees {:?}", il.frame()));
            };
            if l.name != name || self.sess[l.s].ch != ch || l.inst.is_some() || l.fail.is_some() || l.want.is_none() {
                return Err(format!("a handler is created for {name:?} although there is no such link to serve"));
            }
            let want = l.want.as_ref().unwrap();
            if i.route != want.0 || i.params != want.1 {
                return Err(format!("{name:?} is served by route {} with {:?}, not {want:?}", i.route, i.params));
            }
            if il.frame().name() != name.as_str() {
                return Err(format!("handler of {name:?} sees {:?}", il.frame()));
            }
            l.inst = Some(k);
        }
        Ok(())
    }

    /// what must hold at every moment of rest
    fn check(&mut self, all_released: bool) -> Result<(), String> {
        let app = self.app.borrow();
        if app.created > self.links.len() {
            return Err("more handlers are created than links attached".into());
        }
        for (k, i) in app.insts.iter().enumerate() {
            if i.shutdown > 1 {
                return Err(format!("handler {k} is shut down {} times", i.shutdown));
            }
        }
        for l in &self.links {
            let n = &l.name;
            let live = l.st == St::Open && !self.closed && self.r.io.is_some();
            // calls are a prefix of what was sent
            let calls: Vec<&CallRec> = match l.inst {
                Some(k) => app.calls.iter().filter(|c| c.inst == k).collect(),
                None => vec![],
            };
            for (i, c) in calls.iter().enumerate() {
                let Some(d) = l.sent.get(i) else {
                    return Err(format!("{n}: handler is called {} times, {} deliveries were sent", calls.len(), l.sent.len()));
                };
                if d.tag != c.tag || d.body != c.body {
                    return Err(format!("{n}: call {i} is for {:?} with {} bytes, sent was {:?} with {}", c.tag, c.body.len(), d.tag, d.body.len()));
                }
            }
            if let Some(k) = l.inst {
                let i = &app.insts[k];
                if live && l.closing.is_none() && i.shutdown > 0 {
                    return Err(format!("{n}: handler of an open link is shut down"));
                }
                let held = calls.iter().any(|c| !c.finished);
                if live && l.closing.is_none() && !i.blocked && i.fail.is_none() && !held {
                    if calls.len() != l.sent.len() {
                        return Err(format!("{n}: {} of {} deliveries are handed to the handler", calls.len(), l.sent.len()));
                    }
                    if l.limit == Some(l.count) {
                        return Err(format!("{n}: everything is processed but the peer has no credit"));
                    }
                }
            }
            // outcomes
            for (i, d) in l.sent.iter().enumerate() {
                if d.disp.len() > 1 {
                    return Err(format!("{n}: {} dispositions for delivery {}", d.disp.len(), d.id));
                }
                let fin = calls.get(i).is_some_and(|c| c.finished);
                if let Some(s) = d.disp.first() {
                    if !fin && l.st == St::Open {
                        return Err(format!("{n}: disposition {s:?} for delivery {} before the handler's outcome", d.id));
                    }
                    let want = match &d.out {
                        Out::Accept | Out::ErrAccept => wire::accepted(),
                        Out::Reject => wire::rejected(None),
                        Out::Error(e) | Out::ErrOutcome(e) | Out::ErrFatal(e) => wire::rejected(Some(e.clone())),
                    };
                    let want = mk(wire::DISPOSITION, vec![Val::Bool(true), Val::Uint(0), Val::Null, Val::Bool(true), want, Val::Bool(false)]);
                    let want = wire::fields(&schema::normalize(&want, schema::FRAMES)?)[4].normalized();
                    if fin && *s != want {
                        return Err(format!("{n}: delivery {} has outcome {s:?}, the handler's is {want:?}", d.id));
                    }
                } else if fin && !d.settled && live {
                    return Err(format!("{n}: no disposition for delivery {} although the handler is done", d.id));
                }
            }
            // refusals
            let waits = app.creating.iter().any(|c| c.0 == *n);
            if let Some(e) = &l.sut_detached {
                let i = l.inst.map(|k| &app.insts[k]);
                if l.want.is_none() || l.fail.is_some() || i.is_some_and(|i| i.fail.is_some()) {
                    if e.is_none() && l.st == St::Gone && l.closing.is_none() {
                        return Err(format!("{n}: refused without an error"));
                    }
                    if let (Some(f), Some(e)) = (&l.fail, e)
                        && l.st == St::Gone
                        && l.want.is_some()
                        && norm_err(f)? != norm_err(e)?
                    {
                        return Err(format!("{n}: refused with {e:?}, not {f:?}"));
                    }
                } else if let Some(c) = &l.closing {
                    if l.st == St::Gone
                        && match (c, e) {
                            (Some(a), Some(b)) => norm_err(a)? != norm_err(b)?,
                            (None, None) => false,
                            _ => true,
                        }
                    {
                        return Err(format!("{n}: closed with {e:?}, not {c:?}"));
                    }
                } else if l.st == St::Gone {
                    return Err(format!("{n}: link is detached with {e:?}"));
                }
                if l.inst.is_none() && l.limit.is_some() && l.want.is_none() {
                    return Err(format!("{n}: refused link has credit"));
                }
            } else if !waits && self.session(l.s) && !self.closed && self.r.io.is_some() {
                if l.peer_detached {
                    return Err(format!("{n}: detach of the peer is not answered"));
                }
                if l.want.is_none() || l.fail.is_some() {
                    return Err(format!("{n}: link is not refused"));
                }
                if l.inst.is_none() || l.st != St::Open {
                    return Err(format!("{n}: link is not served ({:?})", l.st));
                }
                if l.closing.is_some() {
                    return Err(format!("{n}: closed by its handler but not detached"));
                }
                if l.limit.is_none() {
                    return Err(format!("{n}: no credit"));
                }
            }
            if all_released
                && (l.st == St::Gone || l.st == St::Over)
                && let Some(k) = l.inst
                && app.insts[k].shutdown != 1
            {
                return Err(format!("{n}: link is gone, its handler is shut down {} times", app.insts[k].shutdown));
            }
        }
        if all_released && (self.closed || self.r.io.is_none()) {
            for (k, i) in app.insts.iter().enumerate() {
                if i.shutdown != 1 {
                    return Err(format!("connection is over, handler {k} is shut down {} times", i.shutdown));
                }
            }
        }
        Ok(())
    }

    fn pick(&self, l: u16, f: impl Fn(&ML) -> bool) -> Option<usize> {
        let c: Vec<usize> = self.links.iter().enumerate().filter(|(_, l)| f(l)).map(|(i, _)| i).collect();
        (!c.is_empty()).then(|| c[l as usize * c.len() / 65536])
    }

    async fn op(&mut self, op: &Op, router: &ntex_router::Router<usize>, routes: &[Vec<String>]) -> Result<(), String> {
        match op {
            Op::Begin { s } => {
                if let Some(k) = self.cur[*s as usize] {
                    let x = &self.sess[k];
                    if !(x.peer_ended && x.sut_ended) || !self.app.borrow().creating.is_empty() {
                        return Ok(());
                    }
                    self.labels.push("session begun again");
                }
                self.cur[*s as usize] = Some(self.sess.len());
                self.sess.push(MS { ch: *s as u16, ..MS::default() });
                self.r.amqp(*s as u16, &wire::begin(None, 0, 10_000, 10_000)).await;
                let n = self.sess.len();
                if !self.r.until(|r| r.count(wire::BEGIN) == n).await {
                    return Err("begin is not answered".into());
                }
                self.take()?;
            }
            Op::Attach { s, name, addr, hold, fail, credit, idc } => {
                let name = format!("n{name}s{s}");
                let Some(s) = self.cur[*s as usize] else { return Ok(()) };
                if !self.session(s)
                    || self.links.iter().any(|l| l.s == s && l.name == name && !(l.peer_detached && l.sut_detached.is_some()))
                    || self.app.borrow().creating.iter().any(|c| c.0 == name)
                {
                    return Ok(());
                }
                let text = match addr {
                    Addr::Text(t) => Some(t.clone()),
                    Addr::Route { route, pat, vals } => {
                        let pats = &routes[*route as usize % routes.len()];
                        let mut t = pats[*pat as usize % pats.len()].clone();
                        for (i, v) in vals.iter().enumerate() {
                            t = t.replace(&format!("{{p{i}}}"), v);
                        }
                        Some(t.replace("{tail}*", &vals.join("/")))
                    }
                    _ => None,
                };
                let want = text.as_ref().and_then(|t| {
                    let mut path = ntex_router::Path::new(ByteString::from(t.as_str()));
                    let k = router.recognize(&mut path).map(|x| *x.0)?;
                    Some((k, path.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>()))
                });
                if want.is_none() {
                    self.labels.push("no route");
                } else if fail.is_some() {
                    self.labels.push("handler cannot be created");
                } else if want.as_ref().is_some_and(|w| !w.1.is_empty()) {
                    self.labels.push("parameters");
                }
                self.app.borrow_mut().plans.push((name.clone(), *hold, fail.clone(), *credit));
                let target = (!matches!(addr, Addr::NoTarget)).then(|| wire::target(text.as_deref()));
                let handle = self.handles;
                self.handles += 1;
                self.links.push(ML {
                    s,
                    name: name.clone(),
                    handle,
                    sut_handle: None,
                    want,
                    fail: fail.clone(),
                    st: St::Attaching,
                    peer_detached: false,
                    sut_detached: None,
                    closing: None,
                    inst: None,
                    count: idc.unwrap_or(0),
                    limit: None,
                    sent: vec![],
                    target: target.clone(),
                });
                let v = wire::attach(&name, handle, false, Some(wire::source(None)), target, Some(idc.unwrap_or(0)), None);
                self.r.amqp(self.sess[s].ch, &v).await;
            }
            Op::Send { l, n, settled, hold, out, cuts, size } => {
                let Some(k) = self.pick(*l, |l| l.st == St::Open && !l.peer_detached && l.limit.is_some()) else { return Ok(()) };
                for j in 0..*n {
                    let l = &mut self.links[k];
                    if l.limit == Some(l.count) {
                        self.labels.push("credit used up");
                        break;
                    }
                    l.count = l.count.wrapping_add(1);
                    let seq = {
                        let mut a = self.app.borrow_mut();
                        a.verdicts.push((*hold, out.clone()));
                        a.verdicts.len() as u32 - 1
                    };
                    let tag = seq.to_be_bytes().to_vec();
                    let body: Vec<u8> = (0..*size as u32 + 1).map(|i| (i * 7 + seq + j as u32) as u8).collect();
                    let s = l.s;
                    let id = self.sess[s].next_id;
                    self.sess[s].next_id += 1;
                    l.sent.push(Sent { id, tag: tag.clone(), body: body.clone(), settled: *settled, out: out.clone(), disp: vec![] });
                    let mut at: Vec<usize> = cuts.iter().map(|c| *c as usize % (body.len() + 1)).collect();
                    at.sort_unstable();
                    at.push(body.len());
                    let mut from = 0;
                    for (i, to) in at.iter().enumerate() {
                        let x = Xfer {
                            handle: l.handle,
                            id: (i == 0 || *to % 2 == 0).then_some(id),
                            tag: (i == 0).then(|| tag.clone()),
                            fmt: (i == 0).then_some(0),
                            settled: (*settled || i == 0).then_some(*settled),
                            more: i + 1 < at.len(),
                            state: None,
                            aborted: false,
                            payload: vec![],
                        };
                        self.r.frame(0, self.sess[s].ch, &wire::transfer(&x), &body[from..*to]).await;
                        from = *to;
                    }
                }
            }
            Op::Release { k } => self.release(*k),
            Op::ReleaseCreate { k } => {
                let mut a = self.app.borrow_mut();
                let n = a.creating.len();
                if n > 0 {
                    let (_, tx) = a.creating.remove(*k as usize % n);
                    let _ = tx.send(());
                }
            }
            Op::Block { l } | Op::Unblock { l } => {
                let Some(k) = self.pick(*l, |l| l.inst.is_some()) else { return Ok(()) };
                let mut a = self.app.borrow_mut();
                let i = &mut a.insts[self.links[k].inst.unwrap()];
                i.blocked = matches!(op, Op::Block { .. });
                if !i.blocked {
                    for w in i.waker.drain(..) {
                        w.wake();
                    }
                } else {
                    self.labels.push("not ready");
                }
            }
            Op::Fail { l, err } => {
                let Some(k) = self.pick(*l, |l| l.inst.is_some()) else { return Ok(()) };
                let mut a = self.app.borrow_mut();
                let i = &mut a.insts[self.links[k].inst.unwrap()];
                i.fail = Some(err.clone());
                for w in i.waker.drain(..) {
                    w.wake();
                }
                self.labels.push("readiness fails");
            }
            Op::Detach { l, closed, err } => {
                let Some(k) = self.pick(*l, |l| matches!(l.st, St::Open | St::Attaching) && !l.peer_detached) else { return Ok(()) };
                let l = &mut self.links[k];
                if self.sess[l.s].peer_ended {
                    return Ok(());
                }
                l.peer_detached = true;
                l.st = St::Over;
                let (s, v) = (l.s, wire::detach(l.handle, *closed, err.clone()));
                self.labels.push("detached by the peer");
                self.r.amqp(self.sess[s].ch, &v).await;
            }
            Op::Close { l, err } => {
                let Some(k) = self.pick(*l, |l| l.inst.is_some() && l.st == St::Open && l.closing.is_none()) else { return Ok(()) };
                let l = &mut self.links[k];
                l.closing = Some(err.clone());
                self.labels.push("closed by its handler");
                let rl = self.app.borrow().insts[l.inst.unwrap()].link.as_ref().unwrap().receiver().clone();
                match err {
                    Some(e) => {
                        let _ = rl.close_with_error(<p::Error as Fld>::from_val(e));
                    }
                    None => {
                        let _ = rl.close();
                    }
                }
            }
            Op::End { s, err } => {
                let Some(s) = self.cur[*s as usize] else { return Ok(()) };
                if !self.session(s) {
                    return Ok(());
                }
                self.sess[s].peer_ended = true;
                for l in self.links.iter_mut().filter(|l| l.s == s && l.st != St::Gone) {
                    l.st = St::Over;
                }
                self.labels.push("session ended by the peer");
                let ch = self.sess[s].ch;
                self.r.amqp(ch, &wire::end(err.clone())).await;
            }
            Op::AppEnd { l } => {
                let Some(k) = self.pick(*l, |l| l.inst.is_some() && l.st == St::Open) else { return Ok(()) };
                let s = self.links[k].s;
                if self.sess[s].app_end {
                    return Ok(());
                }
                self.sess[s].app_end = true;
                self.labels.push("session ended by the application");
                let sess = self.app.borrow().insts[self.links[k].inst.unwrap()].link.as_ref().unwrap().session().clone();
                let _ = sess.end();
            }
        }
        Ok(())
    }

    fn release(&mut self, k: u16) {
        let mut a = self.app.borrow_mut();
        let held: Vec<usize> = (0..a.calls.len()).filter(|i| a.calls[*i].gate.is_some()).collect();
        if !held.is_empty() {
            let i = held[k as usize * held.len() / 65536];
            let _ = a.calls[i].gate.take().unwrap().send(());
        }
    }

    fn release_all(&mut self) {
        let mut a = self.app.borrow_mut();
        for c in &mut a.calls {
            if let Some(g) = c.gate.take() {
                let _ = g.send(());
            }
        }
        for (_, g) in a.creating.drain(..) {
            let _ = g.send(());
        }
        for v in &mut a.verdicts {
            v.0 = false;
        }
        for i in &mut a.insts {
            i.blocked = false;
            for w in i.waker.drain(..) {
                w.wake();
            }
        }
    }
}

fn e14(c: &RCase, case: &mut Case) -> Result<(), String> {
    let Some(routes) = table(c) else { return Ok(()) };
    let (r, labels, calls, links) = block_on(e14_run(c.clone(), routes));
    for l in labels {
        case.label(l);
    }
    case.count("handler calls", calls as u64);
    case.count("links", links as u64);
    if calls > 0 || links > 1 {
        case.nontrivial();
    }
    r
}

async fn e14_run(c: RCase, routes: Vec<Vec<String>>) -> (Result<(), String>, Vec<&'static str>, usize, usize) {
    let ep = Endpoint::new();
    let (r, io) = Raw::pair(c.enc, c.frag, &ep.activity);
    let app: Rc<RefCell<App>> = Rc::default();
    let ctl: CtlFn = Rc::new(|_: &ControlFrame| Box::pin(async { Ok(()) }));
    let hs = plain(&ep);
    let act = ep.activity.clone();
    let router = build_router(&routes, &app, &act).build();
    let ep = start_server_with(ep, io, AmqpServiceConfig::new(), hs, ctl, router);
    let mut m = M {
        r,
        app: app.clone(),
        sess: vec![],
        cur: [None; 2],
        links: vec![],
        seen: 0,
        handles: 0,
        closed: false,
        peer_closed: false,
        labels: vec![],
        answers: vec![],
    };
    let res = e14_inner(&c, &routes, &mut m, &ep).await.map_err(|e| format!("{e}\n{}", m.r.log()));
    let n = app.borrow().calls.len();
    // handlers hold links, links hold the connection
    let insts: Vec<_> = app.borrow_mut().insts.iter_mut().map(|i| i.link.take()).collect();
    m.labels.sort_unstable();
    m.labels.dedup();
    let l = m.links.len();
    m.r.cut();
    m.r.settle().await;
    drop(insts);
    (res, m.labels, n, l)
}

async fn e14_inner(c: &RCase, routes: &[Vec<String>], m: &mut M, ep: &Endpoint) -> Result<(), String> {
    m.r.bytes(&HDR_AMQP).await;
    m.r.amqp(0, &wire::open("c", None, 65536, 1000, None)).await;
    if !m.r.until(|r| r.count(wire::OPEN) == 1 && ep.sink.borrow().is_some()).await {
        return Err("not opened".into());
    }
    let mut rb = ntex_router::Router::build();
    for (k, pats) in routes.iter().enumerate() {
        rb.path(pats.clone(), k);
    }
    let router = rb.finish();
    for (i, (op, rest)) in c.ops.iter().enumerate() {
        m.r.t(format!("-- {i}: {}", format!("{op:?}").chars().take(100).collect::<String>()));
        m.answer().await?;
        m.op(op, &router, routes).await?;
        if *rest {
            m.settle().await?;
            m.check(false)?;
        }
    }
    m.settle().await?;
    m.check(false)?;
    if !c.fin_held {
        m.r.t("-- everything held is released");
        m.release_all();
        m.settle().await?;
        m.check(true)?;
    }
    m.r.t(format!("-- {:?}", c.fin));
    match c.fin {
        End::Detach => {
            for k in 0..m.links.len() {
                let l = &mut m.links[k];
                if matches!(l.st, St::Open | St::Attaching) && !l.peer_detached && !m.sess[l.s].peer_ended {
                    l.peer_detached = true;
                    l.st = St::Over;
                    let (s, v) = (l.s, wire::detach(l.handle, true, None));
                    let ch = m.sess[s].ch;
                    m.r.amqp(ch, &v).await;
                }
            }
        }
        End::End => {
            for s in 0..2u8 {
                m.op(&Op::End { s, err: None }, &router, routes).await?;
            }
        }
        End::Close => {
            m.peer_closed = true;
            m.r.amqp(0, &wire::close(None)).await;
        }
        End::AppClose => {
            m.peer_closed = true;
            let s = ep.sink.borrow().clone().unwrap();
            let _ = s.close().await;
            m.r.amqp(0, &wire::close(None)).await;
        }
        End::Cut => m.r.cut(),
    }
    m.settle().await?;
    m.release_all();
    m.settle().await?;
    if matches!(c.fin, End::Close | End::AppClose | End::Cut) {
        for l in m.links.iter_mut().filter(|l| l.st != St::Gone) {
            l.st = St::Over;
        }
        if !m.r.until(|_| ep.done.borrow().is_some()).await {
            return Err("connection task does not complete".into());
        }
        m.take()?;
        m.settle().await?;
    }
    m.check(true)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "E14",
        rule: "a delivery is handed to a handler, or more than one link is attached",
        assumptions: &[],
        spin_secs: None,
        subs: vec![sub("route", 20_000, 400_000, |_| rcase(), e14)],
    }]
}
