//! E21, E22: what the application is told, and what its failures do.
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

use ntex_amqp::codec::protocol as p;
use ntex_amqp::error::AmqpProtocolError;
use ntex_amqp::types::{Message, Transfer};
use ntex_amqp::{AmqpServiceConfig, ConnectionRef, ControlFrame, ControlFrameKind, Delivery, ReceiverLink, SenderLink, Session};
use ntex_util::future::Either;
use proptest::collection::vec;
use proptest::option::weighted;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::conv::Fld;
use crate::raw::Raw;
use crate::refcodec::Val;
use crate::runner::{Case, Prop, sub};
use crate::schema;
use crate::sut::*;
use crate::wire::{self, HDR_AMQP, Item, WF, Xfer};

type PE = AmqpProtocolError;
type Er = Option<Val>;

/// text of an error that does not depend on how it was written
fn key(v: &Val) -> String {
    match schema::normalize(v, &[&schema::ERROR]) {
        Ok(v) => format!("{:?}", v.normalized()),
        Err(e) => format!("unreadable: {e}"),
    }
}
fn skey(s: &p::DeliveryState) -> String {
    match s.to_val().and_then(|v| schema::normalize(&v, schema::STATES)) {
        Ok(v) => format!("{:?}", v.normalized()),
        Err(e) => format!("unreadable: {e}"),
    }
}
fn ekey(e: &Er) -> String {
    e.as_ref().map_or("none".into(), key)
}
fn lkey(e: Option<&p::Error>) -> String {
    match e {
        None => "none".into(),
        Some(e) => match e.to_val() {
            Ok(v) => key(&v),
            Err(e) => e,
        },
    }
}
fn pkey(e: &PE) -> String {
    match e {
        PE::LinkDetached(e) => format!("detached {}", lkey(e.as_ref())),
        PE::SessionEnded(e) => format!("ended {}", lkey(e.as_ref())),
        PE::Closed(e) => format!("closed {}", lkey(e.as_ref())),
        e => format!("{e:?}"),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// the peer attaches; the control service and then the publish service may fail
    PAttach { k: u16, receiver: bool, ctl: Er, publ: Er },
    AAttach { k: u16, receiver: bool },
    /// credit for a sender of the endpoint; the control service may fail
    PFlow { k: u16, credit: u8, ctl: Er },
    PTransfer { k: u16, publ: Er },
    ASend { k: u16, wait: bool },
    ARecv { k: u16 },
    /// the control or publish service may fail when it is told
    PDetach { k: u16, err: Er, ctl: Er },
    /// `api`: with the call of the session
    ADetach { k: u16, err: Er, ans: Er, ctl: Er, api: bool },
    /// a notification is asked for: of credit, or of the end of the link
    Watch { k: u16, credit: bool },
    /// one that has not come is given up
    Unwatch { k: u16 },
    /// reads a receiver as a stream
    AStream { k: u16 },
    /// sends, and keeps the delivery
    AKeep { k: u16 },
    /// the peer tells the state of a delivery that the application keeps
    PState { k: u16, state: Val, settled: bool, last: bool },
    /// several links, one after another
    AMany { k: u16, n: u8, receiver: bool },
    /// every link of a session, at once
    ADetachAll { k: u16, err: Er },
    PEnd { k: u16, err: Er, ctl: Er },
    AEnd { k: u16, ans: Er, ctl: Er },
    /// the publish service is busy for a while
    Busy,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fin {
    PClose(Er),
    AClose(Er),
    Cut,
    /// the publish service reports that it is not ready for more, with an error
    NotReady(Val),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AppCase {
    client: bool,
    /// sessions; begun by the peer
    sess: Vec<bool>,
    enc: u64,
    frag: u8,
    /// turns a service takes to answer
    delay: u8,
    ops: Vec<(Op, bool)>,
    fin: Fin,
}

fn err() -> BoxedStrategy<Val> {
    schema::comp_gen(&schema::ERROR)
}
fn oerr(p: f64) -> BoxedStrategy<Er> {
    weighted(p, err()).boxed()
}

fn state() -> BoxedStrategy<Val> {
    prop_oneof![
        schema::comp_gen(&schema::RECEIVED),
        schema::comp_gen(&schema::ACCEPTED),
        schema::comp_gen(&schema::REJECTED),
        schema::comp_gen(&schema::RELEASED),
        schema::comp_gen(&schema::MODIFIED),
    ]
    .boxed()
}

fn watch_case() -> BoxedStrategy<AppCase> {
    let k = any::<u16>;
    let op = prop_oneof![
        6 => (k(), any::<bool>()).prop_map(|(k, credit)| Op::Watch { k, credit }),
        1 => k().prop_map(|k| Op::Unwatch { k }),
        3 => k().prop_map(|k| Op::AStream { k }),
        6 => k().prop_map(|k| Op::AKeep { k }),
        6 => (k(), state(), proptest::bool::weighted(0.3), any::<bool>()).prop_map(|(k, state, settled, last)| Op::PState { k, state, settled, last }),
    ];
    (case(0.01), vec((k(), op, any::<bool>()), 1..50))
        .prop_map(|(mut c, more)| {
            for (at, o, rest) in more {
                let i = at as usize * (c.ops.len() + 1) / 65536;
                c.ops.insert(i, (o, rest));
            }
            c
        })
        .boxed()
}

fn case(fail: f64) -> BoxedStrategy<AppCase> {
    let k = any::<u16>;
    let e = move || oerr(fail);
    let op = prop_oneof![
        5 => (k(), any::<bool>(), e(), e()).prop_map(|(k, receiver, ctl, publ)| Op::PAttach { k, receiver, ctl, publ }),
        4 => (k(), any::<bool>()).prop_map(|(k, receiver)| Op::AAttach { k, receiver }),
        4 => (k(), 0..6u8, e()).prop_map(|(k, credit, ctl)| Op::PFlow { k, credit, ctl }),
        5 => (k(), e()).prop_map(|(k, publ)| Op::PTransfer { k, publ }),
        6 => (k(), any::<bool>()).prop_map(|(k, wait)| Op::ASend { k, wait }),
        3 => k().prop_map(|k| Op::ARecv { k }),
        4 => (k(), oerr(0.6), e()).prop_map(|(k, err, ctl)| Op::PDetach { k, err, ctl }),
        3 => (k(), oerr(0.6), oerr(0.3), e(), weighted(0.3, Just(()))).prop_map(|(k, err, ans, ctl, api)| Op::ADetach { k, err, ans, ctl, api: api.is_some() }),
        1 => (k(), 3..12u8, any::<bool>()).prop_map(|(k, n, receiver)| Op::AMany { k, n, receiver }),
        1 => (k(), oerr(0.5)).prop_map(|(k, err)| Op::ADetachAll { k, err }),
        1 => (k(), oerr(0.6), e()).prop_map(|(k, err, ctl)| Op::PEnd { k, err, ctl }),
        1 => (k(), oerr(0.3), e()).prop_map(|(k, ans, ctl)| Op::AEnd { k, ans, ctl }),
        2 => Just(Op::Busy),
    ];
    let fin = prop_oneof![
        3 => oerr(0.6).prop_map(Fin::PClose),
        2 => oerr(0.6).prop_map(Fin::AClose),
        1 => Just(Fin::Cut),
    ];
    let fin = if fail > 0.1 { prop_oneof![3 => fin, 1 => err().prop_map(Fin::NotReady)].boxed() } else { fin.boxed() };
    (
        any::<bool>(),
        vec(any::<bool>(), 1..4),
        prop_oneof![2 => Just(0u64), 1 => any::<u64>()],
        prop_oneof![4 => Just(0u8), 1 => 1..60u8],
        prop_oneof![2 => Just(0u8), 1 => 1..8u8],
        vec((op, proptest::bool::weighted(0.5)), 1..50),
        fin,
    )
        .prop_map(|(client, sess, enc, frag, delay, ops, fin)| AppCase { client, sess, enc, frag, delay, ops, fin })
        .boxed()
}

#[derive(Default)]
struct Sh {
    events: Vec<String>,
    /// failures to come, by event
    plan: HashMap<String, p::Error>,
    snd: HashMap<String, SenderLink>,
    rcv: HashMap<String, ReceiverLink>,
    not_ready: Option<p::Error>,
    busy: bool,
    waker: Option<std::task::Waker>,
}

fn told(sh: &Rc<RefCell<Sh>>, ev: String, what: String, delay: u8) -> LocalFut<Result<(), p::Error>> {
    let r = {
        let mut s = sh.borrow_mut();
        s.events.push(ev);
        s.plan.remove(&what)
    };
    Box::pin(async move {
        yields(delay as usize).await;
        r.map_or(Ok(()), Err)
    })
}

fn names(l: &[Either<SenderLink, ReceiverLink>]) -> String {
    let mut n: Vec<String> = l
        .iter()
        .map(|l| match l {
            Either::Left(l) => format!("s:{}", l.name()),
            Either::Right(l) => format!("r:{}", l.name()),
        })
        .collect();
    n.sort();
    n.join(",")
}

fn ctl(sh: &Rc<RefCell<Sh>>, delay: u8) -> CtlFn {
    let sh = sh.clone();
    Rc::new(move |f: &ControlFrame| {
        let (ev, what) = match f.kind() {
            ControlFrameKind::AttachSender(a, _, l) => {
                sh.borrow_mut().snd.insert(a.name().to_string(), l.clone());
                (format!("ctl: attach sender {}", a.name()), format!("attach {}", a.name()))
            }
            ControlFrameKind::AttachReceiver(a, _, l) => {
                sh.borrow_mut().rcv.insert(a.name().to_string(), l.clone());
                (format!("ctl: attach receiver {}", a.name()), format!("attach {}", a.name()))
            }
            ControlFrameKind::Flow(f, l) => (format!("ctl: flow {} {:?}", l.name(), f.link_credit()), format!("flow {}", l.name())),
            ControlFrameKind::LocalDetachSender(d, l) => {
                (format!("ctl: local detach s:{} {}", l.name(), lkey(d.error())), format!("detach {}", l.name()))
            }
            ControlFrameKind::LocalDetachReceiver(d, l) => {
                (format!("ctl: local detach r:{} {}", l.name(), lkey(d.error())), format!("detach {}", l.name()))
            }
            ControlFrameKind::RemoteDetachSender(d, l) => {
                (format!("ctl: remote detach s:{} {}", l.name(), lkey(d.error())), format!("detach {}", l.name()))
            }
            ControlFrameKind::RemoteDetachReceiver(d, l) => {
                (format!("ctl: remote detach r:{} {}", l.name(), lkey(d.error())), format!("detach {}", l.name()))
            }
            ControlFrameKind::LocalSessionEnded(l) => (format!("ctl: local end {}", names(l)), "end".into()),
            ControlFrameKind::RemoteSessionEnded(l) => (format!("ctl: remote end {}", names(l)), "end".into()),
            ControlFrameKind::ProtocolError(e) => (format!("ctl: error {}", pkey(e)), "error".into()),
            ControlFrameKind::Disconnected(_) => ("ctl: disconnected".into(), "gone".into()),
            ControlFrameKind::Closed => ("ctl: closed".into(), "gone".into()),
        };
        told(&sh, ev, what, delay)
    })
}

fn publ(sh: &Rc<RefCell<Sh>>, delay: u8) -> PubFn {
    let sh = sh.clone();
    Rc::new(move |m: Message| {
        let (ev, what) = match m {
            Message::Attached(a, _) => (format!("pub: attached {}", a.name()), format!("attached {}", a.name())),
            Message::Detached(l) => (format!("pub: detached {}", l.name()), format!("detached {}", l.name())),
            Message::DetachedAll(l) => {
                let mut n: Vec<String> = l.iter().map(|l| l.name().to_string()).collect();
                n.sort();
                (format!("pub: detached all {}", n.join(",")), "all".into())
            }
            Message::Transfer(l) => (format!("pub: transfer {}", l.name()), format!("transfer {}", l.name())),
        };
        told(&sh, ev, what, delay)
    })
}

/// why something failed; None: any reason
type Why = Option<String>;

struct L {
    name: String,
    s: usize,
    /// the endpoint receives
    rcv: bool,
    lh: Option<u32>,
    ph: u32,
    open: bool,
    gone: Option<Why>,
    snd: Option<SenderLink>,
    rcvl: Option<ReceiverLink>,
    got: u32,
    queued: u32,
    sends: Vec<Task<Result<Delivery, PE>>>,
    waits: Vec<Task<Result<Option<p::DeliveryState>, PE>>>,
    recv: Option<Task<Option<Result<(Delivery, Transfer), PE>>>>,
    err_taken: bool,
    /// notifications of credit that were due so far
    notes: u64,
    credit_w: Vec<(Task<()>, u64)>,
    close_w: Vec<Task<()>>,
    kept: Vec<Kept>,
}

/// a delivery the application holds, and what the peer said about it
struct Kept {
    d: Delivery,
    state: Option<String>,
    settled: bool,
}

struct S {
    pch: u16,
    lch: u16,
    obj: Session,
    open: bool,
    gone: Option<Why>,
    next_ph: u32,
    next_id: u32,
}

struct M {
    r: Raw,
    act: Rc<Cell<u64>>,
    sh: Rc<RefCell<Sh>>,
    sink: ConnectionRef,
    client: bool,
    ss: Vec<S>,
    ls: Vec<L>,
    want: Vec<String>,
    got: Vec<String>,
    seen: usize,
    replies: Vec<(usize, u32)>,
    close_replies: usize,
    /// the connection goes away
    ending: bool,
    /// deliveries are kept
    watch: bool,
    closed_w: Vec<Task<()>>,
    labels: Vec<&'static str>,
}

impl M {
    fn links(&self, f: impl Fn(&L) -> bool) -> Vec<usize> {
        (0..self.ls.len()).filter(|i| f(&self.ls[*i])).collect()
    }
    fn pick(&self, k: u16, f: impl Fn(&L) -> bool) -> Option<usize> {
        let c = self.links(f);
        (!c.is_empty()).then(|| c[k as usize * c.len() / 65536])
    }
    fn picks(&self, k: u16) -> Option<usize> {
        let c: Vec<usize> = (0..self.ss.len()).filter(|i| self.ss[*i].open).collect();
        (!c.is_empty()).then(|| c[k as usize * c.len() / 65536])
    }
    fn want(&mut self, s: impl Into<String>) {
        self.want.push(s.into());
    }
    fn plan(&mut self, what: String, e: &Er) {
        if let Some(v) = e {
            self.sh.borrow_mut().plan.insert(what, Fld::from_val(v));
        }
    }
    fn link(&mut self, s: usize, rcv: bool) -> usize {
        let i = self.ls.len();
        let ph = self.ss[s].next_ph;
        self.ss[s].next_ph += 1;
        self.ls.push(L {
            name: format!("l{i}"),
            s,
            rcv,
            lh: None,
            ph,
            open: false,
            gone: None,
            snd: None,
            rcvl: None,
            got: 0,
            queued: 0,
            sends: vec![],
            waits: vec![],
            recv: None,
            err_taken: false,
            notes: 0,
            credit_w: vec![],
            close_w: vec![],
            kept: vec![],
        });
        i
    }
    fn names(&self, s: usize) -> String {
        let mut n: Vec<String> = self
            .ls
            .iter()
            .filter(|l| l.s == s && l.open)
            .map(|l| format!("{}:{}", if l.rcv { "r" } else { "s" }, l.name))
            .collect();
        n.sort();
        n.join(",")
    }
    fn rnames(&self, s: usize) -> String {
        let mut n: Vec<String> = self.ls.iter().filter(|l| l.s == s && l.open && l.rcv).map(|l| l.name.clone()).collect();
        n.sort();
        n.join(",")
    }

    fn frame(&mut self, f: &WF) -> Result<(), String> {
        let s = self.ss.iter().position(|s| s.lch == f.ch);
        match f.code {
            wire::ATTACH => {
                let n = f.str(0).unwrap_or_default().to_string();
                let l = self.ls.iter_mut().find(|l| l.name == n).ok_or(format!("attach of unknown link {n}"))?;
                l.lh = f.u32(1);
                self.got.push(format!("attach {n}"));
            }
            wire::DETACH => {
                let h = f.u32(0);
                let l = self
                    .ls
                    .iter()
                    .rev()
                    .find(|l| Some(l.s) == s && l.lh == h)
                    .ok_or(format!("detach of unknown handle {h:?}"))?;
                let e = match f.f.get(2) {
                    None | Some(Val::Null) => "none".into(),
                    Some(v) => key(v),
                };
                let kind = if f.bool(1) == Some(true) { "close" } else { "detach" };
                // what an answer says is up to the endpoint
                match self.replies.iter().position(|(ls, lh)| (*ls, Some(*lh)) == (l.s, h)) {
                    Some(i) => {
                        self.replies.remove(i);
                        self.got.push(format!("answer {} {kind}", l.name));
                    }
                    None => self.got.push(format!("{kind} {} {e}", l.name)),
                }
            }
            wire::END => self.got.push(format!("end {}", s.ok_or("end of unknown session")?)),
            wire::CLOSE => {
                let e = match f.f.first() {
                    None | Some(Val::Null) => "none".into(),
                    Some(v) => key(v),
                };
                if self.close_replies > 0 {
                    self.close_replies -= 1;
                    self.got.push("close".into());
                } else {
                    self.got.push(format!("close {e}"));
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn take(&mut self) -> Result<(), String> {
        self.r.pump();
        if let Some(e) = &self.r.err {
            return Err(e.clone());
        }
        while self.seen < self.r.items.len() {
            let i = self.r.items[self.seen].clone();
            self.seen += 1;
            if let Item::Frame(f) = i {
                self.frame(&f)?;
            }
        }
        Ok(())
    }

    async fn settle(&mut self) -> Result<(), String> {
        self.r.settle().await;
        self.take()
    }

    fn resume(&mut self) {
        let w = {
            let mut s = self.sh.borrow_mut();
            s.busy = false;
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }

    /// everything due has happened, and nothing else
    async fn check(&mut self) -> Result<(), String> {
        self.settle().await?;
        self.resume();
        self.settle().await?;
        let due = |m: &M| {
            let mut a = m.got.clone();
            let want_disc = m.want.iter().any(|w| w == "ctl: disconnected");
            a.extend(m.sh.borrow().events.iter().filter(|e| want_disc || !m.ending || *e != "ctl: disconnected").cloned());
            let mut b = m.want.clone();
            a.sort();
            b.sort();
            (a, b)
        };
        let (mut a, mut b) = due(self);
        let mut n = 0;
        while a != b && n < 12 {
            sleep_ms(if n < 4 { 3 } else { 25 }).await;
            self.settle().await?;
            (a, b) = due(self);
            n += 1;
        }
        if a != b {
            let mut extra = a.clone();
            let mut missing = vec![];
            for x in b {
                match extra.iter().position(|y| *y == x) {
                    Some(i) => {
                        extra.remove(i);
                    }
                    None => missing.push(x),
                }
            }
            return Err(format!("missing {missing:?}, unexpected {extra:?}"));
        }
        for x in &a {
            if x.contains(": ") {
                self.r.t(x.clone());
            }
        }
        self.want.clear();
        self.got.clear();
        self.sh.borrow_mut().events.clear();
        if !self.ending {
            self.state()?;
            if self.closed_w.iter().any(|t| t.done()) || !self.sink.is_opened() {
                return Err("the connection reports its end, it is open".into());
            }
        }
        self.tasks()
    }

    fn tasks(&mut self) -> Result<(), String> {
        let why = |w: &Why, e: &PE, what: String| match w {
            Some(w) if *w != pkey(e) => Err(format!("{what} fails with {}, not {w}", pkey(e))),
            _ => Ok(()),
        };
        for l in &mut self.ls {
            let n = l.name.clone();
            // sends that completed
            let mut i = 0;
            while i < l.sends.len() {
                if !l.sends[i].done() {
                    if l.gone.is_some() {
                        return Err(format!("send on {n} does not complete, the link is gone"));
                    }
                    i += 1;
                    continue;
                }
                let t = l.sends.remove(i);
                let r = t.slot.borrow_mut().take().unwrap();
                match (r, &l.gone) {
                    (Ok(_), None) => {}
                    // went out before
                    (Ok(_), Some(_)) => return Err(format!("send on {n} succeeds after the link is gone")),
                    (Err(e), None) => return Err(format!("send on {n} fails with {e:?}")),
                    (Err(e), Some(w)) => why(w, &e, format!("send on {n}"))?,
                }
            }
            let mut i = 0;
            while i < l.waits.len() {
                if !l.waits[i].done() {
                    if l.gone.is_some() {
                        return Err(format!("wait for an outcome on {n} does not complete, the link is gone"));
                    }
                    i += 1;
                    continue;
                }
                let t = l.waits.remove(i);
                let r = t.slot.borrow_mut().take().unwrap();
                match (r, &l.gone) {
                    (Err(e), Some(w)) => why(w, &e, format!("wait for an outcome on {n}"))?,
                    (r, _) => return Err(format!("wait for an outcome on {n} gives {r:?}")),
                }
            }
            let r = match &l.recv {
                None => None,
                Some(t) => {
                    if !t.done() && (l.queued > 0 || l.gone.is_some()) {
                        return Err(format!("recv on {n} does not complete"));
                    }
                    t.slot.borrow_mut().take()
                }
            };
            if let Some(r) = r {
                l.recv = None;
                match r {
                    Some(Ok((d, t))) if l.queued > 0 => {
                        l.queued -= 1;
                        if self.watch {
                            let settled = t.settled().unwrap_or(false);
                            l.kept.push(Kept { d, state: None, settled });
                        }
                    }
                    Some(Ok(_)) => return Err(format!("recv on {n} gives a delivery out of nothing")),
                    r if l.queued > 0 => return Err(format!("recv on {n} gives {r:?}, {} deliveries are due", l.queued)),
                    None => {
                        let Some(w) = &l.gone else { return Err(format!("recv on {n} ends")) };
                        if w.as_ref().is_some_and(|w| w.starts_with("detached ") && w != "detached none") && !l.err_taken {
                            return Err(format!("recv on {n} ends without the reason, {}", w.as_ref().unwrap()));
                        }
                    }
                    Some(Err(e)) => {
                        let Some(w) = &l.gone else { return Err(format!("recv on {n} fails with {e:?}")) };
                        l.err_taken = true;
                        why(w, &e, format!("recv on {n}"))?;
                    }
                }
            }
            // notifications
            let (gone, notes) = (l.gone.is_some(), l.notes);
            if l.close_w.iter().any(|t| t.done() != gone) {
                return Err(format!("notification of the end of {n}: {}, the link is gone: {gone}", !gone));
            }
            if l.credit_w.iter().any(|(t, at)| t.done() != (gone || notes > *at)) {
                let w: Vec<_> = l.credit_w.iter().map(|(t, at)| (*at, t.done())).collect();
                return Err(format!("notification of credit on {n} is wrong, {notes} were due so far, the link is gone: {gone}, waiting since {w:?}"));
            }
            if gone {
                l.close_w.clear();
            }
            l.credit_w.retain(|(t, _)| !t.done());
            // deliveries
            if !gone {
                for k in &l.kept {
                    if k.d.is_remote_settled() != k.settled {
                        return Err(format!("delivery {} of {n} is settled by the peer: {}, it reports {}", k.d.id(), k.settled, k.d.is_remote_settled()));
                    }
                    if k.d.remote_state().map(|s| skey(&s)) != k.state {
                        return Err(format!("delivery {} of {n}: the peer told {:?}, it reports {:?}", k.d.id(), k.state, k.d.remote_state()));
                    }
                }
            }
            // what the link itself reports
            if let Some(s) = &l.snd {
                if s.is_closed() == l.open {
                    return Err(format!("sender {n} reports closed {}", s.is_closed()));
                }
                match (&l.gone, s.error()) {
                    (None, Some(e)) => return Err(format!("open sender {n} reports {e:?}")),
                    (Some(Some(w)), e) if e.map(pkey).as_ref() != Some(w) => {
                        return Err(format!("sender {n} reports {:?}, not {w}", e.map(pkey)));
                    }
                    _ => {}
                }
            }
            if let Some(r) = &l.rcvl {
                if r.is_closed() == l.open {
                    return Err(format!("receiver {n} reports closed {}", r.is_closed()));
                }
                match (&l.gone, r.error()) {
                    (None, Some(e)) => return Err(format!("open receiver {n} reports {e:?}")),
                    (Some(Some(w)), e) if !l.err_taken => {
                        if let Some(w) = w.strip_prefix("detached ")
                            && lkey(e) != w
                        {
                            return Err(format!("receiver {n} reports {}, not {w}", lkey(e)));
                        }
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    }

    /// what sessions and the connection report
    fn state(&mut self) -> Result<(), String> {
        for (i, s) in self.ss.iter().enumerate().filter(|(_, s)| s.open) {
            let sent = self.r.frames().filter(|f| f.code == wire::TRANSFER && f.ch == s.lch).count() as u32;
            if s.obj.remote_window_size() != (1 << 20) - sent {
                return Err(format!("session {i}: {sent} transfers were sent into a window of {}, {} is reported", 1 << 20, s.obj.remote_window_size()));
            }
        }
        Ok(())
    }

    fn gone(&mut self, i: usize, why: Why) {
        self.ls[i].open = false;
        self.ls[i].gone = Some(why);
    }

    /// a link was detached by the endpoint on its own
    async fn shut(&mut self, i: usize, e: &Er) -> Result<(), String> {
        let (n, rcv) = (self.ls[i].name.clone(), self.ls[i].rcv);
        let side = if rcv { "r" } else { "s" };
        self.want(format!("close {n} {}", ekey(e)));
        self.want(format!("ctl: local detach {side}:{n} {}", ekey(e)));
        if rcv && !self.client {
            self.want(format!("pub: detached {n}"));
        }
        self.settle().await?;
        let (pch, ph) = (self.ss[self.ls[i].s].pch, self.ls[i].ph);
        self.r.amqp(pch, &wire::detach(ph, true, None)).await;
        self.gone(i, None);
        self.check().await
    }

    async fn step(&mut self, op: &Op, rest: bool) -> Result<(), String> {
        if matches!(
            op,
            Op::PAttach { .. } | Op::AAttach { .. } | Op::PFlow { ctl: Some(_), .. } | Op::PTransfer { publ: Some(_), .. } | Op::PDetach { ctl: Some(_), .. }
        ) {
            self.check().await?;
        }
        match op {
            Op::PAttach { k, receiver, ctl, publ } => {
                let Some(s) = self.picks(*k) else { return Ok(()) };
                let i = self.link(s, !*receiver);
                let n = self.ls[i].name.clone();
                self.labels.push("attach by the peer");
                self.plan(format!("attach {n}"), ctl);
                let publ = if *receiver || self.client { &None } else { publ };
                self.plan(format!("attached {n}"), publ);
                let a = wire::attach(
                    &n,
                    self.ls[i].ph,
                    *receiver,
                    Some(wire::source(Some(&n))),
                    Some(wire::target(Some(&n))),
                    (!*receiver).then_some(0),
                    None,
                );
                let pch = self.ss[s].pch;
                self.r.amqp(pch, &a).await;
                self.want(format!("ctl: attach {} {n}", if *receiver { "sender" } else { "receiver" }));
                if !receiver && !self.client && ctl.is_none() {
                    self.want(format!("pub: attached {n}"));
                }
                self.want(format!("attach {n}"));
                match ctl.as_ref().or(publ.as_ref()) {
                    Some(e) => {
                        self.labels.push("attach refused by a service");
                        self.want(format!("close {n} {}", key(e)));
                        self.settle().await?;
                        let ph = self.ls[i].ph;
                        self.r.amqp(pch, &wire::detach(ph, true, None)).await;
                        self.sh.borrow_mut().plan.clear();
                        self.check().await?;
                        self.gone(i, None);
                    }
                    None => {
                        self.check().await?;
                        self.ls[i].open = true;
                        let sh = self.sh.borrow();
                        let (a, b) = (sh.snd.get(&n).cloned(), sh.rcv.get(&n).cloned());
                        drop(sh);
                        self.ls[i].snd = a;
                        self.ls[i].rcvl = b;
                    }
                }
            }
            Op::AAttach { k, receiver } => {
                let Some(s) = self.picks(*k) else { return Ok(()) };
                let i = self.link(s, *receiver);
                let n = self.ls[i].name.clone();
                self.labels.push("attach by the application");
                let obj = self.ss[s].obj.clone();
                let (pch, ph) = (self.ss[s].pch, self.ls[i].ph);
                self.want(format!("attach {n}"));
                let a = wire::attach(
                    &n,
                    ph,
                    !*receiver,
                    Some(wire::source(Some(&n))),
                    Some(wire::target(Some(&n))),
                    receiver.then_some(0),
                    None,
                );
                if *receiver {
                    let b = obj.build_receiver_link(n.clone(), n.clone());
                    let t = Task::start(async move { b.attach().await }, &self.act).await;
                    self.settle().await?;
                    self.r.amqp(pch, &a).await;
                    self.settle().await?;
                    match t.slot.borrow_mut().take() {
                        Some(Ok(l)) => {
                            l.set_link_credit(50);
                            self.ls[i].rcvl = Some(l);
                        }
                        r => return Err(format!("attach of receiver {n} gives {:?}", r.map(|r| r.err()))),
                    }
                } else {
                    let b = obj.build_sender_link(n.clone(), n.clone());
                    let t = Task::start(async move { b.attach().await }, &self.act).await;
                    self.settle().await?;
                    self.r.amqp(pch, &a).await;
                    self.settle().await?;
                    match t.slot.borrow_mut().take() {
                        Some(Ok(l)) => self.ls[i].snd = Some(l),
                        r => return Err(format!("attach of sender {n} gives {:?}", r.map(|r| r.err()))),
                    }
                }
                self.ls[i].open = true;
                self.check().await?;
            }
            Op::PFlow { k, credit, ctl } => {
                let Some(i) = self.pick(*k, |l| l.open && !l.rcv) else { return Ok(()) };
                let n = self.ls[i].name.clone();
                let (pch, ph) = (self.ss[self.ls[i].s].pch, self.ls[i].ph);
                self.plan(format!("flow {n}"), ctl);
                let sent = self.ls[i].got;
                self.r.amqp(pch, &wire::flow(None, 1 << 20, 0, 1 << 20, Some((ph, Some(sent), Some(u32::from(*credit)))), false)).await;
                self.want(format!("ctl: flow {n} Some({credit})"));
                self.labels.push("flow");
                match ctl {
                    Some(e) => {
                        self.labels.push("flow failed by a service");
                        self.shut(i, &Some(e.clone())).await?;
                    }
                    None => {
                        if *credit > 0 {
                            self.ls[i].notes += 1;
                        }
                        self.check().await?;
                        self.count(i)?;
                    }
                }
            }
            Op::PTransfer { k, publ } => {
                let Some(i) = self.pick(*k, |l| l.open && l.rcv && l.got < 48) else { return Ok(()) };
                let n = self.ls[i].name.clone();
                let publ = if self.client { &None } else { publ };
                self.plan(format!("transfer {n}"), publ);
                let s = self.ls[i].s;
                let id = self.ss[s].next_id;
                self.ss[s].next_id += 1;
                self.ls[i].got += 1;
                self.ls[i].queued += 1;
                let x = Xfer {
                    handle: self.ls[i].ph,
                    id: Some(id),
                    tag: Some(id.to_be_bytes().to_vec()),
                    fmt: Some(0),
                    settled: Some(id % 2 == 0),
                    payload: vec![1, 2, 3],
                    ..Default::default()
                };
                let pch = self.ss[s].pch;
                self.r.frame(0, pch, &wire::transfer(&x), &x.payload).await;
                self.labels.push("transfer");
                if !self.client {
                    self.want(format!("pub: transfer {n}"));
                }
                match publ {
                    Some(e) => {
                        self.labels.push("transfer failed by a service");
                        self.shut(i, &Some(e.clone())).await?;
                    }
                    None if rest => self.check().await?,
                    None => {}
                }
            }
            Op::ASend { k, wait } => {
                let Some(i) = self.pick(*k, |l| l.snd.is_some()) else { return Ok(()) };
                self.check().await?;
                let l = self.ls[i].snd.clone().unwrap();
                self.labels.push(if self.ls[i].open { "send" } else { "send on a gone link" });
                let t = Task::start(async move { l.transfer(ntex_bytes::Bytes::from_static(b"x")).send().await }, &self.act).await;
                self.check().await?;
                let sent = matches!(&*t.slot.borrow(), Some(Ok(_)));
                if *wait && sent {
                    let Some(Ok(d)) = t.slot.borrow_mut().take() else { unreachable!() };
                    let w = Task::start(async move { d.wait().await }, &self.act).await;
                    self.ls[i].waits.push(w);
                } else {
                    self.ls[i].sends.push(t);
                }
                self.check().await?;
                self.count(i)?;
            }
            Op::ARecv { k } => {
                let Some(i) = self.pick(*k, |l| l.rcvl.is_some() && l.recv.is_none()) else { return Ok(()) };
                self.check().await?;
                let l = self.ls[i].rcvl.clone().unwrap();
                let t = Task::start(async move { l.recv().await }, &self.act).await;
                self.ls[i].recv = Some(t);
                self.check().await?;
            }
            Op::PDetach { k, err, ctl } => {
                let Some(i) = self.pick(*k, |l| l.open) else { return Ok(()) };
                self.labels.push("detach by the peer");
                let (n, rcv, s) = (self.ls[i].name.clone(), self.ls[i].rcv, self.ls[i].s);
                self.plan(format!("detach {n}"), ctl);
                self.plan(format!("detached {n}"), ctl);
                let (pch, ph) = (self.ss[s].pch, self.ls[i].ph);
                self.replies.push((s, self.ls[i].lh.unwrap()));
                self.r.amqp(pch, &wire::detach(ph, true, err.clone())).await;
                self.want(format!("answer {n} close"));
                self.want(format!("ctl: remote detach {}:{n} {}", if rcv { "r" } else { "s" }, ekey(err)));
                if rcv && !self.client {
                    self.want(format!("pub: detached {n}"));
                }
                self.gone(i, Some(format!("detached {}", ekey(err))));
                if rest {
                    self.check().await?;
                }
            }
            Op::ADetach { k, err, ans, ctl, api } => {
                let Some(i) = self.pick(*k, |l| l.open) else { return Ok(()) };
                self.check().await?;
                self.labels.push("detach by the application");
                let (n, rcv, s) = (self.ls[i].name.clone(), self.ls[i].rcv, self.ls[i].s);
                self.plan(format!("detach {n}"), ctl);
                self.plan(format!("detached {n}"), ctl);
                let e: Option<p::Error> = err.as_ref().map(Fld::from_val);
                let (so, rl, sl) = (self.ss[s].obj.clone(), self.ls[i].rcvl.clone(), self.ls[i].snd.clone());
                let f: LocalFut<Result<(), PE>> = match (rl, sl, *api) {
                    (Some(l), _, true) => Box::pin(async move { so.detach_receiver_link(l.handle(), e).await }),
                    (_, Some(l), true) => Box::pin(async move { so.detach_sender_link(l.id(), e).await }),
                    (Some(l), _, _) => Box::pin(async move {
                        match e {
                            Some(e) => l.close_with_error(e).await,
                            None => l.close().await,
                        }
                    }),
                    (_, Some(l), _) => Box::pin(async move {
                        match e {
                            Some(e) => l.close_with_error(e).await,
                            None => l.close().await,
                        }
                    }),
                    _ => unreachable!(),
                };
                let t = Task::start(f, &self.act).await;
                let kind = if *api { "detach" } else { "close" };
                self.want(format!("{kind} {n} {}", ekey(err)));
                self.want(format!("ctl: local detach {}:{n} {}", if rcv { "r" } else { "s" }, ekey(err)));
                if rcv && !self.client {
                    self.want(format!("pub: detached {n}"));
                }
                self.settle().await?;
                if t.done() {
                    return Err(format!("close of {n} completes before the peer answers"));
                }
                let (pch, ph) = (self.ss[s].pch, self.ls[i].ph);
                self.r.amqp(pch, &wire::detach(ph, true, ans.clone())).await;
                self.gone(i, None);
                self.check().await?;
                let r = t.slot.borrow_mut().take();
                match (r, ans) {
                    (Some(Ok(())), None) => {}
                    (Some(Err(e)), Some(_)) if pkey(&e) == format!("detached {}", ekey(ans)) => {}
                    (r, _) => return Err(format!("close of {n}, answered with error {}, gives {r:?}", ekey(ans))),
                }
            }
            Op::Watch { k, credit } => {
                let Some(i) = self.pick(*k, |l| l.snd.is_some()) else { return Ok(()) };
                self.check().await?;
                self.labels.push(if *credit { "notification of credit" } else { "notification of the end" });
                let l = self.ls[i].snd.clone().unwrap();
                if *credit {
                    let t = Task::start(async move { l.on_credit_update().await }, &self.act).await;
                    let n = self.ls[i].notes;
                    self.ls[i].credit_w.push((t, n));
                } else {
                    let t = Task::start(async move { l.on_close().await }, &self.act).await;
                    self.ls[i].close_w.push(t);
                }
                if rest {
                    self.check().await?;
                }
            }
            Op::Unwatch { k } => {
                let Some(i) = self.pick(*k, |l| !l.credit_w.is_empty() || !l.close_w.is_empty()) else { return Ok(()) };
                self.check().await?;
                let l = &mut self.ls[i];
                if let Some((mut t, _)) = l.credit_w.pop() {
                    t.cancel();
                } else if let Some(mut t) = l.close_w.pop() {
                    t.cancel();
                }
                yields(2).await;
            }
            Op::AStream { k } => {
                let Some(i) = self.pick(*k, |l| l.rcvl.is_some() && l.recv.is_none()) else { return Ok(()) };
                self.check().await?;
                self.labels.push("read as a stream");
                let mut l = self.ls[i].rcvl.clone().unwrap();
                let t = Task::start(async move { ntex_util::future::stream_recv(&mut l).await }, &self.act).await;
                self.ls[i].recv = Some(t);
                self.check().await?;
            }
            Op::AKeep { k } => {
                let Some(i) = self.pick(*k, |l| l.open && l.snd.is_some()) else { return Ok(()) };
                self.check().await?;
                let l = self.ls[i].snd.clone().unwrap();
                let t = Task::start(async move { l.transfer(ntex_bytes::Bytes::from_static(b"k")).send().await }, &self.act).await;
                self.check().await?;
                let d = match &mut *t.slot.borrow_mut() {
                    x @ Some(Ok(_)) => x.take().unwrap().ok(),
                    _ => None,
                };
                match d {
                    Some(d) => {
                        self.labels.push("delivery kept");
                        self.ls[i].kept.push(Kept { d, state: None, settled: false });
                    }
                    None => self.ls[i].sends.push(t),
                }
                self.check().await?;
                self.count(i)?;
            }
            Op::PState { k, state, settled, last } => {
                let Some(i) = self.pick(*k, |l| l.open && l.kept.iter().any(|k| !k.settled)) else { return Ok(()) };
                self.check().await?;
                let pch = self.ss[self.ls[i].s].pch;
                let l = &mut self.ls[i];
                self.labels.push(if l.rcv { "state of a received delivery" } else { "state of a sent delivery" });
                let c: Vec<usize> = (0..l.kept.len()).filter(|i| !l.kept[*i].settled).collect();
                let x = &mut l.kept[c[*k as usize % c.len()]];
                x.state = Some(skey(&Fld::from_val(state)));
                x.settled = *settled;
                let id = x.d.id();
                let f = wire::disposition(!l.rcv, id, last.then_some(id), *settled, Some(state.clone()));
                self.r.amqp(pch, &f).await;
                if rest {
                    self.check().await?;
                }
            }
            Op::AMany { k, n, receiver } => {
                if self.ls.len() < 60 {
                    for i in 0..*n {
                        // to one session
                        Box::pin(self.step(&Op::AAttach { k: *k, receiver: *receiver ^ (i % 3 == 2) }, rest)).await?;
                    }
                }
            }
            Op::ADetachAll { k, err } => {
                let Some(s) = self.picks(*k) else { return Ok(()) };
                self.check().await?;
                let idx = self.links(|l| l.open && l.s == s);
                self.labels.push(match idx.len() {
                    0 => return Ok(()),
                    1..5 => "few links detached at once",
                    _ => "many links detached at once",
                });
                let mut fs: Vec<LocalFut<Result<(), PE>>> = vec![];
                for i in &idx {
                    let (n, rcv) = (self.ls[*i].name.clone(), self.ls[*i].rcv);
                    let e: Option<p::Error> = err.as_ref().map(Fld::from_val);
                    fs.push(match (self.ls[*i].rcvl.clone(), self.ls[*i].snd.clone()) {
                        (Some(l), _) => Box::pin(async move {
                            match e {
                                Some(e) => l.close_with_error(e).await,
                                None => l.close().await,
                            }
                        }),
                        (_, Some(l)) => Box::pin(async move {
                            match e {
                                Some(e) => l.close_with_error(e).await,
                                None => l.close().await,
                            }
                        }),
                        _ => unreachable!(),
                    });
                    self.want(format!("close {n} {}", ekey(err)));
                    self.want(format!("ctl: local detach {}:{n} {}", if rcv { "r" } else { "s" }, ekey(err)));
                    if rcv && !self.client {
                        self.want(format!("pub: detached {n}"));
                    }
                }
                let t = Task::start(ntex_util::future::join_all(fs), &self.act).await;
                self.settle().await?;
                if t.done() {
                    return Err("close of several links completes before the peer answers".into());
                }
                let pch = self.ss[s].pch;
                for i in idx {
                    let ph = self.ls[i].ph;
                    self.r.amqp(pch, &wire::detach(ph, true, None)).await;
                    self.gone(i, None);
                }
                self.check().await?;
                match t.slot.borrow_mut().take() {
                    Some(r) if r.iter().all(|r| r.is_ok()) => {}
                    r => return Err(format!("close of several links gives {r:?}")),
                }
            }
            Op::PEnd { k, err, ctl } => {
                let Some(s) = self.picks(*k) else { return Ok(()) };
                self.check().await?;
                self.labels.push("end by the peer");
                self.plan("end".into(), ctl);
                self.plan("all".into(), ctl);
                let names = self.names(s);
                let rnames = self.rnames(s);
                let pch = self.ss[s].pch;
                self.r.amqp(pch, &wire::end(err.clone())).await;
                self.want(format!("end {s}"));
                self.want(format!("ctl: remote end {names}"));
                if !self.client {
                    self.want(format!("pub: detached all {rnames}"));
                }
                self.over(s, Some(format!("ended {}", ekey(err))));
                self.check().await?;
                self.dead(s).await?;
            }
            Op::Busy => {
                self.check().await?;
                self.sh.borrow_mut().busy = true;
                self.labels.push("busy");
            }
            Op::AEnd { k, ans, ctl } => {
                let Some(s) = self.picks(*k) else { return Ok(()) };
                self.check().await?;
                self.labels.push("end by the application");
                self.plan("end".into(), ctl);
                self.plan("all".into(), ctl);
                let names = self.names(s);
                let rnames = self.rnames(s);
                let t = {
                    let o = self.ss[s].obj.clone();
                    Task::start(async move { o.end().await }, &self.act).await
                };
                self.want(format!("end {s}"));
                self.want(format!("ctl: local end {names}"));
                self.settle().await?;
                if t.done() {
                    return Err("end completes before the peer answers".into());
                }
                let pch = self.ss[s].pch;
                self.r.amqp(pch, &wire::end(ans.clone())).await;
                if !self.client {
                    self.want(format!("pub: detached all {rnames}"));
                }
                self.over(s, Some(format!("ended {}", ekey(ans))));
                self.check().await?;
                let r = t.slot.borrow_mut().take();
                match (r, ans) {
                    (Some(Ok(())), None) => {}
                    (Some(Err(e)), Some(_)) if pkey(&e) == format!("ended {}", ekey(ans)) => {}
                    (r, _) => return Err(format!("end of session {s}, answered with error {}, gives {r:?}", ekey(ans))),
                }
                self.dead(s).await?;
            }
        }
        Ok(())
    }

    /// deliveries on the wire
    fn count(&mut self, i: usize) -> Result<(), String> {
        let (lh, lch) = (self.ls[i].lh, self.ss[self.ls[i].s].lch);
        // handles are used again, what the link itself sent follows its attach
        let mut got = 0;
        for f in self.r.frames().filter(|f| f.ch == lch) {
            match f.code {
                wire::ATTACH if f.u32(1) == lh => got = 0,
                wire::TRANSFER if f.u32(0) == lh => got += 1,
                _ => {}
            }
        }
        self.ls[i].got = got;
        Ok(())
    }

    fn over(&mut self, s: usize, why: Why) {
        for i in self.links(|l| l.s == s && l.open) {
            self.gone(i, why.clone());
        }
        self.ss[s].open = false;
        self.ss[s].gone = Some(why);
    }

    /// nothing new starts on a session that is over
    async fn dead(&mut self, s: usize) -> Result<(), String> {
        let Some(Some(w)) = self.ss[s].gone.clone() else { return Ok(()) };
        let b = self.ss[s].obj.build_sender_link("late", "late");
        let t = Task::start(async move { b.attach().await.map(|_| ()) }, &self.act).await;
        let b = self.ss[s].obj.build_receiver_link("late", "late");
        let t2 = Task::start(async move { b.attach().await.map(|_| ()) }, &self.act).await;
        self.check().await?;
        for t in [t, t2] {
            match t.slot.borrow_mut().take() {
                Some(Err(e)) if pkey(&e) == w => {}
                r => return Err(format!("attach on an ended session gives {r:?}, the session is {w}")),
            }
        }
        Ok(())
    }
}

struct ReadyPub(PubFn, Rc<RefCell<Sh>>);
impl ntex_service::Service<Message> for ReadyPub {
    type Response = ();
    type Error = p::Error;
    async fn ready(&self, _: ntex_service::ServiceCtx<'_, Self>) -> Result<(), p::Error> {
        std::future::poll_fn(|cx| {
            let mut s = self.1.borrow_mut();
            s.waker = Some(cx.waker().clone());
            if s.busy {
                return std::task::Poll::Pending;
            }
            std::task::Poll::Ready(match s.not_ready.take() {
                Some(e) => Err(e),
                None => Ok(()),
            })
        })
        .await
    }
    async fn call(&self, msg: Message, _: ntex_service::ServiceCtx<'_, Self>) -> Result<(), p::Error> {
        (self.0)(msg).await
    }
}

fn run(c: &AppCase, case: &mut Case) -> Result<(), String> {
    let c2 = c.clone();
    let (r, labels, log) = block_on(async move {
        let act: Rc<Cell<u64>> = Rc::default();
        let (r, io) = Raw::pair(c2.enc, c2.frag, &act);
        let sh: Rc<RefCell<Sh>> = Rc::default();
        let cfg = AmqpServiceConfig::new();
        let ep = if c2.client {
            start_client(io, cfg, None, None, ctl(&sh, c2.delay))
        } else {
            let ep = Endpoint::new();
            let hs = plain(&ep);
            let (pf, sh2) = (publ(&sh, c2.delay), sh.clone());
            let pb = ntex_service::fn_factory_with_config(async move |_: ntex_amqp::State<()>| {
                Ok::<_, ()>(ReadyPub(pf.clone(), sh2.clone()))
            });
            start_server_with(ep, io, cfg, hs, ctl(&sh, c2.delay), pb)
        };
        let mut r = r;
        r.act = ep.activity.clone();
        let (res, labels, mut r) = drive(&c2, r, &ep, &sh).await;
        r.pump();
        let log = r.log();
        (res, labels, log)
    });
    for l in labels {
        case.label(l);
    }
    case.nontrivial();
    r.map_err(|e| format!("{e}\n{log}"))
}

async fn drive(c: &AppCase, mut r: Raw, ep: &Endpoint, sh: &Rc<RefCell<Sh>>) -> (Result<(), String>, Vec<&'static str>, Raw) {
    r.bytes(&HDR_AMQP).await;
    r.amqp(0, &wire::open("peer", None, 1 << 20, 100, None)).await;
    if !r.until(|r| r.count(wire::OPEN) == 1 && ep.sink.borrow().is_some()).await {
        return (Err("the connection does not open".into()), vec![], r);
    }
    let sink = ep.sink.borrow().clone().unwrap();
    let mut m = M {
        r,
        act: ep.activity.clone(),
        sh: sh.clone(),
        sink,
        client: c.client,
        ss: vec![],
        ls: vec![],
        want: vec![],
        got: vec![],
        seen: 0,
        replies: vec![],
        close_replies: 0,
        ending: false,
        watch: c.ops.iter().any(|o| matches!(o.0, Op::AStream { .. } | Op::PState { .. })),
        closed_w: vec![],
        labels: vec![],
    };
    let res = history(c, &mut m, ep).await;
    (res, m.labels, m.r)
}

async fn history(c: &AppCase, m: &mut M, ep: &Endpoint) -> Result<(), String> {
    for (i, peer) in c.sess.iter().enumerate() {
        let pch = i as u16 * 3;
        let obj = if *peer {
            m.r.amqp(pch, &wire::begin(None, 0, 1 << 20, 1 << 20)).await;
            if !m.r.until(|r| r.count(wire::BEGIN) == i + 1).await {
                return Err("begin is not answered".into());
            }
            let ch = m.r.frames().filter(|f| f.code == wire::BEGIN).last().unwrap().ch;
            m.sink.get_session_by_local_id(ch).ok_or("session of the peer is unknown")?
        } else {
            let s2 = m.sink.clone();
            let t = Task::start(async move { s2.open_session().await }, &m.act).await;
            if !m.r.until(|r| r.count(wire::BEGIN) == i + 1).await {
                return Err("no begin is sent".into());
            }
            let ch = m.r.frames().filter(|f| f.code == wire::BEGIN).last().unwrap().ch;
            m.r.amqp(pch, &wire::begin(Some(ch), 0, 1 << 20, 1 << 20)).await;
            if !m.r.until(|_| t.done()).await {
                return Err("open_session does not complete".into());
            }
            match t.slot.borrow_mut().take() {
                Some(Ok(s)) => s,
                r => return Err(format!("open_session gives {:?}", r.map(|r| r.err()))),
            }
        };
        let lch = obj.local_channel_id();
        m.ss.push(S { pch, lch, obj, open: true, gone: None, next_ph: i as u32 * 2, next_id: 7 });
    }
    let s = m.sink.clone();
    m.closed_w.push(Task::start(async move { s.on_close().await }, &m.act).await);
    m.check().await?;
    for (op, rest) in &c.ops {
        m.step(op, *rest).await?;
    }
    m.check().await?;
    let open: Vec<usize> = m.links(|l| l.open);
    m.ending = true;
    match &c.fin {
        Fin::PClose(e) => {
            m.labels.push("close by the peer");
            m.close_replies = 1;
            m.r.amqp(0, &wire::close(e.clone())).await;
            m.want("close");
            m.want(format!("ctl: error closed {}", ekey(e)));
            m.want("ctl: closed");
            for i in open {
                m.gone(i, Some(format!("closed {}", ekey(e))));
            }
        }
        Fin::AClose(e) => {
            m.labels.push("close by the application");
            match e {
                Some(v) => drop(m.sink.close_with_error(<p::Error as Fld>::from_val(v)).await),
                None => drop(m.sink.close().await),
            }
            m.want(format!("close {}", ekey(e)));
            m.settle().await?;
            m.r.amqp(0, &wire::close(None)).await;
            m.want("ctl: closed");
            for i in open {
                m.gone(i, None);
            }
        }
        Fin::Cut => {
            m.labels.push("cut");
            m.r.cut();
            m.want("ctl: disconnected");
            m.want("ctl: closed");
            for i in open {
                m.gone(i, None);
            }
        }
        Fin::NotReady(e) => {
            if c.client {
                return Ok(());
            }
            m.labels.push("service fails readiness");
            {
                let mut s = m.sh.borrow_mut();
                s.not_ready = Some(Fld::from_val(e));
                if let Some(w) = s.waker.take() {
                    w.wake();
                }
            }
            // something to look at
            m.r.bytes(&wire::empty()).await;
            m.want(format!("close {}", key(e)));
            m.settle().await?;
            m.r.amqp(0, &wire::close(None)).await;
            m.want("ctl: closed");
            for i in open {
                m.gone(i, None);
            }
        }
    }
    m.check().await?;
    if !m.r.until(|_| ep.done.borrow().is_some()).await {
        return Err("connection task does not complete".into());
    }
    m.check().await?;
    let s = m.sink.clone();
    m.closed_w.push(Task::start(async move { s.on_close().await }, &m.act).await);
    if m.closed_w.iter().any(|t| !t.done()) || m.sink.is_opened() {
        return Err("the connection does not report its end".into());
    }
    for s in 0..m.ss.len() {
        if m.ss[s].open && let Fin::PClose(e) = &c.fin {
            m.ss[s].gone = Some(Some(format!("closed {}", ekey(e))));
        }
        m.dead(s).await?;
    }
    Ok(())
}

/// flows and sends of one link while the control service takes its time
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SlowCase {
    client: bool,
    /// the peer attaches
    peer: bool,
    frag: u8,
    /// credit of a flow and the turns the control service takes for it, or a number of sends
    ops: Vec<(Result<(u8, u8), u8>, bool)>,
}

pub fn slow_case() -> BoxedStrategy<SlowCase> {
    let op = prop_oneof![
        3 => (0..6u8, prop_oneof![Just(0u8), 0..12u8]).prop_map(Ok),
        1 => (1..4u8).prop_map(Err),
    ];
    (any::<bool>(), any::<bool>(), prop_oneof![4 => Just(0u8), 1 => 1..60u8], vec((op, proptest::bool::weighted(0.3)), 2..24))
        .prop_map(|(client, peer, frag, ops)| SlowCase { client, peer, frag, ops })
        .boxed()
}

pub fn slow(c: &SlowCase, case: &mut Case) -> Result<(), String> {
    let c2 = c.clone();
    let (r, sent, asked, log) = block_on(async move {
        let act: Rc<Cell<u64>> = Rc::default();
        let (mut r, io) = Raw::pair(0, c2.frag, &act);
        let link: Rc<RefCell<Option<SenderLink>>> = Rc::default();
        let delays: Rc<RefCell<std::collections::VecDeque<u8>>> = Rc::default();
        let ctl: CtlFn = {
            let (link, delays) = (link.clone(), delays.clone());
            Rc::new(move |f: &ControlFrame| {
                let d = match f.kind() {
                    ControlFrameKind::AttachSender(_, _, l) => {
                        *link.borrow_mut() = Some(l.clone());
                        0
                    }
                    ControlFrameKind::Flow(..) => delays.borrow_mut().pop_front().unwrap_or(0),
                    _ => 0,
                };
                Box::pin(async move {
                    yields(d as usize).await;
                    Ok(())
                })
            })
        };
        let cfg = AmqpServiceConfig::new();
        let ep = if c2.client {
            start_client(io, cfg, None, None, ctl)
        } else {
            start_server(io, cfg, ctl, Rc::new(|_| Box::pin(async { Ok(()) })))
        };
        r.act = ep.activity.clone();
        let (mut sent, mut asked) = (0, 0);
        let res = slow_run(&c2, &mut r, &ep, &link, &delays, &mut sent, &mut asked).await;
        let log = r.log();
        (res, sent, asked, log)
    });
    if sent > 0 && asked > 1 {
        case.nontrivial();
    }
    r.map_err(|e| format!("{e}\n{log}"))
}

async fn slow_run(
    c: &SlowCase,
    r: &mut Raw,
    ep: &Endpoint,
    link: &Rc<RefCell<Option<SenderLink>>>,
    delays: &Rc<RefCell<std::collections::VecDeque<u8>>>,
    sent: &mut u32,
    asked: &mut u32,
) -> Result<(), String> {
    r.bytes(&HDR_AMQP).await;
    r.amqp(0, &wire::open("peer", None, 1 << 20, 100, None)).await;
    r.amqp(0, &wire::begin(None, 0, 1 << 20, 1 << 20)).await;
    if !r.until(|r| r.count(wire::BEGIN) == 1 && ep.sink.borrow().is_some()).await {
        return Err("the session does not begin".into());
    }
    let sink = ep.sink.borrow().clone().unwrap();
    let s = sink.get_session_by_local_id(0).ok_or("session of the peer is unknown")?;
    let a = wire::attach("l", 0, true, Some(wire::source(Some("l"))), Some(wire::target(Some("l"))), None, None);
    if c.peer {
        r.amqp(0, &a).await;
        if !r.until(|r| r.count(wire::ATTACH) == 1).await {
            return Err("attach is not answered".into());
        }
    } else {
        let b = s.build_sender_link("l", "l");
        let t = Task::start(async move { b.attach().await }, &ep.activity).await;
        r.settle().await;
        r.amqp(0, &a).await;
        r.settle().await;
        match t.slot.borrow_mut().take() {
            Some(Ok(l)) => *link.borrow_mut() = Some(l),
            _ => return Err("attach does not complete".into()),
        }
    }
    let l = link.borrow().clone().ok_or("no link")?;
    let mut tasks = vec![];
    let (mut limit, mut top) = (0u32, 0u32);
    for (i, (op, rest)) in c.ops.iter().enumerate() {
        match op {
            Ok((credit, delay)) => {
                // the receiver has seen what was sent so far
                r.pump();
                let dc = r.count(wire::TRANSFER) as u32;
                delays.borrow_mut().push_back(*delay);
                r.amqp(0, &wire::flow(None, 1 << 20, 0, 1 << 20, Some((0, Some(dc), Some(u32::from(*credit)))), false)).await;
                limit = dc + u32::from(*credit);
                top = top.max(limit);
            }
            Err(n) => {
                for _ in 0..*n {
                    let l = l.clone();
                    tasks.push(
                        Task::start(
                            async move { l.transfer(ntex_bytes::Bytes::from_static(b"x")).settled().send().await.map(|_| ()) },
                            &ep.activity,
                        )
                        .await,
                    );
                    *asked += 1;
                }
            }
        }
        if *rest || i + 1 == c.ops.len() {
            r.settle().await;
            r.settle().await;
            let n = r.count(wire::TRANSFER) as u32;
            if n > top {
                return Err(format!("{n} deliveries are sent, the highest limit was {top}"));
            }
            if n < limit && n < *asked {
                return Err(format!("{n} deliveries of {asked} are sent, the limit is {limit}"));
            }
            let left = limit.saturating_sub(n);
            if l.credit() != left {
                return Err(format!("{n} deliveries are sent, the limit is {limit}, credit {} is reported", l.credit()));
            }
            *sent = n;
            // older limits are void
            top = limit.max(n);
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "E21",
            rule: "every history is non-trivial: it attaches, uses and takes down links and sessions and ends the connection",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("events", 20_000, 500_000, |_| case(0.02), run)],
        },
        Prop {
            id: "E22",
            rule: "every history is non-trivial: services of the application fail at some of its events",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("failures", 20_000, 500_000, |_| case(0.3), run)],
        },
        Prop {
            id: "E26",
            rule: "every history is non-trivial: it asks for notifications and reads states along a history of links, sessions and deliveries",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("reports", 20_000, 500_000, |_| watch_case(), run)],
        },
    ]
}
