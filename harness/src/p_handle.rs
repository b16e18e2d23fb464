//! E23: link handles and how sessions find links by them.
use std::cell::Cell;
use std::rc::Rc;

use ntex_amqp::error::AmqpProtocolError as PE;
use ntex_amqp::{AmqpServiceConfig, ControlFrame, ControlFrameKind, ReceiverLink, SenderLink, Session};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::raw::Raw;
use crate::refcodec::Val;
use crate::runner::{Case, Prop, sub};
use crate::sut::*;
use crate::wire::{self, HDR_AMQP, Item, WF};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// the application attaches links
    Attach { s: u16, receiver: bool, n: u8, name: u8 },
    /// the peer answers an attach, on a handle of its own
    Answer { k: u16, h: u16, refuse: bool },
    /// the peer attaches; `refuse`: the application does not want it
    PAttach { s: u16, receiver: bool, h: u16, refuse: bool, name: u8 },
    /// the application detaches an attached link, or one that is not answered yet
    Detach { k: u16, close: bool },
    AnswerDetach { k: u16 },
    PDetach { k: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HCase {
    client: bool,
    /// sessions; begun by the peer, with its limit
    sess: Vec<(bool, Option<u32>)>,
    enc: u64,
    frag: u8,
    ops: Vec<(Op, bool)>,
}

fn case() -> BoxedStrategy<HCase> {
    let k = any::<u16>;
    let name = || prop_oneof![3 => Just(0u8), 2 => 1..5u8];
    let op = prop_oneof![
        6 => (k(), any::<bool>(), prop_oneof![5 => Just(1u8), 1 => 2..5u8], name()).prop_map(|(s, receiver, n, name)| Op::Attach { s, receiver, n, name }),
        6 => (k(), k(), proptest::bool::weighted(0.15)).prop_map(|(k, h, refuse)| Op::Answer { k, h, refuse }),
        4 => (k(), any::<bool>(), k(), proptest::bool::weighted(0.15), name()).prop_map(|(s, receiver, h, refuse, name)| Op::PAttach { s, receiver, h, refuse, name }),
        4 => (k(), any::<bool>()).prop_map(|(k, close)| Op::Detach { k, close }),
        4 => k().prop_map(|k| Op::AnswerDetach { k }),
        3 => k().prop_map(|k| Op::PDetach { k }),
    ];
    let lim = prop_oneof![
        4 => (0..4u32).prop_map(Some),
        2 => (4..9u32).prop_map(Some),
        1 => Just(Some(255u32)),
        1 => Just(Some(u32::MAX)),
        1 => Just(None)
    ];
    (
        any::<bool>(),
        vec((any::<bool>(), lim), 1..3),
        prop_oneof![2 => Just(0u64), 1 => any::<u64>()],
        prop_oneof![4 => Just(0u8), 1 => 1..60u8],
        vec((op, proptest::bool::weighted(0.6)), 2..70),
    )
        .prop_map(|(client, sess, enc, frag, ops)| HCase { client, sess, enc, frag, ops })
        .boxed()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    /// attach of the endpoint awaits its answer
    Opening,
    /// detached before it was answered
    Abandoned,
    /// attach of the peer awaits its answer
    Remote,
    Open,
    /// the endpoint has detached it, the peer has to answer
    Closing,
    /// the peer has detached it, the endpoint has to answer
    PClosing,
    Over,
}

struct L {
    s: usize,
    name: String,
    /// the endpoint receives
    rcv: bool,
    st: St,
    lh: Option<u32>,
    ph: Option<u32>,
    refused: bool,
    /// detach of the endpoint was seen
    det: bool,
    /// the answer of the peer to an attach
    refuse_it: bool,
    by_peer: bool,
    ts: Option<Task<Result<SenderLink, PE>>>,
    tr: Option<Task<Result<ReceiverLink, PE>>>,
    so: Option<SenderLink>,
    ro: Option<ReceiverLink>,
    td: Option<Task<Result<(), PE>>>,
}

struct S {
    pch: u16,
    lch: u16,
    obj: Session,
    lim: u32,
}

struct M {
    r: Raw,
    act: Rc<Cell<u64>>,
    ss: Vec<S>,
    ls: Vec<L>,
    seen: usize,
    most: usize,
    reused: bool,
    doomed: bool,
    labels: Vec<&'static str>,
}

const NAMES: [&str; 4] = ["x", "", "longer name of a link", "y"];

impl M {
    fn pick(&self, k: u16, f: impl Fn(&L) -> bool) -> Option<usize> {
        let c: Vec<usize> = (0..self.ls.len()).filter(|i| f(&self.ls[*i])).collect();
        (!c.is_empty()).then(|| c[k as usize * c.len() / 65536])
    }
    fn used(&self, s: usize) -> usize {
        self.ls.iter().filter(|l| l.s == s && l.st != St::Over).count()
    }
    /// a name that no attached link of the session has
    fn name(&self, s: usize, n: u8) -> String {
        if n > 0 {
            let n = NAMES[n as usize % 4];
            if !self.ls.iter().any(|l| l.s == s && l.st != St::Over && l.name == n) {
                return n.to_string();
            }
        }
        format!("n{}", self.ls.len())
    }
    fn free(&self, s: usize, k: u16) -> u32 {
        let taken = |h: u32| self.ls.iter().any(|l| l.s == s && l.st != St::Over && l.ph == Some(h));
        let cand = match k % 5 {
            0 => u32::MAX - u32::from(k) % 3,
            1 => u32::from(k),
            _ => u32::from(k) % 7,
        };
        (0..).map(|i| cand.wrapping_add(i)).find(|h| !taken(*h)).unwrap()
    }
    fn link(&mut self, s: usize, name: String, rcv: bool, st: St) -> usize {
        self.ls.push(L {
            s,
            name,
            rcv,
            st,
            lh: None,
            ph: None,
            refused: false,
            det: false,
            refuse_it: false,
            by_peer: st == St::Remote,
            ts: None,
            tr: None,
            so: None,
            ro: None,
            td: None,
        });
        self.ls.len() - 1
    }

    fn frame(&mut self, f: &WF) -> Result<(), String> {
        if f.code == wire::CLOSE {
            return if self.doomed { Ok(()) } else { Err("the connection is closed".into()) };
        }
        let Some(s) = self.ss.iter().position(|s| s.lch == f.ch) else { return Ok(()) };
        match f.code {
            wire::ATTACH => {
                let n = f.str(0).unwrap_or_default();
                let h = f.u32(1).ok_or("attach without handle")?;
                let rcv = f.bool(2).ok_or("attach without role")?;
                if h > self.ss[s].lim {
                    return Err(format!("attach with handle {h}, the limit is {}", self.ss[s].lim));
                }
                if self.ls.iter().any(|l| l.s == s && l.st != St::Over && l.lh == Some(h)) {
                    return Err(format!("attach with handle {h}, which is in use"));
                }
                if self.ls.iter().any(|l| l.s == s && l.st == St::Over && l.lh == Some(h)) {
                    self.reused = true;
                }
                let l = self
                    .ls
                    .iter_mut()
                    .find(|l| l.s == s && l.name == n && l.rcv == rcv && l.lh.is_none() && matches!(l.st, St::Opening | St::Abandoned | St::Remote))
                    .ok_or(format!("unexpected attach of {n:?}"))?;
                l.lh = Some(h);
                if l.st == St::Remote {
                    l.st = St::Open;
                }
            }
            wire::DETACH => {
                let h = f.u32(0);
                let i = (0..self.ls.len())
                    .find(|i| {
                        let l = &self.ls[*i];
                        l.s == s && l.lh == h && l.st != St::Over && !l.det
                    })
                    .ok_or(format!("detach of unknown handle {h:?}"))?;
                let l = &mut self.ls[i];
                l.det = true;
                match l.st {
                    St::PClosing => l.st = St::Over,
                    St::Closing | St::Abandoned => {}
                    // refused
                    St::Open if l.refused => l.st = St::Closing,
                    st => return Err(format!("detach of link {:?} in state {st:?}", l.name)),
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn take(&mut self) -> Result<(), String> {
        self.r.pump();
        if let Some(e) = &self.r.err {
            return Err(e.clone());
        }
        while self.seen < self.r.items.len() {
            let i = self.r.items[self.seen].clone();
            self.seen += 1;
            if let Item::Frame(f) = i {
                self.frame(&f)?;
            }
        }
        Ok(())
    }

    async fn settle(&mut self) -> Result<(), String> {
        self.r.settle().await;
        self.take()?;
        if self.doomed {
            return Ok(());
        }
        for (s, x) in self.ss.iter().enumerate() {
            self.most = self.most.max(self.used(s));
            let _ = x;
        }
        for l in &mut self.ls {
            let n = l.name.clone();
            match l.st {
                St::Opening | St::Abandoned if l.lh.is_none() => return Err(format!("no attach is sent for {n:?}")),
                St::Remote => return Err(format!("attach of {n:?} is not answered")),
                St::PClosing => return Err(format!("detach of {n:?} is not answered")),
                St::Closing | St::Abandoned if !l.det => return Err(format!("{n:?} is not detached on the wire")),
                St::Open if l.refused => return Err(format!("{n:?} is not refused")),
                _ => {}
            }
            let done = l.ts.as_ref().map(Task::done).or(l.tr.as_ref().map(Task::done));
            match done {
                Some(false) if l.st != St::Opening && l.st != St::Abandoned => {
                    return Err(format!("attach of {n:?} does not complete"));
                }
                Some(true) => {
                    let e = if let Some(t) = l.ts.take() {
                        match t.slot.borrow_mut().take().unwrap() {
                            Ok(o) => {
                                l.so = Some(o);
                                None
                            }
                            Err(e) => Some(e),
                        }
                    } else {
                        match l.tr.take().unwrap().slot.borrow_mut().take().unwrap() {
                            Ok(o) => {
                                l.ro = Some(o);
                                None
                            }
                            Err(e) => Some(e),
                        }
                    };
                    match (e, l.refuse_it || l.td.is_some() || l.st == St::Over) {
                        (None, _) if l.st == St::Opening => return Err(format!("attach of {n:?} completes before it is answered")),
                        (Some(e), false) => return Err(format!("attach of {n:?} fails with {e:?}")),
                        _ => {}
                    }
                }
                _ => {}
            }
            if let Some(t) = &l.td {
                match l.st {
                    St::Over if !t.done() => return Err(format!("detach of {n:?} does not complete")),
                    St::Closing | St::Abandoned if t.done() => return Err(format!("detach of {n:?} completes before it is answered")),
                    _ => {}
                }
            }
        }
        // what sessions find
        for (s, x) in self.ss.iter().enumerate() {
            let mut hs: Vec<u32> = (0..4).chain([u32::MAX]).collect();
            hs.extend(self.ls.iter().filter(|l| l.s == s).flat_map(|l| [l.lh, l.ph]).flatten());
            hs.sort_unstable();
            hs.dedup();
            for h in hs {
                for (what, by_lh, rcv) in [("local", true, false), ("local", true, true), ("remote", false, false), ("remote", false, true)] {
                    let want = self
                        .ls
                        .iter()
                        .find(|l| l.s == s && l.st == St::Open && l.rcv == rcv && (if by_lh { l.lh } else { l.ph }) == Some(h))
                        .map(|l| (l.name.clone(), l.lh));
                    let got = match (by_lh, rcv) {
                        (true, false) => x.obj.get_sender_link_by_local_handle(h).map(|l| (l.name().to_string(), Some(l.id()))),
                        (false, false) => x.obj.get_sender_link_by_remote_handle(h).map(|l| (l.name().to_string(), Some(l.id()))),
                        (true, true) => x.obj.get_receiver_link_by_local_handle(h).map(|l| (l.name().to_string(), Some(l.handle()))),
                        (false, true) => x.obj.get_receiver_link_by_remote_handle(h).map(|l| (l.name().to_string(), Some(l.handle()))),
                    };
                    if got != want {
                        let side = if rcv { "receiver" } else { "sender" };
                        return Err(format!("session {s} finds {side} {got:?} by {what} handle {h}, not {want:?}"));
                    }
                }
            }
            for l in self.ls.iter().filter(|l| l.s == s && !l.rcv) {
                let want = self.ls.iter().find(|o| o.s == s && !o.rcv && o.name == l.name && o.st == St::Open).map(|o| o.lh);
                let got = x.obj.get_sender_link(&l.name).map(|l| Some(l.id()));
                if got != want {
                    return Err(format!("session {s} finds sender {got:?} by name {:?}, not {want:?}", l.name));
                }
            }
        }
        Ok(())
    }

    async fn step(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::Attach { s, receiver, n, name } => {
                self.settle().await?;
                let s = *s as usize * self.ss.len() / 65536;
                for i in 0..*n {
                    let full = self.used(s) as u64 > u64::from(self.ss[s].lim);
                    let name = self.name(s, if i == 0 { *name } else { 0 });
                    let obj = self.ss[s].obj.clone();
                    let (mut ts, mut tr) = (None, None);
                    if *receiver {
                        let b = obj.build_receiver_link(name.clone(), name.clone());
                        tr = Some(Task::start(async move { b.attach().await }, &self.act).await);
                    } else {
                        let b = obj.build_sender_link(name.clone(), name.clone());
                        ts = Some(Task::start(async move { b.attach().await }, &self.act).await);
                    }
                    if full {
                        self.labels.push("no handle is left");
                        let ok = match (&ts, &tr) {
                            (Some(t), _) => matches!(&*t.slot.borrow(), Some(Err(_))),
                            (_, Some(t)) => matches!(&*t.slot.borrow(), Some(Err(_))),
                            _ => false,
                        };
                        if !ok {
                            return Err(format!("{} handles of session {s} are in use, attach does not fail", self.used(s)));
                        }
                    } else {
                        let i = self.link(s, name, *receiver, St::Opening);
                        self.ls[i].ts = ts;
                        self.ls[i].tr = tr;
                    }
                }
                self.settle().await?;
            }
            Op::Answer { k, h, refuse } => {
                let Some(i) = self.pick(*k, |l| matches!(l.st, St::Opening | St::Abandoned) && l.ph.is_none() && l.lh.is_some()) else { return Ok(()) };
                let h = self.free(self.ls[i].s, *h);
                let (n, rcv) = (self.ls[i].name.clone(), self.ls[i].rcv);
                let pch = self.ss[self.ls[i].s].pch;
                let l = &mut self.ls[i];
                l.ph = Some(h);
                let late = l.st == St::Abandoned;
                let t = (!refuse).then(|| (wire::source(Some(&n)), wire::target(Some(&n)))).unzip();
                let a = wire::attach(&n, h, !rcv, t.0, t.1, rcv.then_some(0), None);
                if late {
                    l.st = St::Closing;
                    self.r.amqp(pch, &a).await;
                } else if *refuse {
                    self.labels.push("refused by the peer");
                    l.refuse_it = true;
                    self.r.amqp(pch, &a).await;
                    l.st = St::PClosing;
                    self.r.amqp(pch, &wire::detach(h, true, Some(wire::error("amqp:not-found", None)))).await;
                    self.settle().await?;
                } else {
                    l.st = St::Open;
                    self.r.amqp(pch, &a).await;
                }
            }
            Op::PAttach { s, receiver, h, refuse, name } => {
                let s = *s as usize * self.ss.len() / 65536;
                self.settle().await?;
                let full = self.used(s) as u64 > u64::from(self.ss[s].lim);
                if full && h % 4 > 0 {
                    return Ok(());
                }
                let h = self.free(s, *h);
                let mut name = self.name(s, *name);
                if *refuse {
                    name = format!("no-{}", self.ls.len());
                }
                let a = wire::attach(
                    &name,
                    h,
                    *receiver,
                    Some(wire::source(Some(&name))),
                    Some(wire::target(Some(&name))),
                    (!receiver).then_some(0),
                    None,
                );
                if full {
                    self.labels.push("no handle is left for the peer");
                    self.doomed = true;
                } else {
                    let i = self.link(s, name, !*receiver, St::Remote);
                    self.ls[i].ph = Some(h);
                    self.ls[i].refused = *refuse;
                    self.labels.push("attached by the peer");
                }
                self.r.amqp(self.ss[s].pch, &a).await;
            }
            Op::Detach { k, close } => {
                self.settle().await?;
                let Some(i) = self.pick(*k, |l| {
                    l.st == St::Open && (l.so.is_some() || l.ro.is_some() || l.by_peer) || l.st == St::Opening && !l.rcv
                }) else {
                    return Ok(());
                };
                let (so, ro, rcv) = (self.ls[i].so.clone(), self.ls[i].ro.clone(), self.ls[i].rcv);
                let (obj, lh) = (self.ss[self.ls[i].s].obj.clone(), self.ls[i].lh.unwrap());
                let l = &mut self.ls[i];
                let f: LocalFut<Result<(), PE>> = match (so, ro) {
                    (Some(o), _) if *close => Box::pin(async move { o.close().await }),
                    (_, Some(o)) if *close => Box::pin(async move { o.close().await }),
                    _ if rcv => Box::pin(async move { obj.detach_receiver_link(lh, None).await }),
                    _ => Box::pin(async move { obj.detach_sender_link(lh, None).await }),
                };
                if l.st == St::Opening {
                    self.labels.push("detached before it is answered");
                    l.st = St::Abandoned;
                } else {
                    l.st = St::Closing;
                }
                l.td = Some(Task::start(f, &self.act).await);
            }
            Op::AnswerDetach { k } => {
                let Some(i) = self.pick(*k, |l| l.st == St::Closing && l.det) else { return Ok(()) };
                let pch = self.ss[self.ls[i].s].pch;
                self.ls[i].st = St::Over;
                let h = self.ls[i].ph.unwrap();
                self.r.amqp(pch, &wire::detach(h, true, None)).await;
            }
            Op::PDetach { k } => {
                let Some(i) = self.pick(*k, |l| l.st == St::Open && !l.refused) else { return Ok(()) };
                let pch = self.ss[self.ls[i].s].pch;
                self.ls[i].st = St::PClosing;
                let h = self.ls[i].ph.unwrap();
                self.r.amqp(pch, &wire::detach(h, true, None)).await;
            }
        }
        Ok(())
    }
}

fn run(c: &HCase, case: &mut Case) -> Result<(), String> {
    let c2 = c.clone();
    let (r, labels, nt) = block_on(async move {
        let act: Rc<Cell<u64>> = Rc::default();
        let (r, io) = Raw::pair(c2.enc, c2.frag, &act);
        let ctl: CtlFn = Rc::new(|f: &ControlFrame| {
            let no = match f.kind() {
                ControlFrameKind::AttachSender(a, ..) => a.name().starts_with("no-"),
                ControlFrameKind::AttachReceiver(a, ..) => a.name().starts_with("no-"),
                _ => false,
            };
            Box::pin(async move { if no { Err(ntex_amqp::error::LinkError::force_detach().into()) } else { Ok(()) } })
        });
        let cfg = AmqpServiceConfig::new();
        let ep = if c2.client {
            start_client(io, cfg, None, None, ctl)
        } else {
            start_server(io, cfg, ctl, Rc::new(|_| Box::pin(async { Ok(()) })))
        };
        let mut m = M {
            r,
            act: ep.activity.clone(),
            ss: vec![],
            ls: vec![],
            seen: 0,
            most: 0,
            reused: false,
            doomed: false,
            labels: vec![],
        };
        m.r.act = ep.activity.clone();
        let res = history(&c2, &mut m, &ep).await;
        m.r.pump();
        let res = res.map_err(|e| format!("{e}\n{}", m.r.log()));
        if m.reused {
            m.labels.push("handle used again");
        }
        (res, m.labels, m.most > 1)
    });
    for l in labels {
        case.label(l);
    }
    if nt {
        case.nontrivial();
    }
    r
}

async fn history(c: &HCase, m: &mut M, ep: &Endpoint) -> Result<(), String> {
    m.r.bytes(&HDR_AMQP).await;
    m.r.amqp(0, &wire::open("peer", None, 1 << 20, 100, None)).await;
    if !m.r.until(|r| r.count(wire::OPEN) == 1 && ep.sink.borrow().is_some()).await {
        return Err("the connection does not open".into());
    }
    let sink = ep.sink.borrow().clone().unwrap();
    for (i, (peer, lim)) in c.sess.iter().enumerate() {
        let pch = i as u16 * 3;
        let begin = |remote| {
            let mut v = vec![Val::Null, Val::Uint(0), Val::Uint(1 << 20), Val::Uint(1 << 20)];
            if let Some(r) = remote {
                v[0] = Val::Ushort(r);
            }
            if let Some(l) = lim {
                v.push(Val::Uint(*l));
            }
            crate::conv::mk(wire::BEGIN, v)
        };
        let obj = if *peer {
            m.r.amqp(pch, &begin(None)).await;
            if !m.r.until(|r| r.count(wire::BEGIN) == i + 1).await {
                return Err("begin is not answered".into());
            }
            let ch = m.r.frames().filter(|f| f.code == wire::BEGIN).last().unwrap().ch;
            sink.get_session_by_local_id(ch).ok_or("session of the peer is unknown")?
        } else {
            let s2 = sink.clone();
            let t = Task::start(async move { s2.open_session().await }, &m.act).await;
            if !m.r.until(|r| r.count(wire::BEGIN) == i + 1).await {
                return Err("no begin is sent".into());
            }
            let ch = m.r.frames().filter(|f| f.code == wire::BEGIN).last().unwrap().ch;
            m.r.amqp(pch, &begin(Some(ch))).await;
            if !m.r.until(|_| t.done()).await {
                return Err("open_session does not complete".into());
            }
            match t.slot.borrow_mut().take() {
                Some(Ok(s)) => s,
                r => return Err(format!("open_session gives {:?}", r.map(|r| r.err()))),
            }
        };
        m.ss.push(S { pch, lch: obj.local_channel_id(), obj, lim: lim.unwrap_or(u32::MAX) });
    }
    for (i, (op, rest)) in c.ops.iter().enumerate() {
        m.r.t(format!("-- {i}: {op:?}"));
        m.step(op).await?;
        if m.doomed {
            break;
        }
        if *rest {
            m.settle().await?;
        } else {
            m.take()?;
        }
    }
    m.settle().await?;
    if m.doomed {
        m.r.settle().await;
        m.take()?;
        // not every end comes with a close
        if m.r.count(wire::CLOSE) == 1 {
            m.r.amqp(0, &wire::close(None)).await;
        }
        if !m.r.until(|_| ep.done.borrow().is_some()).await {
            return Err("no handle is left for an attach of the peer, the connection goes on".into());
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "E23",
        rule: "at least two links of a session are attached at the same time",
        assumptions: &[],
        spin_secs: None,
        subs: vec![sub("handles", 60_000, 1_200_000, |_| case(), run)],
    }]
}
