//! E28: the same round again and again; memory must not grow with the number of rounds.
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;

use ntex_amqp::codec::protocol::DeliveryState;
use ntex_amqp::types::Message;
use ntex_amqp::{AmqpServiceConfig, ConnectionRef, ControlFrame, ControlFrameKind, Delivery, ReceiverLink, SenderLink, Session, State};
use ntex_bytes::Bytes;
use ntex_io::testing::IoTest;
use ntex_service::cfg::SharedCfg;
use ntex_service::fn_factory_with_config;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use crate::alloc;
use crate::conv::Fld;
use crate::raw::Raw;
use crate::refcodec::Val;
use crate::runner::{Case, Prop, sub};
use crate::sut::*;
use crate::wire::{self, HDR_AMQP, Item, WF, Xfer};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum End {
    App,
    AppErr,
    Peer,
    PeerErr,
    /// left to the end of the session or connection
    Left,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Ack {
    /// settled by the peer (or, of a received delivery, by the application)
    Settle,
    /// a state first, settled later
    State,
    /// no answer; the delivery is dropped by the application
    Drop,
    /// waits, and gives up
    Abandon,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Msg {
    len: u16,
    /// of a delivery of the peer
    frames: u8,
    settled: bool,
    ack: Ack,
    /// the peer gives no credit, the send is cancelled; or the delivery of the peer is aborted
    cut: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LinkS {
    by_peer: bool,
    /// the endpoint receives
    rcv: bool,
    /// the attach of the application is refused by the peer, or that of the peer by the application
    refuse: bool,
    /// the application gives up waiting for the answer
    give_up: bool,
    msgs: Vec<Msg>,
    end: End,
    /// a wait for the end, for credit or for a delivery is begun and dropped
    waits: u8,
    /// sends, or a recv, that are not complete at the end of the link
    pending: u8,
    /// a delivery of the peer is not complete at the end of the link
    half: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SessS {
    by_peer: bool,
    give_up: bool,
    links: Vec<LinkS>,
    end: End,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LeakCase {
    client: bool,
    /// what is repeated: 0 connections, 1 sessions, 2 links, 3 deliveries
    level: u8,
    sess: SessS,
    fin: u8,
    frame: u32,
    /// sends that wait for the window of the session and are given up
    tight: u8,
    /// waits for the outcome of one delivery that are given up
    kept: u8,
}

struct PL {
    lh: u32,
    ph: u32,
    rcv: bool,
    ended: bool,
}

struct Sh {
    links: Vec<ReceiverLink>,
    senders: Vec<SenderLink>,
    refuse: bool,
    events: u64,
}

/// A peer that answers what it is asked.
struct M {
    r: Raw,
    act: Rc<Cell<u64>>,
    sink: Option<ConnectionRef>,
    sh: Rc<RefCell<Sh>>,
    next: usize,
    /// channels: own and the endpoint's
    pch: u16,
    lch: Option<u16>,
    id: u32,
    recvd: u32,
    links: Vec<PL>,
    acks: VecDeque<Ack>,
    /// unsettled deliveries of the endpoint
    later: Vec<u32>,
    refuse: bool,
    hold: bool,
    held: Vec<WF>,
    closes: u32,
    ends: u32,
}

impl M {
    async fn settle(&mut self) {
        loop {
            self.r.settle().await;
            if self.r.items.is_empty() {
                break;
            }
            for i in std::mem::take(&mut self.r.items) {
                if let Item::Frame(f) = i {
                    if self.hold && matches!(f.code, wire::BEGIN | wire::ATTACH) {
                        self.held.push(f);
                        continue;
                    }
                    self.answer(f).await;
                }
            }
            self.r.trace.clear();
        }
    }

    async fn release(&mut self) {
        self.hold = false;
        for f in std::mem::take(&mut self.held) {
            self.answer(f).await;
        }
        self.settle().await;
    }

    async fn answer(&mut self, f: WF) {
        match f.code {
            wire::BEGIN => {
                self.lch = Some(f.ch);
                self.id = 0;
                self.recvd = 0;
                if f.f.first().is_none_or(|v| *v == Val::Null) {
                    self.r.amqp(self.pch, &wire::begin(Some(f.ch), 0, 1 << 20, 1 << 20)).await;
                }
            }
            wire::ATTACH => {
                let (lh, rcv) = (f.u32(1).unwrap_or(0), f.bool(2) == Some(true));
                if let Some(l) = self.links.iter_mut().find(|l| l.lh == u32::MAX && !l.ended) {
                    l.lh = lh;
                    return;
                }
                let ph = (0..).find(|h| self.links.iter().all(|l| l.ph != *h)).unwrap();
                self.links.push(PL { lh, ph, rcv, ended: self.refuse });
                let name = f.str(0).unwrap_or_default().to_string();
                let (src, tgt) = if self.refuse {
                    if rcv { (None, Some(wire::target(Some("a")))) } else { (Some(wire::source(Some("a"))), None) }
                } else {
                    (Some(wire::source(Some("a"))), Some(wire::target(Some("a"))))
                };
                self.r.amqp(self.pch, &wire::attach(&name, ph, !rcv, src, tgt, rcv.then_some(0), None)).await;
                if self.refuse {
                    self.r.amqp(self.pch, &wire::detach(ph, true, Some(wire::error("amqp:not-found", None)))).await;
                }
            }
            wire::TRANSFER => {
                if f.bool(5) != Some(true) {
                    self.recvd += 1;
                }
                let Some(id) = f.f.get(1).and_then(|v| if let Val::Uint(x) = v { Some(*x) } else { None }) else { return };
                if f.bool(4) == Some(true) {
                    return;
                }
                match self.acks.pop_front() {
                    Some(Ack::Settle) => self.r.amqp(self.pch, &wire::disposition(true, id, None, true, Some(wire::accepted()))).await,
                    Some(Ack::State) => {
                        self.r.amqp(self.pch, &wire::disposition(true, id, None, false, Some(wire::received(0, 1)))).await;
                        self.later.push(id);
                    }
                    _ => {}
                }
            }
            wire::DETACH => {
                let lh = f.u32(0).unwrap_or(0);
                if let Some(i) = self.links.iter().position(|l| l.lh == lh) {
                    let l = self.links.remove(i);
                    if !l.ended {
                        self.r.amqp(self.pch, &wire::detach(l.ph, true, None)).await;
                    }
                }
            }
            wire::END => {
                self.lch = None;
                self.links.clear();
                self.ends += 1;
                if self.ends == 1 {
                    self.r.amqp(self.pch, &wire::end(None)).await;
                }
            }
            wire::CLOSE => {
                self.closes += 1;
            }
            _ => {}
        }
    }

    async fn credit(&mut self, ph: u32, count: u32, credit: u32) {
        self.r.amqp(self.pch, &wire::flow(Some(self.recvd), 1 << 20, self.id, 1 << 20, Some((ph, Some(count), Some(credit))), false)).await;
    }
}

async fn start(c: &LeakCase, cfg: &SharedCfg) -> Result<(M, Endpoint, IoTest), String> {
    let act: Rc<Cell<u64>> = Rc::default();
    let (mut r, io) = Raw::pair(0, 0, &act);
    let peer = r.io.clone().unwrap();
    let sh = Rc::new(RefCell::new(Sh { links: vec![], senders: vec![], refuse: false, events: 0 }));
    let s2 = sh.clone();
    let ctl: CtlFn = Rc::new(move |f: &ControlFrame| {
        let mut s = s2.borrow_mut();
        s.events += 1;
        let refuse = s.refuse && matches!(f.kind(), ControlFrameKind::AttachReceiver(..) | ControlFrameKind::AttachSender(..));
        if !refuse {
            match f.kind() {
                ControlFrameKind::AttachReceiver(_, _, l) => s.links.push(l.clone()),
                ControlFrameKind::AttachSender(_, _, l) => s.senders.push(l.clone()),
                _ => {}
            }
        }
        Box::pin(async move {
            if refuse { Err(ntex_amqp::error::LinkError::force_detach().into()) } else { Ok(()) }
        })
    });
    let publ: PubFn = Rc::new(|_: Message| Box::pin(async { Ok(()) }));
    let ep = if c.client {
        start_client_shared(io, cfg.clone(), None, None, ctl)
    } else {
        let ep = Endpoint::new();
        let hs = plain(&ep);
        let pb = fn_factory_with_config(async move |_: State<()>| Ok::<_, ()>(PubService(publ.clone())));
        start_server_shared(ep, io, cfg.clone(), hs, ctl, pb)
    };
    r.act = ep.activity.clone();
    r.bytes(&HDR_AMQP).await;
    r.amqp(0, &wire::open("peer", None, c.frame, 100, None)).await;
    if !r.until(|r| r.count(wire::OPEN) == 1 && ep.sink.borrow().is_some()).await {
        return Err(format!("the connection does not open\n{}", r.log()));
    }
    r.items.clear();
    let sink = ep.sink.borrow_mut().take();
    let m = M {
        act: ep.activity.clone(),
        r,
        sink,
        sh,
        next: 0,
        pch: 3,
        lch: None,
        id: 0,
        recvd: 0,
        links: vec![],
        acks: VecDeque::new(),
        later: vec![],
        refuse: false,
        hold: false,
        held: vec![],
        closes: 0,
        ends: 0,
    };
    Ok((m, ep, peer))
}

enum Lk {
    S(SenderLink),
    R(ReceiverLink),
}

/// opens a session; none if the application gives up
async fn open_session(m: &mut M, s: &SessS) -> Result<Option<Session>, String> {
    m.ends = 0;
    m.links.clear();
    if s.by_peer {
        m.id = 0;
        m.recvd = 0;
        m.r.amqp(m.pch, &wire::begin(None, 0, 1 << 20, 1 << 20)).await;
        m.settle().await;
        let ch = m.lch.ok_or("begin is not answered")?;
        return Ok(Some(m.sink.as_ref().unwrap().get_session_by_local_id(ch).ok_or("session is unknown")?));
    }
    let sink = m.sink.clone().unwrap();
    m.hold = s.give_up;
    let mut t = Task::start(async move { sink.open_session().await }, &m.act).await;
    m.settle().await;
    if s.give_up {
        t.cancel();
        yields(3).await;
        m.release().await;
        if m.lch.is_some() {
            return Err("a session nobody waits for is not ended".into());
        }
        return Ok(None);
    }
    let r = t.slot.borrow_mut().take();
    match r {
        Some(Ok(s)) => Ok(Some(s)),
        r => Err(format!("open_session gives {:?}", r.map(|r| r.err()))),
    }
}

async fn end_session(m: &mut M, s: Session, end: End) -> Result<(), String> {
    match end {
        End::App | End::AppErr => {
            let s2 = s.clone();
            let t = Task::start(async move { s2.end().await }, &m.act).await;
            m.settle().await;
            if !t.done() {
                return Err("end does not complete".into());
            }
        }
        End::Peer | End::PeerErr => {
            m.ends = 1;
            let e = (end == End::PeerErr).then(|| wire::error("amqp:internal-error", Some("gone")));
            m.r.amqp(m.pch, &wire::end(e)).await;
            m.settle().await;
        }
        End::Left => return Ok(()),
    }
    if m.lch.is_some() {
        return Err("session is not ended on the wire".into());
    }
    Ok(())
}

async fn open_link(m: &mut M, s: &Session, l: &LinkS, k: usize) -> Result<Option<Lk>, String> {
    let name = format!("l{k}");
    if l.by_peer {
        m.sh.borrow_mut().refuse = l.refuse;
        let ph = (0..).find(|h| m.links.iter().all(|l| l.ph != *h)).unwrap();
        m.links.push(PL { lh: u32::MAX, ph, rcv: l.rcv, ended: false });
        m.r.amqp(m.pch, &wire::attach(&name, ph, !l.rcv, Some(wire::source(Some("a"))), Some(wire::target(Some("a"))), l.rcv.then_some(0), None)).await;
        m.settle().await;
        let mut sh = m.sh.borrow_mut();
        sh.refuse = false;
        if l.refuse {
            return Ok(None);
        }
        return if l.rcv {
            sh.links.pop().map(|l| Some(Lk::R(l))).ok_or_else(|| "no attach is told".into())
        } else {
            sh.senders.pop().map(|l| Some(Lk::S(l))).ok_or_else(|| "no attach is told".into())
        };
    }
    m.refuse = l.refuse;
    m.hold = l.give_up;
    let s = s.clone();
    let rcv = l.rcv;
    let mut t = Task::start(
        async move {
            if rcv {
                s.build_receiver_link(name, "a").attach().await.map(Lk::R)
            } else {
                s.build_sender_link(name, "a").attach().await.map(Lk::S)
            }
        },
        &m.act,
    )
    .await;
    m.settle().await;
    if l.give_up {
        t.cancel();
        yields(3).await;
        m.release().await;
        m.refuse = false;
        // the link is open, nobody knows of it
        if let Some(l) = m.links.last_mut().filter(|l| !l.ended) {
            l.ended = true;
            let ph = l.ph;
            m.r.amqp(m.pch, &wire::detach(ph, true, None)).await;
            m.settle().await;
        }
        return Ok(None);
    }
    m.refuse = false;
    let r = t.slot.borrow_mut().take();
    match r {
        Some(_) if l.refuse => Ok(None),
        Some(Ok(l)) => Ok(Some(l)),
        r => Err(format!("attach gives {:?}", r.map(|r| r.err()))),
    }
}

async fn messages(m: &mut M, lk: &Lk, l: &LinkS, count: &mut u32) -> Result<(), String> {
    for x in &l.msgs {
        match lk {
            Lk::S(s) => {
                let Some(ph) = (match m.links.last() {
                    Some(p) => Some(p.ph),
                    None => None,
                }) else {
                    return Err("link is not known to the peer".into());
                };
                let mut b = s.transfer(Bytes::from(vec![7u8; x.len as usize]));
                if x.settled {
                    b = b.settled();
                }
                let mut t = Task::start(async move { b.send().await }, &m.act).await;
                m.settle().await;
                if t.done() {
                    return Err("a send without credit completes".into());
                }
                if x.cut {
                    t.cancel();
                    yields(3).await;
                    continue;
                }
                m.acks.push_back(x.ack);
                m.credit(ph, *count, 1).await;
                m.settle().await;
                *count += 1;
                let r = t.slot.borrow_mut().take();
                let d = match r {
                    Some(Ok(d)) => d,
                    r => return Err(format!("send gives {r:?}")),
                };
                m.acks.clear();
                if x.settled {
                    drop(d);
                    continue;
                }
                let d: Rc<Delivery> = Rc::new(d);
                let d2 = d.clone();
                let mut w = Task::start(async move { d2.wait().await }, &m.act).await;
                m.settle().await;
                match x.ack {
                    Ack::Settle | Ack::State => {
                        if !w.done() {
                            return Err("wait does not complete".into());
                        }
                        if let Some(id) = m.later.pop() {
                            let d2 = d.clone();
                            let w = Task::start(async move { d2.wait().await }, &m.act).await;
                            m.r.amqp(m.pch, &wire::disposition(true, id, None, true, Some(wire::accepted()))).await;
                            m.settle().await;
                            if !w.done() {
                                return Err("second wait does not complete".into());
                            }
                        }
                    }
                    Ack::Drop | Ack::Abandon => {
                        w.cancel();
                        yields(3).await;
                    }
                }
                drop(w);
                drop(d);
                m.settle().await;
            }
            Lk::R(rl) => {
                let Some(ph) = m.links.last().map(|p| p.ph) else { return Err("link is not known to the peer".into()) };
                if rl.credit() == 0 {
                    rl.set_link_credit(1);
                    m.settle().await;
                }
                let id = m.id;
                let body = vec![9u8; x.len as usize];
                let n = usize::from(x.frames.max(1)).max(body.len() / 3000 + 1);
                let step = body.len().div_ceil(n).max(1);
                let mut parts: Vec<&[u8]> = body.chunks(step).collect();
                if parts.is_empty() {
                    parts.push(&[]);
                }
                for (k, p) in parts.iter().enumerate() {
                    let last = k + 1 == parts.len();
                    let t = wire::transfer(&Xfer {
                        handle: ph,
                        id: (k == 0).then_some(id),
                        tag: (k == 0).then(|| b"tag".to_vec()),
                        settled: Some(x.settled),
                        more: !last,
                        aborted: last && x.cut,
                        ..Xfer::default()
                    });
                    m.r.frame(0, m.pch, &t, p).await;
                }
                m.id = m.id.wrapping_add(1);
                m.settle().await;
                if x.cut {
                    continue;
                }
                if x.ack == Ack::Abandon && l.end != End::Left {
                    // left in the queue
                    continue;
                }
                let mut seen = 0;
                while let Some((mut d, _)) = rl.get_delivery() {
                    seen += 1;
                    match x.ack {
                        Ack::Settle | Ack::Abandon => d.settle(DeliveryState::from_val(&wire::accepted())),
                        Ack::State => {
                            d.update_state(DeliveryState::from_val(&wire::received(0, 1)));
                            d.settle(DeliveryState::from_val(&wire::released()));
                        }
                        Ack::Drop => {}
                    }
                }
                if seen == 0 {
                    return Err("no delivery".into());
                }
                m.settle().await;
            }
        }
    }
    Ok(())
}

async fn waits(m: &mut M, lk: &Lk, n: u8) {
    for k in 0..n {
        match lk {
            Lk::S(s) => {
                let s = s.clone();
                let mut t = Task::start(
                    async move {
                        match k % 3 {
                            0 => s.on_credit_update().await,
                            1 => s.on_close().await,
                            _ => {
                                s.ready().await;
                            }
                        }
                    },
                    &m.act,
                )
                .await;
                yields(2).await;
                t.cancel();
            }
            Lk::R(r) => {
                let r = r.clone();
                let mut t = Task::start(async move { r.recv().await.is_some() }, &m.act).await;
                yields(2).await;
                t.cancel();
            }
        }
        yields(3).await;
    }
}

async fn end_link(m: &mut M, lk: Lk, end: End) -> Result<(), String> {
    match end {
        End::App | End::AppErr => {
            let e = end == End::AppErr;
            let t = Task::start(
                async move {
                    match (lk, e) {
                        (Lk::S(l), false) => l.close().await,
                        (Lk::S(l), true) => l.close_with_error(ntex_amqp::error::LinkError::force_detach()).await,
                        (Lk::R(l), false) => l.close().await,
                        (Lk::R(l), true) => l.close_with_error(ntex_amqp::error::LinkError::force_detach()).await,
                    }
                },
                &m.act,
            )
            .await;
            m.settle().await;
            if !t.done() {
                return Err("close of a link does not complete".into());
            }
        }
        End::Peer | End::PeerErr => {
            let Some(l) = m.links.last_mut() else { return Err("link is not known to the peer".into()) };
            l.ended = true;
            let ph = l.ph;
            let e = (end == End::PeerErr).then(|| wire::error("amqp:link:detach-forced", None));
            m.r.amqp(m.pch, &wire::detach(ph, true, e)).await;
            m.settle().await;
            if m.links.iter().any(|l| l.ph == ph) {
                return Err("detach is not answered".into());
            }
            drop(lk);
        }
        End::Left => {}
    }
    Ok(())
}

/// gives what is left to do at the end of the session
async fn links(m: &mut M, s: &Session, c: &SessS) -> Result<Vec<Task<bool>>, String> {
    let mut left = vec![];
    for (k, l) in c.links.iter().enumerate() {
        if let Some(lk) = open_link(m, s, l, k).await? {
            waits(m, &lk, l.waits).await;
            messages(m, &lk, l, &mut 0).await?;
            let mut open = vec![];
            for _ in 0..l.pending {
                open.push(match &lk {
                    Lk::S(s) => {
                        let b = s.transfer(Bytes::from(vec![7u8; 40]));
                        Task::start(async move { b.send().await.is_ok() }, &m.act).await
                    }
                    Lk::R(r) => {
                        let r = r.clone();
                        Task::start(async move { r.recv().await.is_some_and(|r| r.is_ok()) }, &m.act).await
                    }
                });
                if matches!(lk, Lk::R(_)) {
                    break;
                }
            }
            if l.half && let Lk::R(r) = &lk && let Some(ph) = m.links.last().map(|p| p.ph) {
                if r.credit() == 0 {
                    r.set_link_credit(1);
                    m.settle().await;
                }
                let t = wire::transfer(&Xfer { handle: ph, id: Some(m.id), tag: Some(b"tag".to_vec()), more: true, ..Xfer::default() });
                m.r.frame(0, m.pch, &t, &[3u8; 200]).await;
                m.id = m.id.wrapping_add(1);
                m.settle().await;
            }
            end_link(m, lk, l.end).await?;
            if l.end == End::Left {
                left.extend(open);
            } else if open.iter().any(|t| !t.done()) {
                return Err("an operation is left without an answer".into());
            }
        }
    }
    Ok(left)
}

async fn finish(c: &LeakCase, mut m: M, ep: Endpoint, peer: IoTest) -> Result<(), String> {
    match c.fin % 4 {
        0 => {
            m.r.amqp(0, &wire::close(None)).await;
            m.settle().await;
            peer.close().await;
        }
        1 => {
            let s = m.sink.clone().unwrap();
            let t = Task::start(async move { s.close().await }, &m.act).await;
            m.settle().await;
            m.r.amqp(0, &wire::close(None)).await;
            m.settle().await;
            drop(t);
            peer.close().await;
        }
        2 => peer.close().await,
        _ => m.r.bytes(&[0, 0, 0, 8, 0, 0, 0, 0]).await,
    }
    m.sink = None;
    m.r.until(|_| ep.done.borrow().is_some()).await;
    m.settle().await;
    if ep.done.borrow().is_none() {
        peer.close().await;
        if !m.r.until(|_| ep.done.borrow().is_some()).await {
            return Err(format!("the connection task does not end\n{}", m.r.log()));
        }
    }
    drop(m);
    drop(ep);
    drop(peer);
    yields(12).await;
    Ok(())
}

fn span(level: u8) -> usize {
    if level == 0 { 10 } else { 24 }
}

async fn run(c: LeakCase) -> Result<Vec<i64>, String> {
    let mut live = Vec::with_capacity(100);
    let span = span(c.level);
    // one configuration, as of a server that accepts many connections
    let cfg = shared(AmqpServiceConfig::new().set_max_frame_size(4096));
    if c.level == 0 {
        for _ in 0..4 * span {
            let (mut m, ep, peer) = start(&c, &cfg).await?;
            let mut left = vec![];
            if let Some(s) = open_session(&mut m, &c.sess).await? {
                left = links(&mut m, &s, &c.sess).await?;
                end_session(&mut m, s, c.sess.end).await?;
            }
            finish(&c, m, ep, peer).await?;
            if left.iter().any(|t| !t.done()) {
                return Err("an operation is left without an answer at the end of the connection".into());
            }
            drop(left);
            live.push(alloc::live());
        }
        return Ok(live);
    }
    let (mut m, ep, peer) = start(&c, &cfg).await?;
    let mut res = Ok(());
    match c.level {
        1 => {
            for _ in 0..4 * span {
                if let Some(s) = open_session(&mut m, &c.sess).await? {
                    let left = links(&mut m, &s, &c.sess).await?;
                    let e = if c.sess.end == End::Left { End::App } else { c.sess.end };
                    end_session(&mut m, s, e).await?;
                    if left.iter().any(|t| !t.done()) {
                        return Err("an operation is left without an answer at the end of the session".into());
                    }
                }
                m.settle().await;
                live.push(alloc::live());
            }
        }
        _ => {
            let mut sc = c.sess.clone();
            sc.give_up = false;
            let s = open_session(&mut m, &sc).await?.ok_or("no session")?;
            if c.level == 2 {
                for l in &mut sc.links {
                    if l.end == End::Left {
                        l.end = End::App;
                    }
                }
                for _ in 0..4 * span {
                    links(&mut m, &s, &sc).await?;
                    live.push(alloc::live());
                }
            } else {
                let mut l = sc.links[0].clone();
                (l.refuse, l.give_up, l.end) = (false, false, End::Left);
                let lk = open_link(&mut m, &s, &l, 0).await?.ok_or("no link")?;
                let mut n = 0;
                let mut one: Option<Rc<Delivery>> = None;
                let mut tight = 0;
                if let Lk::S(s) = &lk
                    && let Some(ph) = m.links.last().map(|l| l.ph)
                {
                    m.acks.push_back(Ack::Drop);
                    m.credit(ph, 0, 1).await;
                    m.settle().await;
                    let b = s.transfer(Bytes::from_static(b"kept"));
                    let t = Task::start(async move { b.send().await }, &m.act).await;
                    m.settle().await;
                    one = t.slot.borrow_mut().take().and_then(Result::ok).map(Rc::new);
                    if one.is_none() {
                        return Err("a send with credit does not complete".into());
                    }
                    n = 1;
                    m.acks.clear();
                    if c.tight > 0 {
                        tight = c.tight;
                        m.r.amqp(m.pch, &wire::flow(Some(m.recvd), 0, m.id, 1 << 20, Some((ph, Some(1), Some(9))), false)).await;
                        m.settle().await;
                    }
                }
                for _ in 0..4 * span {
                    waits(&mut m, &lk, l.waits).await;
                    for _ in 0..c.kept {
                        let Some(d) = one.clone() else { break };
                        let mut t = Task::start(async move { d.wait().await.is_ok() }, &m.act).await;
                        yields(2).await;
                        if t.done() {
                            return Err("wait completes without an answer".into());
                        }
                        t.cancel();
                        yields(3).await;
                    }
                    if tight > 0 {
                        for _ in 0..tight {
                            let Lk::S(s) = &lk else { break };
                            let b = s.transfer(Bytes::from_static(b"no window"));
                            let mut t = Task::start(async move { b.send().await.is_ok() }, &m.act).await;
                            yields(2).await;
                            if t.done() {
                                return Err("a send without window completes".into());
                            }
                            t.cancel();
                            yields(3).await;
                        }
                        m.settle().await;
                        live.push(alloc::live());
                        continue;
                    }
                    res = messages(&mut m, &lk, &l, &mut n).await;
                    if res.is_err() {
                        break;
                    }
                    live.push(alloc::live());
                }
            }
        }
    }
    res.map_err(|e| format!("{e}\n{}", m.r.log()))?;
    finish(&c, m, ep, peer).await?;
    Ok(live)
}

fn e28(c: &LeakCase, case: &mut Case) -> Result<(), String> {
    let c2 = c.clone();
    let (r, _) = alloc::measure(3 << 30, move || block_on(run(c2)));
    let live = r?;
    case.label(["connections", "sessions", "links", "deliveries"][c.level as usize]);
    case.nontrivial();
    let span = span(c.level);
    // each span of rounds, the first is for warming up
    let at: Vec<i64> = (1..=4).map(|k| live[k * span - 1]).collect();
    let grow: Vec<i64> = at.windows(2).map(|w| w[1] - w[0]).collect();
    if std::env::var("AMQPV_VERBOSE").is_ok() {
        eprintln!("{grow:?} {live:?}");
    }
    // the stream itself keeps a little for each connection
    let least = if c.level == 0 { 160 } else { 8 };
    if grow.iter().all(|g| *g >= least * span as i64) {
        return Err(format!("memory in use grows by {grow:?} bytes per {span} rounds\nat {at:?}"));
    }
    Ok(())
}

fn msg() -> impl Strategy<Value = Msg> {
    (
        prop_oneof![3 => 0..64u16, 1 => 0..6000u16],
        1..4u8,
        any::<bool>(),
        select(vec![Ack::Settle, Ack::State, Ack::Drop, Ack::Abandon]),
        prop::bool::weighted(0.2),
    )
        .prop_map(|(len, frames, settled, ack, cut)| Msg { len, frames, settled, ack, cut })
}
fn end() -> impl Strategy<Value = End> {
    select(vec![End::App, End::AppErr, End::Peer, End::PeerErr, End::Left])
}
fn link() -> impl Strategy<Value = LinkS> {
    (any::<bool>(), any::<bool>(), prop::bool::weighted(0.15), prop::bool::weighted(0.15), vec(msg(), 0..4), end(), 0..4u8, prop_oneof![2 => Just(0u8), 1 => 1..4u8], prop::bool::weighted(0.2))
        .prop_map(|(by_peer, rcv, refuse, give_up, msgs, end, waits, pending, half)| LinkS { by_peer, rcv, refuse, give_up, msgs, end, waits, pending, half })
}
fn case(level: u8) -> BoxedStrategy<LeakCase> {
    let n = if level == 3 { 1..2 } else { 0..4 };
    (any::<bool>(), any::<bool>(), prop::bool::weighted(0.15), vec(link(), n), end(), any::<u8>(), select(vec![512u32, 1024, 65536]), prop_oneof![3 => Just(0u8), 1 => 1..3u8], prop_oneof![1 => Just(0u8), 1 => 1..4u8])
        .prop_map(move |(client, by_peer, give_up, links, end, fin, frame, tight, kept)| LeakCase {
            client,
            level,
            sess: SessS { by_peer, give_up, links, end },
            fin,
            frame,
            tight,
            kept,
        })
        .boxed()
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "E28",
        rule: "every case is non-trivial: the same round is repeated on one connection or on many",
        assumptions: &["memory of the peer model is counted too, it does not grow either"],
        spin_secs: None,
        subs: vec![
            sub("connections", 100, 2000, |_| case(0), e28),
            sub("sessions", 1200, 60_000, |_| case(1), e28),
            sub("links", 1500, 80_000, |_| case(2), e28),
            sub("deliveries", 1000, 60_000, |_| case(3), e28),
        ],
    }]
}
