//! E18: channel numbers and limits.
use std::collections::BTreeSet;
use std::rc::Rc;

use ntex_amqp::error::AmqpProtocolError;
use ntex_amqp::{AmqpServiceConfig, ConnectionRef, ControlFrame, Session};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::raw::Raw;
use crate::refcodec::Val;
use crate::runner::{Case, Prop, sub};
use crate::sut::*;
use crate::wire::{self, HDR_AMQP, Item, WF};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// the application opens sessions
    Open { n: u32 },
    /// the application gives up on an opening session
    Cancel { k: u16 },
    /// the peer answers a begin, on a free channel of its own
    Answer { k: u16, ch: u16 },
    AnswerAll,
    /// the application ends a session
    AppEnd { k: u16 },
    /// the peer ends a session
    PeerEnd { k: u16, err: bool },
    /// the peer answers an end
    AnswerEnd { k: u16 },
    /// the peer begins a session
    PeerBegin { ch: u16 },
    /// asks for a flow on a session
    Echo { k: u16 },
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Fin {
    Close,
    Cut,
    /// a begin on a channel that is in use
    Dup(u16),
    /// the answer to a begin comes on a channel that is in use
    DupAnswer(u16, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ChCase {
    client: bool,
    own: u16,
    peer: Option<u16>,
    enc: u64,
    frag: u8,
    ops: Vec<(Op, bool)>,
    fin: Fin,
}

fn op() -> BoxedStrategy<Op> {
    let k = any::<u16>;
    prop_oneof![
        6 => prop_oneof![8 => Just(1u32), 2 => 2..6u32].prop_map(|n| Op::Open { n }),
        1 => k().prop_map(|k| Op::Cancel { k }),
        6 => (k(), k()).prop_map(|(k, ch)| Op::Answer { k, ch }),
        1 => Just(Op::AnswerAll),
        3 => k().prop_map(|k| Op::AppEnd { k }),
        3 => (k(), any::<bool>()).prop_map(|(k, err)| Op::PeerEnd { k, err }),
        3 => k().prop_map(|k| Op::AnswerEnd { k }),
        3 => k().prop_map(|ch| Op::PeerBegin { ch }),
        2 => k().prop_map(|k| Op::Echo { k }),
    ]
    .boxed()
}

fn limit() -> BoxedStrategy<u16> {
    prop_oneof![3 => 0..3u16, 3 => 3..9u16, 1 => Just(255u16), 1 => Just(256u16), 1 => Just(1024u16), 1 => Just(65535u16)].boxed()
}

fn ch_case() -> BoxedStrategy<ChCase> {
    let fin = prop_oneof![
        2 => Just(Fin::Close),
        1 => Just(Fin::Cut),
        1 => any::<u16>().prop_map(Fin::Dup),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Fin::DupAnswer(a, b)),
    ];
    (
        any::<bool>(),
        limit(),
        proptest::option::weighted(0.8, limit()),
        prop_oneof![2 => Just(0u64), 1 => any::<u64>()],
        prop_oneof![4 => Just(0u8), 1 => 1..40u8],
        vec((op(), proptest::bool::weighted(0.6)), 1..60),
        fin,
    )
        .prop_map(|(client, own, peer, enc, frag, ops, fin)| ChCase { client, own, peer, enc, frag, ops, fin })
        .boxed()
}

/// limits of a few hundred sessions and all of them in use
fn wide_case() -> BoxedStrategy<ChCase> {
    let w = prop_oneof![Just(254u16), Just(255), Just(256), Just(257), 10..300u16];
    (any::<bool>(), w, proptest::option::of(prop_oneof![Just(65535u16), 250..260u16]), vec((op(), any::<bool>()), 0..30), any::<bool>())
        .prop_map(|(client, own, peer, rest, cut)| {
            let n = own.min(peer.unwrap_or(u16::MAX)) as u32;
            let mut ops = vec![(Op::Open { n: n / 2 }, false), (Op::AnswerAll, true)];
            ops.push((Op::Open { n: n - n / 2 + 2 }, true));
            ops.push((Op::AnswerAll, true));
            ops.extend(rest);
            ops.push((Op::Open { n: 4 }, true));
            ChCase { client, own, peer, enc: 0, frag: 0, ops, fin: if cut { Fin::Cut } else { Fin::Close } }
        })
        .boxed()
}

/// every channel number there is
fn all_case() -> BoxedStrategy<ChCase> {
    (any::<bool>(), any::<bool>(), vec((op(), any::<bool>()), 0..20))
        .prop_map(|(client, none, rest)| {
            let mut ops = vec![(Op::Open { n: 65_000 }, false), (Op::AnswerAll, true), (Op::Open { n: 540 }, true), (Op::AnswerAll, true)];
            ops.extend(rest);
            ops.push((Op::Open { n: 2 }, true));
            ChCase { client, own: u16::MAX, peer: (!none).then_some(u16::MAX), enc: 0, frag: 0, ops, fin: Fin::Close }
        })
        .boxed()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    /// begin of the endpoint awaits its answer
    Opening,
    /// begin of the peer awaits its answer
    Remote,
    Open,
    /// the endpoint has ended it, the peer has to answer
    Ending,
    /// the peer has ended it, the endpoint has to answer
    PeerEnded,
    Over,
}

struct S {
    /// the endpoint's channel
    ch: Option<u16>,
    /// the peer's channel
    pch: Option<u16>,
    st: St,
    task: Option<Task<Result<Session, AmqpProtocolError>>>,
    obj: Option<Session>,
    cancelled: bool,
    end_seen: bool,
    /// answered in the peer's view; its result is due
    answered: bool,
}

struct M {
    r: Raw,
    sink: ConnectionRef,
    act: Rc<std::cell::Cell<u64>>,
    lim: u32,
    own: u16,
    ss: Vec<S>,
    /// sessions that are not over
    used: BTreeSet<usize>,
    /// channels of the peer in use
    pused: BTreeSet<u16>,
    /// channels of the endpoint in use
    lused: BTreeSet<u16>,
    seen: usize,
    expect_begins: std::collections::VecDeque<usize>,
    echo: usize,
    echo_seen: usize,
    /// the connection must end
    doomed: bool,
    labels: Vec<&'static str>,
}

impl M {
    fn pick(&self, k: u16, f: impl Fn(&S) -> bool) -> Option<usize> {
        let c: Vec<usize> = self.used.iter().copied().filter(|i| f(&self.ss[*i])).collect();
        (!c.is_empty()).then(|| c[k as usize * c.len() / 65536])
    }

    fn over(&mut self, i: usize) {
        self.ss[i].st = St::Over;
        self.used.remove(&i);
        if let Some(p) = self.ss[i].pch {
            self.pused.remove(&p);
        }
        if let Some(c) = self.ss[i].ch {
            self.lused.remove(&c);
        }
    }

    fn free_peer(&self, k: u16) -> Option<u16> {
        let n = self.own as u32 + 1;
        let near = u32::from(k) % n.min(12);
        let cand = match k % 4 {
            0 => n - 1 - near,
            _ => near,
        } as u16;
        if !self.pused.contains(&cand) {
            return Some(cand);
        }
        (0..=self.own).find(|c| !self.pused.contains(c))
    }

    fn frame(&mut self, f: &WF) -> Result<(), String> {
        if f.code == wire::EMPTY || f.code == wire::OPEN {
            return Ok(());
        }
        if f.code == wire::CLOSE {
            if !self.doomed {
                return Err("the connection is closed".into());
            }
            return Ok(());
        }
        if u32::from(f.ch) > self.lim {
            return Err(format!("{} on channel {}, the limit is {}", f.name(), f.ch, self.lim));
        }
        match f.code {
            wire::BEGIN => {
                if self.lused.contains(&f.ch) {
                    return Err(format!("begin on channel {}, which is in use", f.ch));
                }
                let i = match f.u16(0) {
                    None => self.expect_begins.pop_front().ok_or("begin although no session is opened")?,
                    Some(p) => {
                        let i = self.pick_pch(p, St::Remote).ok_or(format!("begin answers channel {p}"))?;
                        self.ss[i].st = St::Open;
                        i
                    }
                };
                self.lused.insert(f.ch);
                self.ss[i].ch = Some(f.ch);
            }
            wire::END => {
                let i = self
                    .used
                    .iter()
                    .copied()
                    .find(|i| self.ss[*i].ch == Some(f.ch))
                    .ok_or(format!("end on channel {} without session", f.ch))?;
                match self.ss[i].st {
                    St::PeerEnded => self.over(i),
                    St::Ending if !self.ss[i].end_seen => self.ss[i].end_seen = true,
                    // abandoned by the application
                    St::Open if self.ss[i].cancelled => {
                        self.ss[i].st = St::Ending;
                        self.ss[i].end_seen = true;
                    }
                    st => return Err(format!("end of a session in state {st:?}")),
                }
            }
            wire::FLOW => {
                let i = self
                    .used
                    .iter()
                    .copied()
                    .find(|i| self.ss[*i].ch == Some(f.ch))
                    .ok_or(format!("flow on channel {} without session", f.ch))?;
                self.echo_seen += 1;
                if self.echo_seen > self.echo {
                    return Err("a flow too many".into());
                }
                // the number of the session is in the window the endpoint was told
                let _ = i;
            }
            c => return Err(format!("unexpected frame {c:#x}")),
        }
        Ok(())
    }

    fn pick_pch(&self, p: u16, st: St) -> Option<usize> {
        self.used.iter().copied().find(|i| self.ss[*i].pch == Some(p) && self.ss[*i].st == st)
    }

    fn take(&mut self) -> Result<(), String> {
        self.r.pump();
        if let Some(e) = &self.r.err {
            return Err(e.clone());
        }
        while self.seen < self.r.items.len() {
            let i = self.r.items[self.seen].clone();
            self.seen += 1;
            if let Item::Frame(f) = i {
                self.frame(&f)?;
            }
        }
        Ok(())
    }

    async fn settle(&mut self) -> Result<(), String> {
        self.r.settle().await;
        self.take()?;
        if self.used.len() > 1000 {
            // much to read
            let ss = &self.ss;
            self.r.until(|_| ss.iter().all(|s| s.cancelled || !s.answered || s.task.as_ref().is_none_or(Task::done))).await;
            self.take()?;
        }
        // results of what was opened
        for i in 0..self.ss.len() {
            let s = &mut self.ss[i];
            let Some(t) = &s.task else { continue };
            if s.answered && !s.cancelled && !t.done() {
                return Err(format!("open_session {i} does not complete although it is answered"));
            }
            if !t.done() {
                continue;
            }
            let r = t.slot.borrow_mut().take();
            s.task = None;
            match r {
                Some(Ok(o)) => {
                    if !s.answered {
                        return Err(format!("open_session {i} completes before the answer"));
                    }
                    if Some(o.local_channel_id()) != s.ch || Some(o.remote_channel_id()) != s.pch {
                        return Err(format!(
                            "session {i} reports channels {} and {}, it has {:?} and {:?}",
                            o.local_channel_id(),
                            o.remote_channel_id(),
                            s.ch,
                            s.pch
                        ));
                    }
                    s.obj = Some(o);
                }
                Some(Err(e)) => {
                    if !self.doomed {
                        return Err(format!("open_session {i} fails with {e:?}"));
                    }
                }
                None => {}
            }
        }
        if self.doomed {
            return Ok(());
        }
        if !self.expect_begins.is_empty() {
            return Err(format!("no begin for {} opened sessions", self.expect_begins.len()));
        }
        if self.echo_seen != self.echo {
            return Err("a flow that asks for an answer is not answered".into());
        }
        for i in &self.used {
            let s = &self.ss[*i];
            match s.st {
                St::Remote => return Err(format!("begin on channel {:?} is not answered", s.pch)),
                St::PeerEnded => return Err(format!("end on channel {:?} is not answered", s.pch)),
                St::Ending if !s.end_seen => return Err("session is not ended on the wire".into()),
                St::Open if s.cancelled => return Err("a session nobody waits for is not ended".into()),
                _ => {}
            }
        }
        // what the connection says about channels
        let mut probe: Vec<u16> = (0..(self.lim + 3).min(12) as u16).collect();
        probe.extend([self.lim as u16, (self.lim as u16).wrapping_add(1), 255, 256, u16::MAX]);
        for c in probe {
            let want = self.used.iter().find(|i| self.ss[**i].ch == Some(c) && matches!(self.ss[**i].st, St::Open)).map(|i| self.ss[*i].pch);
            let got = self.sink.get_session_by_local_id(c);
            if got.as_ref().map(|s| Some(s.remote_channel_id())) != want {
                return Err(format!("get_session_by_local_id({c}) finds {:?}, not {want:?}", got.map(|s| s.remote_channel_id())));
            }
        }
        Ok(())
    }

    async fn answer(&mut self, i: usize, ch: u16) {
        self.pused.insert(ch);
        let s = &mut self.ss[i];
        s.pch = Some(ch);
        s.st = St::Open;
        s.answered = true;
        let v = wire::begin(s.ch, 0, 1000, 1000);
        self.r.amqp(ch, &v).await;
    }

    async fn op(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::Open { n } => {
                self.settle().await?;
                for _ in 0..*n {
                    let full = self.used.len() as u32 > self.lim;
                    let c = self.sink.clone();
                    let t = Task::start(async move { c.open_session().await }, &self.act).await;
                    if full {
                        self.labels.push("no channel is left");
                        match t.slot.borrow_mut().take() {
                            Some(Err(AmqpProtocolError::TooManyChannels)) => {}
                            Some(r) => return Err(format!("{} channels are in use, open_session gives {:?}", self.used.len(), r.err())),
                            None => return Err("open_session waits although no channel is left".into()),
                        }
                    } else {
                        if t.done() {
                            return Err(format!(
                                "{} channels of {} are in use, open_session gives {:?}",
                                self.used.len(),
                                self.lim + 1,
                                t.slot.borrow_mut().take().map(Result::err)
                            ));
                        }
                        let i = self.ss.len();
                        self.ss.push(S {
                            ch: None,
                            pch: None,
                            st: St::Opening,
                            task: Some(t),
                            obj: None,
                            cancelled: false,
                            end_seen: false,
                            answered: false,
                        });
                        self.used.insert(i);
                        self.expect_begins.push_back(i);
                    }
                }
                if *n > 100 {
                    self.settle().await?;
                }
            }
            Op::Cancel { k } => {
                if let Some(i) = self.pick(*k, |s| s.st == St::Opening && !s.cancelled) {
                    self.labels.push("open is abandoned");
                    self.ss[i].cancelled = true;
                    self.ss[i].task.as_mut().unwrap().cancel();
                    self.settle().await?;
                }
            }
            Op::Answer { k, ch } => {
                self.take()?;
                if let Some(i) = self.pick(*k, |s| s.st == St::Opening && s.ch.is_some())
                    && let Some(ch) = self.free_peer(*ch)
                {
                    self.answer(i, ch).await;
                }
            }
            Op::AnswerAll => {
                self.take()?;
                let all: Vec<usize> = self.used.iter().copied().filter(|i| self.ss[*i].st == St::Opening && self.ss[*i].ch.is_some()).collect();
                let mut free = (0..=self.own).filter(|c| !self.pused.contains(c)).collect::<Vec<_>>().into_iter();
                for (n, i) in all.into_iter().enumerate() {
                    let Some(ch) = free.next() else { break };
                    self.answer(i, ch).await;
                    if n % 500 == 499 {
                        self.r.settle().await;
                    }
                }
            }
            Op::AppEnd { k } => {
                self.settle().await?;
                if let Some(i) = self.pick(*k, |s| s.st == St::Open && !s.cancelled) {
                    let s = &mut self.ss[i];
                    let o = match &s.obj {
                        Some(o) => o.clone(),
                        None => match self.sink.get_session_by_local_id(s.ch.unwrap()) {
                            Some(o) => o,
                            None => return Err("session cannot be looked up".into()),
                        },
                    };
                    s.st = St::Ending;
                    self.labels.push("ended by the application");
                    drop(o.end());
                }
            }
            Op::PeerEnd { k, err } => {
                self.take()?;
                if let Some(i) = self.pick(*k, |s| matches!(s.st, St::Open | St::Ending) && !s.cancelled) {
                    let ch = self.ss[i].pch.unwrap();
                    let crossing = self.ss[i].st == St::Ending;
                    self.r.amqp(ch, &wire::end(err.then(|| wire::error("amqp:internal-error", None)))).await;
                    if crossing {
                        if self.ss[i].end_seen {
                            self.over(i);
                        } else {
                            // the end of the endpoint is on its way
                            self.settle_end(i).await?;
                        }
                    } else {
                        self.labels.push("ended by the peer");
                        self.ss[i].st = St::PeerEnded;
                    }
                }
            }
            Op::AnswerEnd { k } => {
                self.take()?;
                if let Some(i) = self.pick(*k, |s| s.st == St::Ending && s.end_seen) {
                    let ch = self.ss[i].pch.unwrap();
                    self.r.amqp(ch, &wire::end(None)).await;
                    self.over(i);
                }
            }
            Op::PeerBegin { ch } => {
                self.settle().await?;
                let Some(ch) = self.free_peer(*ch) else { return Ok(()) };
                if self.used.len() as u32 > self.lim {
                    self.doomed = true;
                    self.labels.push("the peer begins a session, no channel is left");
                } else {
                    self.labels.push("begun by the peer");
                }
                let i = self.ss.len();
                self.pused.insert(ch);
                self.ss.push(S {
                    ch: None,
                    pch: Some(ch),
                    st: St::Remote,
                    task: None,
                    obj: None,
                    cancelled: false,
                    end_seen: false,
                    answered: true,
                });
                self.used.insert(i);
                self.r.amqp(ch, &wire::begin(None, 0, 1000, 1000)).await;
            }
            Op::Echo { k } => {
                if let Some(i) = self.pick(*k, |s| s.st == St::Open && !s.cancelled) {
                    self.settle().await?;
                    let ch = self.ss[i].pch.unwrap();
                    let n = self.r.items.len();
                    self.echo += 1;
                    self.r.amqp(ch, &wire::flow(Some(0), 1000, 0, 1000, None, true)).await;
                    self.settle().await?;
                    match self.r.items.get(n) {
                        Some(Item::Frame(f)) if f.code == wire::FLOW && Some(f.ch) == self.ss[i].ch => {}
                        x => return Err(format!("flow on channel {ch} is answered by {x:?}, the channel is {:?}", self.ss[i].ch)),
                    }
                }
            }
        }
        Ok(())
    }

    async fn settle_end(&mut self, i: usize) -> Result<(), String> {
        self.r.settle().await;
        self.take()?;
        if !self.ss[i].end_seen {
            return Err("session is not ended on the wire".into());
        }
        self.over(i);
        Ok(())
    }
}

fn e18(c: &ChCase, case: &mut Case) -> Result<(), String> {
    let (r, labels, n) = block_on(e18_run(c.clone()));
    for l in labels {
        case.label(l);
    }
    case.count("sessions", n as u64);
    if n > 1 {
        case.nontrivial();
    }
    r
}

async fn e18_run(c: ChCase) -> (Result<(), String>, Vec<&'static str>, usize) {
    let ctl: CtlFn = Rc::new(|_: &ControlFrame| Box::pin(async { Ok(()) }));
    let cfg = AmqpServiceConfig::new().set_channel_max(c.own);
    let mut ep = Endpoint::new();
    let (r, io) = Raw::pair(c.enc, c.frag, &ep.activity);
    let publish: PubFn = Rc::new(|_| Box::pin(async { Ok(()) }));
    let act;
    if c.client {
        ep = start_client(io, cfg, None, None, ctl);
        act = ep.activity.clone();
    } else {
        let hs = plain(&ep);
        act = ep.activity.clone();
        let pb = ntex_service::fn_factory_with_config(async move |_: ntex_amqp::State<()>| Ok::<_, ()>(PubService(publish.clone())));
        ep = start_server_with(ep, io, cfg, hs, ctl, pb);
    }
    let mut r = r;
    r.act = act.clone();
    let fail = |r: &Raw, e: &str| (Err(format!("{e}\n{}", r.log())), vec![], 0);
    r.bytes(&HDR_AMQP).await;
    if c.client && !r.until(|r| r.items.len() == 2).await {
        return fail(&r, "client does not open");
    }
    let mut o = wire::open("c", None, 65536, c.peer.unwrap_or(u16::MAX), None);
    if c.peer.is_none() {
        o = crate::conv::mk(wire::OPEN, vec![Val::str("c"), Val::Null, Val::Uint(65536), Val::Null, Val::Null]);
    }
    r.amqp(0, &o).await;
    if !r.until(|r| r.count(wire::OPEN) == 1 && ep.sink.borrow().is_some()).await {
        return fail(&r, "not opened");
    }
    r.settle().await;
    let sink = ep.sink.borrow().clone().unwrap();
    let seen = r.items.len();
    let mut m = M {
        r,
        sink,
        act,
        lim: u32::from(c.own.min(c.peer.unwrap_or(u16::MAX))),
        own: c.own,
        ss: vec![],
        used: BTreeSet::new(),
        pused: BTreeSet::new(),
        lused: BTreeSet::new(),
        seen,
        expect_begins: Default::default(),
        echo: 0,
        echo_seen: 0,
        doomed: false,
        labels: vec![],
    };
    let res = inner(&c, &mut m, &ep).await.map_err(|e| format!("{e}\n{}", m.r.log()));
    m.labels.sort_unstable();
    m.labels.dedup();
    m.r.cut();
    m.r.settle().await;
    (res, m.labels, m.ss.len())
}

async fn inner(c: &ChCase, m: &mut M, ep: &Endpoint) -> Result<(), String> {
    for (i, (op, rest)) in c.ops.iter().enumerate() {
        m.r.t(format!("-- {i}: {op:?}"));
        m.op(op).await?;
        if m.doomed {
            break;
        }
        if *rest {
            m.settle().await?;
        }
    }
    if !m.doomed {
        m.settle().await?;
        m.r.t(format!("-- {:?}", c.fin));
        match c.fin {
            Fin::Close => {
                m.doomed = true;
                m.r.amqp(0, &wire::close(None)).await;
            }
            Fin::Cut => {
                m.doomed = true;
                m.r.cut();
            }
            Fin::Dup(k) => {
                let Some(i) = m.pick(k, |s| matches!(s.st, St::Open | St::Ending)) else { return Ok(()) };
                m.labels.push("begin on a used channel");
                m.doomed = true;
                m.r.amqp(m.ss[i].pch.unwrap(), &wire::begin(None, 0, 10, 10)).await;
            }
            Fin::DupAnswer(k, j) => {
                let Some(i) = m.pick(k, |s| matches!(s.st, St::Open | St::Ending)) else { return Ok(()) };
                let Some(j) = m.pick(j, |s| s.st == St::Opening && s.ch.is_some()) else { return Ok(()) };
                m.labels.push("answer on a used channel");
                m.doomed = true;
                let v = wire::begin(m.ss[j].ch, 0, 10, 10);
                m.r.amqp(m.ss[i].pch.unwrap(), &v).await;
            }
        }
    }
    if !m.r.until(|_| ep.done.borrow().is_some()).await {
        // the endpoint may wait for the peer to end the stream
        m.r.cut();
        if !m.r.until(|_| ep.done.borrow().is_some()).await {
            return Err("connection task does not complete".into());
        }
    }
    m.settle().await?;
    for (i, s) in m.ss.iter().enumerate() {
        if let Some(t) = &s.task
            && !s.cancelled
            && !t.done()
        {
            return Err(format!("open_session {i} does not complete after the end of the connection"));
        }
    }
    if m.lused.iter().next_back().is_some_and(|c| u32::from(*c) > m.lim) {
        return Err("channel above the limit".into());
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "E18",
        rule: "at least two sessions are opened or begun",
        assumptions: &[],
        spin_secs: None,
        subs: vec![
            sub("history", 60_000, 1_200_000, |_| ch_case(), e18),
            sub("wide", 1_500, 20_000, |_| wide_case(), e18),
            sub("all", 16, 160, |_| all_case(), e18),
        ],
    }]
}
