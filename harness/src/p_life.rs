//! E27: the services of a connection: made, ready, told, shut down, dropped.
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::task::{Poll, Waker};

use ntex_amqp::codec::protocol::Error;
use ntex_amqp::server::{Handshake, HandshakeAck, Server, ServerError};
use ntex_amqp::types::Message;
use ntex_amqp::{AmqpServiceConfig, ConnectionRef, ControlFrame, ControlFrameKind, State, client};
use ntex_io::testing::IoTest;
use ntex_io::{Io, IoBoxed};
use ntex_service::cfg::SharedCfg;
use ntex_service::{Pipeline, Service, ServiceCtx, ServiceFactory, fn_factory_with_config};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use crate::raw::Raw;
use crate::runner::{Case, Prop, sub};
use crate::sut::*;
use crate::wire::{self, HDR_AMQP, Item, Xfer};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Made {
    Ok,
    Fail,
    /// made once it is released
    Held,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conn {
    /// the handshake service accepts
    accept: bool,
    publ: Made,
    ctl: Made,
    enc: u64,
    frag: u8,
    /// turns of the event loop a call or a shutdown takes
    call: u8,
    shut: u8,
    /// served as an Io with filters, not boxed
    plain_io: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// a connection of the peer begins
    Start,
    Session,
    Attach,
    Transfer,
    Detach,
    /// the services of a connection are not ready
    Busy { ctl: bool },
    Resume { ctl: bool },
    Release,
    /// readiness fails
    Fail { ctl: bool },
    PeerClose,
    AppClose,
    Cut,
    Garbage,
    /// the future of the connection is dropped
    Abort,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LCase {
    client: bool,
    state: bool,
    conns: Vec<Conn>,
    ops: Vec<(u8, Op)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ready {
    Yes,
    No,
    Fail,
}

/// What happened to the services of one connection.
struct Rec {
    c: Conn,
    made: [u32; 2],
    shut: [u32; 2],
    alive: [i32; 2],
    ready: [Ready; 2],
    failed: [bool; 2],
    /// a service was not ready, calls may still wait
    late: bool,
    wakers: Vec<Waker>,
    held: bool,
    closed: u32,
    calls: u32,
    running: i32,
    state: i32,
    told: Vec<&'static str>,
    bad: Option<String>,
    sink: Option<ConnectionRef>,
}

struct Sh {
    conns: Vec<Rec>,
    hs_shut: u32,
    act: Rc<Cell<u64>>,
}
type Shared = Rc<RefCell<Sh>>;

impl Rec {
    fn wake(&mut self) {
        for w in self.wakers.drain(..) {
            w.wake();
        }
    }
    fn bad(&mut self, e: String) {
        self.bad.get_or_insert(e);
    }
}

/// State of a connection, given by the handshake.
struct Tok(usize, Shared);
impl Drop for Tok {
    fn drop(&mut self) {
        self.1.borrow_mut().conns[self.0].state -= 1;
    }
}

/// A publish (0) or control (1) service.
struct Svc {
    k: usize,
    i: usize,
    sh: Shared,
}
impl Svc {
    fn new(k: usize, i: usize, sh: &Shared) -> Svc {
        let mut s = sh.borrow_mut();
        s.conns[i].made[k] += 1;
        s.conns[i].alive[k] += 1;
        Svc { k, i, sh: sh.clone() }
    }
    async fn is_ready(&self) -> Result<(), Error> {
        std::future::poll_fn(|cx| {
            let mut s = self.sh.borrow_mut();
            let r = &mut s.conns[self.i];
            match r.ready[self.k] {
                Ready::Yes => Poll::Ready(Ok(())),
                Ready::No => {
                    r.wakers.push(cx.waker().clone());
                    Poll::Pending
                }
                Ready::Fail => {
                    r.failed[self.k] = true;
                    Poll::Ready(Err(ntex_amqp::error::AmqpError::internal_error().description(["pub failed", "ctl failed"][self.k]).into()))
                }
            }
        })
        .await
    }
    async fn run(&self, what: &'static str) {
        let n = {
            let mut s = self.sh.borrow_mut();
            let r = &mut s.conns[self.i];
            if r.shut[self.k] > 0 && !r.late {
                r.bad(format!("service {} is called after its shutdown: {what}", self.k));
            }
            if r.ready[self.k] != Ready::Yes {
                r.bad(format!("service {} is called while it is not ready: {what}", self.k));
            }
            if self.k == 1 && r.closed > 0 {
                r.bad(format!("control service is told {what} after the end of the connection"));
            }
            if what == "closed" {
                r.closed += 1;
            }
            r.calls += 1;
            r.told.push(what);
            r.running += 1;
            r.c.call
        };
        struct Off<'a>(&'a Svc);
        impl Drop for Off<'_> {
            fn drop(&mut self) {
                self.0.sh.borrow_mut().conns[self.0.i].running -= 1;
            }
        }
        let _off = Off(self);
        yields(n as usize).await;
        let s = self.sh.borrow();
        s.act.set(s.act.get() + 1);
    }
    async fn end(&self) {
        let n = {
            let mut s = self.sh.borrow_mut();
            let r = &mut s.conns[self.i];
            r.shut[self.k] += 1;
            // a service that has failed cannot be told
            if r.closed != u32::from(!r.failed[1]) {
                let n = r.closed;
                r.bad(format!("service {} is shut down, the end is told {n} times", self.k));
            }
            r.c.shut
        };
        yields(n as usize).await;
        let s = self.sh.borrow();
        s.act.set(s.act.get() + 1);
    }
}
impl Drop for Svc {
    fn drop(&mut self) {
        let mut s = self.sh.borrow_mut();
        s.conns[self.i].alive[self.k] -= 1;
        s.act.set(s.act.get() + 1);
    }
}

struct Pub(Svc);
impl Service<Message> for Pub {
    type Response = ();
    type Error = Error;
    async fn ready(&self, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        self.0.is_ready().await
    }
    async fn call(&self, m: Message, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        self.0
            .run(match &m {
                Message::Attached(..) => "attached",
                Message::Detached(..) => "detached",
                Message::DetachedAll(..) => "detached all",
                Message::Transfer(..) => "transfer",
            })
            .await;
        if let Message::Transfer(l) = m {
            while let Some((mut d, _)) = l.get_delivery() {
                d.settle(ntex_amqp::codec::protocol::DeliveryState::Accepted(ntex_amqp::codec::protocol::Accepted {}));
            }
        }
        Ok(())
    }
    async fn shutdown(&self) {
        self.0.end().await;
    }
}
struct Ctl(Svc);
impl Service<ControlFrame> for Ctl {
    type Response = ();
    type Error = Error;
    async fn ready(&self, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        self.0.is_ready().await
    }
    async fn call(&self, f: ControlFrame, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        self.0
            .run(match f.kind() {
                ControlFrameKind::Closed => "closed",
                ControlFrameKind::AttachReceiver(..) => "attach",
                ControlFrameKind::RemoteDetachReceiver(..) => "remote detach",
                ControlFrameKind::ProtocolError(_) => "error",
                ControlFrameKind::Disconnected(_) => "disconnected",
                _ => "other",
            })
            .await;
        Ok(())
    }
    async fn shutdown(&self) {
        self.0.end().await;
    }
}

struct Hs(Shared);
impl Service<Handshake> for Hs {
    type Response = HandshakeAck<Tok>;
    type Error = HsErr;
    async fn call(&self, h: Handshake, _: ServiceCtx<'_, Self>) -> Result<HandshakeAck<Tok>, HsErr> {
        let Handshake::Amqp(h) = h else { return Err(HsErr("sasl".into())) };
        let o = h.open().await.map_err(|e| HsErr(format!("{e:?}")))?;
        let i: usize = o.frame().container_id().as_str()[1..].parse().map_err(|_| HsErr("id".into()))?;
        let mut s = self.0.borrow_mut();
        if !s.conns[i].c.accept {
            return Err(HsErr("refused".into()));
        }
        s.conns[i].sink = Some(o.sink().get_ref());
        s.conns[i].state += 1;
        Ok(o.ack(Tok(i, self.0.clone())))
    }
    async fn shutdown(&self) {
        self.0.borrow_mut().hs_shut += 1;
    }
}

async fn make(k: usize, st: &State<Tok>, sh: &Shared) -> Result<Svc, &'static str> {
    let i = st.0;
    let how = {
        let s = sh.borrow();
        if k == 0 { s.conns[i].c.publ } else { s.conns[i].c.ctl }
    };
    match how {
        Made::Ok => {}
        Made::Fail => return Err("not made"),
        Made::Held => {
            std::future::poll_fn(|cx| {
                let mut s = sh.borrow_mut();
                if s.conns[i].held {
                    s.conns[i].wakers.push(cx.waker().clone());
                    Poll::Pending
                } else {
                    Poll::Ready(())
                }
            })
            .await;
        }
    }
    Ok(Svc::new(k, i, sh))
}

/// One connection of the peer.
struct Live {
    i: usize,
    r: Raw,
    peer: IoTest,
    task: Task<Result<(), String>>,
    /// the connection task is dropped
    aborted: bool,
    session: bool,
    /// frames written that services are told about
    attached: bool,
    handle: u32,
    id: u32,
    want: Vec<&'static str>,
    over: bool,
    /// the outcome is known
    result: Option<&'static str>,
    cause: Option<usize>,
}

struct World {
    c: LCase,
    sh: Shared,
    live: Vec<Live>,
    srv: Option<Rc<dyn Fn(IoTest, bool) -> LocalFut<Result<(), String>>>>,
    labels: Vec<&'static str>,
}

fn name(e: &ServerError<HsErr>) -> String {
    match e {
        ServerError::Service(_) => "service".into(),
        ServerError::PublishServiceError => "publish".into(),
        ServerError::ControlServiceError => "control".into(),
        ServerError::Dispatcher(e) => format!("{e:?}"),
        e => format!("{e:?}"),
    }
}

impl World {
    /// nothing of the services is left to run
    fn up(&self, l: &Live) -> bool {
        let s = self.sh.borrow();
        let r = &s.conns[l.i];
        r.c.accept && r.c.publ != Made::Fail && r.c.ctl != Made::Fail && !r.held
    }

    async fn start(&mut self) -> Result<(), String> {
        let i = self.live.len();
        if i >= self.c.conns.len() {
            return Ok(());
        }
        let c = self.c.conns[i].clone();
        let act = self.sh.borrow().act.clone();
        let (mut r, io) = Raw::pair(c.enc, c.frag, &act);
        let peer = r.io.clone().unwrap();
        let fut = (self.srv.as_ref().unwrap())(io, c.plain_io);
        let task = Task::start(fut, &act).await;
        r.bytes(&HDR_AMQP).await;
        r.amqp(0, &wire::open(&format!("c{i}"), None, 1 << 16, 100, None)).await;
        let mut l = Live {
            i,
            r,
            peer,
            task,
            aborted: false,
            session: false,
            attached: false,
            handle: 0,
            id: 0,
            want: vec![],
            over: false,
            result: None,
            cause: None,
        };
        if self.c.client || c.accept {
            if !l.r.until(|r| r.count(wire::OPEN) == 1).await {
                return Err("the connection does not open".into());
            }
        }
        l.r.settle().await;
        let held = c.publ == Made::Held || c.ctl == Made::Held;
        if !self.c.client {
            if !c.accept {
                (l.over, l.result) = (true, Some("service"));
            } else if c.publ == Made::Fail {
                (l.over, l.result) = (true, Some("publish"));
            } else if c.ctl == Made::Fail && !held {
                (l.over, l.result) = (true, Some("control"));
            }
        }
        self.live.push(l);
        Ok(())
    }

    fn pick(&self, k: u8, f: impl Fn(&Live) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.live.len()).filter(|i| f(&self.live[*i])).collect();
        if v.is_empty() { None } else { Some(v[k as usize % v.len()]) }
    }

    async fn op(&mut self, k: u8, op: &Op) -> Result<(), String> {
        match op {
            Op::Start => {
                self.labels.push("connection");
                self.start().await?;
            }
            Op::Session => {
                let Some(i) = self.pick(k, |l| !l.over && !l.session) else { return Ok(()) };
                let l = &mut self.live[i];
                l.session = true;
                l.r.amqp(1, &wire::begin(None, 0, 1 << 20, 1 << 20)).await;
            }
            Op::Attach => {
                let Some(i) = self.pick(k, |l| !l.over && l.session && !l.attached) else { return Ok(()) };
                let client = self.c.client;
                let l = &mut self.live[i];
                l.attached = true;
                l.handle += 1;
                let n = format!("l{}", l.handle);
                l.r.amqp(1, &wire::attach(&n, l.handle, false, Some(wire::source(Some("a"))), Some(wire::target(Some("a"))), Some(0), None)).await;
                l.want.push("attach");
                if !client {
                    l.want.push("attached");
                }
                l.r.settle().await;
            }
            Op::Transfer => {
                let busy = self.sh.clone();
                let Some(i) = self.pick(k, |l| {
                    let r = &busy.borrow().conns[l.i];
                    !l.over && l.attached && l.id < 40 && !r.held && r.ready == [Ready::Yes; 2]
                }) else {
                    return Ok(());
                };
                let client = self.c.client;
                let l = &mut self.live[i];
                // there has to be credit
                if !l.r.until(|r| r.count(wire::FLOW) > 0).await {
                    return Err(format!("no credit is given\n{}", l.r.log()));
                }
                let t = wire::transfer(&Xfer { handle: l.handle, id: Some(l.id), tag: Some(b"t".to_vec()), settled: Some(false), ..Xfer::default() });
                l.r.frame(0, 1, &t, b"\x00\x53\x75\xa0\x01x").await;
                l.id += 1;
                if !client {
                    l.want.push("transfer");
                }
            }
            Op::Detach => {
                let Some(i) = self.pick(k, |l| !l.over && l.attached && l.r.count(wire::ATTACH) == l.handle as usize) else { return Ok(()) };
                let client = self.c.client;
                let l = &mut self.live[i];
                l.attached = false;
                l.r.amqp(1, &wire::detach(l.handle, true, None)).await;
                l.want.push("remote detach");
                if !client {
                    l.want.push("detached");
                }
            }
            Op::Busy { ctl } => {
                let s = self.sh.clone();
                let j = usize::from(*ctl);
                let Some(i) = self.pick(k, |l| !l.over && s.borrow().conns[l.i].ready[j] == Ready::Yes) else { return Ok(()) };
                if self.c.client && !ctl {
                    return Ok(());
                }
                self.settle(i).await?;
                self.labels.push(if *ctl { "control not ready" } else { "publish not ready" });
                let i = self.live[i].i;
                let mut s = self.sh.borrow_mut();
                s.conns[i].ready[j] = Ready::No;
                s.conns[i].late = true;
            }
            Op::Resume { ctl } => {
                let j = usize::from(*ctl);
                let s = self.sh.clone();
                let Some(i) = self.pick(k, |l| s.borrow().conns[l.i].ready[j] == Ready::No) else { return Ok(()) };
                let i = self.live[i].i;
                let mut s = s.borrow_mut();
                s.conns[i].ready[j] = Ready::Yes;
                s.conns[i].wake();
            }
            Op::Release => {
                let s = self.sh.clone();
                let Some(i) = self.pick(k, |l| s.borrow().conns[l.i].held) else { return Ok(()) };
                self.release(i);
            }
            Op::Fail { ctl } => {
                let s = self.sh.clone();
                let j = usize::from(*ctl);
                if self.c.client && !ctl {
                    return Ok(());
                }
                let Some(i) = self.pick(k, |l| !l.over && self.up(l) && s.borrow().conns[l.i].ready == [Ready::Yes; 2]) else { return Ok(()) };
                self.settle(i).await?;
                self.labels.push(if *ctl { "control fails" } else { "publish fails" });
                let n = self.live[i].i;
                {
                    let mut s = self.sh.borrow_mut();
                    s.conns[n].ready[j] = Ready::Fail;
                    s.conns[n].wake();
                }
                // readiness is asked for when there is something to do
                let l = &mut self.live[i];
                l.r.amqp(0, &wire::open("x", None, 512, 1, None)).await;
                let before = l.r.items.len();
                l.r.settle().await;
                let _ = before;
                l.over = true;
                l.cause = Some(j);
            }
            Op::PeerClose => {
                let Some(i) = self.pick(k, |l| !l.over) else { return Ok(()) };
                self.labels.push("close by the peer");
                let l = &mut self.live[i];
                l.over = true;
                l.r.amqp(0, &wire::close(None)).await;
            }
            Op::AppClose => {
                let s = self.sh.clone();
                let Some(i) = self.pick(k, |l| !l.over && s.borrow().conns[l.i].sink.is_some()) else { return Ok(()) };
                self.labels.push("close by the application");
                let l = &mut self.live[i];
                l.over = true;
                let sink = s.borrow().conns[l.i].sink.clone().unwrap();
                ntex_rt::spawn(async move {
                    let _ = sink.close().await;
                });
                l.r.settle().await;
                l.r.amqp(0, &wire::close(None)).await;
            }
            Op::Cut => {
                let Some(i) = self.pick(k, |l| !l.over) else { return Ok(()) };
                self.labels.push("cut");
                let l = &mut self.live[i];
                l.over = true;
                l.r.t("stream closed");
                l.peer.close().await;
            }
            Op::Garbage => {
                let Some(i) = self.pick(k, |l| !l.over) else { return Ok(()) };
                self.labels.push("garbage");
                let l = &mut self.live[i];
                l.over = true;
                l.r.bytes(&[0, 0, 0, 9, 1, 0, 0, 0, 0xff]).await;
            }
            Op::Abort => {
                let Some(i) = self.pick(k, |l| !l.over) else { return Ok(()) };
                self.labels.push("dropped");
                let l = &mut self.live[i];
                l.over = true;
                l.aborted = true;
                l.task.cancel();
            }
        }
        Ok(())
    }

    fn release(&mut self, i: usize) {
        let l = &mut self.live[i];
        let mut s = self.sh.borrow_mut();
        let r = &mut s.conns[l.i];
        r.held = false;
        r.wake();
        if r.c.ctl == Made::Fail && !self.c.client && !l.aborted {
            (l.over, l.result) = (true, Some("control"));
        }
    }

    /// everything of a connection is done
    async fn settle(&mut self, i: usize) -> Result<(), String> {
        let sh = self.sh.clone();
        let l = &mut self.live[i];
        let n = l.i;
        l.r.until(|_| sh.borrow().conns[n].running == 0).await;
        l.r.settle().await;
        Ok(())
    }

    async fn check(&mut self, k: usize) -> Result<(), String> {
        let sh = self.sh.clone();
        let client = self.c.client;
        let up = self.up(&self.live[k]);
        let l = &mut self.live[k];
        let tell = |l: &Live, e: String| {
            let s = sh.borrow();
            let r = &s.conns[l.i];
            Err(format!(
                "connection {}: {e}\nmade {:?} shut {:?} alive {:?} closed {} told {:?} ended {:?}\n{}",
                l.i,
                r.made,
                r.shut,
                r.alive,
                r.closed,
                r.told,
                l.task.slot.borrow(),
                l.r.log()
            ))
        };
        let n = l.i;
        if let Some(e) = sh.borrow().conns[n].bad.clone() {
            return tell(l, e);
        }
        let idle = {
            let s = sh.borrow();
            let r = &s.conns[n];
            r.ready == [Ready::Yes; 2] && !r.held
        };
        if !l.over {
            if !idle || !up {
                // it waits
                if l.task.done() {
                    return tell(l, "the connection ends".into());
                }
                return Ok(());
            }
            // told of everything, once
            let due = |l: &Live| {
                let mut a = sh.borrow().conns[n].told.clone();
                let mut b = l.want.clone();
                a.sort_unstable();
                b.sort_unstable();
                a == b
            };
            let mut w = 0;
            while !due(l) && w < 10 {
                l.r.settle().await;
                sleep_ms(if w < 5 { 2 } else { 25 }).await;
                w += 1;
            }
            if !due(l) {
                return tell(l, format!("to be told: {:?}", l.want));
            }
            if l.task.done() {
                return tell(l, "the connection ends".into());
            }
            let mut s = sh.borrow_mut();
            let r = &mut s.conns[n];
            r.late = false;
            let want = if client { [0, 1] } else { [1, 1] };
            if r.made != want || r.alive != want.map(|x| x as i32) || r.shut != [0, 0] || r.closed != 0 {
                drop(s);
                return tell(l, "the connection is open".into());
            }
            return Ok(());
        }
        if !idle && !l.aborted && l.cause.is_none() {
            // services are waited for
            return Ok(());
        }
        if sh.borrow().conns[n].held && !l.aborted {
            return Ok(());
        }
        // the end
        if !l.aborted && !l.r.until(|_| l.task.done()).await {
            l.peer.close().await;
            if !l.r.until(|_| l.task.done()).await {
                return tell(l, "the connection is over, its task does not end".into());
            }
        }
        let zero = |s: &Sh| s.conns[n].alive == [0, 0] && s.conns[n].running == 0;
        l.r.until(|_| zero(&sh.borrow())).await;
        let s = sh.borrow();
        let r = &s.conns[n];
        if r.alive != [0, 0] {
            drop(s);
            return tell(l, "a service is kept after the end".into());
        }
        if r.state != 0 {
            drop(s);
            return tell(l, "the state is kept after the end".into());
        }
        if l.aborted {
            if r.closed > 1 || r.shut.iter().any(|n| *n > 1) {
                drop(s);
                return tell(l, "the end is told more than once".into());
            }
        } else if up || client {
            let want = if client { [0, 1] } else { [1, 1] };
            // a service that cannot be called cannot be told
            let told = u32::from(!r.failed[1]);
            if r.made != want || r.shut != want || r.closed != told {
                drop(s);
                return tell(l, format!("the connection is over: services are to be made and shut down {want:?}, the end is to be told {told} times"));
            }
        } else if r.closed > 0 || r.calls > 0 {
            drop(s);
            return tell(l, "services of a connection that is refused are called".into());
        }
        let got = l.task.slot.borrow().clone();
        drop(s);
        if let Some(w) = l.result {
            match &got {
                Some(Err(e)) if e == w => {}
                r => return tell(l, format!("the connection ends with {r:?}, not {w}")),
            }
        }
        if let Some(j) = l.cause {
            if got != Some(Err("Service".into())) {
                return tell(l, format!("a service failed, the connection ends with {got:?}"));
            }
            l.r.settle().await;
            let f = l.r.items.iter().rev().find_map(|i| match i {
                Item::Frame(f) if f.code == wire::CLOSE => Some(f.f.first().map(|v| format!("{v:?}")).unwrap_or_default()),
                _ => None,
            });
            if !f.is_some_and(|f| f.contains(["pub failed", "ctl failed"][j])) {
                return tell(l, "the peer is not told why a service failed".into());
            }
        }
        if !l.peer.is_closed() {
            l.r.settle().await;
            if !l.r.until(|_| l.peer.is_closed()).await {
                return tell(l, "the stream is left open".into());
            }
        }
        Ok(())
    }
}

fn server(sh: &Shared) -> impl Fn() -> Server<Tok, HsFactory, CtlFactory, PubFactory> {
    let sh = sh.clone();
    move || {
        Server::build(HsFactory(sh.clone())).control(CtlFactory(sh.clone())).finish(PubFactory(sh.clone()))
    }
}
struct HsFactory(Shared);
impl ServiceFactory<Handshake, SharedCfg> for HsFactory {
    type Response = HandshakeAck<Tok>;
    type Error = HsErr;
    type Service = Hs;
    type InitError = &'static str;
    async fn create(&self, _: SharedCfg) -> Result<Hs, &'static str> {
        Ok(Hs(self.0.clone()))
    }
}
struct PubFactory(Shared);
impl ServiceFactory<Message, State<Tok>> for PubFactory {
    type Response = ();
    type Error = Error;
    type Service = Pub;
    type InitError = &'static str;
    async fn create(&self, st: State<Tok>) -> Result<Pub, &'static str> {
        make(0, &st, &self.0).await.map(Pub)
    }
}
struct CtlFactory(Shared);
impl ServiceFactory<ControlFrame, State<Tok>> for CtlFactory {
    type Response = ();
    type Error = Error;
    type Service = Ctl;
    type InitError = &'static str;
    async fn create(&self, st: State<Tok>) -> Result<Ctl, &'static str> {
        make(1, &st, &self.0).await.map(Ctl)
    }
}

async fn run(c: LCase) -> (Result<(), String>, Vec<&'static str>) {
    let sh: Shared = Rc::new(RefCell::new(Sh { conns: vec![], hs_shut: 0, act: Rc::default() }));
    for x in &c.conns {
        let held = !c.client && x.accept && (x.publ == Made::Held || (x.ctl == Made::Held && x.publ == Made::Ok));
        sh.borrow_mut().conns.push(Rec {
            c: x.clone(),
            made: [0; 2],
            shut: [0; 2],
            alive: [0; 2],
            ready: [Ready::Yes; 2],
            failed: [false; 2],
            late: held,
            wakers: vec![],
            held,
            closed: 0,
            calls: 0,
            running: 0,
            state: 0,
            told: vec![],
            bad: None,
            sink: None,
        });
    }
    let mut w = World { c, sh, live: vec![], srv: None, labels: vec![] };
    let r = drive(&mut w).await;
    (r, w.labels)
}

async fn drive(w: &mut World) -> Result<(), String> {
    let cfg = shared(AmqpServiceConfig::new());
    let sh = w.sh.clone();
    let mut stop: Option<Box<dyn FnOnce() -> LocalFut<()>>> = None;
    if w.c.client {
        let n = Rc::new(Cell::new(0));
        let with_state = w.c.state;
        w.srv = Some(Rc::new(move |io, _| {
            let (cfg, sh, n) = (cfg.clone(), sh.clone(), n.clone());
            Box::pin(async move {
                let i = n.get();
                n.set(i + 1);
                let io = IoBoxed::from(Io::new(io, cfg.clone()));
                let conn: client::ConnectorService<String, _> = client::Connector::new().create(cfg).await.ok().expect("connector");
                let c = conn.negotiate(io, None).await.map_err(|e| format!("{e:?}"))?;
                sh.borrow_mut().conns[i].sink = Some(c.sink());
                let svc = Ctl(Svc::new(1, i, &sh));
                if with_state {
                    sh.borrow_mut().conns[i].state += 1;
                    c.state(Tok(i, sh.clone())).start(svc).await.map_err(|e| format!("{e:?}"))
                } else {
                    c.start(svc).await.map_err(|e| format!("{e:?}"))
                }
            })
        }));
    } else {
        let srv = server(&sh)();
        let a = Pipeline::new(ServiceFactory::<IoBoxed, SharedCfg>::create(&srv, cfg.clone()).await.ok().expect("server"));
        let b = Pipeline::new(ServiceFactory::<Io<ntex_io::Base>, SharedCfg>::create(&srv, cfg.clone()).await.ok().expect("server"));
        let (a2, b2) = (a.clone(), b.clone());
        w.srv = Some(Rc::new(move |io, plain| {
            let (a, b, cfg) = (a2.clone(), b2.clone(), cfg.clone());
            Box::pin(async move {
                let io = Io::new(io, cfg);
                if plain { b.call(io).await } else { a.call(IoBoxed::from(io)).await }.map_err(|e| name(&e))
            })
        }));
        stop = Some(Box::new(move || {
            Box::pin(async move {
                a.shutdown::<IoBoxed>().await;
                b.shutdown::<ntex_io::Io<ntex_io::Base>>().await;
            })
        }));
    }
    let ops = w.c.ops.clone();
    w.start().await?;
    for (k, op) in &ops {
        w.op(*k, op).await?;
        for i in 0..w.live.len() {
            w.settle(i).await?;
            w.check(i).await?;
        }
        if w.sh.borrow().hs_shut != 0 {
            return Err("the handshake service is shut down".into());
        }
    }
    // the end of all
    for i in 0..w.live.len() {
        {
            let n = w.live[i].i;
            let mut s = w.sh.borrow_mut();
            for r in &mut s.conns[n].ready {
                if *r == Ready::No {
                    *r = Ready::Yes;
                }
            }
            s.conns[n].wake();
        }
        if w.sh.borrow().conns[w.live[i].i].held {
            w.release(i);
        }
        w.settle(i).await?;
        w.check(i).await?;
        if !w.live[i].over {
            w.live[i].over = true;
            w.live[i].peer.close().await;
            w.settle(i).await?;
            w.check(i).await?;
        }
    }
    if let Some(stop) = stop {
        if w.sh.borrow().hs_shut != 0 {
            return Err("the handshake service is shut down".into());
        }
        stop().await;
        if w.sh.borrow().hs_shut != 2 {
            return Err(format!("two servers are shut down, their handshake services {} times", w.sh.borrow().hs_shut));
        }
    }
    Ok(())
}

fn e27(c: &LCase, case: &mut Case) -> Result<(), String> {
    let (r, labels) = block_on(run(c.clone()));
    for l in labels {
        case.label(l);
    }
    case.nontrivial();
    r
}

fn conn() -> impl Strategy<Value = Conn> {
    let made = || prop_oneof![8 => Just(Made::Ok), 1 => Just(Made::Fail), 2 => Just(Made::Held)];
    (prop::bool::weighted(0.93), made(), made(), any::<u64>(), select(vec![0u8, 0, 0, 1, 7]), 0..9u8, 0..9u8, any::<bool>())
        .prop_map(|(accept, publ, ctl, enc, frag, call, shut, plain_io)| Conn { accept, publ, ctl, enc, frag, call, shut, plain_io })
}
fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        3 => Just(Op::Start),
        3 => Just(Op::Session),
        4 => Just(Op::Attach),
        4 => Just(Op::Transfer),
        2 => Just(Op::Detach),
        2 => any::<bool>().prop_map(|ctl| Op::Busy { ctl }),
        3 => any::<bool>().prop_map(|ctl| Op::Resume { ctl }),
        2 => Just(Op::Release),
        1 => any::<bool>().prop_map(|ctl| Op::Fail { ctl }),
        1 => select(vec![Op::PeerClose, Op::AppClose, Op::Cut, Op::Garbage, Op::Abort]),
    ]
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "E27",
        rule: "every history is non-trivial: it makes at least one connection and follows its services to their end",
        assumptions: &["a service that is not ready at the end of its connection is waited for, calls that waited with it are made all the same", "the publish service is not told of a detach that comes before its link is attached"],
        spin_secs: None,
        subs: vec![sub(
            "lives",
            6000,
            200_000,
            |_| {
                (prop::bool::weighted(0.25), any::<bool>(), vec(conn(), 1..4), vec((any::<u8>(), op()), 1..30))
                    .prop_map(|(client, state, conns, ops)| LCase { client, state, conns, ops })
                    .boxed()
            },
            e27,
        )],
    }]
}
