//! Model-based histories: one endpoint of the library against a modelled conforming peer.
//!
//! Every operation of a generated history is interpreted against the model (inapplicable ones are
//! skipped), everything the endpoint writes is checked frame by frame against the model, and at
//! every quiescent point the model says what must have happened.  Violations carry the ids of the
//! properties they break.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::rc::Rc;

use ntex_amqp::codec::protocol::{self as p, DeliveryState, TransferBody};
use ntex_amqp::error::AmqpProtocolError;
use ntex_amqp::types::Message as PubMsg;
use ntex_amqp::{
    AmqpServiceConfig, ConnectionRef, ControlFrame, ControlFrameKind, Delivery, ReceiverLink,
    SenderLink, Session,
};
use ntex_bytes::{ByteString, Bytes};
use ntex_io::testing::IoTest;
use ntex_util::channel::oneshot;
use serde::{Deserialize, Serialize};

use crate::conv;
use crate::refcodec::Val;
use crate::sut::*;
use crate::wire::{self, Enc, Item, WF, Xfer};

mod ops;
mod rest;

type PE = AmqpProtocolError;

// ------------------------------------------------------------------ input

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WCfg {
    pub server: bool,
    /// max-frame-size the peer announces
    pub peer_frame: u32,
    /// max-frame-size the endpoint announces
    pub sut_frame: u32,
    pub peer_chan: u16,
    pub sut_chan: u16,
    /// peer writes are cut into pieces of at most this many bytes (0: not cut)
    pub frag: u8,
    /// 0: canonical encodings
    pub enc: u64,
    /// peer's initial next-outgoing-id
    pub base_id: u32,
    /// peer's initial delivery-count
    pub base_dc: u32,
    /// peer answers begin/attach/detach/end by itself
    pub auto: bool,
    /// default session window of the peer
    pub win: u32,
    /// receiver limit given to links attached by the peer (None: library default)
    pub rlimit: Option<u32>,
    /// credit is granted by the peer / application when a link is attached
    pub prime: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    // peer
    PBegin { ch: u8, win: u8 },
    PAnswerBegin { i: u8, ch: u8, win: u8 },
    PAttach { s: u8, name: u8, sut_sender: bool, handle: u8, addr: u8, verdict: u8, limit: u8 },
    PAnswerAttach { i: u8, handle: u8, refuse: bool, limit: u8 },
    PFlow { l: u8, credit: u8, stale: u8, echo: bool, win: u8, nodc: bool },
    PSessFlow { s: u8, win: u8, omit: bool, echo: bool },
    PXfer { l: u8, size: u16, parts: u8, settled: u8, tag: u8, fmt: bool, burst: u8, abort: bool, over: bool },
    PMore { l: u8, n: u8 },
    PDisp { s: u8, lo: u8, n: u8, kind: u8, settled: bool, unknown: bool },
    PSettle { d: u8, n: u8, state: bool },
    PDetach { l: u8, err: bool, open: bool },
    PEnd { s: u8, err: bool },
    PClose { err: bool },
    PEmpty { ch: u8 },
    PAnswer { i: u8 },
    // application
    SOpen,
    SEnd { s: u8 },
    SAttach { s: u8, name: u8, sender: bool, limit: u8, addr: u8 },
    SSend { l: u8, size: u16, settled: bool, tag: u8, fmt: bool, msg: bool },
    SCancel { i: u8 },
    SReady { l: u8 },
    SWait { d: u8 },
    SDropDel { d: u8 },
    SSettleDel { d: u8 },
    SCredit { l: u8, n: u8 },
    SRecv { l: u8, wait: bool },
    SSettle { d: u8, kind: u8 },
    SUpdate { d: u8, kind: u8 },
    SDropRcv { d: u8 },
    SCloseLink { l: u8, err: bool, detach: bool },
    SClose { err: bool },
    Release { i: u8, ok: bool },
    Cut { kind: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub cfg: WCfg,
    /// operation and what follows it: 0..=5 scheduler turns, otherwise run until quiescent
    pub ops: Vec<(Op, u8)>,
    /// how the history ends: 0 nothing, 1 cut, 2 peer closes, 3 endpoint closes, 4 ends, 5 detaches
    pub fin: u8,
}

pub struct Viol {
    pub props: Vec<&'static str>,
    pub msg: String,
}

// ------------------------------------------------------------------ model

#[derive(Default)]
struct MSess {
    by_sut: bool,
    sut_ch: Option<u16>,
    peer_ch: Option<u16>,
    sut_begin: bool,
    peer_begin: bool,
    sut_end: bool,
    peer_end: bool,
    end_called: bool,
    /// the session was usable when the application ended it
    end_live: bool,
    obj: Option<Session>,
    open_failed: bool,
    open_task: Option<Task<Result<Session, PE>>>,
    end_task: Option<Task<Result<(), PE>>>,
    peer_err: bool,
    // endpoint -> peer
    out_first: u32,
    out_frames: u32,
    next_delivery: Option<u32>,
    /// (next-incoming-id, window) pairs the endpoint may be working with; the last one is current
    win: Vec<(u32, u32)>,
    // peer -> endpoint
    in_first: u32,
    in_frames: u32,
    in_frames_q: u32,
    next_in_delivery: u32,
    echo_req: u32,
    echo_ans: u32,
    links_ever: u32,
    /// dispositions the application asked for
    exp_disp: VecDeque<ExpDisp>,
    disps: Vec<PDisp>,
    /// dispositions certainly processed by the endpoint
    disps_q: usize,
    /// received deliveries the peer settled
    in_settled: HashSet<u32>,
    in_settled_q: HashSet<u32>,
}

#[derive(Debug)]
struct ExpDisp {
    id: u32,
    settled: bool,
    state: Option<Val>,
    /// may be absent (the peer had settled, or the link is gone)
    optional: bool,
    rd: usize,
}

/// disposition sent by the peer (role receiver)
struct PDisp {
    first: u32,
    last: u32,
    settled: bool,
    state: Option<Val>,
}

#[derive(Default)]
struct MLink {
    sess: usize,
    name: String,
    sut_sender: bool,
    by_sut: bool,
    sut_handle: Option<u32>,
    peer_handle: Option<u32>,
    sut_att: bool,
    peer_att: bool,
    sut_det: bool,
    peer_det: bool,
    close_called: bool,
    close_live: bool,
    close_err: Option<String>,
    peer_err: bool,
    primed: bool,
    /// the test services were told to refuse / hold it
    refused: bool,
    held: bool,
    peer_refused: bool,
    must_detach: Option<&'static str>,
    may_detach: bool,
    sobj: Option<SenderLink>,
    robj: Option<ReceiverLink>,
    satt: Option<Task<Result<SenderLink, PE>>>,
    ratt: Option<Task<Result<ReceiverLink, PE>>>,
    att_failed: bool,
    close_task: Option<Task<Result<(), PE>>>,
    // sender
    idc: u32,
    count: u32,
    /// (delivery-count, credit) pairs the endpoint may be working with; the last one is current
    lim: Vec<(u32, u32)>,
    ever_credit: bool,
    cur: Option<CurOut>,
    sends: VecDeque<usize>,
    slimit: Option<u64>,
    auto_tags: HashSet<Vec<u8>>,
    // receiver
    rlimit: u64,
    /// limit to answer the attach with
    alimit: u8,
    granted: u64,
    granted_wire: u64,
    started: u64,
    finished: u64,
    finished_q: u64,
    aborted: u64,
    exp_grants: VecDeque<u32>,
    p_dc: u32,
    outq: VecDeque<Xfer>,
    cur_in: Option<RDel>,
    cur_size: u64,
    ready_in: VecDeque<RDel>,
    recv_task: Option<Task<Option<Result<(Delivery, p::Transfer), PE>>>>,
    /// deliveries that certainly can be obtained
    sure: usize,
    /// deliveries may have been dropped
    lossy: bool,
    good_in: u64,
    published: u64,
    stream_over: bool,
    ready_tasks: Vec<Task<bool>>,
    win_blocked: bool,
}

struct CurOut {
    send: usize,
    body: Vec<u8>,
}

#[derive(Clone, Debug)]
struct RDel {
    id: u32,
    tag: Vec<u8>,
    fmt: Option<u32>,
    settled: bool,
    body: Vec<u8>,
    /// complete but beyond a limit: must not be handed over
    bad: bool,
}

struct MSend {
    link: usize,
    body: Vec<u8>,
    settled: bool,
    tag: Option<Vec<u8>>,
    fmt: Option<u32>,
    too_large: bool,
    task: Task<Result<Delivery, PE>>,
    wire_id: Option<u32>,
    wire_tag: Vec<u8>,
    wire_done: bool,
    reported: bool,
    after_gone: bool,
    ok: bool,
    /// id and tag reported, not yet compared
    lib_id: Option<(u32, Vec<u8>)>,
}

struct SDel {
    link: usize,
    sess: usize,
    id: u32,
    presettled: bool,
    del: Option<Rc<Delivery>>,
    wait: Option<WaitRec>,
    waited: u32,
    dropped: bool,
    settled_by_sut: bool,
    /// dispositions consumed by an earlier wait
    consumed: usize,
}

struct WaitRec {
    task: Task<Result<Option<DeliveryState>, PE>>,
    /// dispositions of the session processed for sure when it started
    from: usize,
}

/// delivery received by the application
struct RHeld {
    link: usize,
    sess: usize,
    id: u32,
    del: Option<Delivery>,
    presettled: bool,
    settled: bool,
}

#[derive(Clone)]
enum Ev {
    CtlSender(String, SenderLink),
    CtlReceiver(String, ReceiverLink),
    PubAttached(String),
    PubTransfer(ReceiverLink),
    PubDetached(ReceiverLink),
    PubDetachedAll(usize),
    RemoteClose(String),
    Closed,
    Other(&'static str),
}

#[derive(Default)]
struct Shared {
    events: Vec<Ev>,
    /// verdicts by link name: 0 accept, 1 refuse, 2 hold; and where (control or publish)
    verdicts: HashMap<String, (u8, Option<u64>)>,
    holds: Vec<(String, oneshot::Sender<bool>)>,
}

pub struct World<'a> {
    h: &'a Hist,
    io: Option<IoTest>,
    ep: Endpoint,
    sink: Option<ConnectionRef>,
    sh: Rc<RefCell<Shared>>,
    act: Rc<Cell<u64>>,
    enc: Enc,
    buf: Vec<u8>,
    sess: Vec<MSess>,
    links: Vec<MLink>,
    sends: Vec<MSend>,
    sdels: Vec<SDel>,
    rheld: Vec<RHeld>,
    pub trace: Vec<String>,
    pub viol: Vec<Viol>,
    pub stat: BTreeMap<&'static str, u64>,
    sut_close: bool,
    close_called: bool,
    peer_close: bool,
    cut: bool,
    dead: bool,
    close_err: Option<String>,
    names_seen: HashMap<String, usize>,
    turn: usize,
    in_seq: usize,
    told: HashSet<String>,
    broken: bool,
}

const NAMES: [&str; 6] = ["n0", "n1", "n2", "n3", "n4", "n5"];
const CREDITS: [u32; 16] = [0, 1, 1, 2, 2, 3, 3, 5, 5, 8, 10, 20, 50, 100, 1000, u32::MAX];
const WINS: [u32; 12] = [0, 1, 2, 3, 4, 5, 8, 16, 64, 1000, 65535, u32::MAX];
const LIMITS: [Option<u64>; 10] =
    [None, Some(0), Some(1), Some(16), Some(100), Some(300), Some(512), Some(1000), Some(3000), Some((1 << 33) + 8)];

/// what is left of a grant of `n` counted from `from`, at position `at`
fn left(g: (u32, u32), at: u32) -> u32 {
    g.1.saturating_sub(at.wrapping_sub(g.0))
}

impl<'a> World<'a> {
    fn v(&mut self, props: &[&'static str], msg: String) {
        self.trace.push(format!("!! {props:?} {msg}"));
        if self.viol.len() < 40 {
            self.viol.push(Viol { props: props.to_vec(), msg });
        }
    }
    fn t(&mut self, s: String) {
        if self.trace.len() < 4000 {
            self.trace.push(format!("[{}] {s}", self.turn));
        }
    }
    fn st(&mut self, k: &'static str) {
        *self.stat.entry(k).or_default() += 1;
    }
}

fn state_val(s: &DeliveryState) -> Option<Val> {
    conv::Fld::to_val(s).ok()
}

/// distinguishable delivery states
fn pstate(kind: u8, n: usize) -> Option<Val> {
    Some(match kind % 8 {
        0 | 1 => wire::accepted(),
        2 => wire::rejected(Some(wire::error("amqp:not-allowed", Some(&format!("d{n}"))))),
        3 => wire::released(),
        4 => conv::mk(
            0x27,
            vec![
                Val::Bool(n % 2 == 0),
                Val::Bool(false),
                Val::Map(vec![(Val::sym("x-opt-n"), Val::Uint(n as u32))]),
            ],
        ),
        5 => wire::received(n as u32, n as u64 * 3),
        6 => wire::rejected(None),
        _ => return None,
    })
}

fn lib_state(kind: u8, n: usize) -> DeliveryState {
    match kind % 6 {
        0 | 1 => DeliveryState::Accepted(p::Accepted {}),
        2 => DeliveryState::Rejected(p::Rejected {
            error: Some(
                p::Error::build()
                    .condition(p::ErrorCondition::AmqpError(p::AmqpError::NotAllowed))
                    .description(ByteString::from(format!("s{n}")))
                    .finish(),
            ),
        }),
        3 => DeliveryState::Released(p::Released {}),
        4 => DeliveryState::Modified(p::Modified {
            delivery_failed: Some(n % 2 == 0),
            undeliverable_here: None,
            message_annotations: None,
        }),
        _ => DeliveryState::Received(p::Received { section_number: n as u32, section_offset: 7 }),
    }
}

fn body(owner: usize, n: usize, size: usize) -> Vec<u8> {
    let mut b = Vec::with_capacity(size);
    b.extend_from_slice(&(n as u32).to_be_bytes());
    b.extend_from_slice(&(owner as u16).to_be_bytes());
    let mut x = (n as u32).wrapping_mul(0x9e37_79b9) ^ 0x55aa;
    while b.len() < size {
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        b.push(x as u8);
    }
    b.truncate(size);
    b
}

fn verdict_future(sh: &Rc<RefCell<Shared>>, name: &str, refuse: u8, hold: u8) -> LocalFut<Result<(), p::Error>> {
    let code = sh.borrow().verdicts.get(name).map_or(0, |v| v.0);
    let refused = || {
        p::Error::build()
            .condition(p::ErrorCondition::AmqpError(p::AmqpError::NotFound))
            .description(ByteString::from_static("refused"))
            .finish()
    };
    if code == refuse {
        Box::pin(async move { Err(refused()) })
    } else if code == hold {
        let (tx, rx) = oneshot::channel();
        sh.borrow_mut().holds.push((name.to_string(), tx));
        Box::pin(async move {
            match rx.await {
                Ok(true) => Ok(()),
                _ => Err(refused()),
            }
        })
    } else {
        Box::pin(async move { Ok(()) })
    }
}

impl<'a> World<'a> {
    pub async fn run(h: &'a Hist) -> World<'a> {
        let mut w = World::connect(h).await;
        if !w.broken {
            for (i, (op, after)) in h.ops.iter().enumerate() {
                w.turn = i;
                w.op(op).await;
                w.pump();
                if *after <= 5 {
                    yields(*after as usize).await;
                } else {
                    w.quiesce().await;
                }
                if w.viol.len() > 8 {
                    break;
                }
            }
            w.turn = h.ops.len();
            w.quiesce().await;
            w.finish().await;
        }
        w
    }

    async fn connect(h: &'a Hist) -> World<'a> {
        let (client, server) = IoTest::create();
        client.remote_buffer_cap(1 << 30);
        let sh: Rc<RefCell<Shared>> = Rc::default();
        let cfg = AmqpServiceConfig::new()
            .set_max_frame_size(h.cfg.sut_frame)
            .set_channel_max(h.cfg.sut_chan);
        let rlimit = h.cfg.rlimit;
        let ctl: CtlFn = {
            let sh = sh.clone();
            Rc::new(move |f: &ControlFrame| {
                let ev;
                let mut fut: LocalFut<Result<(), p::Error>> = Box::pin(async { Ok(()) });
                match f.kind() {
                    ControlFrameKind::AttachSender(a, _, l) => {
                        let n = a.name().to_string();
                        fut = verdict_future(&sh, &n, 1, 2);
                        ev = Ev::CtlSender(n, l.clone());
                    }
                    ControlFrameKind::AttachReceiver(a, _, l) => {
                        let n = a.name().to_string();
                        if let Some(lim) = rlimit {
                            l.set_max_message_size(lim as u64);
                        }
                        fut = verdict_future(&sh, &n, 1, 2);
                        ev = Ev::CtlReceiver(n, l.clone());
                    }
                    ControlFrameKind::ProtocolError(e) => ev = Ev::RemoteClose(format!("{e:?}")),
                    ControlFrameKind::Closed => ev = Ev::Closed,
                    ControlFrameKind::Disconnected(_) => ev = Ev::Other("disconnected"),
                    _ => ev = Ev::Other("control"),
                }
                sh.borrow_mut().events.push(ev);
                fut
            })
        };
        let publish: PubFn = {
            let sh = sh.clone();
            Rc::new(move |m: PubMsg| {
                let mut fut: LocalFut<Result<(), p::Error>> = Box::pin(async { Ok(()) });
                let ev = match m {
                    PubMsg::Attached(a, _) => {
                        let n = a.name().to_string();
                        fut = verdict_future(&sh, &n, 3, 4);
                        Ev::PubAttached(n)
                    }
                    PubMsg::Transfer(l) => Ev::PubTransfer(l),
                    PubMsg::Detached(l) => Ev::PubDetached(l),
                    PubMsg::DetachedAll(l) => Ev::PubDetachedAll(l.len()),
                };
                sh.borrow_mut().events.push(ev);
                fut
            })
        };
        let ep = if h.cfg.server {
            start_server(server, cfg, ctl, publish)
        } else {
            start_client(server, cfg, None, None, ctl)
        };
        let act = ep.activity.clone();
        let mut w = World {
            h,
            io: Some(client),
            ep,
            sink: None,
            sh,
            act,
            enc: Enc::new(h.cfg.enc),
            buf: vec![],
            sess: vec![],
            links: vec![],
            sends: vec![],
            sdels: vec![],
            rheld: vec![],
            trace: vec![],
            viol: vec![],
            stat: BTreeMap::new(),
            sut_close: false,
            close_called: false,
            peer_close: false,
            cut: false,
            dead: false,
            close_err: None,
            names_seen: HashMap::new(),
            turn: 0,
            in_seq: 0,
            told: HashSet::new(),
            broken: false,
        };
        let open = wire::open("peer", None, h.cfg.peer_frame, h.cfg.peer_chan, None);
        let open = w.enc.frame(0, 0, &open, &[]);
        let mut out = wire::HDR_AMQP.to_vec();
        out.extend_from_slice(&open);
        w.write(&out).await;
        let mut items = vec![];
        for _ in 0..400 {
            yields(1).await;
            w.buf.extend_from_slice(&w.io.as_ref().unwrap().read_any());
            match wire::read_all(&mut w.buf) {
                Ok(l) => items.extend(l),
                Err(e) => {
                    w.v(&["*"], e);
                    w.broken = true;
                    return w;
                }
            }
            if items.len() >= 2 && w.ep.sink.borrow().is_some() {
                break;
            }
        }
        match &items[..] {
            [Item::Header(hd), Item::Frame(f)] if *hd == wire::HDR_AMQP && f.code == wire::OPEN => {}
            _ => {
                w.v(&["E13", "C07"], format!("handshake produced {items:?}, {:?}", w.ep.error.borrow()));
                w.broken = true;
                return w;
            }
        }
        let sink = w.ep.sink.borrow().clone();
        match sink {
            Some(s) => w.sink = Some(s),
            None => {
                w.v(&["E13"], format!("no connection after open: {:?}", w.ep.error.borrow()));
                w.broken = true;
            }
        }
        yields(20).await;
        w
    }

    async fn write(&mut self, b: &[u8]) {
        let Some(io) = &self.io else { return };
        if self.h.cfg.frag == 0 {
            io.write(b);
        } else {
            for (i, c) in b.chunks(self.h.cfg.frag as usize).enumerate() {
                io.write(c);
                if i < 40 {
                    yields(1).await;
                }
            }
        }
    }

    async fn send(&mut self, ch: u16, v: Val, payload: &[u8]) {
        let bytes = self.enc.frame(0, ch, &v, payload);
        if let Ok(f) = wire::parse_frame(&bytes) {
            self.t(format!("peer> {}", f.brief()));
        }
        self.write(&bytes).await;
    }

    // ---------------------------------------------------------------- views

    fn conn_live(&self) -> bool {
        !self.cut && !self.peer_close && !self.close_called && !self.sut_close && !self.dead
    }
    fn sess_live(&self, s: usize) -> bool {
        let m = &self.sess[s];
        self.conn_live() && m.sut_begin && m.peer_begin && !m.sut_end && !m.peer_end
    }
    /// the application may use the session
    fn link_live(&self, l: usize) -> bool {
        let m = &self.links[l];
        self.sess_live(m.sess) && m.sut_att && m.peer_att && !m.sut_det && !m.peer_det
    }
    fn link_api(&self, l: usize) -> bool {
        let m = &self.links[l];
        self.link_live(l) && !m.close_called && (m.sobj.is_some() || m.robj.is_some())
            && !self.sess[m.sess].end_called
    }
    fn sess_gone(&self, s: usize) -> bool {
        let m = &self.sess[s];
        self.conn_gone() || (m.peer_end && (m.sut_end || !m.sut_begin))
    }
    fn conn_gone(&self) -> bool {
        self.cut || self.dead || self.peer_close || self.sut_close || self.close_called
    }
    fn link_gone(&self, l: usize) -> bool {
        let m = &self.links[l];
        self.sess_gone(m.sess) || (m.sut_det && m.peer_det)
    }
    /// the endpoint has shown that it knows
    fn link_gone_known(&self, l: usize) -> bool {
        let m = &self.links[l];
        self.sut_close || self.dead || self.sess[m.sess].sut_end || m.sut_det
    }
    fn pick<F: Fn(usize) -> bool>(&self, n: usize, i: u8, f: F) -> Option<usize> {
        let l: Vec<usize> = (0..n).filter(|x| f(*x)).collect();
        if l.is_empty() { None } else { Some(l[i as usize % l.len()]) }
    }
    fn pick_sess<F: Fn(usize) -> bool>(&self, i: u8, f: F) -> Option<usize> {
        self.pick(self.sess.len(), i, f)
    }
    fn pick_link<F: Fn(usize) -> bool>(&self, i: u8, f: F) -> Option<usize> {
        self.pick(self.links.len(), i, f)
    }
    fn name_free(&self, n: &str) -> bool {
        self.links.iter().enumerate().all(|(i, l)| {
            l.name != n || self.link_gone(i) || self.sess_gone(l.sess) || {
                // ended by both sides, or never attached because the session went away
                let m = &self.sess[l.sess];
                m.sut_end && m.peer_end
            }
        })
    }
    fn nii(&self, s: usize) -> u32 {
        let m = &self.sess[s];
        m.out_first.wrapping_add(m.out_frames)
    }
    fn noi(&self, s: usize) -> u32 {
        let m = &self.sess[s];
        m.in_first.wrapping_add(m.in_frames)
    }

    // ---------------------------------------------------------------- reading

    fn pump(&mut self) {
        self.collect();
        if let Some(io) = &self.io {
            let b = io.read_any();
            self.buf.extend_from_slice(&b);
            // the stream forgets about the rest when one read does not take everything
            if io.remote_buffer(|b| !b.is_empty()) {
                io.write([]);
            }
        }
        let buf = std::mem::take(&mut self.buf);
        let mut pos = 0;
        loop {
            match wire::next_item(&buf, &mut pos) {
                Ok(None) => break,
                Ok(Some(Item::Header(_))) => self.v(&["E13"], "second protocol header".into()),
                Ok(Some(Item::Frame(f))) => {
                    let s = format!("sut>  {}", f.brief());
                    self.t(s);
                    self.on_frame(f);
                }
                Err(e) => {
                    self.v(&["*"], e);
                    pos = buf.len();
                    break;
                }
            }
        }
        self.buf = buf;
        self.buf.drain(..pos);
        let evs = std::mem::take(&mut self.sh.borrow_mut().events);
        for e in evs {
            self.on_event(e);
        }
        self.collect();
        if self.ep.done.borrow().is_some() && !self.dead {
            self.dead = true;
            let s = format!("{:?}", self.ep.done.borrow());
            self.t(format!("connection task done: {s}"));
            if !self.cut && !self.peer_close && !self.close_called && !self.sut_close {
                self.v(
                    &["E15", "E06", "E07", "E08", "E11", "E12", "E13", "E20", "E05", "E10", "E01", "E02", "E03", "E09"],
                    format!("connection ended although the peer kept to the protocol: {s}"),
                );
            }
        }
    }

    fn on_event(&mut self, e: Ev) {
        match e {
            Ev::CtlSender(n, l) => {
                self.t(format!("ctl attach sender {n}"));
                if let Some(i) = self.links.iter().rposition(|m| m.name == n && m.sut_sender && !m.by_sut) {
                    self.links[i].sobj = Some(l);
                }
            }
            Ev::CtlReceiver(n, l) => {
                self.t(format!("ctl attach receiver {n}"));
                if let Some(i) = self.links.iter().rposition(|m| m.name == n && !m.sut_sender && !m.by_sut) {
                    self.links[i].robj = Some(l);
                }
            }
            Ev::PubAttached(n) => self.t(format!("publish attached {n}")),
            Ev::PubTransfer(l) => {
                let i = self.links.iter().position(|m| m.robj.as_ref() == Some(&l));
                self.t(format!("publish transfer {i:?}"));
                if let Some(i) = i {
                    self.links[i].published += 1;
                }
            }
            Ev::PubDetached(_) => self.t("publish detached".into()),
            Ev::PubDetachedAll(n) => self.t(format!("publish detached all {n}")),
            Ev::RemoteClose(e) => self.t(format!("ctl error {}", e.chars().take(100).collect::<String>())),
            Ev::Closed => self.t("ctl closed".into()),
            Ev::Other(s) => self.t(format!("ctl {s}")),
        }
    }

    fn on_frame(&mut self, f: WF) {
        if f.ftype != 0 {
            self.v(&["E16", "E13"], "sasl frame after the open".into());
            return;
        }
        if self.sut_close {
            self.v(&["E13"], format!("frame after close: {}", f.brief()));
            return;
        }
        match f.code {
            wire::EMPTY => self.v(&["E17"], "empty frame although no idle timeout was announced".into()),
            wire::OPEN => self.v(&["E13"], "second open".into()),
            wire::CLOSE => {
                self.sut_close = true;
                if f.ch != 0 {
                    self.v(&["E13"], format!("close on channel {}", f.ch));
                }
                if !self.peer_close && !self.close_called {
                    self.v(
                        &["E13", "E15", "E06"],
                        format!("close although nobody closed: {}", f.brief()),
                    );
                } else if self.close_called && !self.peer_close {
                    let want = self.close_err.clone();
                    if f.cond(0) != want {
                        self.v(&["E13"], format!("close carries {:?}, not {want:?}", f.cond(0)));
                    }
                }
            }
            wire::BEGIN => self.on_begin(f),
            _ => {
                let Some(s) = self.sess.iter().position(|m| m.sut_ch == Some(f.ch) && !m.sut_end) else {
                    self.v(
                        &["E12"],
                        format!("frame on a channel that is not begun or was ended: {}", f.brief()),
                    );
                    return;
                };
                if self.sess[s].sut_begin && !self.sess[s].peer_begin && f.code != wire::END {
                    self.v(&["E12"], format!("frame before the peer's begin: {}", f.brief()));
                }
                match f.code {
                    wire::END => self.on_end(s, f),
                    wire::ATTACH => self.on_attach(s, f),
                    wire::DETACH => self.on_detach(s, f),
                    wire::FLOW => self.on_flow(s, f),
                    wire::TRANSFER => self.on_transfer(s, f),
                    wire::DISPOSITION => self.on_disposition(s, f),
                    _ => {}
                }
            }
        }
    }

    fn on_begin(&mut self, f: WF) {
        if let Some(s) = self.sess.iter().position(|m| m.sut_ch == Some(f.ch) && !m.sut_end) {
            self.v(&["E12"], format!("begin on channel {} which session {s} uses", f.ch));
            return;
        }
        let limit = self.h.cfg.peer_chan.min(self.h.cfg.sut_chan);
        if f.ch > limit {
            self.v(&["E18"], format!("begin on channel {} beyond the limit {limit}", f.ch));
        }
        let (first, inw) = (f.u32(1).unwrap_or(0), f.u32(2).unwrap_or(0));
        let _ = inw;
        let s = match f.u16(0) {
            Some(pch) => {
                let s = self
                    .sess
                    .iter()
                    .position(|m| !m.by_sut && m.peer_ch == Some(pch) && !m.sut_begin && m.peer_begin);
                let Some(s) = s else {
                    self.v(&["E12"], format!("begin answers channel {pch} which awaits no answer"));
                    return;
                };
                s
            }
            None => {
                let s = self
                    .sess
                    .iter()
                    .position(|m| m.by_sut && !m.sut_begin && m.open_task.is_some());
                let Some(s) = s else {
                    self.v(&["E12"], "begin that was not asked for".into());
                    return;
                };
                s
            }
        };
        let m = &mut self.sess[s];
        m.sut_ch = Some(f.ch);
        m.sut_begin = true;
        m.out_first = first;
        for w in &mut m.win {
            // window announced in the peer's begin counts from the endpoint's first id
            w.0 = first;
        }
    }

    fn on_end(&mut self, s: usize, f: WF) {
        let m = &mut self.sess[s];
        m.sut_end = true;
        if !m.peer_end && !m.end_called {
            self.v(&["E12", "E15"], format!("session {s} ended although nobody ended it: {}", f.brief()));
        }
        for i in 0..self.links.len() {
            if self.links[i].sess == s {
                self.links[i].outq.clear();
            }
        }
    }

    fn on_attach(&mut self, s: usize, f: WF) {
        let name = f.str(0).unwrap_or("").to_string();
        let handle = f.u32(1).unwrap_or(0);
        let receiver = f.bool(2).unwrap_or(false);
        if self.links.iter().any(|l| l.sess == s && l.sut_handle == Some(handle) && !l.sut_det) {
            self.v(&["E11"], format!("attach uses handle {handle} which is in use: {}", f.brief()));
            return;
        }
        let i = self
            .links
            .iter()
            .position(|l| l.sess == s && l.name == name && !l.sut_att && (l.by_sut || l.peer_att));
        let Some(i) = i else {
            self.v(&["E11"], format!("attach of {name:?} on session {s} that nobody asked for"));
            return;
        };
        let rlimit = self.h.cfg.rlimit;
        let l = &mut self.links[i];
        l.sut_att = true;
        l.sut_handle = Some(handle);
        if l.sut_sender == receiver {
            let m = format!("attach of {name:?} has the wrong role");
            self.v(&["E11"], m);
            return;
        }
        let refused = l.refused || (l.peer_det && !l.by_sut);
        if l.sut_sender {
            match f.u32(9) {
                Some(dc) => {
                    l.idc = dc;
                    for g in &mut l.lim {
                        g.0 = g.0.wrapping_add(dc);
                    }
                }
                None if refused => {}
                None => self.v(&["E11"], format!("attach of sender {name:?} without initial-delivery-count")),
            }
        } else if !l.by_sut && !refused && !l.held {
            let want = rlimit.map_or(Some(262_144), |x| if x == 0 { None } else { Some(x as u64) });
            if f.u64(10) != want && !(want.is_none() && f.u64(10) == Some(0)) {
                self.v(&["E09"], format!("attach of {name:?} announces limit {:?}, not {want:?}", f.u64(10)));
            }
            self.links[i].exp_grants.push_back(50);
            self.links[i].granted += 50;
        } else if !l.by_sut && !refused {
            l.exp_grants.push_back(50);
            l.granted += 50;
        }
    }

    fn on_detach(&mut self, s: usize, f: WF) {
        let handle = f.u32(0).unwrap_or(0);
        let i = self
            .links
            .iter()
            .position(|l| l.sess == s && l.sut_handle == Some(handle) && l.sut_att && !l.sut_det);
        let Some(i) = i else {
            self.v(&["E11"], format!("detach of a handle that is not attached: {}", f.brief()));
            return;
        };
        let l = &mut self.links[i];
        l.sut_det = true;
        l.outq.clear();
        let cond = f.cond(2);
        let ok = if l.peer_det || l.refused || l.may_detach {
            true
        } else if let Some(c) = l.must_detach {
            if cond.as_deref() != Some(c) && !l.close_called {
                let n = l.name.clone();
                self.v(
                    if c.contains("size") { &["E09"] } else { &["E08"] },
                    format!("link {n} detached with {cond:?} instead of {c}"),
                );
            }
            true
        } else {
            l.close_called
        };
        if !ok {
            let n = self.links[i].name.clone();
            let props: &[&'static str] = match cond.as_deref() {
                Some("amqp:link:transfer-limit-exceeded") => &["E08"],
                Some("amqp:link:message-size-exceeded") => &["E09"],
                _ => &["E07", "E11"],
            };
            self.v(props, format!("link {n} (l{i}) detached without reason: {}", f.brief()));
        }
    }

    fn on_flow(&mut self, s: usize, f: WF) {
        // session part
        let (nii, noi) = (f.u32(0), f.u32(2));
        let m = &self.sess[s];
        let lo = m.in_first.wrapping_add(m.in_frames_q);
        let hi_off = m.in_frames - m.in_frames_q;
        match nii {
            Some(x) if x.wrapping_sub(lo) <= hi_off => {}
            _ => {
                let s = format!(
                    "flow reports next-incoming-id {nii:?}, {} transfer frames were received from id {} on: {}",
                    m.in_frames, m.in_first, f.brief()
                );
                self.v(&["E20"], s);
            }
        }
        let want = self.nii(s);
        if noi != Some(want) {
            self.v(&["E20"], format!("flow reports next-outgoing-id {noi:?}, the next transfer has id {want}: {}", f.brief()));
        }
        if f.bool(9) == Some(true) {
            self.v(&["E20"], "flow asks for an echo by itself".into());
        }
        let Some(h) = f.u32(4) else {
            self.echo_answer(s, &f);
            return;
        };
        let i = self
            .links
            .iter()
            .position(|l| l.sess == s && l.sut_handle == Some(h) && l.sut_att && !l.sut_det);
        let Some(i) = i else {
            self.v(&["E11", "E20"], format!("flow for a handle that is not attached: {}", f.brief()));
            return;
        };
        if self.links[i].sut_sender {
            // may only be the answer to an echo request
            let l = &self.links[i];
            if f.u32(5) != Some(l.idc.wrapping_add(l.count)) {
                let m = format!("flow reports delivery-count {:?}, {} deliveries were sent from {}", f.u32(5), l.count, l.idc);
                self.v(&["E20"], m);
            }
            self.echo_answer(s, &f);
            return;
        }
        let l = &self.links[i];
        let base = l.p_dc.wrapping_sub((l.finished + l.aborted) as u32);
        let (mut lo, hi) = (l.finished_q, l.finished + l.aborted);
        lo = lo.saturating_sub(0);
        let off = f.u32(5).map(|x| x.wrapping_sub(base) as u64);
        if !off.is_some_and(|o| o >= lo && o <= hi) {
            let m = format!(
                "flow for l{i} reports delivery-count {:?}; the link started at {base} and {hi} deliveries were received: {}",
                f.u32(5), f.brief()
            );
            self.v(&["E08", "E20"], m);
        }
        let credit = f.u32(6);
        let l = &mut self.links[i];
        if l.exp_grants.front().copied() == credit && credit.is_some() {
            l.exp_grants.pop_front();
            l.granted_wire += credit.unwrap_or(0) as u64;
        } else if self.sess[s].echo_ans < self.sess[s].echo_req && l.exp_grants.is_empty() {
            self.echo_answer(s, &f);
        } else if l.peer_det && !l.by_sut && credit == Some(50) && l.granted == 0 {
            // attached before the detach that was on its way was seen
            l.granted = 50;
        } else {
            let m = format!("flow grants {credit:?} on l{i}, the application asked for {:?}", l.exp_grants);
            self.v(&["E08", "E20"], m);
        }
    }

    fn echo_answer(&mut self, s: usize, f: &WF) {
        let m = &mut self.sess[s];
        m.echo_ans += 1;
        if m.echo_ans > m.echo_req {
            self.v(&["E20"], format!("flow nobody asked for: {}", f.brief()));
        }
    }

    fn on_disposition(&mut self, s: usize, f: WF) {
        let first = f.u32(1).unwrap_or(0);
        let last = f.u32(2).unwrap_or(first);
        let settled = f.bool(3).unwrap_or(false);
        let state = match f.f.get(4) {
            Some(Val::Null) | None => None,
            Some(v) => Some(v.clone()),
        };
        if f.bool(0) == Some(true) {
            // as receiver
            let mut skipped = vec![];
            loop {
                let m = &mut self.sess[s];
                let Some(e) = m.exp_disp.front() else {
                    self.v(&["E10"], format!("disposition nobody asked for: {}; skipped {skipped:?}", f.brief()));
                    return;
                };
                // dropping a delivery rejects it with an error of the library's choice
                let same = match (&e.state, &state) {
                    (None, Some(v)) => conv::code_of(v) == 0x25,
                    (a, b) => *a == *b,
                };
                if e.id == first && last == first && e.settled == settled && same {
                    m.exp_disp.pop_front();
                    return;
                }
                if e.optional {
                    skipped.push(m.exp_disp.pop_front().unwrap());
                    continue;
                }
                let e = format!("{e:?}");
                self.v(&["E10"], format!("disposition is {}, expected {e}", f.brief()));
                self.sess[s].exp_disp.pop_front();
                return;
            }
        }
        // as sender
        let n = last.wrapping_sub(first);
        for k in 0..=n.min(1000) {
            let id = first.wrapping_add(k);
            let d = self.sdels.iter().position(|d| d.sess == s && d.id == id);
            match d {
                Some(d) if (self.sdels[d].dropped || self.sdels[d].settled_by_sut) && !self.sdels[d].presettled => {
                    if self.peer_settled_q(d) {
                        self.v(&["E05"], format!("disposition for delivery {id} which the peer settled: {}", f.brief()));
                    }
                    self.sdels[d].settled_by_sut = true;
                }
                // the send was cancelled: its delivery was dropped right away
                None if self.sends.iter().any(|x| x.wire_id == Some(id) && self.links[x.link].sess == s && x.task.cancelled) => {}
                _ => self.v(&["E05"], format!("disposition by the sender nobody asked for: {}", f.brief())),
            }
        }
    }

    fn on_transfer(&mut self, s: usize, f: WF) {
        let h = f.u32(0).unwrap_or(0);
        self.st("transfers");
        if f.size as u64 > self.h.cfg.peer_frame as u64 && self.h.cfg.peer_frame >= 512 {
            self.v(&["E04"], format!("transfer of {} bytes, the peer accepts {}", f.size, self.h.cfg.peer_frame));
        }
        let next_id = self.nii(s);
        let i = self
            .links
            .iter()
            .position(|l| l.sess == s && l.sut_handle == Some(h) && l.sut_att && !l.sut_det && l.sut_sender);
        let Some(i) = i else {
            self.sess[s].out_frames += 1;
            self.v(&["E11", "E02"], format!("transfer on a handle that is not an attached sender: {}", f.brief()));
            return;
        };
        let more = f.bool(5).unwrap_or(false);
        if self.links[i].cur.is_none() {
            // a delivery starts
            let at = self.links[i].idc.wrapping_add(self.links[i].count);
            if !self.links[i].lim.iter().any(|g| left(*g, at) > 0) {
                let m = format!("l{i} starts delivery number {} with credit {:?}", self.links[i].count, self.links[i].lim);
                self.v(&["E01"], m);
            }
            if !self.sess[s].win.iter().any(|g| left(*g, next_id) > 0) {
                let m = format!("delivery starts as transfer {next_id} with window {:?}", self.sess[s].win);
                self.v(&["E03"], m);
            }
            self.links[i].count = self.links[i].count.wrapping_add(1);
            self.sess[s].out_frames += 1;
            // ids
            let id = f.u32(1);
            let want = self.sess[s].next_delivery;
            match (id, want) {
                (None, _) => self.v(&["E05", "E02"], format!("delivery without id: {}", f.brief())),
                (Some(x), Some(w)) if x != w => {
                    self.v(&["E05"], format!("delivery id {x} follows {}", w.wrapping_sub(1)));
                }
                _ => {}
            }
            let id = id.unwrap_or(0);
            self.sess[s].next_delivery = Some(id.wrapping_add(1));
            // which send is it?
            let mut found = None;
            while let Some(&x) = self.links[i].sends.front() {
                let failed = matches!(&*self.sends[x].task.slot.borrow(), Some(Err(_)));
                let skippable = self.sends[x].task.cancelled || failed;
                if self.sends[x].body.starts_with(&f.payload)
                    && (more || self.sends[x].body.len() == f.payload.len())
                    && self.sends[x].tag.as_deref().is_none_or(|t| Some(t) == f.bin(2))
                    && (!skippable || self.sends[x].body.len() >= 6 || self.sends[x].tag.is_some())
                {
                    found = Some(x);
                    break;
                }
                if skippable {
                    self.links[i].sends.pop_front();
                    continue;
                }
                break;
            }
            let Some(x) = found else {
                let owner = if f.payload.len() >= 6 {
                    Some(u16::from_be_bytes([f.payload[4], f.payload[5]]) as usize)
                } else {
                    None
                };
                let m = format!(
                    "delivery on l{i} is not the next one sent there (payload {} bytes of link {owner:?}; next {:?}): {}",
                    f.payload.len(),
                    self.links[i].sends.front().map(|x| (*x, self.sends[*x].body.len(), self.sends[*x].tag.clone())),
                    f.brief()
                );
                match owner {
                    Some(o) if o != i && o < self.links.len() => self.v(&["E02", "E11"], m),
                    _ => self.v(&["E02"], m),
                }
                self.links[i].cur = more.then(|| CurOut { send: usize::MAX, body: f.payload });
                return;
            };
            let send = &self.sends[x];
            if send.too_large {
                self.v(&["E09"], format!("message of {} bytes sent over l{i}", send.body.len()));
            }
            let send = &self.sends[x];
            if f.bool(4).unwrap_or(false) != send.settled {
                self.v(&["E02"], format!("settled flag differs from the send: {}", f.brief()));
            }
            let send = &self.sends[x];
            if f.u32(3) != send.fmt {
                let m = format!("message format {:?}, not {:?}", f.u32(3), send.fmt);
                self.v(&["E02"], m);
            }
            let tag = f.bin(2).unwrap_or(&[]).to_vec();
            if tag.len() > 32 || f.bin(2).is_none() {
                self.v(&["E02"], format!("delivery tag {tag:02x?}"));
            }
            if self.sends[x].tag.is_none() && !self.links[i].auto_tags.insert(tag.clone()) {
                self.v(&["E02"], format!("generated tag {tag:02x?} used twice"));
            }
            self.sends[x].wire_id = Some(id);
            self.sends[x].wire_tag = tag;
            self.links[i].sends.pop_front();
            self.links[i].cur = Some(CurOut { send: x, body: f.payload });
        } else {
            self.sess[s].out_frames += 1;
            let c = self.links[i].cur.as_mut().unwrap();
            c.body.extend_from_slice(&f.payload);
            let x = c.send;
            if x != usize::MAX {
                let (id, tag) = (self.sends[x].wire_id, self.sends[x].wire_tag.clone());
                if f.u32(1).is_some() && f.u32(1) != id || f.bin(2).is_some_and(|t| t != tag) {
                    self.v(&["E02"], format!("frames of delivery {id:?} are interrupted: {}", f.brief()));
                }
            }
        }
        if !more {
            let c = self.links[i].cur.take().unwrap();
            if c.send != usize::MAX {
                self.sends[c.send].wire_done = true;
                self.st("deliveries out");
                if c.body != self.sends[c.send].body {
                    let m = format!("delivery of {} bytes arrives as {} different bytes", self.sends[c.send].body.len(), c.body.len());
                    self.v(&["E02"], m);
                }
            }
        }
    }
}
