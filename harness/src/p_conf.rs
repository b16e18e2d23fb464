//! E24: what is configured is what the peer is told, and what the peer says is what the application is shown.
use std::cell::RefCell;
use std::rc::Rc;

use ntex_amqp::codec::protocol as p;
use ntex_amqp::error::{AmqpError, AmqpProtocolError as PE, LinkError};
use ntex_amqp::types::Message;
use ntex_amqp::{AmqpServiceConfig, ControlFrame, ControlFrameKind, ReceiverLink, SenderLink};
use ntex_bytes::ByteString;
use proptest::collection::vec;
use proptest::option::weighted;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::conv::{self, Fld};
use crate::raw::Raw;
use crate::refcodec::Val;
use crate::runner::{Case, Prop, sub};
use crate::schema;
use crate::sut::*;
use crate::wire::{self, HDR_AMQP, WF};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// the application attaches; `frame`: all the fields it sets, if it does; the peer answers with `ans`
    Attach { receiver: bool, frame: Option<Val>, max: Option<u64>, props: Vec<(String, Option<u32>)>, caps: Option<Val>, ans: Val },
    /// the peer attaches; `change`: what the control service makes of the answer
    PAttach { receiver: bool, frame: Val, change: Option<Val>, max: Option<u32> },
    PFlow { k: u16, frame: Val },
    PTransfer { k: u16, frame: Val },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ConfCase {
    client: bool,
    /// fields of an open the endpoint is configured with
    own: Val,
    /// setters called, by bit
    set: u8,
    idle: u16,
    peer: Val,
    /// fields of a begin the application sets
    begin: Val,
    bset: u8,
    /// by itself or with the attach call
    direct: bool,
    enc: u64,
    frag: u8,
    ops: Vec<Op>,
}

fn fields(v: &Val) -> &[Val] {
    match v {
        Val::Desc(_, l) => match &**l {
            Val::List(l) => l,
            _ => &[],
        },
        _ => &[],
    }
}
fn with(v: &Val, ch: &[(usize, Val)]) -> Val {
    let mut l = fields(v).to_vec();
    for (i, x) in ch {
        while l.len() <= *i {
            l.push(Val::Null);
        }
        l[*i] = x.clone();
    }
    conv::mk(conv::code_of(v), l)
}
fn norm(v: &Val) -> Result<Val, String> {
    let c = schema::by_code(conv::code_of(v)).ok_or("no such composite")?;
    // absent fields at the end
    let mut l = fields(v).to_vec();
    l.resize(c.fields.len(), Val::Null);
    schema::normalize(&conv::mk(c.code, l), &[c]).map(|v| v.normalized())
}
/// names of the fields that differ
fn differ(a: &Val, b: &Val) -> Result<(), String> {
    let (a, b) = (norm(a)?, norm(b)?);
    if a == b {
        return Ok(());
    }
    let c = schema::by_code(conv::code_of(&a)).unwrap();
    let mut s = String::new();
    for (i, (x, y)) in fields(&a).iter().zip(fields(&b)).enumerate() {
        if x != y {
            s += &format!("{} is {x:?}, not {y:?}; ", c.fields[i].0);
        }
    }
    Err(s)
}

fn case() -> BoxedStrategy<ConfCase> {
    let att = || schema::comp_gen(&schema::ATTACH);
    let props = vec(("[a-c]{1}", weighted(0.7, any::<u32>())), 0..4);
    let op = prop_oneof![
        3 => (any::<bool>(), weighted(0.6, att()), weighted(0.4, crate::r#gen::edge_u64()), props, weighted(0.3, att()), att())
            .prop_map(|(receiver, frame, max, props, caps, ans)| Op::Attach { receiver, frame, max, props, caps, ans }),
        3 => (any::<bool>(), att(), weighted(0.5, att()), weighted(0.4, crate::r#gen::edge_u32()))
            .prop_map(|(receiver, frame, change, max)| Op::PAttach { receiver, frame, change, max }),
        2 => (any::<u16>(), schema::comp_gen(&schema::FLOW)).prop_map(|(k, frame)| Op::PFlow { k, frame }),
        2 => (any::<u16>(), schema::comp_gen(&schema::TRANSFER)).prop_map(|(k, frame)| Op::PTransfer { k, frame }),
    ];
    (
        (any::<bool>(), schema::comp_gen(&schema::OPEN), any::<u8>(), prop_oneof![Just(0u16), 1..400u16, any::<u16>()], schema::comp_gen(&schema::OPEN)),
        (schema::comp_gen(&schema::BEGIN), any::<u8>(), any::<bool>()),
        prop_oneof![2 => Just(0u64), 1 => any::<u64>()],
        prop_oneof![4 => Just(0u8), 1 => 1..60u8],
        vec(op, 1..7),
    )
        .prop_map(|((client, own, set, idle, peer), (begin, bset, direct), enc, frag, ops)| ConfCase {
            client,
            own,
            set,
            idle,
            peer,
            begin,
            bset,
            direct,
            enc,
            frag,
            ops,
        })
        .boxed()
}

#[derive(Default)]
struct Sh {
    /// attach frames the control and the publish service were shown
    ctl: Vec<p::Attach>,
    publ: Vec<p::Attach>,
    flows: Vec<p::Flow>,
    snd: Vec<SenderLink>,
    rcv: Vec<ReceiverLink>,
    change: Option<p::Attach>,
    max: Option<u32>,
}

/// the answer to an attach as the application wants it
fn change(a: &mut p::Attach, c: p::Attach) {
    let (n, h, r, dc, mms) =
        (a.0.name.clone(), a.0.handle, a.0.role, a.0.initial_delivery_count, a.0.max_message_size);
    *a = c;
    a.0.name = n;
    a.0.handle = h;
    a.0.role = r;
    a.0.initial_delivery_count = dc;
    a.0.max_message_size = mms;
}

fn run(c: &ConfCase, case: &mut Case) -> Result<(), String> {
    let c2 = c.clone();
    let (r, labels) = block_on(async move {
        let ep0 = Endpoint::new();
        let (mut r, io) = Raw::pair(c2.enc, c2.frag, &ep0.activity);
        let sh: Rc<RefCell<Sh>> = Rc::default();
        let s1 = sh.clone();
        let ctl: CtlFn = Rc::new(move |f: &ControlFrame| {
            let mut s = s1.borrow_mut();
            match f.kind() {
                ControlFrameKind::AttachSender(a, w, l) => {
                    s.ctl.push(a.clone());
                    if let Some(c) = s.change.take() {
                        w.with(|a| change(a, c));
                    }
                    if let Some(m) = s.max.take() {
                        l.set_max_message_size(m);
                    }
                    s.snd.push(l.clone());
                }
                ControlFrameKind::AttachReceiver(a, w, l) => {
                    s.ctl.push(a.clone());
                    if let Some(c) = s.change.take() {
                        w.with(|a| change(a, c));
                    }
                    if let Some(m) = s.max.take() {
                        l.set_max_message_size(u64::from(m));
                    }
                    s.rcv.push(l.clone());
                }
                ControlFrameKind::Flow(f, _) => s.flows.push(f.clone()),
                _ => {}
            }
            Box::pin(async { Ok(()) })
        });
        let s2 = sh.clone();
        let publ: PubFn = Rc::new(move |m: Message| {
            if let Message::Attached(a, _) = m {
                s2.borrow_mut().publ.push(a);
            }
            Box::pin(async { Ok(()) })
        });
        // configuration of the endpoint
        let own: p::Open = Fld::from_val(&c2.own);
        let mut cfg = AmqpServiceConfig::new();
        if c2.set & 1 > 0 {
            cfg = cfg.set_max_frame_size(own.max_frame_size().max(512));
        }
        if c2.set & 2 > 0 {
            cfg = cfg.set_channel_max(own.channel_max());
        }
        if c2.set & 4 > 0 {
            cfg = cfg.set_idle_timeout(c2.idle);
        }
        if c2.set & 8 > 0
            && let Some(h) = own.hostname()
        {
            cfg = cfg.set_hostname(h);
        }
        if c2.set & 16 > 0
            && let Some(x) = &own.0.offered_capabilities
        {
            cfg = cfg.set_offered_capabilities(x.clone());
        }
        if c2.set & 32 > 0
            && let Some(x) = &own.0.desired_capabilities
        {
            cfg = cfg.set_desired_capabilities(x.clone());
        }
        let remote: Rc<RefCell<Option<RemoteCfg>>> = Rc::default();
        let ep = if c2.client {
            start_client(io, cfg, None, None, ctl)
        } else {
            let hs = shown(&ep0, &remote);
            let pb = ntex_service::fn_factory_with_config(async move |_: ntex_amqp::State<()>| Ok::<_, ()>(PubService(publ.clone())));
            start_server_with(ep0, io, cfg, hs, ctl, pb)
        };
        r.act = ep.activity.clone();
        let mut labels = vec![];
        let res = history(&c2, &mut r, &ep, &sh, &remote, &mut labels).await;
        r.pump();
        (res.map_err(|e| format!("{e}\n{}", r.log())), labels)
    });
    for l in labels {
        case.label(l);
    }
    case.nontrivial();
    r
}

struct RemoteCfg {
    max_frame_size: u32,
    channel_max: u16,
    idle_time_out: u32,
    hostname: Option<ByteString>,
    offered: Option<p::Symbols>,
    desired: Option<p::Symbols>,
}

fn shown(ep: &Endpoint, remote: &Rc<RefCell<Option<RemoteCfg>>>) -> HsFn {
    let (sink, peer_open, error, remote) = (ep.sink.clone(), ep.peer_open.clone(), ep.error.clone(), remote.clone());
    Rc::new(move |hs: ntex_amqp::server::Handshake| {
        let (sink, peer_open, error, remote) = (sink.clone(), peer_open.clone(), error.clone(), remote.clone());
        Box::pin(async move {
            match hs {
                ntex_amqp::server::Handshake::Amqp(h) => match h.open().await {
                    Ok(o) => {
                        let c = o.remote_config();
                        *remote.borrow_mut() = Some(RemoteCfg {
                            max_frame_size: c.max_frame_size,
                            channel_max: c.channel_max,
                            idle_time_out: c.idle_time_out,
                            hostname: c.hostname.clone(),
                            offered: c.offered_capabilities.clone(),
                            desired: c.desired_capabilities.clone(),
                        });
                        *peer_open.borrow_mut() = Some(o.frame().clone());
                        *sink.borrow_mut() = Some(o.sink().get_ref());
                        Ok(o.ack(()))
                    }
                    Err(e) => {
                        let e = format!("{e:?}");
                        *error.borrow_mut() = Some(e.clone());
                        Err(e)
                    }
                },
                ntex_amqp::server::Handshake::Sasl(_) => Err("sasl".to_string()),
            }
        })
    })
}

fn last(r: &Raw, code: u64) -> Option<WF> {
    r.frames().filter(|f| f.code == code).last().cloned()
}
fn val_of(f: &WF) -> Val {
    conv::mk(f.code, f.f.clone())
}

async fn history(
    c: &ConfCase,
    r: &mut Raw,
    ep: &Endpoint,
    sh: &Rc<RefCell<Sh>>,
    remote: &Rc<RefCell<Option<RemoteCfg>>>,
    labels: &mut Vec<&'static str>,
) -> Result<(), String> {
    // the peer has room for anything
    let f = fields(&c.peer);
    let mf = match &f[2] {
        Val::Uint(n) => (*n).max(1 << 20),
        _ => u32::MAX,
    };
    let ch = match &f[3] {
        Val::Ushort(n) => (*n).max(3),
        _ => u16::MAX,
    };
    let idle = match &f[4] {
        Val::Uint(n) if *n > 0 => Val::Uint((*n).max(600_000)),
        v => v.clone(),
    };
    let peer = with(&c.peer, &[(2, Val::Uint(mf)), (3, Val::Ushort(ch)), (4, idle)]);
    let open = r.enc.frame(0, 0, &peer, &[]);
    if c.set & 1 > 0
        && match &fields(&c.own)[2] {
            Val::Uint(n) => open.len() > (*n).max(512) as usize,
            _ => false,
        }
    {
        labels.push("peer's open does not fit");
        return Ok(());
    }
    r.bytes(&HDR_AMQP).await;
    r.bytes(&open).await;
    if !r.until(|r| r.count(wire::OPEN) == 1 && ep.sink.borrow().is_some()).await {
        return Err("the connection does not open".into());
    }
    // the open of the endpoint
    let o = last(r, wire::OPEN).unwrap();
    if o.str(0).is_none_or(str::is_empty) {
        return Err("open without container id".into());
    }
    let own = fields(&c.own);
    let n = |i: u8, v: Val, d: Val| if c.set & i > 0 { v } else { d };
    let omf = match &own[2] {
        Val::Uint(n) => (*n).max(512),
        _ => u32::MAX,
    };
    let oidle = if c.idle == 0 { Val::Null } else { Val::Uint(u32::from(c.idle) * 1000) };
    let want = conv::mk(
        wire::OPEN,
        vec![
            o.f[0].clone(),
            n(8, own[1].clone(), Val::Null),
            n(1, Val::Uint(omf), Val::Uint(65535)),
            n(2, own[3].clone(), Val::Ushort(1024)),
            n(4, oidle, Val::Uint(120_000)),
            Val::Null,
            Val::Null,
            n(16, own[7].clone(), Val::Null),
            n(32, own[8].clone(), Val::Null),
            Val::Null,
        ],
    );
    differ(&val_of(&o), &want).map_err(|e| format!("open: {e}"))?;
    // what the application of a server is shown
    if !c.client {
        let po = ep.peer_open.borrow().clone().ok_or("no open is shown")?;
        differ(&po.to_val()?, &peer).map_err(|e| format!("open as shown: {e}"))?;
        let rc = remote.borrow_mut().take().ok_or("no remote configuration")?;
        let po: p::Open = Fld::from_val(&norm(&peer)?);
        if rc.max_frame_size != mf
            || rc.channel_max != ch
            || rc.idle_time_out != po.idle_time_out().unwrap_or(0)
            || rc.hostname.as_ref() != po.hostname()
            || rc.offered != po.0.offered_capabilities
            || rc.desired != po.0.desired_capabilities
        {
            return Err("the remote configuration is not what the peer announced".into());
        }
    }
    // a session
    let sink = ep.sink.borrow().clone().unwrap();
    let b: p::Begin = Fld::from_val(&c.begin);
    let bf = fields(&c.begin);
    let t = {
        let s = sink.clone();
        let (bset, direct) = (c.bset, c.direct);
        Task::start(
            async move {
                let mut x = s.open_session();
                if bset & 1 > 0
                    && let Some(c) = b.0.offered_capabilities.clone()
                {
                    x = x.offered_capabilities(c);
                }
                if bset & 2 > 0
                    && let Some(c) = b.0.desired_capabilities.clone()
                {
                    x = x.desired_capabilities(c);
                }
                if bset & 4 > 0
                    && let Some(c) = &b.0.properties
                {
                    for (k, v) in c {
                        x = x.property(k.clone(), v.clone());
                    }
                }
                if direct { x.await } else { x.attach().await }
            },
            &ep.activity,
        )
        .await
    };
    if !r.until(|r| r.count(wire::BEGIN) == 1).await {
        return Err("no begin is sent".into());
    }
    let bw = last(r, wire::BEGIN).unwrap();
    let n = |i: u8, v: &Val| if c.bset & i > 0 { v.clone() } else { Val::Null };
    let props = match n(4, &bf[7]) {
        Val::Map(m) if m.is_empty() => Val::Null,
        v => v,
    };
    let got = val_of(&bw);
    let want = with(&got, &[(0, Val::Null), (5, n(1, &bf[5])), (6, n(2, &bf[6])), (7, props)]);
    differ(&got, &want).map_err(|e| format!("begin: {e}"))?;
    r.amqp(0, &wire::begin(Some(bw.ch), 0, 1 << 20, 1 << 20)).await;
    if !r.until(|_| t.done()).await {
        return Err("open_session does not complete".into());
    }
    let s = match t.slot.borrow_mut().take() {
        Some(Ok(s)) => s,
        x => return Err(format!("open_session gives {:?}", x.map(|r| r.err()))),
    };
    if s.local_channel_id() != bw.ch || s.remote_channel_id() != 0 {
        return Err("session reports other channels".into());
    }
    // links
    let big_in = c.set & 1 == 0 || omf >= 65535;
    let mut next_id = 0u32;
    let (mut ss, mut rs): (Vec<(SenderLink, u32)>, Vec<(ReceiverLink, u32)>) = (vec![], vec![]);
    for (i, op) in c.ops.iter().enumerate() {
        r.t(format!("-- {i}"));
        let (name, ph) = (format!("link {i}"), 7 + i as u32 * 3);
        match op {
            Op::Attach { receiver, frame, max, props, caps, ans } => {
                labels.push("attach");
                let na = r.count(wire::ATTACH);
                let la: Option<p::Attach> = frame.as_ref().map(Fld::from_val);
                let lcaps = caps.as_ref().and_then(|v| {
                    let a: p::Attach = Fld::from_val(v);
                    a.0.offered_capabilities
                });
                let role = if *receiver { p::Role::Receiver } else { p::Role::Sender };
                let n2 = ByteString::from(name.clone());
                let fix = move |a: &mut p::Attach| {
                    if let Some(l) = la {
                        *a = l;
                        a.0.name = n2;
                        a.0.role = role;
                    }
                };
                let (mut ts, mut tr) = (None, None);
                // fields of the attach that is due
                let sym = Val::sym("session-end");
                let mut caps_val = Val::Null;
                let mut pm: Vec<(Val, Val)> = vec![];
                let mut no_props = true;
                if *receiver {
                    let mut b = s.build_receiver_link(name.clone(), format!("address {i}"));
                    for (k, v) in props {
                        b = b.property(k.clone(), *v);
                        no_props = false;
                        pm.retain(|(x, _)| *x != Val::Sym(k.clone()));
                        if let Some(v) = v {
                            pm.push((Val::Sym(k.clone()), Val::Uint(*v)));
                        }
                    }
                    if let Some(c) = lcaps {
                        b = b.capabilities(c);
                        caps_val = fields(caps.as_ref().unwrap())[11].clone();
                    }
                    if let Some(m) = max {
                        b = b.max_message_size(*m);
                    }
                    b = b.with_frame(fix);
                    tr = Some(Task::start(async move { b.attach().await }, &ep.activity).await);
                } else {
                    let mut b = s.build_sender_link(name.clone(), format!("address {i}"));
                    if let Some(m) = max {
                        b = b.max_message_size(*m);
                    }
                    b = b.with_frame(fix);
                    ts = Some(Task::start(async move { b.attach().await }, &ep.activity).await);
                }
                if !r.until(|r| r.count(wire::ATTACH) == na + 1).await {
                    return Err("no attach is sent".into());
                }
                let aw = last(r, wire::ATTACH).unwrap();
                let lh = aw.u32(1).ok_or("attach without handle")?;
                let want = match frame {
                    Some(f) => with(f, &[(0, Val::Str(name.clone())), (1, Val::Uint(lh)), (2, Val::Bool(*receiver))]),
                    None => {
                        let mut t = vec![Val::Str(format!("address {i}")), Val::Uint(0), sym, Val::Uint(0), Val::Bool(false), Val::Null];
                        let (src, tgt) = if *receiver {
                            t.extend([Val::Null, Val::Null, Val::Null, Val::Null, caps_val]);
                            (conv::mk(0x28, t), Val::Null)
                        } else {
                            t.push(Val::Null);
                            (Val::Null, conv::mk(0x29, t))
                        };
                        let pv = if no_props { Val::Null } else { Val::Map(pm) };
                        conv::mk(
                            wire::ATTACH,
                            vec![
                                Val::Str(name.clone()),
                                Val::Uint(lh),
                                Val::Bool(*receiver),
                                Val::Ubyte(2),
                                Val::Ubyte(0),
                                src,
                                tgt,
                                Val::Null,
                                Val::Bool(false),
                                Val::Null,
                                Val::Ulong(max.unwrap_or(65536 * 4)),
                                Val::Null,
                                Val::Null,
                                pv,
                            ],
                        )
                    }
                };
                // a sender has to give a delivery count
                let want = if !*receiver && fields(&want)[9] == Val::Null { with(&want, &[(9, Val::Uint(0))]) } else { want };
                differ(&val_of(&aw), &want).map_err(|e| format!("attach: {e}"))?;
                let mut a = with(ans, &[(0, Val::Str(name.clone())), (1, Val::Uint(ph)), (2, Val::Bool(!*receiver))]);
                if !big_in {
                    a = wire::attach(&name, ph, !*receiver, Some(wire::source(Some("x"))), Some(wire::target(Some("x"))), receiver.then_some(0), None);
                }
                if *receiver && fields(&a)[9] == Val::Null {
                    a = with(&a, &[(9, Val::Uint(0))]);
                }
                r.amqp(0, &a).await;
                r.settle().await;
                if let Some(t) = ts {
                    let l = done(t)?;
                    if l.name() != &name || l.id() != lh || l.remote_handle() != ph || l.is_closed() || l.error().is_some() {
                        return Err(format!("sender reports {:?} {} {} {} {:?}", l.name(), l.id(), l.remote_handle(), l.is_closed(), l.error()));
                    }
                    let mms = match &fields(&a)[10] {
                        Val::Ulong(n) => Some(u32::try_from(*n).unwrap_or(u32::MAX)),
                        _ => None,
                    };
                    if l.max_message_size().unwrap_or(0) != mms.unwrap_or(0) {
                        return Err(format!("sender reports a message size of {:?}, the peer announced {mms:?}", l.max_message_size()));
                    }
                    if l.session().local_channel_id() != bw.ch {
                        return Err("sender reports another session".into());
                    }
                    ss.push((l, ph));
                }
                if let Some(t) = tr {
                    let l = done(t)?;
                    if l.name() != &name || l.handle() != lh || l.remote_handle() != ph || l.is_closed() || l.error().is_some() {
                        return Err(format!("receiver reports {:?} {} {} {} {:?}", l.name(), l.handle(), l.remote_handle(), l.is_closed(), l.error()));
                    }
                    if l.session().local_channel_id() != bw.ch {
                        return Err("receiver reports another session".into());
                    }
                    l.set_link_credit(100);
                    if l.credit() != 100 {
                        return Err(format!("receiver reports credit {} of 100", l.credit()));
                    }
                    rs.push((l, ph));
                }
            }
            Op::PAttach { receiver, frame, change, max } => {
                if !big_in {
                    continue;
                }
                labels.push("attach by the peer");
                let na = r.count(wire::ATTACH);
                {
                    let mut s = sh.borrow_mut();
                    s.change = change.as_ref().map(Fld::from_val);
                    s.max = *max;
                    s.ctl.clear();
                    s.publ.clear();
                }
                let mut a = with(frame, &[(0, Val::Str(name.clone())), (1, Val::Uint(ph)), (2, Val::Bool(*receiver))]);
                if !*receiver && fields(&a)[9] == Val::Null {
                    a = with(&a, &[(9, Val::Uint(0))]);
                }
                r.amqp(0, &a).await;
                if !r.until(|r| r.count(wire::ATTACH) == na + 1).await {
                    return Err("attach is not answered".into());
                }
                r.settle().await;
                let aw = last(r, wire::ATTACH).unwrap();
                let lh = aw.u32(1).ok_or("attach without handle")?;
                let sh = sh.borrow();
                let [cf] = &sh.ctl[..] else { return Err("the control service is not shown one attach".into()) };
                differ(&cf.to_val()?, &a).map_err(|e| format!("attach as shown to the control service: {e}"))?;
                match (&sh.publ[..], *receiver || c.client) {
                    ([], true) => {}
                    ([pf], false) => differ(&pf.to_val()?, &a).map_err(|e| format!("attach as shown to the publish service: {e}"))?,
                    _ => return Err("the publish service is not shown one attach".into()),
                }
                let got = val_of(&aw);
                let g = fields(&got);
                let mut keep = vec![(0, Val::Str(name.clone())), (1, Val::Uint(lh)), (2, Val::Bool(!*receiver))];
                keep.extend([9, 10].map(|i| (i, g.get(i).cloned().unwrap_or(Val::Null))));
                let want = match change {
                    Some(c) => with(c, &keep),
                    None => {
                        // the receiver decides about its settle mode; nothing is said about the rest
                        keep.push((4, g[4].clone()));
                        keep.extend([7, 11, 12, 13].map(|i| (i, Val::Null)));
                        keep.push((8, Val::Bool(false)));
                        with(&a, &keep)
                    }
                };
                differ(&got, &want).map_err(|e| format!("answer to an attach: {e}"))?;
                if let Some(m) = max {
                    match g.get(10) {
                        Some(Val::Ulong(n)) if *n == u64::from(*m) => {}
                        // no limit
                        None | Some(Val::Null) if *m == 0 => {}
                        x => return Err(format!("message size {m} is set, {x:?} is announced")),
                    }
                }
                if *receiver {
                    match g.get(9) {
                        Some(Val::Uint(_)) => {}
                        _ => return Err("sender gives no delivery count".into()),
                    }
                    let l = sh.snd.last().cloned().ok_or("no sender is shown")?;
                    if l.id() != lh || l.remote_handle() != ph || l.is_closed() || l.error().is_some() {
                        return Err(format!("sender reports {} {} {} {:?}", l.id(), l.remote_handle(), l.is_closed(), l.error()));
                    }
                    ss.push((l, ph));
                } else {
                    let l = sh.rcv.last().cloned().ok_or("no receiver is shown")?;
                    if l.name() != &name || l.handle() != lh || l.remote_handle() != ph || l.is_closed() || l.error().is_some() {
                        return Err(format!("receiver reports {:?} {} {} {} {:?}", l.name(), l.handle(), l.remote_handle(), l.is_closed(), l.error()));
                    }
                    l.set_link_credit(100);
                    rs.push((l, ph));
                }
            }
            Op::PFlow { k, frame } => {
                if ss.is_empty() || !big_in {
                    continue;
                }
                labels.push("flow");
                let (_, ph) = &ss[*k as usize * ss.len() / 65536];
                let f = with(frame, &[(4, Val::Uint(*ph))]);
                sh.borrow_mut().flows.clear();
                r.amqp(0, &f).await;
                r.settle().await;
                let sh = sh.borrow();
                let [got] = &sh.flows[..] else { return Err(format!("the control service is shown {} flows", sh.flows.len())) };
                differ(&got.to_val()?, &f).map_err(|e| format!("flow as shown: {e}"))?;
            }
            Op::PTransfer { k, frame } => {
                if rs.is_empty() || !big_in {
                    continue;
                }
                labels.push("transfer");
                let (l, ph) = rs[*k as usize * rs.len() / 65536].clone();
                let tag = match &fields(frame)[2] {
                    Val::Bin(b) => Val::Bin(b[..b.len().min(32)].to_vec()),
                    _ => Val::Bin(vec![1]),
                };
                let tagv = match &tag {
                    Val::Bin(b) => b.clone(),
                    _ => vec![],
                };
                let f = with(
                    frame,
                    &[
                        (0, Val::Uint(ph)),
                        (1, Val::Uint(next_id)),
                        (2, tag),
                        (5, Val::Bool(false)),
                        (8, Val::Bool(false)),
                        (9, Val::Bool(false)),
                    ],
                );
                // within the limit of the link
                let announced = r
                    .frames()
                    .filter(|f| f.code == wire::ATTACH && f.u32(1) == Some(l.handle()))
                    .last()
                    .and_then(|f| match f.f.get(10) {
                        Some(Val::Ulong(n)) if *n > 0 => Some(*n),
                        _ => None,
                    })
                    .unwrap_or(7);
                let len = announced.min(7) as usize;
                r.frame(0, 0, &f, &b"payload"[..len]).await;
                r.settle().await;
                let Some((d, t)) = l.get_delivery() else { return Err("no delivery is handed over".into()) };
                if d.id() != next_id || d.tag()[..] != tagv[..] {
                    return Err(format!("delivery {} with tag {:?}, not {next_id} {tagv:?}", d.id(), d.tag()));
                }
                let settled = fields(&f)[4] == Val::Bool(true);
                if d.is_remote_settled() != settled {
                    return Err(format!("delivery reports settled {}", d.is_remote_settled()));
                }
                next_id += 1;
                differ(&t.to_val()?, &f).map_err(|e| format!("transfer as shown: {e}"))?;
                if t.get_body().map(|b| b.len()) != Some(len) {
                    return Err("the payload is not handed over".into());
                }
                drop(d);
            }
        }
    }
    Ok(())
}

fn done<T: 'static>(t: Task<Result<T, PE>>) -> Result<T, String> {
    match t.slot.borrow_mut().take() {
        Some(Ok(l)) => Ok(l),
        Some(Err(e)) => Err(format!("attach fails with {e:?}")),
        None => Err("attach does not complete".into()),
    }
}

/// errors the application makes
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ErrCase {
    kind: u8,
    text: bool,
    descr: Option<String>,
    info: Option<Val>,
    cond: Val,
}

fn err_case() -> BoxedStrategy<ErrCase> {
    (any::<u8>(), any::<bool>(), weighted(0.5, crate::r#gen::string()), weighted(0.5, crate::r#gen::sym_map(2, 5)), schema::comp_gen(&schema::ERROR))
        .prop_map(|(kind, text, descr, info, cond)| ErrCase { kind, text, descr, info, cond })
        .boxed()
}

fn errs(c: &ErrCase, case: &mut Case) -> Result<(), String> {
    case.nontrivial();
    let amqp = [
        ("amqp:internal-error", AmqpError::internal_error()),
        ("amqp:not-found", AmqpError::not_found()),
        ("amqp:unauthorized-access", AmqpError::unauthorized_access()),
        ("amqp:decode-error", AmqpError::decode_error()),
        ("amqp:invalid-field", AmqpError::invalid_field()),
        ("amqp:not-allowed", AmqpError::not_allowed()),
        ("amqp:not-implemented", AmqpError::not_implemented()),
    ];
    let link = [("amqp:link:detach-forced", LinkError::force_detach()), ("amqp:link:redirect", LinkError::redirect())];
    let cond: p::Error = Fld::from_val(&c.cond);
    let n = c.kind as usize % 11;
    let mut descr = Val::Null;
    let mut info = Val::Null;
    let (name, e): (Val, p::Error) = if n < 8 {
        let (name, mut e) = match amqp.into_iter().nth(n) {
            Some((n, e)) => (Val::sym(n), e),
            None => (fields(&c.cond)[0].clone(), AmqpError::with_error(cond.condition().clone())),
        };
        if c.text {
            e = e.text("some text");
            descr = Val::str("some text");
        }
        if let Some(d) = &c.descr {
            e = e.description(d.clone());
            descr = Val::Str(d.clone());
        }
        (name, e.into())
    } else {
        let (name, mut e) = match link.into_iter().nth(n - 8) {
            Some((n, e)) => (Val::sym(n), e),
            None => (fields(&c.cond)[0].clone(), LinkError::new(cond.condition().clone())),
        };
        if c.text {
            e = e.text("some text");
            descr = Val::str("some text");
        }
        if let Some(d) = &c.descr {
            e = e.description(d.clone());
            descr = Val::Str(d.clone());
        }
        if let Some(v) = &c.info {
            e = e.fields(Fld::from_val(v));
            info = v.clone();
        }
        (name, e.into())
    };
    differ(&e.to_val()?, &conv::mk(0x1d, vec![name, descr, info])).map_err(|e| format!("error: {e}"))
}


pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "E24",
        rule: "every case configures a connection, a session and links, and compares what either side is told",
        assumptions: &[],
        spin_secs: None,
        subs: vec![sub("conf", 40_000, 800_000, |_| case(), run), sub("errors", 40_000, 400_000, |_| err_case(), errs)],
    }]
}
