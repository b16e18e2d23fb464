//! E07: a peer that mixes up the transfers of its deliveries.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

use ntex_amqp::types::Message;
use ntex_amqp::{AmqpServiceConfig, ControlFrame, ControlFrameKind, ReceiverLink};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::raw::Raw;
use crate::runner::{Case, DynSub, sub};
use crate::sut::*;
use crate::wire::{self, HDR_AMQP, Xfer};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Id {
    None,
    /// the one of the delivery under way, or the next one
    Right,
    /// of another delivery: under way on another link, complete, or not begun
    Wrong(i8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Xfer { l: u8, id: Id, more: bool, aborted: bool, settled: Option<bool>, tag: Option<u8>, len: u16 },
    /// the application takes what is there
    Take { l: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MCase {
    links: u8,
    first_id: u32,
    /// the application takes deliveries when it is told of them
    eager: bool,
    frag: u8,
    ops: Vec<(Op, bool)>,
}

fn case() -> BoxedStrategy<MCase> {
    let id = prop_oneof![6 => Just(Id::Right), 5 => Just(Id::None), 1 => (-3..4i8).prop_map(Id::Wrong)];
    let op = prop_oneof![
        9 => (0..3u8, id, proptest::bool::weighted(0.6), proptest::bool::weighted(0.06), proptest::option::weighted(0.3, any::<bool>()), proptest::option::weighted(0.8, any::<u8>()), prop_oneof![Just(0u16), 1..30u16, 200..400u16])
            .prop_map(|(l, id, more, aborted, settled, tag, len)| Op::Xfer { l, id, more, aborted, settled, tag, len }),
        1 => (0..3u8).prop_map(|l| Op::Take { l }),
    ];
    (
        1..4u8,
        prop_oneof![3 => Just(0u32), 1 => Just(u32::MAX - 3), 1 => any::<u32>()],
        any::<bool>(),
        prop_oneof![4 => Just(0u8), 1 => 1..40u8],
        vec((op, any::<bool>()), 1..40),
    )
        .prop_map(|(links, first_id, eager, frag, ops)| MCase { links, first_id, eager, frag, ops })
        .boxed()
}

#[derive(Default)]
struct Lk {
    dead: bool,
    /// id, tag, content
    part: Option<(u32, Vec<u8>, Vec<u8>)>,
    ready: VecDeque<(u32, Vec<u8>, Vec<u8>)>,
}

type Taken = Rc<RefCell<Vec<(u32, u32, Vec<u8>, Vec<u8>)>>>;

fn take(l: &ReceiverLink, n: u32, to: &Taken) {
    while let Some((mut d, t)) = l.get_delivery() {
        let body = match t.get_body() {
            Some(b) => b.to_vec(),
            None => vec![],
        };
        to.borrow_mut().push((n, d.id(), d.tag().to_vec(), body));
        d.settle(ntex_amqp::codec::protocol::DeliveryState::Accepted(ntex_amqp::codec::protocol::Accepted {}));
    }
}

fn check(c: &MCase, case: &mut Case) -> Result<(), String> {
    let c = c.clone();
    let (r, wrong, given) = block_on(run(c));
    if given > 0 && wrong > 0 {
        case.nontrivial();
    }
    case.count("links ended for a wrong transfer", wrong);
    case.count("deliveries handed over", given);
    r
}

async fn run(c: MCase) -> (Result<(), String>, u64, u64) {
    let ep0 = Endpoint::new();
    let (mut r, io) = Raw::pair(0, 0, &ep0.activity);
    let links: Rc<RefCell<Vec<ReceiverLink>>> = Rc::default();
    let taken: Taken = Rc::default();
    let l2 = links.clone();
    let ctl: CtlFn = Rc::new(move |f: &ControlFrame| {
        if let ControlFrameKind::AttachReceiver(_, _, l) = f.kind() {
            l.set_link_credit(1000);
            l2.borrow_mut().push(l.clone());
        }
        Box::pin(async { Ok(()) })
    });
    let (t2, eager) = (taken.clone(), c.eager);
    let publ: PubFn = Rc::new(move |m: Message| {
        if let Message::Transfer(l) = m
            && eager
        {
            take(&l, l.name()[1..].parse().unwrap_or(99), &t2);
        }
        Box::pin(async { Ok(()) })
    });
    let hs = plain(&ep0);
    let pb = ntex_service::fn_factory_with_config(async move |_: ntex_amqp::State<()>| Ok::<_, ()>(PubService(publ.clone())));
    let ep = start_server_with(ep0, io, AmqpServiceConfig::new(), hs, ctl, pb);
    r.act = ep.activity.clone();
    let mut st: Vec<Lk> = (0..c.links).map(|_| Lk::default()).collect();
    let mut n = (0, 0);
    let res = history(&c, &mut r, &links, &taken, &mut st, &mut n).await;
    r.cut();
    links.borrow_mut().clear();
    (res.map_err(|e| format!("{e}\n{}", r.log())), n.0, n.1)
}

async fn history(c: &MCase, r: &mut Raw, links: &Rc<RefCell<Vec<ReceiverLink>>>, taken: &Taken, st: &mut [Lk], n: &mut (u64, u64)) -> Result<(), String> {
    r.bytes(&HDR_AMQP).await;
    r.amqp(0, &wire::open("p", None, 65536, 100, None)).await;
    r.amqp(0, &wire::begin(None, c.first_id, 10_000, 10_000)).await;
    for i in 0..c.links {
        let v = wire::attach(&format!("l{i}"), u32::from(i), false, Some(wire::source(None)), Some(wire::target(Some("a"))), Some(0), None);
        r.amqp(0, &v).await;
    }
    let want = c.links as usize;
    if !r.until(|r| r.count(wire::ATTACH) == want && links.borrow().len() == want).await {
        return Err("the links do not attach".into());
    }
    r.settle().await;
    r.frag = c.frag;
    let mut next = c.first_id;
    let mut gone = 0;
    for (op, settle) in &c.ops {
        match op {
            Op::Take { l } => {
                let l = l % c.links;
                r.settle().await;
                let k = links.borrow()[l as usize].clone();
                take(&k, u32::from(l), taken);
            }
            Op::Xfer { l, id, more, aborted, settled, tag, len } => {
                let l = *l % c.links;
                let k = &mut st[l as usize];
                if k.dead {
                    continue;
                }
                let cur = k.part.as_ref().map(|p| p.0);
                let right = cur.unwrap_or(next);
                let id = match id {
                    Id::None => None,
                    Id::Right => Some(right),
                    // another one, if there is one under way
                    Id::Wrong(d) if cur.is_some() => Some(right.wrapping_add(*d as u32)),
                    Id::Wrong(_) => Some(right),
                };
                let tag = tag.map(|t| vec![l, t]);
                let payload = vec![r.sent as u8 ^ l; *len as usize];
                let x = Xfer {
                    handle: u32::from(l),
                    id,
                    tag: if cur.is_some() { None } else { tag.clone() },
                    fmt: Some(0),
                    settled: *settled,
                    more: *more,
                    aborted: *aborted,
                    payload: payload.clone(),
                    ..Xfer::default()
                };
                r.frame(0, 0, &wire::transfer(&x), &payload).await;
                if cur.is_none() && id == Some(next) {
                    next = next.wrapping_add(1);
                }
                if *aborted {
                    // the rest of the delivery is dropped, whatever its id
                    k.part = None;
                } else if id.is_some_and(|i| i != right) || (cur.is_none() && id.is_none()) {
                    k.dead = true;
                    n.0 += 1;
                    gone += 1;
                    // what the application has not taken is lost or not, see below
                    let got = r.until(|r| r.count(wire::DETACH) == gone).await;
                    let d = r.frames().filter(|f| f.code == wire::DETACH).last();
                    if !got || d.is_none_or(|d| d.u32(0) != Some(links.borrow()[l as usize].handle()) || d.f.get(2).is_none_or(|v| *v == crate::refcodec::Val::Null)) {
                        return Err(format!("a transfer with id {id:?} on link {l}, where {cur:?} is under way, does not end the link"));
                    }
                    k.part = None;
                } else {
                    let p = k.part.get_or_insert((right, tag.unwrap_or_default(), vec![]));
                    p.2.extend_from_slice(&payload);
                    if !more {
                        let p = k.part.take().unwrap();
                        k.ready.push_back(p);
                    }
                }
            }
        }
        if *settle {
            r.settle().await;
            judge(st, taken, c.eager, n)?;
        }
    }
    r.settle().await;
    for (i, l) in links.borrow().iter().enumerate() {
        take(l, i as u32, taken);
    }
    judge(st, taken, true, n)?;
    let dets = r.count(wire::DETACH);
    if dets != gone {
        return Err(format!("{dets} links are ended, {gone} gave a reason"));
    }
    r.frag = 0;
    r.amqp(5, &wire::begin(None, 0, 100, 100)).await;
    if !r.until(|r| r.count(wire::BEGIN) == 2).await {
        return Err("the connection is gone".into());
    }
    Ok(())
}

/// what was taken is what was sent, in order; everything, if the application took all there was
fn judge(st: &mut [Lk], taken: &Taken, all: bool, n: &mut (u64, u64)) -> Result<(), String> {
    for (l, id, tag, body) in taken.borrow_mut().drain(..) {
        let k = st.get_mut(l as usize).ok_or("a delivery on no link")?;
        match k.ready.pop_front() {
            Some(w) if w.0 == id && w.1 == tag && w.2 == body => n.1 += 1,
            Some(w) => return Err(format!("link {l}: delivery {id} {tag:?} with {body:?}, not {w:?}")),
            None => return Err(format!("link {l}: delivery {id} {tag:?} with {body:?} was not sent")),
        }
    }
    for (i, k) in st.iter().enumerate() {
        if all && !k.dead && !k.ready.is_empty() {
            return Err(format!("link {i}: {} deliveries are not handed over", k.ready.len()));
        }
    }
    Ok(())
}

pub fn subs() -> Vec<Box<dyn DynSub>> {
    vec![sub("ids", 20_000, 400_000, |_| case(), check)]
}
