//! Properties of the connection engine, decided over generated histories (world.rs).
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::Union;

use crate::runner::{Case, Prop, Tier, sub};
use crate::sut::block_on;
use crate::world::{Hist, Op, WCfg, World};

type B<T> = BoxedStrategy<T>;
type W = Vec<(u32, B<Op>)>;

// ------------------------------------------------------------------ operations

fn small() -> B<u8> {
    prop_oneof![6 => 0u8..4, 1 => any::<u8>()].boxed()
}
fn sizes(big: bool) -> B<u16> {
    if big {
        prop_oneof![3 => 0u16..40, 3 => 40u16..600, 4 => 450u16..2200, 2 => 2000u16..9000, 1 => any::<u16>()].boxed()
    } else {
        prop_oneof![6 => 6u16..40, 2 => 0u16..300, 1 => 0u16..2000].boxed()
    }
}

fn pbegin() -> B<Op> {
    (small(), 0u8..13).prop_map(|(ch, win)| Op::PBegin { ch, win: if win < 7 { 0 } else { win } }).boxed()
}
fn panswerbegin() -> B<Op> {
    (small(), small(), 0u8..13).prop_map(|(i, ch, win)| Op::PAnswerBegin { i, ch, win }).boxed()
}
/// `who`: Some(true) the endpoint sends, Some(false) it receives
fn pattach(who: Option<bool>, verdicts: bool) -> B<Op> {
    (small(), 0u8..6, any::<bool>(), 0u8..8, 0u8..4, 0u8..16, limits())
        .prop_map(move |(s, name, sx, handle, addr, v, limit)| Op::PAttach {
            s,
            name,
            sut_sender: who.unwrap_or(sx),
            handle,
            addr,
            verdict: if verdicts { v } else { 0 },
            limit,
        })
        .boxed()
}
fn limits() -> B<u8> {
    prop_oneof![8 => Just(0u8), 1 => 1u8..10].boxed()
}
fn panswerattach() -> B<Op> {
    (small(), 0u8..8, prop::bool::weighted(0.15), limits())
        .prop_map(|(i, handle, refuse, limit)| Op::PAnswerAttach { i, handle, refuse, limit })
        .boxed()
}
fn pflow(credit: std::ops::Range<u8>, echo: f64, win: bool) -> B<Op> {
    (small(), credit, prop_oneof![4 => Just(0u8), 1 => 200u8..206], prop::bool::weighted(echo), 0u8..13)
        .prop_map(move |(l, credit, stale, echo, w)| Op::PFlow {
            l,
            credit,
            stale,
            echo,
            win: if win { w } else { 0 },
            nodc: false,
        })
        .boxed()
}
fn psessflow(echo: f64) -> B<Op> {
    (small(), 0u8..13, prop::bool::weighted(0.2), prop::bool::weighted(echo))
        .prop_map(|(s, win, omit, echo)| Op::PSessFlow { s, win, omit, echo })
        .boxed()
}
fn pxfer(big: bool, over: f64, abort: f64) -> B<Op> {
    (
        (small(), sizes(big), prop_oneof![3 => Just(0u8), 2 => 0u8..6, 1 => any::<u8>(), 2 => 128u8..134]),
        (0u8..8, 0u8..4, any::<bool>(), 0u8..6),
        (prop::bool::weighted(abort), prop::bool::weighted(over)),
    )
        .prop_map(|((l, size, parts), (settled, tag, fmt, burst), (abort, over))| Op::PXfer {
            l,
            size,
            parts,
            settled: if settled > 4 { 0 } else { settled },
            tag,
            fmt,
            burst: burst / 2,
            abort,
            over,
        })
        .boxed()
}
fn pmore() -> B<Op> {
    (small(), 0u8..4).prop_map(|(l, n)| Op::PMore { l, n }).boxed()
}
fn pdisp() -> B<Op> {
    (small(), small(), 0u8..8, 0u8..16, any::<bool>(), prop::bool::weighted(0.1))
        .prop_map(|(s, lo, n, kind, settled, unknown)| Op::PDisp {
            s,
            lo,
            n: if n > 3 { 0 } else { n },
            kind,
            settled,
            unknown,
        })
        .boxed()
}
fn psettle() -> B<Op> {
    (small(), 0u8..3, any::<bool>()).prop_map(|(d, n, state)| Op::PSettle { d, n, state }).boxed()
}
fn pdetach() -> B<Op> {
    (small(), any::<bool>(), prop::bool::weighted(0.3)).prop_map(|(l, err, open)| Op::PDetach { l, err, open }).boxed()
}
fn pend() -> B<Op> {
    (small(), any::<bool>()).prop_map(|(s, err)| Op::PEnd { s, err }).boxed()
}
fn pclose() -> B<Op> {
    any::<bool>().prop_map(|err| Op::PClose { err }).boxed()
}
fn pempty() -> B<Op> {
    any::<u8>().prop_map(|ch| Op::PEmpty { ch }).boxed()
}
fn panswer() -> B<Op> {
    small().prop_map(|i| Op::PAnswer { i }).boxed()
}
fn sopen() -> B<Op> {
    Just(Op::SOpen).boxed()
}
fn send() -> B<Op> {
    small().prop_map(|s| Op::SEnd { s }).boxed()
}
fn sattach(who: Option<bool>) -> B<Op> {
    (small(), 0u8..6, any::<bool>(), limits(), 0u8..4)
        .prop_map(move |(s, name, sx, limit, addr)| Op::SAttach { s, name, sender: who.unwrap_or(sx), limit, addr })
        .boxed()
}
fn ssend(big: bool) -> B<Op> {
    (small(), sizes(big), prop::bool::weighted(0.2), any::<u8>(), any::<bool>(), prop::bool::weighted(0.15))
        .prop_map(|(l, size, settled, tag, fmt, msg)| Op::SSend { l, size, settled, tag, fmt, msg })
        .boxed()
}
fn scancel() -> B<Op> {
    small().prop_map(|i| Op::SCancel { i }).boxed()
}
fn sready() -> B<Op> {
    small().prop_map(|l| Op::SReady { l }).boxed()
}
fn swait() -> B<Op> {
    small().prop_map(|d| Op::SWait { d }).boxed()
}
fn sdropdel() -> B<Op> {
    small().prop_map(|d| Op::SDropDel { d }).boxed()
}
fn ssettledel() -> B<Op> {
    small().prop_map(|d| Op::SSettleDel { d }).boxed()
}
fn scredit() -> B<Op> {
    (small(), 0u8..8).prop_map(|(l, n)| Op::SCredit { l, n }).boxed()
}
fn srecv() -> B<Op> {
    (small(), any::<bool>()).prop_map(|(l, wait)| Op::SRecv { l, wait }).boxed()
}
fn ssettle() -> B<Op> {
    (small(), 0u8..6).prop_map(|(d, kind)| Op::SSettle { d, kind }).boxed()
}
fn supdate() -> B<Op> {
    (small(), 0u8..6).prop_map(|(d, kind)| Op::SUpdate { d, kind }).boxed()
}
fn sdroprcv() -> B<Op> {
    small().prop_map(|d| Op::SDropRcv { d }).boxed()
}
fn sclose_link() -> B<Op> {
    (small(), any::<bool>(), prop::bool::weighted(0.2))
        .prop_map(|(l, err, detach)| Op::SCloseLink { l, err, detach })
        .boxed()
}
fn sclose() -> B<Op> {
    any::<bool>().prop_map(|err| Op::SClose { err }).boxed()
}
fn release() -> B<Op> {
    (small(), prop::bool::weighted(0.7)).prop_map(|(i, ok)| Op::Release { i, ok }).boxed()
}
fn cut() -> B<Op> {
    (0u8..3).prop_map(|kind| Op::Cut { kind }).boxed()
}

fn after() -> B<u8> {
    prop_oneof![3 => 0u8..3, 1 => 3u8..6, 3 => Just(9u8)].boxed()
}

// ------------------------------------------------------------------ configurations

#[derive(Clone, Copy)]
struct Prof {
    /// frame sizes the peer may announce are small
    frames: bool,
    /// small session windows
    win: bool,
    prime: u32,
    rlimit: bool,
    auto: f64,
}

fn cfg(p: Prof) -> B<WCfg> {
    let frames: B<u32> = if p.frames {
        prop_oneof![
            3 => 512u32..560,
            4 => 512u32..2100,
            4 => 2040u32..2200,
            2 => 2048u32..4200,
            1 => Just(65535u32),
        ]
        .boxed()
    } else {
        prop_oneof![1 => 4096u32..9000, 3 => Just(65535u32), 1 => Just(u32::MAX)].boxed()
    };
    let win: B<u32> = if p.win {
        prop_oneof![Just(0u32), 1u32..6, Just(64), Just(u32::MAX)].boxed()
    } else {
        prop_oneof![3 => Just(5000u32), 1 => Just(u32::MAX)].boxed()
    };
    let ids = || {
        prop_oneof![
            3 => Just(0u32),
            2 => 1u32..5,
            1 => Just(0x7fff_fffeu32),
            1 => Just(u32::MAX - 2),
            1 => any::<u32>()
        ]
    };
    let rl: B<Option<u32>> = if p.rlimit {
        prop_oneof![
            2 => Just(None),
            1 => Just(Some(0u32)),
            6 => prop::sample::select(vec![1u32, 10, 64, 300, 512, 1000, 2000]).prop_map(Some)
        ]
        .boxed()
    } else {
        prop_oneof![6 => Just(None), 1 => Just(Some(0u32))].boxed()
    };
    let prime = p.prime;
    (
        (any::<bool>(), frames, prop_oneof![2 => Just(65535u32), 1 => 512u32..3000]),
        prop_oneof![3 => Just(0u8), 1 => 1u8..9, 1 => 9u8..200],
        prop_oneof![Just(0u64), any::<u64>()],
        (ids(), ids()),
        prop::bool::weighted(p.auto),
        win,
        rl,
    )
        .prop_map(move |((server, pf, sf), frag, enc, (base_id, base_dc), auto, win, rlimit)| WCfg {
            server,
            peer_frame: pf,
            sut_frame: sf,
            peer_chan: 255,
            sut_chan: 100,
            frag,
            enc,
            base_id,
            base_dc,
            auto,
            win,
            rlimit,
            prime,
        })
        .boxed()
}

/// Sessions and links a history starts with.
fn setup(sender: bool, receiver: bool) -> B<Vec<(Op, u8)>> {
    let mut kinds: Vec<B<Op>> = vec![];
    if sender {
        kinds.push(pattach(Some(true), false));
        kinds.push(sattach(Some(true)));
    }
    if receiver {
        kinds.push(pattach(Some(false), false));
        kinds.push(sattach(Some(false)));
    }
    let begin = prop_oneof![sopen(), Just(Op::PBegin { ch: 0, win: 0 })];
    (
        vec(begin, 1..3),
        vec(Union::new(kinds), if sender || receiver { 1..4 } else { 0..1 }),
        any::<bool>(),
    )
        .prop_map(|(b, l, rest)| {
            let mut v = vec![];
            for (i, o) in b.into_iter().enumerate() {
                let by_sut = o == Op::SOpen;
                v.push((o, 9));
                if by_sut {
                    v.push((Op::PAnswerBegin { i: 0, ch: i as u8, win: 0 }, 9));
                }
            }
            for (i, o) in l.into_iter().enumerate() {
                let by_sut = matches!(o, Op::SAttach { .. });
                v.push((o, if rest { 9 } else { 3 }));
                if by_sut {
                    v.push((Op::PAnswerAttach { i: 0, handle: i as u8, refuse: false, limit: 0 }, 9));
                }
            }
            v
        })
        .boxed()
}

fn hist(p: Prof, setup: B<Vec<(Op, u8)>>, ops: W, len: usize, fin: B<u8>) -> B<Hist> {
    (cfg(p), setup, vec((Union::new_weighted(ops), after()), 3..len), fin)
        .prop_map(|(cfg, setup, ops, fin)| Hist { cfg, ops: setup.into_iter().chain(ops).collect(), fin })
        .boxed()
}

fn fin_any() -> B<u8> {
    prop_oneof![3 => Just(0u8), 2 => 1u8..10].boxed()
}

fn lenr(t: Tier, q: usize) -> usize {
    if t == Tier::Thorough { q * 2 } else { q }
}

// ------------------------------------------------------------------ checks

pub fn run_hist(h: &Hist, id: &str, case: &mut Case, need: &[(&'static str, u64)]) -> Result<(), String> {
    let h2 = h.clone();
    let (viol, trace, stat) = block_on(async move {
        let w = World::run(&h2).await;
        (
            w.viol.iter().map(|v| (v.props.clone(), v.msg.clone())).collect::<Vec<_>>(),
            w.trace.clone(),
            w.stat.clone(),
        )
    });
    for (k, n) in &stat {
        case.count(*k, *n);
    }
    if need.iter().all(|(k, n)| stat.get(k).copied().unwrap_or(0) >= *n) {
        case.nontrivial();
    }
    if let Some((p, m)) = viol.iter().find(|(p, _)| p.contains(&id) || p.contains(&"*")) {
        let keep = trace.len().saturating_sub(60);
        return Err(format!("{m} {p:?}\n{}", trace[keep..].join("\n")));
    }
    Ok(())
}

macro_rules! checks {
    ($($f:ident $id:literal [$(($k:literal, $n:literal)),*];)*) => {
        $(fn $f(h: &Hist, case: &mut Case) -> Result<(), String> {
            run_hist(h, $id, case, &[$(($k, $n)),*])
        })*
    };
}

checks! {
    e01 "E01" [("deliveries out", 1), ("sends", 2)];
    e02 "E02" [("deliveries out", 2)];
    e03 "E03" [("deliveries out", 2)];
    e04 "E04" [("transfers", 2)];
    e05 "E05" [("outcomes", 1)];
    e06 "E06" [("sessions", 1)];
    e07 "E07" [("received", 1)];
    e08 "E08" [("grants", 1), ("deliveries in", 1)];
    e09 "E09" [("payloads", 1)];
    e10 "E10" [("settles", 1)];
    e11 "E11" [("links", 2)];
    e12 "E12" [("sessions", 2)];
    e20 "E20" [("links", 1), ("flows in", 1)];
}

const BASE: Prof = Prof { frames: false, win: false, prime: 0, rlimit: false, auto: 0.85 };

fn all_ops() -> W {
    vec![
        (3, pbegin()),
        (3, sopen()),
        (2, panswerbegin()),
        (8, pattach(None, true)),
        (8, sattach(None)),
        (3, panswerattach()),
        (8, pflow(0..14, 0.1, false)),
        (2, psessflow(0.2)),
        (8, pxfer(false, 0.05, 0.1)),
        (3, pmore()),
        (5, pdisp()),
        (2, psettle()),
        (4, pdetach()),
        (2, pend()),
        (1, pempty()),
        (4, panswer()),
        (10, ssend(false)),
        (1, scancel()),
        (4, sready()),
        (5, swait()),
        (1, sdropdel()),
        (4, scredit()),
        (5, srecv()),
        (3, ssettle()),
        (1, sdroprcv()),
        (4, sclose_link()),
        (2, send()),
        (3, release()),
    ]
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "E01",
            rule: "a history is non-trivial if the endpoint was asked for at least two sends and put at least one delivery on the wire",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("hist", 40_000, 1_000_000, |t| {
                hist(
                    BASE,
                    setup(true, false),
                    vec![
                        (12, pflow(0..16, 0.1, false)),
                        (14, ssend(false)),
                        (2, scancel()),
                        (3, sready()),
                        (1, psessflow(0.1)),
                        (1, pattach(Some(true), false)),
                        (1, pdetach()),
                    ],
                    lenr(t, 20),
                    fin_any(),
                )
            }, e01), sub("slow", 4_000, 80_000, |_| crate::p_app::slow_case(), crate::p_app::slow)],
        },
        Prop {
            id: "E02",
            rule: "a history is non-trivial if at least two deliveries were put on the wire",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("hist", 40_000, 1_000_000, |t| {
                hist(
                    Prof { frames: true, win: true, prime: 20, ..BASE },
                    setup(true, false),
                    vec![
                        (6, pflow(0..16, 0.1, true)),
                        (14, ssend(true)),
                        (2, scancel()),
                        (2, psessflow(0.1)),
                        (1, pattach(Some(true), false)),
                        (1, pdetach()),
                        (1, sclose_link()),
                    ],
                    lenr(t, 20),
                    fin_any(),
                )
            }, e02)],
        },
        Prop {
            id: "E03",
            rule: "a history is non-trivial if at least two deliveries were put on the wire",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("hist", 40_000, 1_000_000, |t| {
                hist(
                    Prof { frames: true, win: true, prime: 1000, ..BASE },
                    setup(true, false),
                    vec![
                        (4, pflow(8..16, 0.1, true)),
                        (14, ssend(true)),
                        (2, scancel()),
                        (8, psessflow(0.1)),
                        (1, pdetach()),
                    ],
                    lenr(t, 20),
                    fin_any(),
                )
            }, e03)],
        },
        Prop {
            id: "E04",
            rule: "a history is non-trivial if at least two transfer frames were put on the wire",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("hist", 40_000, 1_000_000, |t| {
                hist(
                    Prof { frames: true, prime: 1000, ..BASE },
                    setup(true, false),
                    vec![(14, ssend(true)), (1, pflow(8..16, 0.1, false))],
                    lenr(t, 12),
                    Just(0u8).boxed(),
                )
            }, e04)],
        },
        Prop {
            id: "E05",
            rule: "a history is non-trivial if at least one wait returned an outcome that was checked against the peer's dispositions",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("hist", 40_000, 1_000_000, |t| {
                hist(
                    Prof { prime: 1000, ..BASE },
                    setup(true, false),
                    vec![
                        (10, ssend(false)),
                        (10, pdisp()),
                        (8, swait()),
                        (2, sdropdel()),
                        (2, ssettledel()),
                        (1, pdetach()),
                        (1, pattach(Some(true), false)),
                    ],
                    lenr(t, 24),
                    fin_any(),
                )
            }, e05)],
        },
        Prop {
            id: "E06",
            rule: "a history is non-trivial if a session existed when the history ended with a detach, end, close or loss of the stream",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("hist", 40_000, 1_000_000, |t| {
                let mut ops = all_ops();
                ops.push((1, pclose()));
                ops.push((1, sclose()));
                ops.push((1, cut()));
                hist(Prof { win: true, ..BASE }, setup(true, true), ops, lenr(t, 20), (1u8..10).boxed())
            }, e06)],
        },
        Prop {
            id: "E07",
            rule: "a history is non-trivial if at least one delivery was handed to the application (sub ids: and a link was ended for a wrong transfer)",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("hist", 40_000, 1_000_000, |t| {
                hist(
                    Prof { prime: 20, ..BASE },
                    setup(false, true),
                    vec![
                        (14, pxfer(true, 0.02, 0.1)),
                        (8, pmore()),
                        (10, srecv()),
                        (2, scredit()),
                        (2, ssettle()),
                        (2, sdroprcv()),
                        (1, psettle()),
                        (1, pattach(Some(false), false)),
                        (1, pdetach()),
                    ],
                    lenr(t, 24),
                    fin_any(),
                )
            }, e07)].into_iter().chain(crate::p_mix::subs()).collect(),
        },
        Prop {
            id: "E08",
            rule: "a history is non-trivial if the application granted credit and the peer delivered",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("hist", 40_000, 1_000_000, |t| {
                hist(
                    BASE,
                    setup(false, true),
                    vec![
                        (10, pxfer(false, 0.3, 0.1)),
                        (4, pmore()),
                        (4, srecv()),
                        (8, scredit()),
                        (1, sdroprcv()),
                        (1, pattach(Some(false), false)),
                    ],
                    lenr(t, 20),
                    fin_any(),
                )
            }, e08)],
        },
        Prop {
            id: "E09",
            rule: "a history is non-trivial if a payload was sent over a link, by either side, or refused because of its size",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("hist", 40_000, 1_000_000, |t| {
                let pa = |who: bool| {
                    pattach(Some(who), false).prop_map(|o| match o {
                        Op::PAttach { s, name, sut_sender, handle, addr, verdict, limit: _ } => {
                            Op::PAttach { s, name, sut_sender, handle, addr, verdict, limit: name.wrapping_add(handle) % 10 }
                        }
                        o => o,
                    }).boxed()
                };
                let links = prop_oneof![
                    1 => setup(true, true),
                    1 => (setup(true, true), 0u8..10).prop_map(|(mut v, x)| {
                        for (o, _) in &mut v {
                            if let Op::SAttach { limit, name, .. } = o {
                                *limit = name.wrapping_add(x) % 10;
                            }
                        }
                        v
                    }),
                ];
                hist(
                    Prof { prime: 20, rlimit: true, ..BASE },
                    links.boxed(),
                    vec![
                        (10, pxfer(true, 0.0, 0.05)),
                        (2, pmore()),
                        (3, srecv()),
                        (10, ssend(true)),
                        (2, pa(true)),
                        (2, pa(false)),
                        (2, (small(), 0u8..6, any::<bool>(), 0u8..10).prop_map(|(s, name, sender, limit)| Op::SAttach { s, name, sender, limit, addr: 0 }).boxed()),
                        (1, pdetach()),
                    ],
                    lenr(t, 20),
                    fin_any(),
                )
            }, e09)],
        },
        Prop {
            id: "E10",
            rule: "a history is non-trivial if the application settled at least one delivery it had received",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("hist", 40_000, 1_000_000, |t| {
                hist(
                    Prof { prime: 20, ..BASE },
                    setup(false, true),
                    vec![
                        (8, pxfer(false, 0.0, 0.05)),
                        (2, pmore()),
                        (8, srecv()),
                        (8, ssettle()),
                        (4, supdate()),
                        (4, sdroprcv()),
                        (4, psettle()),
                        (1, pdetach()),
                    ],
                    lenr(t, 24),
                    fin_any(),
                )
            }, e10)],
        },
        Prop {
            id: "E11",
            rule: "a history is non-trivial if at least two links were attached",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("hist", 40_000, 1_000_000, |t| {
                hist(Prof { auto: 0.5, ..BASE }, setup(true, true), vec![
                    (10, pattach(None, true)),
                    (10, sattach(None)),
                    (6, panswerattach()),
                    (8, pflow(0..14, 0.1, false)),
                    (6, pxfer(false, 0.05, 0.1)),
                    (8, pdetach()),
                    (8, sclose_link()),
                    (5, panswer()),
                    (8, ssend(false)),
                    (2, scredit()),
                    (3, srecv()),
                    (4, release()),
                    (1, pend()),
                    (1, pbegin()),
                ], lenr(t, 24), fin_any())
            }, e11)],
        },
        Prop {
            id: "E12",
            rule: "a history is non-trivial if at least two sessions were begun",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("hist", 40_000, 1_000_000, |t| {
                hist(Prof { auto: 0.5, prime: 5, ..BASE }, setup(true, true), vec![
                    (8, pbegin()),
                    (8, sopen()),
                    (8, panswerbegin()),
                    (8, pend()),
                    (8, send()),
                    (6, panswer()),
                    (5, pattach(None, false)),
                    (3, sattach(None)),
                    (3, panswerattach()),
                    (4, ssend(false)),
                    (4, pxfer(false, 0.0, 0.0)),
                    (3, srecv()),
                ], lenr(t, 24), fin_any())
            }, e12)],
        },
        Prop {
            id: "E20",
            rule: "a history is non-trivial if a link was attached and the endpoint received at least one flow frame",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("hist", 40_000, 1_000_000, |t| {
                hist(Prof { frames: true, win: true, prime: 10, ..BASE }, setup(true, true), vec![
                    (8, pflow(0..14, 0.5, true)),
                    (6, psessflow(0.6)),
                    (8, pxfer(false, 0.0, 0.1)),
                    (4, pmore()),
                    (8, ssend(true)),
                    (8, scredit()),
                    (2, srecv()),
                    (1, pattach(None, false)),
                    (1, pdetach()),
                ], lenr(t, 24), fin_any())
            }, e20)],
        },
    ]
}
