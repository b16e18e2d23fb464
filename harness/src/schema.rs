//! Performative tables of the AMQP 1.0 specification (parts 2, 3 and 5), with a generator.
use proptest::collection::vec;
use proptest::prelude::*;

use crate::conv::{AMQP_ERR, CONN_ERR, LINK_ERR, SESS_ERR, mk};
use crate::r#gen as g;
use crate::refcodec::{Ch, ElemTy, Val};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    Bool,
    U8,
    U16,
    U32,
    U64,
    Str,
    Sym,
    Bin,
    Ts,
    SndMode,
    RcvMode,
    Durability,
    Expiry,
    SaslCode,
    DistMode,
    Cond,
    MsgId,
    /// multiple="true" symbols
    Syms,
    /// map symbol -> any
    Fields,
    /// map symbol -> any, duplicate-free vector in the library
    FieldsVec,
    AnyMap,
    Filter,
    Error,
    Source,
    Target,
    State,
    Outcome,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Need {
    Req,
    Opt,
    DefBool(bool),
    DefU8(u8),
    DefU16(u16),
    DefU32(u32),
    DefSym(&'static str),
}

pub type Field = (&'static str, Ty, Need);

pub struct Comp {
    pub name: &'static str,
    pub code: u64,
    pub sym: &'static str,
    pub fields: &'static [Field],
}

use Need::*;

macro_rules! comps {
    ($($id:ident: $name:literal, $code:literal, $sym:literal, [$($f:expr),* $(,)?];)*) => {
        $(pub static $id: Comp = Comp { name: $name, code: $code, sym: $sym, fields: &[$($f),*] };)*
        pub static ALL: &[&Comp] = &[$(&$id),*];
    };
}

comps! {
    OPEN: "open", 0x10, "amqp:open:list", [
        ("container-id", Ty::Str, Req), ("hostname", Ty::Str, Opt),
        ("max-frame-size", Ty::U32, DefU32(4294967295)), ("channel-max", Ty::U16, DefU16(65535)),
        ("idle-time-out", Ty::U32, Opt), ("outgoing-locales", Ty::Syms, Opt),
        ("incoming-locales", Ty::Syms, Opt), ("offered-capabilities", Ty::Syms, Opt),
        ("desired-capabilities", Ty::Syms, Opt), ("properties", Ty::Fields, Opt)];
    BEGIN: "begin", 0x11, "amqp:begin:list", [
        ("remote-channel", Ty::U16, Opt), ("next-outgoing-id", Ty::U32, Req),
        ("incoming-window", Ty::U32, Req), ("outgoing-window", Ty::U32, Req),
        ("handle-max", Ty::U32, DefU32(4294967295)), ("offered-capabilities", Ty::Syms, Opt),
        ("desired-capabilities", Ty::Syms, Opt), ("properties", Ty::Fields, Opt)];
    ATTACH: "attach", 0x12, "amqp:attach:list", [
        ("name", Ty::Str, Req), ("handle", Ty::U32, Req), ("role", Ty::Bool, Req),
        ("snd-settle-mode", Ty::SndMode, DefU8(2)), ("rcv-settle-mode", Ty::RcvMode, DefU8(0)),
        ("source", Ty::Source, Opt), ("target", Ty::Target, Opt), ("unsettled", Ty::AnyMap, Opt),
        ("incomplete-unsettled", Ty::Bool, DefBool(false)), ("initial-delivery-count", Ty::U32, Opt),
        ("max-message-size", Ty::U64, Opt), ("offered-capabilities", Ty::Syms, Opt),
        ("desired-capabilities", Ty::Syms, Opt), ("properties", Ty::Fields, Opt)];
    FLOW: "flow", 0x13, "amqp:flow:list", [
        ("next-incoming-id", Ty::U32, Opt), ("incoming-window", Ty::U32, Req),
        ("next-outgoing-id", Ty::U32, Req), ("outgoing-window", Ty::U32, Req),
        ("handle", Ty::U32, Opt), ("delivery-count", Ty::U32, Opt), ("link-credit", Ty::U32, Opt),
        ("available", Ty::U32, Opt), ("drain", Ty::Bool, DefBool(false)),
        ("echo", Ty::Bool, DefBool(false)), ("properties", Ty::Fields, Opt)];
    TRANSFER: "transfer", 0x14, "amqp:transfer:list", [
        ("handle", Ty::U32, Req), ("delivery-id", Ty::U32, Opt), ("delivery-tag", Ty::Bin, Opt),
        ("message-format", Ty::U32, Opt), ("settled", Ty::Bool, Opt), ("more", Ty::Bool, DefBool(false)),
        ("rcv-settle-mode", Ty::RcvMode, Opt), ("state", Ty::State, Opt),
        ("resume", Ty::Bool, DefBool(false)), ("aborted", Ty::Bool, DefBool(false)),
        ("batchable", Ty::Bool, DefBool(false))];
    DISPOSITION: "disposition", 0x15, "amqp:disposition:list", [
        ("role", Ty::Bool, Req), ("first", Ty::U32, Req), ("last", Ty::U32, Opt),
        ("settled", Ty::Bool, DefBool(false)), ("state", Ty::State, Opt),
        ("batchable", Ty::Bool, DefBool(false))];
    DETACH: "detach", 0x16, "amqp:detach:list", [
        ("handle", Ty::U32, Req), ("closed", Ty::Bool, DefBool(false)), ("error", Ty::Error, Opt)];
    END: "end", 0x17, "amqp:end:list", [("error", Ty::Error, Opt)];
    CLOSE: "close", 0x18, "amqp:close:list", [("error", Ty::Error, Opt)];
    ERROR: "error", 0x1d, "amqp:error:list", [
        ("condition", Ty::Cond, Req), ("description", Ty::Str, Opt), ("info", Ty::FieldsVec, Opt)];
    RECEIVED: "received", 0x23, "amqp:received:list", [
        ("section-number", Ty::U32, Req), ("section-offset", Ty::U64, Req)];
    ACCEPTED: "accepted", 0x24, "amqp:accepted:list", [];
    REJECTED: "rejected", 0x25, "amqp:rejected:list", [("error", Ty::Error, Opt)];
    RELEASED: "released", 0x26, "amqp:released:list", [];
    MODIFIED: "modified", 0x27, "amqp:modified:list", [
        ("delivery-failed", Ty::Bool, Opt), ("undeliverable-here", Ty::Bool, Opt),
        ("message-annotations", Ty::FieldsVec, Opt)];
    SOURCE: "source", 0x28, "amqp:source:list", [
        ("address", Ty::Str, Opt), ("durable", Ty::Durability, DefU32(0)),
        ("expiry-policy", Ty::Expiry, DefSym("session-end")), ("timeout", Ty::U32, DefU32(0)),
        ("dynamic", Ty::Bool, DefBool(false)), ("dynamic-node-properties", Ty::Fields, Opt),
        ("distribution-mode", Ty::DistMode, Opt), ("filter", Ty::Filter, Opt),
        ("default-outcome", Ty::Outcome, Opt), ("outcomes", Ty::Syms, Opt), ("capabilities", Ty::Syms, Opt)];
    TARGET: "target", 0x29, "amqp:target:list", [
        ("address", Ty::Str, Opt), ("durable", Ty::Durability, DefU32(0)),
        ("expiry-policy", Ty::Expiry, DefSym("session-end")), ("timeout", Ty::U32, DefU32(0)),
        ("dynamic", Ty::Bool, DefBool(false)), ("dynamic-node-properties", Ty::Fields, Opt),
        ("capabilities", Ty::Syms, Opt)];
    HEADER: "header", 0x70, "amqp:header:list", [
        ("durable", Ty::Bool, DefBool(false)), ("priority", Ty::U8, DefU8(4)), ("ttl", Ty::U32, Opt),
        ("first-acquirer", Ty::Bool, DefBool(false)), ("delivery-count", Ty::U32, DefU32(0))];
    PROPERTIES: "properties", 0x73, "amqp:properties:list", [
        ("message-id", Ty::MsgId, Opt), ("user-id", Ty::Bin, Opt), ("to", Ty::Str, Opt),
        ("subject", Ty::Str, Opt), ("reply-to", Ty::Str, Opt), ("correlation-id", Ty::MsgId, Opt),
        ("content-type", Ty::Sym, Opt), ("content-encoding", Ty::Sym, Opt),
        ("absolute-expiry-time", Ty::Ts, Opt), ("creation-time", Ty::Ts, Opt), ("group-id", Ty::Str, Opt),
        ("group-sequence", Ty::U32, Opt), ("reply-to-group-id", Ty::Str, Opt)];
    SASL_MECHANISMS: "sasl-mechanisms", 0x40, "amqp:sasl-mechanisms:list", [
        ("sasl-server-mechanisms", Ty::Syms, Req)];
    SASL_INIT: "sasl-init", 0x41, "amqp:sasl-init:list", [
        ("mechanism", Ty::Sym, Req), ("initial-response", Ty::Bin, Opt), ("hostname", Ty::Str, Opt)];
    SASL_CHALLENGE: "sasl-challenge", 0x42, "amqp:sasl-challenge:list", [("challenge", Ty::Bin, Req)];
    SASL_RESPONSE: "sasl-response", 0x43, "amqp:sasl-response:list", [("response", Ty::Bin, Req)];
    SASL_OUTCOME: "sasl-outcome", 0x44, "amqp:sasl-outcome:list", [
        ("code", Ty::SaslCode, Req), ("additional-data", Ty::Bin, Opt)];
}

pub static FRAMES: &[&Comp] =
    &[&OPEN, &BEGIN, &ATTACH, &FLOW, &TRANSFER, &DISPOSITION, &DETACH, &END, &CLOSE];
pub static SASL_FRAMES: &[&Comp] =
    &[&SASL_MECHANISMS, &SASL_INIT, &SASL_CHALLENGE, &SASL_RESPONSE, &SASL_OUTCOME];
pub static STATES: &[&Comp] = &[&RECEIVED, &ACCEPTED, &REJECTED, &RELEASED, &MODIFIED];
static OUTCOMES: &[&Comp] = &[&ACCEPTED, &REJECTED, &RELEASED, &MODIFIED];

pub fn by_code(code: u64) -> Option<&'static Comp> {
    ALL.iter().copied().find(|c| c.code == code)
}
pub fn by_sym(s: &str) -> Option<&'static Comp> {
    ALL.iter().copied().find(|c| c.sym == s)
}

pub fn default_of(n: Need) -> Option<Val> {
    Some(match n {
        Req => return None,
        Opt => Val::Null,
        DefBool(x) => Val::Bool(x),
        DefU8(x) => Val::Ubyte(x),
        DefU16(x) => Val::Ushort(x),
        DefU32(x) => Val::Uint(x),
        DefSym(x) => Val::sym(x),
    })
}

fn sub_comps(ty: Ty) -> &'static [&'static Comp] {
    static E: &[&Comp] = &[&ERROR];
    static S: &[&Comp] = &[&SOURCE];
    static T: &[&Comp] = &[&TARGET];
    match ty {
        Ty::Error => E,
        Ty::Source => S,
        Ty::Target => T,
        Ty::State => STATES,
        Ty::Outcome => OUTCOMES,
        _ => &[],
    }
}

// ------------------------------------------------------------------ normal form

/// Brings a described list read from the wire into the normal form: numeric descriptor, all fields
/// present, defaults filled in, single values of multiple fields as arrays.  Checks types.
pub fn normalize(v: &Val, allowed: &[&'static Comp]) -> Result<Val, String> {
    let Val::Desc(d, b) = v else { return Err(format!("not a described value: {v:?}")) };
    let c = match &**d {
        Val::Ulong(c) => by_code(*c),
        Val::Sym(s) => by_sym(s),
        _ => None,
    };
    let c = match c {
        Some(c) if allowed.is_empty() || allowed.iter().any(|a| a.code == c.code) => c,
        _ => return Err(format!("unexpected descriptor {d:?}")),
    };
    let Val::List(l) = &**b else { return Err(format!("{}: body is no list", c.name)) };
    if l.len() > c.fields.len() {
        return Err(format!("{}: too many fields", c.name));
    }
    let mut out = Vec::new();
    for (i, (name, ty, need)) in c.fields.iter().enumerate() {
        let v = l.get(i).unwrap_or(&Val::Null);
        if *v == Val::Null {
            match default_of(*need) {
                Some(d) => out.push(d),
                None => return Err(format!("{}: mandatory field {name} missing", c.name)),
            }
        } else {
            out.push(norm_field(*ty, v).map_err(|e| format!("{}.{name}: {e}", c.name))?);
        }
    }
    Ok(mk(c.code, out))
}

fn norm_field(ty: Ty, v: &Val) -> Result<Val, String> {
    let bad = || Err(format!("{v:?} is not a {ty:?}"));
    let ok = match (ty, v) {
        (Ty::Bool, Val::Bool(_)) => true,
        (Ty::U8, Val::Ubyte(_)) => true,
        (Ty::U16, Val::Ushort(_)) => true,
        (Ty::U32, Val::Uint(_)) => true,
        (Ty::U64, Val::Ulong(_)) => true,
        (Ty::Str, Val::Str(_)) => true,
        (Ty::Sym, Val::Sym(_)) | (Ty::Cond, Val::Sym(_)) | (Ty::DistMode, Val::Sym(_)) => true,
        (Ty::Bin, Val::Bin(_)) => true,
        (Ty::Ts, Val::Ts(_)) => true,
        (Ty::SndMode, Val::Ubyte(x)) => *x <= 2,
        (Ty::RcvMode, Val::Ubyte(x)) => *x <= 1,
        (Ty::Durability, Val::Uint(x)) => *x <= 2,
        (Ty::SaslCode, Val::Ubyte(x)) => *x <= 4,
        (Ty::Expiry, Val::Sym(s)) => EXPIRY.contains(&s.as_str()),
        (Ty::MsgId, Val::Ulong(_) | Val::Uuid(_) | Val::Bin(_) | Val::Str(_)) => true,
        (Ty::Syms, Val::Sym(_)) => return Ok(Val::Array(None, ElemTy::Sym, vec![v.clone()])),
        (Ty::Syms, Val::Array(None, ElemTy::Sym, _)) => true,
        // no elements, nothing is misread
        (Ty::Syms, Val::Array(None, _, l)) if l.is_empty() => {
            return Ok(Val::Array(None, ElemTy::Sym, vec![]));
        }
        (Ty::Fields | Ty::FieldsVec | Ty::Filter, Val::Map(m)) => {
            if m.iter().any(|(k, _)| !matches!(k, Val::Sym(_))) {
                return bad();
            }
            return Ok(v.normalized());
        }
        (Ty::AnyMap, Val::Map(_)) => return Ok(v.normalized()),
        (Ty::Error | Ty::Source | Ty::Target | Ty::State | Ty::Outcome, _) => {
            return normalize(v, sub_comps(ty));
        }
        _ => false,
    };
    if ok { Ok(v.clone()) } else { bad() }
}

/// Rewrites a normal form into some other conforming form of the same value.
pub fn vary(v: &Val, ch: &mut Ch) -> Val {
    let Val::Desc(d, b) = v else { panic!() };
    let Val::Ulong(code) = **d else { panic!() };
    let c = by_code(code).unwrap();
    let Val::List(l) = &**b else { panic!() };
    let mut out: Vec<Val> = Vec::new();
    for ((_, ty, need), v) in c.fields.iter().zip(l) {
        let dflt = default_of(*need);
        if dflt.as_ref() == Some(v) && *v != Val::Null && ch.pick(2) == 1 {
            out.push(Val::Null);
            continue;
        }
        out.push(match (ty, v) {
            (_, Val::Null) => Val::Null,
            (Ty::Syms, Val::Array(_, _, e)) if e.len() == 1 && ch.pick(2) == 1 => e[0].clone(),
            (Ty::Error | Ty::Source | Ty::Target | Ty::State | Ty::Outcome, v) => vary(v, ch),
            (_, v) => v.clone(),
        });
    }
    // trailing nulls may be omitted
    while out.last() == Some(&Val::Null) && ch.pick(4) != 3 {
        out.pop();
    }
    let d = if ch.pick(3) == 2 { Val::sym(c.sym) } else { Val::Ulong(code) };
    Val::Desc(Box::new(d), Box::new(Val::List(out)))
}

// ------------------------------------------------------------------ generators

pub const EXPIRY: [&str; 4] = ["link-detach", "session-end", "connection-close", "never"];

fn field_gen(ty: Ty) -> BoxedStrategy<Val> {
    match ty {
        Ty::Bool => any::<bool>().prop_map(Val::Bool).boxed(),
        Ty::U8 => any::<u8>().prop_map(Val::Ubyte).boxed(),
        Ty::U16 => g::edge_u16().prop_map(Val::Ushort).boxed(),
        Ty::U32 => g::edge_u32().prop_map(Val::Uint).boxed(),
        Ty::U64 => g::edge_u64().prop_map(Val::Ulong).boxed(),
        Ty::Str => g::string().prop_map(Val::Str).boxed(),
        Ty::Sym => g::symbol().prop_map(Val::Sym).boxed(),
        Ty::Bin => g::binary().prop_map(Val::Bin).boxed(),
        Ty::Ts => g::timestamp().prop_map(Val::Ts).boxed(),
        Ty::SndMode => (0u8..3).prop_map(Val::Ubyte).boxed(),
        Ty::RcvMode => (0u8..2).prop_map(Val::Ubyte).boxed(),
        Ty::Durability => (0u32..3).prop_map(Val::Uint).boxed(),
        Ty::SaslCode => (0u8..5).prop_map(Val::Ubyte).boxed(),
        Ty::Expiry => (0usize..4).prop_map(|i| Val::sym(EXPIRY[i])).boxed(),
        Ty::DistMode => prop_oneof![
            Just(Val::sym("move")),
            Just(Val::sym("copy")),
            g::symbol().prop_map(Val::Sym)
        ]
        .boxed(),
        Ty::Cond => prop_oneof![
            3 => (0usize..25).prop_map(|i| {
                let all: Vec<&str> = AMQP_ERR.iter().chain(&CONN_ERR).chain(&SESS_ERR).chain(&LINK_ERR).copied().collect();
                Val::sym(all[i])
            }),
            1 => g::symbol().prop_map(Val::Sym)
        ]
        .boxed(),
        Ty::MsgId => prop_oneof![
            g::edge_u64().prop_map(Val::Ulong),
            any::<[u8; 16]>().prop_map(Val::Uuid),
            g::binary().prop_map(Val::Bin),
            g::string().prop_map(Val::Str)
        ]
        .boxed(),
        Ty::Syms => vec(g::symbol().prop_map(Val::Sym), 0..4)
            .prop_map(|l| Val::Array(None, ElemTy::Sym, l))
            .boxed(),
        Ty::Fields | Ty::FieldsVec => g::sym_map(2, 5).boxed(),
        Ty::AnyMap => vec((g::val(1, 6), g::val(2, 8)), 0..4).prop_map(g::dedup_map).boxed(),
        // described filter values are a known finding, see KNOWN_FINDINGS.json
        Ty::Filter => vec(
            (
                g::symbol().prop_map(Val::Sym),
                prop_oneof![Just(Val::Null), g::string().prop_map(Val::Str)],
            ),
            0..4,
        )
        .prop_map(g::dedup_map)
        .boxed(),
        Ty::Error | Ty::Source | Ty::Target | Ty::State | Ty::Outcome => {
            let l = sub_comps(ty);
            (0..l.len()).prop_flat_map(move |i| comp_gen(l[i])).boxed()
        }
    }
}

/// Normal form of one composite with a random subset of its fields present.
pub fn comp_gen(c: &'static Comp) -> BoxedStrategy<Val> {
    let mut acc: BoxedStrategy<Vec<Val>> = Just(Vec::new()).boxed();
    for (_, ty, need) in c.fields.iter() {
        let present = field_gen(*ty);
        let f: BoxedStrategy<Val> = match default_of(*need) {
            None => present,
            Some(d) => prop_oneof![Just(d), present].boxed(),
        };
        acc = (acc, f)
            .prop_map(|(mut l, v)| {
                l.push(v);
                l
            })
            .boxed();
    }
    let code = c.code;
    acc.prop_map(move |l| mk(code, l)).boxed()
}

pub fn frame_gen() -> BoxedStrategy<Val> {
    (0..FRAMES.len()).prop_flat_map(|i| comp_gen(FRAMES[i])).boxed()
}
pub fn sasl_gen() -> BoxedStrategy<Val> {
    (0..SASL_FRAMES.len()).prop_flat_map(|i| comp_gen(SASL_FRAMES[i])).boxed()
}

/// Frame bytes: size, doff 2, type, channel, body.
pub fn frame_bytes(ftype: u8, channel: u16, body: &[u8], payload: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(8 + body.len() + payload.len());
    out.extend_from_slice(&((8 + body.len() + payload.len()) as u32).to_be_bytes());
    out.push(2);
    out.push(ftype);
    out.extend_from_slice(&channel.to_be_bytes());
    out.extend_from_slice(body);
    out.extend_from_slice(payload);
    out
}
