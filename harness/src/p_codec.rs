//! C01..C07 (codec part): values, performatives, messages, framing, protocol headers.
use std::collections::HashMap as StdMap;

use chrono::{DateTime, Utc};
use ntex_amqp_codec::protocol::*;
use ntex_amqp_codec::types::*;
use ntex_amqp_codec::*;
use ntex_bytes::{ByteString, Bytes, BytesMut};
use ntex_codec::{Decoder, Encoder};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use uuid::Uuid;

use crate::alloc;
use crate::conv::{self, Fld, lib_bytes, val, variant};
use crate::r#gen as g;
use crate::refcodec::{self, Ch, ElemTy, Val};
use crate::runner::{Case, Prop, sub};
use crate::schema;

type R = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(200).map(|x| format!("{x:02x}")).collect();
    if b.len() > 200 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

// ------------------------------------------------------------------ C01

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ValIn {
    pub v: Val,
    pub suffix: Vec<u8>,
}

fn c01_check(i: &ValIn, case: &mut Case) -> R {
    let v = variant(&i.v);
    roundtrip_variant(&v, &i.v, &i.suffix)?;
    let d = i.v.depth();
    case.label(format!("depth {}", if d > 8 { 9 } else { d }));
    if d >= 1 || lib_bytes(&v).len() > 9 {
        case.nontrivial();
    }
    // typed codecs agree with the polymorphic one
    typed_roundtrip(&i.v, &i.suffix)?;
    Ok(())
}

fn roundtrip_variant(v: &Variant, expect: &Val, suffix: &[u8]) -> R {
    let mut buf = BytesMut::new();
    v.encode(&mut buf);
    ensure!(
        v.encoded_size() == buf.len(),
        "reported size {} but {} bytes written: {}",
        v.encoded_size(),
        buf.len(),
        hex(&buf)
    );
    let bytes = buf.to_vec();
    let r = refcodec::dec_all(&bytes)
        .map_err(|e| format!("not a valid encoding ({e:?}): {}", hex(&bytes)))?;
    ensure!(
        r.normalized() == expect.normalized(),
        "encoded as another value: {} reads as {r:?}",
        hex(&bytes)
    );
    let mut with = bytes.clone();
    with.extend_from_slice(suffix);
    let mut input = Bytes::from(with);
    let back = Variant::decode(&mut input)
        .map_err(|e| format!("own encoding rejected: {e:?}: {}", hex(&bytes)))?;
    ensure!(back == *v, "decoded value differs: {back:?}");
    let bv = val(&back)?;
    ensure!(bv.normalized() == expect.normalized(), "decoded value differs: {bv:?}");
    ensure!(&input[..] == suffix, "decoding consumed other than the encoded bytes");
    // the decoded value is a value too
    ensure!(back.encoded_size() == v.encoded_size(), "decoded value reports another size");
    ensure!(lib_bytes(&back).len() == bytes.len(), "decoded value encodes to another length");
    Ok(())
}

fn rt<T: Encode + Decode + PartialEq + std::fmt::Debug>(
    t: T,
    expect: &Val,
    suffix: &[u8],
) -> R {
    let b = lib_bytes(&t);
    ensure!(t.encoded_size() == b.len(), "typed: reported size {} but {} written", t.encoded_size(), b.len());
    let r = refcodec::dec_all(&b).map_err(|e| format!("typed: invalid encoding {e:?} {}", hex(&b)))?;
    ensure!(r.normalized() == expect.normalized(), "typed: encoded as {r:?}");
    let mut w = b.clone();
    w.extend_from_slice(suffix);
    let mut inp = Bytes::from(w);
    let back = T::decode(&mut inp).map_err(|e| format!("typed: own encoding rejected {e:?} {}", hex(&b)))?;
    ensure!(back == t, "typed: decoded value differs {back:?}");
    ensure!(&inp[..] == suffix, "typed: consumed other than the encoded bytes");
    Ok(())
}

fn typed_roundtrip(v: &Val, s: &[u8]) -> R {
    match v {
        Val::Bool(x) => rt(*x, v, s)?,
        Val::Ubyte(x) => rt(*x, v, s)?,
        Val::Ushort(x) => rt(*x, v, s)?,
        Val::Uint(x) => {
            rt(*x, v, s)?;
            rt(Some(*x), v, s)?
        }
        Val::Ulong(x) => rt(*x, v, s)?,
        Val::Byte(x) => rt(*x, v, s)?,
        Val::Short(x) => rt(*x, v, s)?,
        Val::Int(x) => rt(*x, v, s)?,
        Val::Long(x) => rt(*x, v, s)?,
        Val::Char(x) => rt(*x, v, s)?,
        Val::Ts(x) => rt(conv::ts(*x), v, s)?,
        Val::Uuid(x) => rt(Uuid::from_bytes(*x), v, s)?,
        Val::Bin(x) => rt(Bytes::from(x.clone()), v, s)?,
        Val::Str(x) => {
            rt(conv::bs(x), v, s)?;
            rt(Str::from(x.clone()), v, s)?;
        }
        Val::Sym(x) => rt(Symbol::from(x.clone()), v, s)?,
        Val::Null => rt(None::<u32>, v, s)?,
        Val::List(l) => rt(List(l.iter().map(variant).collect()), v, s)?,
        Val::Map(m) => {
            let x: StdMap<Variant, Variant> =
                m.iter().map(|(k, v)| (variant(k), variant(v))).collect();
            rt(x, v, s)?;
            if m.iter().all(|(k, _)| matches!(k, Val::Sym(_))) {
                rt(VecSymbolMap::from_val(v), v, s)?;
                rt(Fields::from_val(v), v, s)?;
            }
            if m.iter().all(|(k, _)| matches!(k, Val::Str(_))) {
                rt(VecStringMap::from_val(v), v, s)?;
            }
        }
        Val::Array(None, t, l) => {
            macro_rules! ta {
                ($p:pat => $e:expr, $t:ty) => {{
                    let x: Vec<$t> =
                        l.iter().map(|x| match x { $p => $e, _ => unreachable!() }).collect();
                    rt(x.clone(), v, s)?;
                    let a = Array::from(x.clone());
                    let back: Vec<$t> = a.decode().map_err(|e| format!("Array::decode: {e:?}"))?;
                    ensure!(back == x, "Array::decode returns other elements {back:?}");
                    if x.len() != 1 {
                        rt(Multiple(x), v, s)?;
                    }
                }};
            }
            match t {
                ElemTy::Bool => ta!(Val::Bool(x) => *x, bool),
                ElemTy::Ubyte => ta!(Val::Ubyte(x) => *x, u8),
                ElemTy::Ushort => ta!(Val::Ushort(x) => *x, u16),
                ElemTy::Uint => ta!(Val::Uint(x) => *x, u32),
                ElemTy::Ulong => ta!(Val::Ulong(x) => *x, u64),
                ElemTy::Byte => ta!(Val::Byte(x) => *x, i8),
                ElemTy::Short => ta!(Val::Short(x) => *x, i16),
                ElemTy::Int => ta!(Val::Int(x) => *x, i32),
                ElemTy::Long => ta!(Val::Long(x) => *x, i64),
                ElemTy::Char => ta!(Val::Char(x) => *x, char),
                ElemTy::Ts => ta!(Val::Ts(x) => conv::ts(*x), DateTime<Utc>),
                ElemTy::Uuid => ta!(Val::Uuid(x) => Uuid::from_bytes(*x), Uuid),
                ElemTy::Bin => ta!(Val::Bin(x) => Bytes::from(x.clone()), Bytes),
                ElemTy::Str => ta!(Val::Str(x) => conv::bs(x), ByteString),
                ElemTy::Sym => ta!(Val::Sym(x) => Symbol::from(x.clone()), Symbol),
                _ => {}
            }
        }
        Val::Desc(d, b) => {
            if let (Val::List(_) | Val::Map(_) | Val::Array(..), Variant::DescribedCompound(c)) =
                (&**b, variant(v))
            {
                ensure!(conv::desc_val(c.descriptor()) == **d, "descriptor lost");
                let inner: Variant = c.decode().map_err(|e| format!("DescribedCompound::decode {e:?}"))?;
                let iv = val(&inner)?;
                ensure!(iv.normalized() == b.normalized(), "DescribedCompound::decode gives {iv:?}");
            }
        }
        _ => {}
    }
    Ok(())
}

// ------------------------------------------------------------------ C02

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct AltIn {
    pub v: Val,
    pub ch: Vec<u8>,
    pub suffix: Vec<u8>,
}

fn c02_check(i: &AltIn, case: &mut Case) -> R {
    let mut bytes = Vec::new();
    let mut ch = Ch::new(&i.ch);
    refcodec::enc(&i.v, &mut ch, &mut bytes);
    if ch.used_alt > 0 {
        case.nontrivial();
    }
    case.label(format!("alternatives {}", ch.used_alt.min(8)));
    debug_assert_eq!(refcodec::dec_all(&bytes).map(|v| v.normalized()), Ok(i.v.normalized()));
    let mut w = bytes.clone();
    w.extend_from_slice(&i.suffix);
    let mut inp = Bytes::from(w);
    let got = Variant::decode(&mut inp)
        .map_err(|e| format!("valid encoding rejected: {e:?}: {}", hex(&bytes)))?;
    let gv = val(&got)?;
    ensure!(
        gv.normalized() == i.v.normalized(),
        "{} decodes to {gv:?}",
        hex(&bytes)
    );
    ensure!(inp[..] == i.suffix[..], "{}: consumed other than the value", hex(&bytes));
    // the value is equal to the same value in any other encoding unless it keeps raw parts
    if !has_raw(&i.v) {
        ensure!(got == variant(&i.v), "equal values compare different: {got:?}");
    }
    typed_decode(&i.v, &bytes, &i.suffix)?;
    // re-encoding what was decoded keeps the value and the size is right
    let b2 = lib_bytes(&got);
    ensure!(b2.len() == got.encoded_size(), "size of decoded value wrong");
    let r = refcodec::dec_all(&b2).map_err(|e| format!("re-encoding invalid: {e:?} {}", hex(&b2)))?;
    ensure!(r.normalized() == i.v.normalized(), "re-encoding changes the value to {r:?}");
    Ok(())
}

fn has_raw(v: &Val) -> bool {
    match v {
        Val::Array(..) => true,
        Val::Desc(_, b) => matches!(**b, Val::List(_) | Val::Map(_) | Val::Array(..)) || has_raw(b),
        Val::List(l) => l.iter().any(has_raw),
        Val::Map(m) => m.iter().any(|(k, v)| has_raw(k) || has_raw(v)),
        _ => false,
    }
}

fn td<T: Decode>(bytes: &[u8], suffix: &[u8], ok: impl Fn(&T) -> bool) -> R {
    let mut w = bytes.to_vec();
    w.extend_from_slice(suffix);
    let mut inp = Bytes::from(w);
    let t = T::decode(&mut inp)
        .map_err(|e| format!("typed decoder {} rejects {}: {e:?}", std::any::type_name::<T>(), hex(bytes)))?;
    ensure!(ok(&t), "typed decoder {} reads another value from {}", std::any::type_name::<T>(), hex(bytes));
    ensure!(inp[..] == *suffix, "typed decoder {} consumes other than {}", std::any::type_name::<T>(), hex(bytes));
    Ok(())
}

fn typed_decode(v: &Val, b: &[u8], s: &[u8]) -> R {
    match v {
        Val::Null => td::<Option<u64>>(b, s, |o| o.is_none()),
        Val::Bool(x) => td::<bool>(b, s, |o| o == x),
        Val::Ubyte(x) => td::<u8>(b, s, |o| o == x),
        Val::Ushort(x) => td::<u16>(b, s, |o| o == x),
        Val::Uint(x) => td::<u32>(b, s, |o| o == x),
        Val::Ulong(x) => td::<u64>(b, s, |o| o == x),
        Val::Byte(x) => td::<i8>(b, s, |o| o == x),
        Val::Short(x) => td::<i16>(b, s, |o| o == x),
        Val::Int(x) => td::<i32>(b, s, |o| o == x),
        Val::Long(x) => td::<i64>(b, s, |o| o == x),
        Val::Float(x) => td::<f32>(b, s, |o| o.to_bits() == *x),
        Val::Double(x) => td::<f64>(b, s, |o| o.to_bits() == *x),
        Val::Char(x) => td::<char>(b, s, |o| o == x),
        Val::Ts(x) => td::<DateTime<Utc>>(b, s, |o| o.timestamp_millis() == *x),
        Val::Uuid(x) => td::<Uuid>(b, s, |o| o.as_bytes() == x),
        Val::Bin(x) => td::<Bytes>(b, s, |o| o[..] == x[..]),
        Val::Str(x) => {
            td::<ByteString>(b, s, |o| o.as_str() == x)?;
            td::<Str>(b, s, |o| o.as_str() == x)
        }
        Val::Sym(x) => {
            td::<Symbol>(b, s, |o| o.as_str() == x)?;
            td::<Multiple<Symbol>>(b, s, |o| o.len() == 1 && o[0].as_str() == x)
        }
        Val::List(l) => td::<List>(b, s, |o| o.len() == l.len()),
        Val::Map(m) => {
            td::<StdMap<Variant, Variant>>(b, s, |o| o.len() == m.len())?;
            if m.iter().all(|(k, _)| matches!(k, Val::Sym(_))) {
                td::<VecSymbolMap>(b, s, |o| o.to_val().map(|x| x == v.clone()) == Ok(true) || !m.is_empty())?;
                td::<Fields>(b, s, |o| o.len() == m.len())?;
            }
            if m.iter().all(|(k, _)| matches!(k, Val::Str(_))) {
                td::<VecStringMap>(b, s, |o| o.len() == m.len())?;
            }
            Ok(())
        }
        Val::Array(None, t, l) => {
            macro_rules! ta {
                ($p:pat => $e:expr, $t:ty) => {{
                    let x: Vec<$t> =
                        l.iter().map(|x| match x { $p => $e, _ => unreachable!() }).collect();
                    td::<Vec<$t>>(b, s, |o| *o == x)?;
                    td::<Multiple<$t>>(b, s, |o| o.0 == x)?;
                    td::<Array>(b, s, |o| matches!(o.decode::<$t>(), Ok(y) if y == x))
                }};
            }
            match t {
                ElemTy::Bool => ta!(Val::Bool(x) => *x, bool),
                ElemTy::Uint => ta!(Val::Uint(x) => *x, u32),
                ElemTy::Ulong => ta!(Val::Ulong(x) => *x, u64),
                ElemTy::Int => ta!(Val::Int(x) => *x, i32),
                ElemTy::Long => ta!(Val::Long(x) => *x, i64),
                ElemTy::Bin => ta!(Val::Bin(x) => Bytes::from(x.clone()), Bytes),
                ElemTy::Str => ta!(Val::Str(x) => conv::bs(x), ByteString),
                ElemTy::Sym => ta!(Val::Sym(x) => Symbol::from(x.clone()), Symbol),
                _ => Ok(()),
            }
        }
        _ => Ok(()),
    }
}

// ------------------------------------------------------------------ C03

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FrameIn {
    pub channel: u16,
    pub v: Val,
    pub ch: Vec<u8>,
    pub payload: Vec<u8>,
}

fn parse_frame(b: &[u8]) -> Result<(u8, u16, &[u8]), String> {
    ensure_f(b.len() >= 8, "frame shorter than a header")?;
    let size = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
    ensure_f(size == b.len(), &format!("size field {size}, {} bytes", b.len()))?;
    let doff = b[4] as usize * 4;
    ensure_f(doff == 8, "data offset")?;
    Ok((b[5], u16::from_be_bytes([b[6], b[7]]), &b[doff..]))
}
fn ensure_f(c: bool, m: &str) -> R {
    if c { Ok(()) } else { Err(m.to_string()) }
}

fn codec_encode<T: Decode + Encode + std::fmt::Debug>(t: T) -> Result<Vec<u8>, String> {
    let c = AmqpCodec::<T>::new();
    let mut b = BytesMut::new();
    c.encode(t, &mut b).map_err(|e| format!("encode: {e:?}"))?;
    Ok(b.to_vec())
}

fn codec_decode<T: Decode + Encode + std::fmt::Debug>(b: &[u8]) -> Result<T, String> {
    let c = AmqpCodec::<T>::new();
    let mut b = BytesMut::from(b);
    match c.decode(&mut b) {
        Ok(Some(t)) => {
            if !b.is_empty() {
                return Err("bytes left".into());
            }
            Ok(t)
        }
        r => Err(format!("{r:?}")),
    }
}

fn payload_of(i: &FrameIn) -> &[u8] {
    if conv::code_of(&i.v) == 0x14 { &i.payload } else { &[] }
}

/// library writes, reference reads
fn c03_write(i: &FrameIn, case: &mut Case) -> R {
    let f = AmqpFrame::new(i.channel, conv::frame(&i.v, payload_of(i)));
    frame_labels(&i.v, case);
    let b = codec_encode(f.clone())?;
    ensure!(b.len() == f.encoded_size(), "encoded_size {} but {} written", f.encoded_size(), b.len());
    check_written(&b, 0, i.channel, &i.v, payload_of(i))?;
    let back: AmqpFrame = codec_decode(&b).map_err(|e| format!("own frame rejected: {e} {}", hex(&b)))?;
    ensure!(back == f, "own frame decodes differently: {back:?}");
    Ok(())
}

fn frame_labels(v: &Val, case: &mut Case) {
    let name = schema::by_code(conv::code_of(v)).unwrap().name;
    case.label(name);
    if let Val::Desc(_, b) = v {
        if let Val::List(l) = &**b {
            if l.iter().any(|x| *x != Val::Null) {
                case.nontrivial();
            }
        }
    }
}

fn check_written(b: &[u8], ftype: u8, channel: u16, v: &Val, payload: &[u8]) -> R {
    let (t, c, body) = parse_frame(b)?;
    ensure!(t == ftype, "frame type {t}");
    ensure!(c == channel, "channel {c} written for {channel}");
    let (got, rest) =
        refcodec::dec(body).map_err(|e| format!("performative is not valid AMQP: {e:?} {}", hex(b)))?;
    ensure!(rest == payload, "payload differs: {}", hex(rest));
    let n = schema::normalize(&got, &[]).map_err(|e| format!("{e}: {}", hex(b)))?;
    ensure!(n.normalized() == v.normalized(), "written as {n:?}");
    Ok(())
}

/// reference writes any conforming form, library reads
fn c03_read(i: &FrameIn, case: &mut Case) -> R {
    frame_labels(&i.v, case);
    let mut ch = Ch::new(&i.ch);
    let alt = schema::vary(&i.v, &mut ch);
    debug_assert_eq!(schema::normalize(&alt, &[]).map(|v| v.normalized()), Ok(i.v.normalized()));
    let mut body = Vec::new();
    refcodec::enc(&alt, &mut ch, &mut body);
    let b = schema::frame_bytes(0, i.channel, &body, payload_of(i));
    let f: AmqpFrame =
        codec_decode(&b).map_err(|e| format!("conforming frame rejected: {e}: {}", hex(&b)))?;
    ensure!(f.channel_id() == i.channel, "channel {} read", f.channel_id());
    let (got, p) = conv::frame_val(f.performative())?;
    ensure!(got.normalized() == i.v.normalized(), "{} read as {got:?}", hex(&b));
    ensure!(p == payload_of(i), "payload read as {}", hex(&p));
    // re-encode, decode again
    let b2 = codec_encode(f.clone())?;
    check_written(&b2, 0, i.channel, &i.v, payload_of(i)).map_err(|e| format!("re-encoded: {e}"))?;
    let f2: AmqpFrame = codec_decode(&b2).map_err(|e| format!("re-encoded frame rejected: {e}"))?;
    let (got2, p2) = conv::frame_val(f2.performative())?;
    ensure!(got2.normalized() == got.normalized() && p2 == p, "re-encoding changes the frame");
    Ok(())
}

fn c03_sasl(i: &FrameIn, case: &mut Case) -> R {
    frame_labels(&i.v, case);
    let f = SaslFrame::new(conv::sasl_frame(&i.v));
    let b = codec_encode(f.clone())?;
    ensure!(b.len() == f.encoded_size(), "encoded_size {} but {} written", f.encoded_size(), b.len());
    check_written(&b, 1, 0, &i.v, &[])?;
    let back: SaslFrame = codec_decode(&b).map_err(|e| format!("own frame rejected: {e} {}", hex(&b)))?;
    ensure!(back == f, "own frame decodes differently: {back:?}");
    let mut ch = Ch::new(&i.ch);
    let alt = schema::vary(&i.v, &mut ch);
    let mut body = Vec::new();
    refcodec::enc(&alt, &mut ch, &mut body);
    // the channel bytes of a SASL frame are ignored
    let b = schema::frame_bytes(1, i.channel, &body, &[]);
    let f: SaslFrame =
        codec_decode(&b).map_err(|e| format!("conforming frame rejected: {e}: {}", hex(&b)))?;
    let got = conv::sasl_val(&f.body)?;
    ensure!(got.normalized() == i.v.normalized(), "{} read as {got:?}", hex(&b));
    let b2 = codec_encode(f)?;
    check_written(&b2, 1, 0, &i.v, &[])?;
    Ok(())
}

/// stand-alone composites (used in message sections and delivery states)
fn c03_comp(i: &FrameIn, case: &mut Case) -> R {
    frame_labels(&i.v, case);
    fn go<T: Fld + Encode + Decode + PartialEq + std::fmt::Debug + Clone>(i: &FrameIn) -> R {
        let t = T::from_val(&i.v);
        let b = lib_bytes(&t);
        ensure!(b.len() == t.encoded_size(), "encoded_size {} but {} written", t.encoded_size(), b.len());
        let r = refcodec::dec_all(&b).map_err(|e| format!("invalid: {e:?} {}", hex(&b)))?;
        let n = schema::normalize(&r, &[])?;
        ensure!(n.normalized() == i.v.normalized(), "written as {n:?}");
        let mut ch = Ch::new(&i.ch);
        let alt = schema::vary(&i.v, &mut ch);
        let mut body = Vec::new();
        refcodec::enc(&alt, &mut ch, &mut body);
        let blen = body.len();
        body.extend_from_slice(&i.payload);
        let mut inp = Bytes::from(body.clone());
        let got = T::decode(&mut inp).map_err(|e| format!("rejected: {e:?} {}", hex(&body[..blen])))?;
        ensure!(inp[..] == i.payload[..], "consumed other than the value");
        let gv = got.to_val()?;
        ensure!(gv.normalized() == i.v.normalized(), "read as {gv:?}");
        Ok(())
    }
    match conv::code_of(&i.v) {
        0x1d => go::<Error>(i),
        0x23 => {
            go::<Received>(i)?;
            go::<DeliveryState>(i)
        }
        0x24 => {
            go::<Accepted>(i)?;
            go::<Outcome>(i)?;
            go::<DeliveryState>(i)
        }
        0x25 => {
            go::<Rejected>(i)?;
            go::<Outcome>(i)?;
            go::<DeliveryState>(i)
        }
        0x26 => {
            go::<Released>(i)?;
            go::<Outcome>(i)?;
            go::<DeliveryState>(i)
        }
        0x27 => {
            go::<Modified>(i)?;
            go::<Outcome>(i)?;
            go::<DeliveryState>(i)
        }
        0x28 => go::<Source>(i),
        0x29 => go::<Target>(i),
        0x70 => go::<Header>(i),
        _ => go::<Properties>(i),
    }
}

// ------------------------------------------------------------------ C04

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum MsgOp {
    SetHeader(Val),
    SetFormat(u32),
    /// replaces the properties through `properties_mut`
    PropsMut(Val),
    SetProps(Val),
    SetAppProp(String, Val),
    /// in-place: push / clear / replace the n-th value
    AppMut(u8, String, Val),
    AddMsgAnn(String, Val),
    MsgAnnMut(u8, String, Val),
    DlvAnnMut(u8, String, Val),
    /// public field
    DlvAnnField(Option<Val>),
    Footer(Option<Val>),
    BodyMutData(Vec<u8>),
    BodyMutPushData(Vec<u8>),
    BodyMutSeq(Vec<Val>),
    SetBodyData(Vec<u8>),
    SetBodyMsgs(Vec<Vec<u8>>, Vec<u8>),
    SetValue(Val),
    BodyClear,
    IfSome(bool, Val),
    Update(String, Val),
    FieldProps(Option<Val>),
    /// look at the size (fills the cache)
    Size,
    Encode,
    Clone,
    Reply,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct MsgIn {
    /// None: default; Some(data): with_body
    pub start: Option<Vec<u8>>,
    pub ops: Vec<MsgOp>,
}

/// Section model of a message.
#[derive(Default, Clone)]
struct MsgModel {
    format: Option<u32>,
    header: Option<Val>,
    dann: Option<Vec<(Val, Val)>>,
    mann: Option<Vec<(Val, Val)>>,
    props: Option<Val>,
    app: Option<Vec<(Val, Val)>>,
    footer: Option<Val>,
    data: Vec<Vec<u8>>,
    seq: Vec<Vec<Val>>,
    value: Option<Val>,
    nested: Vec<Vec<u8>>,
}

fn vm_edit(m: &mut Vec<(Symbol, Variant)>, k: u8, key: &str, v: &Val) {
    match k % 3 {
        0 => m.push((Symbol::from(key.to_string()), variant(v))),
        1 => m.clear(),
        _ => {
            if let Some(x) = m.last_mut() {
                x.1 = variant(v)
            }
        }
    }
}
fn mm_edit(m: &mut Vec<(Val, Val)>, k: u8, key: Val, v: &Val) {
    match k % 3 {
        0 => m.push((key, v.clone())),
        1 => m.clear(),
        _ => {
            if let Some(x) = m.last_mut() {
                x.1 = v.clone()
            }
        }
    }
}

fn c04_check(i: &MsgIn, case: &mut Case) -> R {
    let mut m = MsgModel::default();
    let mut msg = match &i.start {
        None => Message::default(),
        Some(d) => {
            m.data.push(d.clone());
            m.format = Some(0);
            Message::with_body(Bytes::from(d.clone()))
        }
    };
    let mut edits_after_size = 0;
    let mut sized = false;
    for op in &i.ops {
        if sized && !matches!(op, MsgOp::Size | MsgOp::Encode | MsgOp::Clone) {
            edits_after_size += 1;
        }
        match op {
            MsgOp::SetHeader(v) => {
                msg.set_header(Fld::from_val(v));
                m.header = Some(v.clone());
            }
            MsgOp::SetFormat(f) => {
                msg.set_format(*f);
                m.format = Some(*f);
            }
            MsgOp::PropsMut(v) => {
                *msg.properties_mut() = Fld::from_val(v);
                m.props = Some(v.clone());
            }
            MsgOp::SetProps(v) => {
                msg.set_properties(|p| *p = Fld::from_val(v));
                m.props = Some(v.clone());
            }
            MsgOp::SetAppProp(k, v) => {
                msg.set_app_property(k.clone(), variant(v));
                m.app.get_or_insert_default().push((Val::Str(k.clone()), v.clone()));
                // reads see the first value of the key
                let first = m.app.as_ref().unwrap().iter().find(|x| x.0 == Val::Str(k.clone())).unwrap();
                let got = msg.app_property(k).map(val).transpose()?;
                ensure!(
                    got.map(|v| v.normalized()) == Some(first.1.normalized()),
                    "app_property({k}) differs"
                );
            }
            MsgOp::AppMut(n, k, v) => {
                ensure!(msg.app_properties().is_some() == m.app.is_some(), "app_properties() differs");
                if let Some(x) = msg.app_properties_mut() {
                    match n % 3 {
                        0 => x.push((Str::from(k.clone()), variant(v))),
                        1 => x.clear(),
                        _ => {
                            if let Some(x) = x.last_mut() {
                                x.1 = variant(v)
                            }
                        }
                    }
                    mm_edit(m.app.as_mut().unwrap(), *n, Val::Str(k.clone()), v);
                }
            }
            MsgOp::AddMsgAnn(k, v) => {
                msg.add_message_annotation(k.clone(), variant(v));
                m.mann.get_or_insert_default().push((Val::Sym(k.clone()), v.clone()));
                let first = m.mann.as_ref().unwrap().iter().find(|x| x.0 == Val::Sym(k.clone())).unwrap();
                let got = msg.message_annotation(k).map(val).transpose()?;
                ensure!(
                    got.map(|v| v.normalized()) == Some(first.1.normalized()),
                    "message_annotation({k}) differs"
                );
            }
            MsgOp::MsgAnnMut(n, k, v) => {
                ensure!(msg.message_annotations().is_some() == m.mann.is_some(), "message_annotations() differs");
                if let Some(x) = msg.message_annotations_mut() {
                    vm_edit(x, *n, k, v);
                    mm_edit(m.mann.as_mut().unwrap(), *n, Val::Sym(k.clone()), v);
                }
            }
            MsgOp::DlvAnnMut(n, k, v) => {
                ensure!(msg.delivery_annotations().is_some() == m.dann.is_some(), "delivery_annotations() differs");
                if let Some(x) = msg.delivery_annotations_mut() {
                    vm_edit(x, *n, k, v);
                    mm_edit(m.dann.as_mut().unwrap(), *n, Val::Sym(k.clone()), v);
                }
            }
            MsgOp::DlvAnnField(v) => {
                msg.0.delivery_annotations = v.as_ref().map(Fld::from_val);
                m.dann = v.as_ref().map(|v| match v {
                    Val::Map(m) => m.clone(),
                    _ => unreachable!(),
                });
            }
            MsgOp::Footer(v) => {
                msg.0.footer = v.as_ref().map(Fld::from_val);
                m.footer = v.clone();
            }
            MsgOp::FieldProps(v) => {
                msg.0.properties = v.as_ref().map(Fld::from_val);
                m.props = v.clone();
            }
            MsgOp::BodyMutData(d) => {
                msg.body_mut().set_data(Bytes::from(d.clone()));
                m.data = vec![d.clone()];
            }
            MsgOp::BodyMutPushData(d) => {
                msg.body_mut().data.push(Bytes::from(d.clone()));
                m.data.push(d.clone());
            }
            MsgOp::BodyMutSeq(l) => {
                msg.body_mut().sequence.push(List(l.iter().map(variant).collect()));
                m.seq.push(l.clone());
            }
            MsgOp::SetBodyData(d) => {
                msg.set_body(|b| b.set_data(Bytes::from(d.clone())));
                m.data = vec![d.clone()];
            }
            MsgOp::SetBodyMsgs(l, d) => {
                msg.set_body(|b| {
                    b.messages = l
                        .iter()
                        .map(|x| TransferBody::Data(Bytes::from(x.clone())))
                        .chain([TransferBody::Message(Message::with_body(Bytes::from(d.clone())))])
                        .collect();
                });
                m.nested = l.clone();
                m.nested.push(section(117, Val::Bin(d.clone())));
            }
            MsgOp::SetValue(v) => {
                msg.set_value(variant(v));
                m.value = Some(v.clone());
            }
            MsgOp::BodyClear => {
                *msg.body_mut() = MessageBody::default();
                m.data.clear();
                m.seq.clear();
                m.value = None;
                m.nested.clear();
            }
            MsgOp::IfSome(some, v) => {
                let o = if *some { Some(v.clone()) } else { None };
                msg = msg.if_some(&o, |mut msg, v| {
                    msg.set_value(variant(v));
                    msg
                });
                if *some {
                    m.value = Some(v.clone());
                }
            }
            MsgOp::Update(k, v) => {
                msg = msg.update(|mut msg| {
                    msg.set_app_property(k.clone(), variant(v));
                    msg
                });
                m.app.get_or_insert_default().push((Val::Str(k.clone()), v.clone()));
            }
            MsgOp::Size => {
                sized = true;
                let want = model_bytes(&m).len();
                ensure!(msg.encoded_size() == want, "size reported {} while {} are due", msg.encoded_size(), want);
            }
            MsgOp::Encode => {
                sized = true;
                check_msg(&msg, &m)?;
            }
            MsgOp::Clone => {
                let c = msg.clone();
                ensure!(c == msg, "clone differs");
                msg = c;
            }
            MsgOp::Reply => {
                let r = msg.reply_message();
                let mut rm = MsgModel::default();
                if let Some(p) = &m.props {
                    let Val::Desc(_, l) = p else { unreachable!() };
                    let Val::List(l) = &**l else { unreachable!() };
                    let mut out = vec![Val::Null; 13];
                    out[5] = l[0].clone();
                    rm.props = Some(conv::mk(0x73, out));
                }
                check_msg(&r, &rm).map_err(|e| format!("reply_message: {e}"))?;
            }
        }
    }
    check_msg(&msg, &m)?;
    ensure!(msg.0.message_format == m.format, "message format");
    if edits_after_size > 0 {
        case.nontrivial();
        case.label("edit after size was read");
    }
    case.count("ops", i.ops.len() as u64);
    Ok(())
}

fn section(code: u64, v: Val) -> Vec<u8> {
    refcodec::canonical(&Val::Desc(Box::new(Val::Ulong(code)), Box::new(v)))
}

/// Sections in the order the specification prescribes.
fn model_sections(m: &MsgModel) -> Vec<Val> {
    let mut s = Vec::new();
    let d = |c: u64, v: Val| Val::Desc(Box::new(Val::Ulong(c)), Box::new(v));
    if let Some(h) = &m.header {
        s.push(h.clone());
    }
    if let Some(x) = &m.dann {
        s.push(d(0x71, Val::Map(x.clone())));
    }
    if let Some(x) = &m.mann {
        s.push(d(0x72, Val::Map(x.clone())));
    }
    if let Some(x) = &m.props {
        s.push(x.clone());
    }
    if let Some(x) = &m.app {
        s.push(d(0x74, Val::Map(x.clone())));
    }
    for x in &m.data {
        s.push(d(0x75, Val::Bin(x.clone())));
    }
    for x in &m.seq {
        s.push(d(0x76, Val::List(x.clone())));
    }
    if let Some(x) = &m.value {
        s.push(d(0x77, x.clone()));
    }
    for x in &m.nested {
        s.push(d(0x75, Val::Bin(x.clone())));
    }
    if let Some(x) = &m.footer {
        s.push(d(0x78, x.clone()));
    }
    s
}

/// What the sections encode to in the library (whose composites write all fields).
fn model_bytes(m: &MsgModel) -> Vec<u8> {
    let mut out = Vec::new();
    for s in model_sections(m) {
        match conv::code_of(&s) {
            0x70 => out.extend(lib_bytes(&Header::from_val(&s))),
            0x73 => out.extend(lib_bytes(&Properties::from_val(&s))),
            _ => {
                let Val::Desc(d, v) = &s else { unreachable!() };
                out.extend(lib_bytes(&conv::descriptor(d)));
                out.extend(lib_bytes(&variant(v)));
                // lists of a map with repeated keys cannot go through a hash map
                if let (Val::Map(m), true) = (&**v, conv::code_of(&s) != 0x77) {
                    out.truncate(out.len() - lib_bytes(&variant(v)).len());
                    let keys_sym = m.iter().all(|(k, _)| matches!(k, Val::Sym(_)));
                    if keys_sym {
                        out.extend(lib_bytes(&VecSymbolMap::from_val(v)));
                    } else {
                        out.extend(lib_bytes(&VecStringMap::from_val(v)));
                    }
                }
            }
        }
    }
    out
}

fn read_sections(b: &[u8]) -> Result<Vec<Val>, String> {
    let mut rest = b;
    let mut out = Vec::new();
    while !rest.is_empty() {
        let (v, r) = refcodec::dec(rest).map_err(|e| format!("invalid section: {e:?} {}", hex(rest)))?;
        rest = r;
        let v = match &v {
            Val::Desc(d, _) if matches!(**d, Val::Ulong(0x70) | Val::Ulong(0x73)) => {
                schema::normalize(&v, &[])?
            }
            _ => v,
        };
        out.push(v);
    }
    Ok(out)
}

fn check_msg(msg: &Message, m: &MsgModel) -> R {
    let b = lib_bytes(msg);
    ensure!(
        msg.encoded_size() == b.len(),
        "message reports {} bytes and encodes {}",
        msg.encoded_size(),
        b.len()
    );
    let got = read_sections(&b)?;
    let want = model_sections(m);
    let g: Vec<_> = got.iter().map(Val::normalized).collect();
    let w: Vec<_> = want.iter().map(Val::normalized).collect();
    ensure!(g == w, "sections written {g:?}, expected {w:?}");
    let mut inp = Bytes::from(b.clone());
    let back = Message::decode(&mut inp).map_err(|e| format!("own message rejected: {e:?} {}", hex(&b)))?;
    ensure!(inp.is_empty(), "bytes left");
    // nested messages come back as data; the format is not part of the encoding
    if m.nested.is_empty() {
        let mut back2 = back.clone();
        back2.0.message_format = msg.0.message_format;
        ensure!(back2 == *msg, "decoded message differs: {back2:?}");
    }
    check_msg_fields(&back, m)?;
    let b2 = lib_bytes(&back);
    ensure!(back.encoded_size() == b2.len(), "decoded message reports {} bytes, encodes {}", back.encoded_size(), b2.len());
    // the same bytes as payload of a transfer
    let tr = Transfer(Box::new(TransferInner {
        body: Some(TransferBody::Data(Bytes::from(b.clone()))),
        ..*Transfer::build().finish().0
    }));
    let back3: Message = tr.load_message().map_err(|e| format!("load_message: {e:?}"))?;
    ensure!(back3 == back, "load_message differs");
    let tb = TransferBody::Message(msg.clone());
    ensure!(tb.len() == b.len() && lib_bytes(&tb) == b, "transfer body differs from the message");
    Ok(())
}

fn check_msg_fields(x: &Message, m: &MsgModel) -> R {
    fn o<T: Fld>(t: &Option<T>) -> Result<Option<Val>, String> {
        match t {
            None => Ok(None),
            Some(t) => Ok(Some(t.to_val()?.normalized())),
        }
    }
    let mapn = |v: &Option<Vec<(Val, Val)>>| v.clone().map(|m| Val::Map(m).normalized());
    ensure!(o(&x.0.header)? == m.header.as_ref().map(Val::normalized), "header differs");
    ensure!(o(&x.0.delivery_annotations)? == mapn(&m.dann), "delivery annotations differ");
    ensure!(o(&x.0.message_annotations)? == mapn(&m.mann), "message annotations differ");
    ensure!(o(&x.0.properties)? == m.props.as_ref().map(Val::normalized), "properties differ");
    ensure!(o(&x.0.application_properties)? == mapn(&m.app), "application properties differ");
    ensure!(o(&x.0.footer)? == m.footer.as_ref().map(Val::normalized), "footer differs");
    let data: Vec<Vec<u8>> = x.0.body.data.iter().map(|b| b.to_vec()).collect();
    let want: Vec<Vec<u8>> = m.data.iter().chain(&m.nested).cloned().collect();
    ensure!(data == want, "body data differs");
    let mut seq = Vec::new();
    for l in &x.0.body.sequence {
        seq.push(l.0.iter().map(|v| val(v).map(|v| v.normalized())).collect::<Result<Vec<_>, _>>()?);
    }
    let want: Vec<Vec<Val>> = m.seq.iter().map(|l| l.iter().map(Val::normalized).collect()).collect();
    ensure!(seq == want, "body sequence differs");
    let v = match &x.0.body.value {
        None => None,
        Some(v) => Some(val(v)?.normalized()),
    };
    ensure!(v == m.value.as_ref().map(Val::normalized), "body value differs: {v:?}");
    Ok(())
}

fn msg_op() -> BoxedStrategy<MsgOp> {
    let key = || prop_oneof![Just("k".to_string()), "[a-z]{1,3}", g::string()];
    let skey = || prop_oneof![Just("k".to_string()), "[a-z]{1,3}", g::symbol()];
    let v = || g::val(2, 6);
    prop_oneof![
        schema::comp_gen(&schema::HEADER).prop_map(MsgOp::SetHeader),
        g::edge_u32().prop_map(MsgOp::SetFormat),
        schema::comp_gen(&schema::PROPERTIES).prop_map(MsgOp::PropsMut),
        schema::comp_gen(&schema::PROPERTIES).prop_map(MsgOp::SetProps),
        (key(), v()).prop_map(|(a, b)| MsgOp::SetAppProp(a, b)),
        (0u8..3, key(), v()).prop_map(|(n, a, b)| MsgOp::AppMut(n, a, b)),
        (skey(), v()).prop_map(|(a, b)| MsgOp::AddMsgAnn(a, b)),
        (0u8..3, skey(), v()).prop_map(|(n, a, b)| MsgOp::MsgAnnMut(n, a, b)),
        (0u8..3, skey(), v()).prop_map(|(n, a, b)| MsgOp::DlvAnnMut(n, a, b)),
        prop::option::of(g::sym_map(1, 4)).prop_map(MsgOp::DlvAnnField),
        prop::option::of(g::sym_map(1, 4)).prop_map(MsgOp::Footer),
        prop::option::of(schema::comp_gen(&schema::PROPERTIES)).prop_map(MsgOp::FieldProps),
        g::binary().prop_map(MsgOp::BodyMutData),
        g::binary().prop_map(MsgOp::BodyMutPushData),
        vec(v(), 0..4).prop_map(MsgOp::BodyMutSeq),
        g::binary().prop_map(MsgOp::SetBodyData),
        (vec(g::binary(), 0..3), g::binary()).prop_map(|(a, b)| MsgOp::SetBodyMsgs(a, b)),
        v().prop_map(MsgOp::SetValue),
        Just(MsgOp::BodyClear),
        (any::<bool>(), v()).prop_map(|(a, b)| MsgOp::IfSome(a, b)),
        (key(), v()).prop_map(|(a, b)| MsgOp::Update(a, b)),
        Just(MsgOp::Size),
        Just(MsgOp::Size),
        Just(MsgOp::Encode),
        Just(MsgOp::Clone),
        Just(MsgOp::Reply),
    ]
    .boxed()
}

/// A message written by someone else, in any conforming form.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct MsgRead {
    header: Option<Val>,
    dann: Option<Val>,
    mann: Option<Val>,
    props: Option<Val>,
    app: Option<Val>,
    /// 0 data, 1 sequence, 2 value
    data: Vec<Vec<u8>>,
    seq: Vec<Vec<Val>>,
    value: Option<Val>,
    kind: u8,
    footer: Option<Val>,
    ch: Vec<u8>,
}

fn c04_read(i: &MsgRead, case: &mut Case) -> R {
    let un = |v: &Option<Val>| {
        v.clone().map(|v| match v {
            Val::Map(m) => m,
            _ => unreachable!(),
        })
    };
    let mut m = MsgModel {
        header: i.header.clone(),
        dann: un(&i.dann),
        mann: un(&i.mann),
        props: i.props.clone(),
        app: un(&i.app),
        footer: i.footer.clone(),
        ..Default::default()
    };
    match i.kind % 3 {
        0 => m.data = i.data.clone(),
        1 => m.seq = i.seq.clone(),
        _ => m.value = i.value.clone(),
    }
    let mut ch = Ch::new(&i.ch);
    let mut b = Vec::new();
    let syms = |c: u64| match c {
        0x71 => "amqp:delivery-annotations:map",
        0x72 => "amqp:message-annotations:map",
        0x74 => "amqp:application-properties:map",
        0x75 => "amqp:data:binary",
        0x76 => "amqp:amqp-sequence:list",
        0x77 => "amqp:amqp-value:*",
        _ => "amqp:footer:map",
    };
    let secs = model_sections(&m);
    for s in &secs {
        let s = match conv::code_of(s) {
            0x70 | 0x73 => schema::vary(s, &mut ch),
            c => {
                let Val::Desc(d, v) = s else { unreachable!() };
                let d = if ch.pick(3) == 2 { Box::new(Val::sym(syms(c))) } else { d.clone() };
                Val::Desc(d, v.clone())
            }
        };
        refcodec::enc(&s, &mut ch, &mut b);
    }
    if secs.len() > 1 {
        case.nontrivial();
    }
    let mut inp = Bytes::from(b.clone());
    let msg = Message::decode(&mut inp).map_err(|e| format!("conforming message rejected: {e:?} {}", hex(&b)))?;
    check_msg_fields(&msg, &m)?;
    ensure!(msg.encoded_size() == lib_bytes(&msg).len(), "size of decoded message");
    check_msg(&msg, &m)
}

fn msg_read() -> BoxedStrategy<MsgRead> {
    let o = prop::option::of::<BoxedStrategy<Val>>;
    (
        (
            o(schema::comp_gen(&schema::HEADER)),
            o(g::sym_map(1, 3)),
            o(g::sym_map(2, 3)),
            o(schema::comp_gen(&schema::PROPERTIES)),
            o(g::str_map(2, 3)),
        ),
        (
            vec(g::binary(), 0..3),
            vec(vec(g::val(2, 5), 0..4), 0..3),
            o(g::val(3, 8)),
            any::<u8>(),
            o(g::sym_map(1, 3)),
            g::choices(),
        ),
    )
        .prop_map(|((header, dann, mann, props, app), (data, seq, value, kind, footer, ch))| MsgRead {
            header,
            dann,
            mann,
            props,
            app,
            data,
            seq,
            value,
            kind,
            footer,
            ch,
        })
        .boxed()
}

// ------------------------------------------------------------------ C05

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Mut {
    Set(u16, u8),
    Flip(u16, u8),
    Insert(u16, Vec<u8>),
    Delete(u16, u8),
    Truncate(u16),
    /// overwrite four bytes with an extreme number
    Num(u16, u8),
    Dup(u16, u16, u8),
}

fn mutate(b: &mut Vec<u8>, ms: &[Mut]) {
    for m in ms {
        let n = b.len();
        if n == 0 {
            return;
        }
        let at = |p: &u16| *p as usize % n;
        match m {
            Mut::Set(p, v) => b[at(p)] = *v,
            Mut::Flip(p, v) => b[at(p)] ^= 1 << (v % 8),
            Mut::Insert(p, v) => {
                let p = at(p);
                b.splice(p..p, v.iter().copied());
            }
            Mut::Delete(p, c) => {
                let p = at(p);
                let e = (p + *c as usize).min(n);
                b.drain(p..e);
            }
            Mut::Truncate(p) => b.truncate(at(p)),
            Mut::Num(p, k) => {
                let v: u32 = [0, 1, 3, 4, 255, 256, 65535, 1 << 20, 1 << 28, 1 << 31, u32::MAX - 1, u32::MAX]
                    [*k as usize % 12];
                let p = at(p);
                for (i, x) in v.to_be_bytes().iter().enumerate() {
                    if p + i < n {
                        b[p + i] = *x;
                    }
                }
            }
            Mut::Dup(p, q, l) => {
                let p = at(p);
                let q = at(q);
                let s: Vec<u8> = b[p..(p + *l as usize).min(n)].to_vec();
                b.splice(q..q, s);
            }
        }
    }
}

fn mutation() -> BoxedStrategy<Mut> {
    let code = prop_oneof![
        any::<u8>(),
        proptest::sample::select(
            &[
                0u8, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x60,
                0x70, 0x72, 0x73, 0x74, 0x80, 0x82, 0x83, 0x94, 0x98, 0xa0, 0xa1, 0xa3, 0xb0, 0xb1, 0xb3,
                0xc0, 0xc1, 0xd0, 0xd1, 0xe0, 0xf0, 0xff
            ][..]
        ),
        0u8..5
    ];
    prop_oneof![
        3 => (any::<u16>(), code).prop_map(|(a, b)| Mut::Set(a, b)),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mut::Flip(a, b)),
        1 => (any::<u16>(), vec(any::<u8>(), 1..5)).prop_map(|(a, b)| Mut::Insert(a, b)),
        1 => (any::<u16>(), 1u8..6).prop_map(|(a, b)| Mut::Delete(a, b)),
        1 => any::<u16>().prop_map(Mut::Truncate),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mut::Num(a, b)),
        1 => (any::<u16>(), any::<u16>(), 1u8..20).prop_map(|(a, b, c)| Mut::Dup(a, b, c)),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Seed {
    Raw(Vec<u8>),
    Val(Val, Vec<u8>),
    Frame(Val, Vec<u8>, Vec<u8>),
    Sasl(Val, Vec<u8>),
    Msg(Box<MsgRead>),
    /// n levels of an opener byte string
    Deep(u8, u32),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct HostileIn {
    pub seed: Seed,
    pub muts: Vec<Mut>,
}

fn seed_bytes(s: &Seed) -> (Vec<u8>, u8) {
    match s {
        Seed::Raw(b) => (b.clone(), 0),
        Seed::Val(v, c) => {
            let mut b = Vec::new();
            refcodec::enc(v, &mut Ch::new(c), &mut b);
            (b, 1)
        }
        Seed::Frame(v, c, p) => {
            let mut ch = Ch::new(c);
            let v = schema::vary(v, &mut ch);
            let mut b = Vec::new();
            refcodec::enc(&v, &mut ch, &mut b);
            let is_tr = matches!(&v, Val::Desc(d, _) if **d == Val::Ulong(0x14));
            (schema::frame_bytes(0, 1, &b, if is_tr { p } else { &[] })[4..].to_vec(), 2)
        }
        Seed::Sasl(v, c) => {
            let mut ch = Ch::new(c);
            let v = schema::vary(v, &mut ch);
            let mut b = Vec::new();
            refcodec::enc(&v, &mut ch, &mut b);
            (schema::frame_bytes(1, 0, &b, &[])[4..].to_vec(), 3)
        }
        Seed::Msg(m) => {
            let mut out = Vec::new();
            let mut ch = Ch::new(&m.ch);
            for v in [&m.header, &m.props].into_iter().flatten() {
                refcodec::enc(v, &mut ch, &mut out);
            }
            for (c, v) in [(0x71, &m.dann), (0x72, &m.mann), (0x74, &m.app), (0x77, &m.value), (0x78, &m.footer)] {
                if let Some(v) = v {
                    refcodec::enc(&Val::Desc(Box::new(Val::Ulong(c)), Box::new(v.clone())), &mut ch, &mut out);
                }
            }
            (out, 4)
        }
        Seed::Deep(k, n) => {
            let n = *n as usize;
            let mut b = Vec::new();
            match k % 5 {
                // lists whose sizes nest properly, from the inside out (sizes need 4 bytes)
                0 => {
                    for i in 0..n {
                        b.push(0xd0);
                        b.extend_from_slice(&((4 + (n - 1 - i) * 9 + 1) as u32).to_be_bytes());
                        b.extend_from_slice(&1u32.to_be_bytes());
                    }
                    b.push(0x40);
                }
                1 => {
                    for _ in 0..n {
                        b.extend_from_slice(&[0xc0, 0xff, 0x01]);
                    }
                    b.push(0x40);
                }
                2 => {
                    for _ in 0..n {
                        b.extend_from_slice(&[0x00, 0x53, 0x05]);
                    }
                    b.push(0x40);
                }
                3 => {
                    for i in 0..n {
                        b.push(0xd1);
                        b.extend_from_slice(&((4 + (n - 1 - i) * 10 + 1 + 1) as u32).to_be_bytes());
                        b.extend_from_slice(&2u32.to_be_bytes());
                        b.push(0x40);
                    }
                    b.push(0x40);
                }
                _ => {
                    // a map in key position
                    for i in 0..n {
                        b.push(0xd1);
                        b.extend_from_slice(&((4 + (n - 1 - i) * 10 + 1 + 1) as u32).to_be_bytes());
                        b.extend_from_slice(&2u32.to_be_bytes());
                    }
                    b.push(0x40);
                    b.extend(std::iter::repeat_n(0x41, n));
                }
            }
            (b, 1)
        }
    }
}

/// memory allowed per input byte, plus a constant
const MEM_PER_BYTE: i64 = 400;
const MEM_BASE: i64 = 1 << 20;
const MEM_CAP: i64 = 1 << 30;

fn bounded<T>(what: &str, len: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    let (r, peak) = alloc::measure(MEM_CAP, f);
    let limit = MEM_BASE + MEM_PER_BYTE * len as i64;
    ensure!(peak <= limit, "{what}: {peak} bytes allocated for {len} bytes of input");
    Ok(r)
}

fn c05_check(i: &HostileIn, case: &mut Case) -> R {
    let (mut b, kind) = seed_bytes(&i.seed);
    mutate(&mut b, &i.muts);
    if !b.is_empty() && (kind != 0 || b.len() > 8) {
        case.nontrivial();
    }
    let n = b.len();
    // value
    let mut inp = Bytes::from(b.clone());
    let r = bounded("Variant::decode", n, || Variant::decode(&mut inp))?;
    judge_value(&b, r, &inp, case)?;
    // frame bodies, in the codec
    for sasl in [false, true] {
        let mut whole = ((n + 4) as u32).to_be_bytes().to_vec();
        whole.extend_from_slice(&b);
        // and something else behind it, which must not be touched
        whole.extend_from_slice(&[0, 0, 0, 8, 2, 0, 0, 0]);
        if n + 4 < 8 {
            continue;
        }
        let mut src = BytesMut::from(&whole[..]);
        if sasl {
            let c = AmqpCodec::<SaslFrame>::new();
            if let Ok(f) = bounded("SaslFrame", n, || c.decode(&mut src))? {
                ensure!(f.is_some(), "complete frame not decoded");
                ensure!(src.len() == 8, "other than the frame was consumed");
                match conv::sasl_val(&f.unwrap().body) {
                    Err(e) if raw_invalid(&e) => case.label("raw part invalid"),
                    v => judge_frame(&b, 1, v?, &[])?,
                }
                case.label("sasl frame accepted");
            }
        } else {
            let c = AmqpCodec::<AmqpFrame>::new();
            if let Ok(f) = bounded("AmqpFrame", n, || c.decode(&mut src))? {
                ensure!(f.is_some(), "complete frame not decoded");
                ensure!(src.len() == 8, "other than the frame was consumed");
                match conv::frame_val(f.unwrap().performative()) {
                    Err(e) if raw_invalid(&e) => case.label("raw part invalid"),
                    v => {
                        let (v, p) = v?;
                        judge_frame(&b, 0, v, &p)?
                    }
                }
                case.label("frame accepted");
            }
        }
    }
    // message
    let mut inp = Bytes::from(b.clone());
    let r = bounded("Message::decode", n, || Message::decode(&mut inp))?;
    if let Ok(m) = r {
        case.label("message accepted");
        let secs = read_sections(&b).or_else(|_| refcodec::raw(|| read_sections(&b))).map_err(|e| format!("accepted as a message, but {e}: {}", hex(&b)))?;
        ensure!(secs.is_empty() || !b.is_empty(), "?");
        let e = lib_bytes(&m);
        ensure!(e.len() == m.encoded_size(), "size of accepted message");
    }
    // typed decoders used inside performatives
    macro_rules! t {
        ($t:ty) => {{
            let mut inp = Bytes::from(b.clone());
            let r = bounded(stringify!($t), n, || <$t>::decode(&mut inp))?;
            if r.is_ok() {
                let used = n - inp.len();
                ensure!(b[used..] == inp[..], "{}: rest differs", stringify!($t));
                // arrays and described compounds are kept raw and checked when they are read
                let x = refcodec::dec_all(&b[..used]).or_else(|_| refcodec::dec_all_raw(&b[..used]));
                ensure!(lenient(&x), "{} reads {} as a value: {x:?}", stringify!($t), hex(&b[..used]));
            }
        }};
    }
    t!(List);
    t!(VecSymbolMap);
    t!(VecStringMap);
    t!(Fields);
    t!(Symbols);
    t!(Vec<u32>);
    t!(Vec<Symbol>);
    t!(Vec<bool>);
    t!(Map);
    t!(DeliveryState);
    t!(Source);
    t!(Properties);
    t!(Header);
    t!(Error);
    t!(MessageId);
    Ok(())
}

/// What the strict decoder says about bytes the library accepted as exactly one value.
/// Leniencies that misread nothing are allowed: repeated keys, a boolean byte other than 0/1.
fn lenient(r: &Result<Val, refcodec::DErr>) -> bool {
    match r {
        Ok(_) => true,
        Err(refcodec::DErr::Bad(m)) => [
            "boolean byte",
            "huge array of empty elements",
            "element code of an empty array",
        ]
        .contains(m),
        Err(_) => false,
    }
}

fn judge_value(b: &[u8], r: Result<Variant, AmqpParseError>, rest: &Bytes, case: &mut Case) -> R {
    match r {
        Ok(v) => {
            case.label("value accepted");
            let used = b.len() - rest.len();
            ensure!(b[used..] == rest[..], "rest of the input differs");
            let e = lib_bytes(&v);
            ensure!(e.len() == v.encoded_size(), "accepted value reports {} bytes, encodes {}", v.encoded_size(), e.len());
            let x = refcodec::dec_all(&b[..used]);
            // arrays and described compounds are kept raw and checked when they are read
            if raw_kept(&v) {
                return Ok(());
            }
            ensure!(lenient(&x), "{} was accepted as {v:?}: {x:?}", hex(&b[..used]));
            if let Ok(x) = x {
                let g = val(&v)?;
                ensure!(dedup_norm(&g) == dedup_norm(&x), "{} was read as {g:?}", hex(&b[..used]));
            }
        }
        Err(_) => {
            case.label("value rejected");
            // a value the reference decoder accepts (moderate depth, supported descriptors) is not rejected
            if let Ok((x, _)) = refcodec::dec(b) {
                ensure!(
                    x.depth() > 30 || unsupported(&x),
                    "valid value rejected: {x:?} {}",
                    hex(b)
                );
            }
        }
    }
    Ok(())
}

/// Arrays and described compounds are kept undecoded by the library, they may hold anything.
fn raw_invalid(e: &str) -> bool {
    e.starts_with("value holds invalid encoding")
}

fn raw_kept(v: &Variant) -> bool {
    match v {
        Variant::Array(_) | Variant::DescribedCompound(_) => true,
        Variant::List(l) => l.iter().any(raw_kept),
        Variant::Map(m) => m.map.iter().any(|(k, v)| raw_kept(k) || raw_kept(v)),
        Variant::Described((_, v)) => raw_kept(v),
        _ => false,
    }
}

/// Repeated keys: the library keeps one entry.
fn dedup_norm(v: &Val) -> Val {
    match v {
        Val::Map(m) => {
            let mut keys: Vec<Val> = m.iter().map(|(k, _)| dedup_norm(k)).collect();
            keys.sort();
            keys.dedup();
            Val::List(keys)
        }
        Val::List(l) => Val::List(l.iter().map(dedup_norm).collect()),
        Val::Desc(d, v) => Val::Desc(d.clone(), Box::new(dedup_norm(v))),
        Val::Float(b) if f32::from_bits(*b) == 0.0 => Val::Float(0),
        Val::Double(b) if f64::from_bits(*b) == 0.0 => Val::Double(0),
        Val::Float(b) if f32::from_bits(*b).is_nan() => Val::Float(1),
        Val::Double(b) if f64::from_bits(*b).is_nan() => Val::Double(1),
        v => v.clone(),
    }
}

/// Valid AMQP, but outside of what the library represents: descriptors other than ulong and symbol,
/// timestamps outside of its calendar.
fn unsupported(v: &Val) -> bool {
    match v {
        Val::Desc(d, v) => !matches!(**d, Val::Ulong(_) | Val::Sym(_)) || unsupported(v),
        Val::Ts(t) => !(conv::TS_MIN..=conv::TS_MAX).contains(t),
        Val::List(l) => l.iter().any(unsupported),
        Val::Map(m) => m.iter().any(|(k, v)| unsupported(k) || unsupported(v)),
        Val::Array(d, _, l) => {
            d.as_ref().is_some_and(|d| !matches!(**d, Val::Ulong(_) | Val::Sym(_)))
                || l.iter().any(unsupported)
        }
        _ => false,
    }
}

/// An accepted frame: the reference decoder must find the same performative.
fn judge_frame(b: &[u8], ftype: u8, v: Val, payload: &[u8]) -> R {
    ensure!(b[1] == ftype, "frame type {} accepted", b[1]);
    let doff = b[0] as usize * 4;
    ensure!(doff >= 8 && doff - 4 <= b.len(), "data offset {doff} accepted");
    let body = &b[doff - 4..];
    if v == Val::Null {
        ensure!(body.is_empty(), "empty frame with a body");
        return Ok(());
    }
    match refcodec::dec(body) {
        Ok((x, rest)) => {
            ensure!(rest == payload, "payload of {} read as {}", hex(b), hex(payload));
            match schema::normalize(&x, &[]) {
                Ok(n) => {
                    ensure!(dedup_norm(&n) == dedup_norm(&v), "{} read as {v:?}", hex(b));
                    Ok(())
                }
                Err(e) => Err(format!("accepted {} although {e}", hex(b))),
            }
        }
        Err(refcodec::DErr::Bad("depth")) => Ok(()),
        Err(e) => {
            if lenient(&Err(e.clone())) {
                return Ok(());
            }
            // raw parts (arrays, described compounds inside maps) are not looked into
            if value_has_raw(&v) { Ok(()) } else { Err(format!("accepted {} although {e:?}", hex(b))) }
        }
    }
}

fn value_has_raw(v: &Val) -> bool {
    match v {
        Val::Map(m) => m.iter().any(|(k, v)| has_raw(k) || has_raw(v)),
        Val::List(l) => l.iter().any(value_has_raw),
        Val::Desc(_, v) => value_has_raw(v),
        _ => false,
    }
}

fn hostile() -> BoxedStrategy<HostileIn> {
    let seed = prop_oneof![
        1 => vec(any::<u8>(), 0..60).prop_map(Seed::Raw),
        4 => (g::val(3, 12), g::choices()).prop_map(|(v, c)| Seed::Val(v, c)),
        5 => (schema::frame_gen(), g::choices(), vec(any::<u8>(), 0..20)).prop_map(|(v, c, p)| Seed::Frame(v, c, p)),
        1 => (schema::sasl_gen(), g::choices()).prop_map(|(v, c)| Seed::Sasl(v, c)),
        2 => msg_read().prop_map(|m| Seed::Msg(Box::new(m))),
    ];
    (seed, vec(mutation(), 0..5)).prop_map(|(seed, muts)| HostileIn { seed, muts }).boxed()
}

fn deep_hostile() -> BoxedStrategy<HostileIn> {
    (any::<u8>(), prop_oneof![1u32..40, 40u32..3000, 3000u32..200_000], vec(mutation(), 0..2))
        .prop_map(|(k, n, muts)| HostileIn { seed: Seed::Deep(k, n), muts })
        .boxed()
}

/// Protocol header decoder on arbitrary bytes, and the frame codec on arbitrary streams.
fn c05_stream(i: &Vec<u8>, case: &mut Case) -> R {
    let c = AmqpCodec::<AmqpFrame>::new().max_size(1 << 20);
    let mut src = BytesMut::from(&i[..]);
    let mut n = 0;
    let len = i.len();
    loop {
        let before = src.len();
        let r = bounded("stream", len, || c.decode(&mut src))?;
        match r {
            Ok(Some(_)) => {
                n += 1;
                ensure!(src.len() < before, "a frame out of nothing");
            }
            Ok(None) => break,
            Err(_) => {
                // and stays total after an error
                let _ = bounded("stream", len, || c.decode(&mut src))?;
                break;
            }
        }
    }
    let c = AmqpCodec::<SaslFrame>::new();
    let mut src = BytesMut::from(&i[..]);
    let _ = bounded("stream", len, || c.decode(&mut src))?;
    let mut src = BytesMut::from(&i[..]);
    let _ = bounded("header", len, || ProtocolIdCodec.decode(&mut src))?;
    if n > 0 || i.len() >= 8 {
        case.nontrivial();
    }
    case.count("frames read", n);
    Ok(())
}

// ------------------------------------------------------------------ C06

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum StreamItem {
    Frame(Val, Vec<u8>, Vec<u8>),
    Empty,
    /// frame with an extended header of n extra words
    Ext(Val, u8),
    /// a frame whose body is garbage
    Bad(Vec<u8>),
    /// size field below a frame header
    Tiny(u8),
    Big(u32),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct StreamIn {
    pub items: Vec<StreamItem>,
    pub cuts: Vec<u16>,
    /// 0 no limit; otherwise relative to the size of some frame
    pub limit: u8,
    pub delta: i8,
    pub tail: Vec<u8>,
}

#[derive(Debug, PartialEq)]
enum Ev {
    Frame(String),
    Err(String),
}

fn drive(bytes: &[u8], cuts: &[usize], limit: usize) -> (Vec<Ev>, usize) {
    let mut c = AmqpCodec::<AmqpFrame>::new().max_size(limit);
    c.set_max_size(limit);
    let mut src = BytesMut::new();
    let mut out = Vec::new();
    let mut pos = 0;
    let mut ends: Vec<usize> = cuts.to_vec();
    ends.push(bytes.len());
    let mut need = 0; // bytes fed when the terminal error showed
    'o: for e in ends {
        if e > pos {
            src.extend_from_slice(&bytes[pos..e]);
            pos = e;
        }
        loop {
            match c.decode(&mut src) {
                Ok(Some(f)) => {
                    let (v, p) = conv::frame_val(f.performative()).unwrap_or((Val::Null, vec![]));
                    out.push(Ev::Frame(format!("{} {:?} {}", f.channel_id(), v.normalized(), hex(&p))));
                }
                Ok(None) => break,
                Err(e) => {
                    out.push(Ev::Err(format!("{e:?}")));
                    need = pos;
                    break 'o;
                }
            }
        }
    }
    (out, need)
}

fn c06_check(i: &StreamIn, case: &mut Case) -> R {
    let mut bytes = Vec::new();
    let mut sizes = Vec::new();
    let mut model: Vec<Option<(u32, usize, bool)>> = Vec::new(); // size, start, well-formed
    for it in &i.items {
        let start = bytes.len();
        let (b, ok) = match it {
            StreamItem::Frame(v, c, p) => {
                let mut ch = Ch::new(c);
                let mut body = Vec::new();
                refcodec::enc(&schema::vary(v, &mut ch), &mut ch, &mut body);
                let p: &[u8] = if conv::code_of(v) == 0x14 { p } else { &[] };
                (schema::frame_bytes(0, 3, &body, p), true)
            }
            StreamItem::Empty => (schema::frame_bytes(0, 0, &[], &[]), true),
            StreamItem::Ext(v, n) => {
                let body = refcodec::canonical(v);
                let mut b = schema::frame_bytes(0, 9, &body, &[]);
                b[4] = 2 + n % 8;
                let at = 8;
                b.splice(at..at, std::iter::repeat_n(0xee, (n % 8) as usize * 4));
                let l = b.len() as u32;
                b[..4].copy_from_slice(&l.to_be_bytes());
                (b, true)
            }
            StreamItem::Bad(x) => (schema::frame_bytes(0, 0, x, &[]), false),
            StreamItem::Tiny(n) => {
                let mut b = schema::frame_bytes(0, 0, &[], &[]);
                b[..4].copy_from_slice(&((n % 8) as u32).to_be_bytes());
                (b, false)
            }
            StreamItem::Big(n) => {
                let mut b = schema::frame_bytes(0, 0, &[], &[]);
                b[..4].copy_from_slice(&n.to_be_bytes());
                (b, false)
            }
        };
        let size = u32::from_be_bytes(b[..4].try_into().unwrap());
        sizes.push(size);
        model.push(Some((size, start, ok)));
        bytes.extend_from_slice(&b);
    }
    let body_end = bytes.len();
    bytes.extend_from_slice(&i.tail);
    let limit = if i.limit == 0 || sizes.is_empty() {
        0
    } else {
        let s = sizes[i.limit as usize % sizes.len()] as i64;
        (s + i.delta as i64).clamp(0, u32::MAX as i64) as usize
    };
    let mut cuts: Vec<usize> = i.cuts.iter().map(|c| *c as usize % (bytes.len() + 1)).collect();
    cuts.sort();
    let (whole, _) = drive(&bytes, &[], limit);
    let (cut, _) = drive(&bytes, &cuts, limit);
    ensure!(whole == cut, "cut at {cuts:?}: {cut:?}; in one piece: {whole:?}");
    let every: Vec<usize> = (1..bytes.len()).collect();
    if bytes.len() < 3000 {
        let (single, _) = drive(&bytes, &every, limit);
        ensure!(whole == single, "byte by byte: {single:?}; in one piece: {whole:?}");
    }
    // model of limits and order
    let mut k = 0;
    for m in &model {
        let (size, start, ok) = m.unwrap();
        let ev = whole.get(k);
        k += 1;
        if limit != 0 && size as usize > limit {
            ensure!(
                matches!(ev, Some(Ev::Err(e)) if e.contains("MaxSizeExceeded")),
                "frame of {size} with limit {limit}: {ev:?}"
            );
            // as soon as its header is there
            let hdr = (start + 8).min(bytes.len());
            let (evs, _) = drive(&bytes[..hdr], &[], limit);
            ensure!(evs.len() == k, "oversized frame not rejected from its header");
            case.label("limit exceeded");
            break;
        }
        if size < 8 {
            ensure!(matches!(ev, Some(Ev::Err(_))), "frame size {size} accepted: {ev:?}");
            case.label("tiny");
            break;
        }
        if start + size as usize > bytes.len() {
            ensure!(ev.is_none(), "incomplete frame yields {ev:?}");
            case.label("incomplete");
            break;
        }
        if ok {
            ensure!(matches!(ev, Some(Ev::Frame(_))), "frame of {size} (limit {limit}): {ev:?}");
            if limit == size as usize {
                case.label("exactly at the limit");
            }
        } else if matches!(ev, Some(Ev::Err(_))) {
            case.label("bad frame");
            break;
        }
    }
    let _ = body_end;
    if i.items.len() > 1 && !cuts.is_empty() {
        case.nontrivial();
    }
    case.count("frames", whole.len() as u64);
    Ok(())
}

fn stream_in() -> BoxedStrategy<StreamIn> {
    let item = prop_oneof![
        8 => (schema::frame_gen(), g::choices(), vec(any::<u8>(), 0..30)).prop_map(|(v, c, p)| StreamItem::Frame(v, c, p)),
        2 => Just(StreamItem::Empty),
        1 => (schema::frame_gen(), any::<u8>()).prop_map(|(v, n)| StreamItem::Ext(v, n)),
    ];
    let last = prop_oneof![
        8 => Just(None),
        1 => vec(any::<u8>(), 1..20).prop_map(|b| Some(StreamItem::Bad(b))),
        1 => any::<u8>().prop_map(|b| Some(StreamItem::Tiny(b))),
        1 => prop_oneof![Just(u32::MAX), 9u32..5000].prop_map(|b| Some(StreamItem::Big(b))),
    ];
    (
        vec(item, 0..6),
        last,
        vec(any::<u16>(), 0..6),
        prop_oneof![Just(0u8), any::<u8>()],
        prop_oneof![Just(0i8), -2i8..3],
        prop_oneof![3 => Just(vec![]), 1 => vec(any::<u8>(), 0..8)],
    )
        .prop_map(|(mut items, last, cuts, limit, delta, tail)| {
            items.extend(last);
            StreamIn { items, cuts, limit, delta, tail }
        })
        .boxed()
}

// ------------------------------------------------------------------ C07 (codec)

fn c07_codec(i: &(Vec<u8>, Vec<u8>), case: &mut Case) -> R {
    let (b, rest) = i;
    let mut all = b.clone();
    all.extend_from_slice(rest);
    // by pieces: nothing is consumed before eight bytes are there
    for n in 0..all.len().min(8) {
        let mut src = BytesMut::from(&all[..n]);
        let r = ProtocolIdCodec.decode(&mut src);
        ensure!(matches!(r, Ok(None)) && src.len() == n, "{n} bytes of a header: {r:?}");
    }
    if all.len() < 8 {
        return Ok(());
    }
    let mut src = BytesMut::from(&all[..]);
    let r = ProtocolIdCodec.decode(&mut src);
    let want = if all[..4] == *b"AMQP" && all[5..8] == [1, 0, 0] {
        match all[4] {
            0 => Some(ProtocolId::Amqp),
            2 => Some(ProtocolId::AmqpTls),
            3 => Some(ProtocolId::AmqpSasl),
            _ => None,
        }
    } else {
        None
    };
    match want {
        Some(id) => {
            case.nontrivial();
            case.label("valid");
            ensure!(matches!(&r, Ok(Some(x)) if *x == id), "{} gives {r:?}", hex(&all[..8]));
            ensure!(src[..] == all[8..], "other than eight bytes consumed");
            let mut out = BytesMut::new();
            ProtocolIdCodec.encode(id, &mut out).map_err(|e| format!("{e:?}"))?;
            ensure!(out[..] == all[..8], "{id:?} is written as {}", hex(&out));
        }
        None => {
            case.label("invalid");
            if all[..4] == *b"AMQP" {
                case.nontrivial();
            }
            ensure!(r.is_err(), "{} gives {r:?}", hex(&all[..8]));
            let right_error = if all[..4] != *b"AMQP" {
                matches!(r, Err(ProtocolIdError::InvalidHeader))
            } else if all[5..8] != [1, 0, 0] {
                matches!(r, Err(ProtocolIdError::Incompatible))
            } else {
                matches!(r, Err(ProtocolIdError::Unknown))
            };
            ensure!(right_error, "{} is classified as {r:?}", hex(&all[..8]));
        }
    }
    Ok(())
}

pub fn header_gen() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => proptest::sample::select(&[0u8, 1, 2, 3, 4, 5, 255][..]).prop_map(|id| vec![b'A', b'M', b'Q', b'P', id, 1, 0, 0]),
        4 => (proptest::sample::select(&[0u8, 2, 3][..]), 0usize..8, any::<u8>()).prop_map(|(id, p, x)| {
            let mut v = vec![b'A', b'M', b'Q', b'P', id, 1, 0, 0];
            v[p] = x;
            v
        }),
        1 => vec(any::<u8>(), 8),
        1 => vec(any::<u8>(), 0..8),
    ]
    .boxed()
}

// ------------------------------------------------------------------ table

pub fn props() -> Vec<Prop> {
    let suffix = || prop_oneof![Just(vec![]), vec(any::<u8>(), 0..12)];
    vec![
        Prop {
            id: "C01",
            rule: "value trees over all 24 AMQP types from a recursive generator with boundary values (incl. deep chains and lists/maps/arrays around the 8/32 bit forms); non-trivial: compound, described or array value, or more than 9 encoded bytes; distinct by the whole input",
            assumptions: &["DateTime values have millisecond precision (all AMQP can carry)", "map keys are distinct", "described lists, maps and arrays are built as Variant::DescribedCompound as the type documents"],
            spin_secs: None,
            subs: vec![
                sub("values", 600_000, 15_000_000, move |_| (g::val(4, 24), suffix()).prop_map(|(v, suffix)| ValIn { v, suffix }), c01_check),
                sub("deep", 40_000, 500_000, |_| g::deep(30).prop_map(|v| ValIn { v, suffix: vec![1] }), c01_check),
                sub("big", 20_000, 300_000, |_| g::big().prop_map(|v| ValIn { v, suffix: vec![1] }), c01_check),
            ],
        },
        Prop {
            id: "C02",
            rule: "value trees as in C01, each node encoded with a randomly chosen legal constructor (array constructors included, numeric or symbolic descriptors); non-trivial: at least one non-compact constructor was used; distinct by the whole input",
            assumptions: &["timestamps within the calendar of chrono", "descriptors are ulong or symbol, as the library represents"],
            spin_secs: None,
            subs: vec![
                sub("values", 600_000, 15_000_000, move |_| (g::val(4, 24), g::choices(), suffix()).prop_map(|(v, ch, suffix)| AltIn { v, ch, suffix }), c02_check),
                sub("deep", 40_000, 500_000, |_| (g::deep(30), g::choices()).prop_map(|(v, ch)| AltIn { v, ch, suffix: vec![2] }), c02_check),
                sub("big", 20_000, 300_000, |_| (g::big(), g::choices()).prop_map(|(v, ch)| AltIn { v, ch, suffix: vec![2] }), c02_check),
            ],
        },
        Prop {
            id: "C03",
            rule: "every performative, SASL body and composite of the specification with random subsets of fields; written by the library and read by the reference schema, and written by the reference in a random conforming form (widths, omitted trailing fields, nulls for defaults, symbolic descriptors, single values for multiple fields) and read by the library; non-trivial: at least one field present",
            assumptions: &["filter sets with described values are excluded by construction (known finding)", "transactional targets and states are outside of the library's types"],
            spin_secs: None,
            subs: vec![
                sub("write", 240_000, 5_000_000, |_| fr(schema::frame_gen()), c03_write),
                sub("read", 360_000, 7_500_000, |_| fr(schema::frame_gen()), c03_read),
                sub("sasl", 80_000, 1_500_000, |_| fr(schema::sasl_gen()), c03_sasl),
                sub("composites", 160_000, 2_500_000, |_| {
                    let l = [&schema::ERROR, &schema::RECEIVED, &schema::ACCEPTED, &schema::REJECTED, &schema::RELEASED, &schema::MODIFIED, &schema::SOURCE, &schema::TARGET, &schema::HEADER, &schema::PROPERTIES];
                    fr((0..l.len()).prop_flat_map(move |i| schema::comp_gen(l[i])).boxed())
                }, c03_comp),
            ],
        },
        Prop {
            id: "C04",
            rule: "histories of builder calls, in-place edits, size reads and encodes on a message, against a section model; and messages written by the reference in any conforming form; non-trivial: an edit follows a read of the size (histories) or more than one section (reads)",
            assumptions: &["nested TransferBody messages are compared as data sections (how they are encoded)"],
            spin_secs: None,
            subs: vec![
                sub("edits", 240_000, 5_000_000, |_| (prop::option::of(g::binary()), vec(msg_op(), 0..12)).prop_map(|(start, ops)| MsgIn { start, ops }), c04_check),
                sub("read", 160_000, 3_000_000, |_| msg_read(), c04_read),
            ],
        },
        Prop {
            id: "C05",
            rule: "valid values, frames, SASL frames and messages damaged by up to four mutations aimed at format codes, sizes and counts; nesting chains up to 200000 levels; random byte streams; every decoder runs on each input; non-trivial: derived from a valid structure or at least 8 bytes",
            assumptions: &["memory bound: 1 MiB + 400 bytes per input byte (peak live, per thread)", "boolean bytes other than 0 and 1 and repeated map keys may be accepted", "contents of arrays and described compounds are decoded when they are read"],
            spin_secs: Some(20),
            subs: vec![
                sub("mutated", 600_000, 20_000_000, |_| hostile(), c05_check),
                sub("nesting", 16_000, 200_000, |_| deep_hostile(), c05_check),
                sub("stream", 160_000, 5_000_000, |_| prop_oneof![
                    vec(any::<u8>(), 0..64),
                    (vec(schema::frame_gen(), 1..4), vec(mutation(), 0..4)).prop_map(|(l, m)| {
                        let mut b = Vec::new();
                        for v in l { b.extend(schema::frame_bytes(0, 0, &refcodec::canonical(&v), &[])); }
                        mutate(&mut b, &m);
                        b
                    }),
                ], c05_stream),
            ],
        },
        Prop {
            id: "C06",
            rule: "streams of up to seven frames (also empty, with extended headers, malformed, undersized, oversized or incomplete at the end), fed in one piece, cut at random places and byte by byte, with a size limit near the size of one of the frames; non-trivial: more than one frame and at least one cut",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("streams", 160_000, 4_000_000, |_| stream_in(), c06_check)],
        },
        Prop {
            id: "C07",
            rule: "protocol headers: valid, near-valid (one byte changed) and random, alone and followed by other bytes; non-trivial: begins with AMQP",
            assumptions: &[],
            spin_secs: None,
            subs: vec![sub("codec", 400_000, 10_000_000, |_| (header_gen(), vec(any::<u8>(), 0..10)), c07_codec)],
        },
    ]
}

fn fr(s: BoxedStrategy<Val>) -> BoxedStrategy<FrameIn> {
    (
        g::edge_u16(),
        s,
        g::choices(),
        prop_oneof![Just(vec![]), vec(any::<u8>(), 0..40), vec(any::<u8>(), 250..300)],
    )
        .prop_map(|(channel, v, ch, payload)| FrameIn { channel, v, ch, payload })
        .boxed()
}
