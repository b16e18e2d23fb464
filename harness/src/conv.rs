//! Conversions between the library's types and the reference value tree.
use std::collections::HashMap as StdMap;

use chrono::{DateTime, TimeZone, Utc};
use ntex_amqp_codec::protocol::*;
use ntex_amqp_codec::types::*;
use ntex_amqp_codec::{Decode, Encode};
use ntex_bytes::{ByteString, Bytes, BytesMut};
use ordered_float::OrderedFloat;
use uuid::Uuid;

use crate::refcodec::{self, ElemTy, Val};

pub fn lib_bytes<T: Encode + ?Sized>(t: &T) -> Vec<u8> {
    let mut b = BytesMut::new();
    t.encode(&mut b);
    b.to_vec()
}

pub fn ts(ms: i64) -> DateTime<Utc> {
    Utc.timestamp_millis_opt(ms).unwrap()
}

/// Milliseconds of chrono's representable range.
pub const TS_MIN: i64 = -8_334_601_228_800_000;
pub const TS_MAX: i64 = 8_210_266_876_799_999;

pub fn descriptor(v: &Val) -> Descriptor {
    match v {
        Val::Ulong(x) => Descriptor::Ulong(*x),
        Val::Sym(s) => Descriptor::Symbol(Symbol::from(s.clone())),
        _ => panic!("descriptor {v:?}"),
    }
}

pub fn desc_val(d: &Descriptor) -> Val {
    match d {
        Descriptor::Ulong(x) => Val::Ulong(*x),
        Descriptor::Symbol(s) => Val::Sym(s.as_str().to_string()),
    }
}

pub fn bs(s: &str) -> ByteString {
    ByteString::from(s.to_string())
}

pub fn array(d: &Option<Box<Val>>, ty: ElemTy, l: &[Val]) -> Array {
    macro_rules! a {
        ($p:pat => $e:expr, $t:ty) => {{
            let v: Vec<$t> = l.iter().map(|x| match x { $p => $e, _ => panic!("array elem") }).collect();
            return Array::new(v.iter());
        }};
    }
    if d.is_none() {
        match ty {
            ElemTy::Bool => a!(Val::Bool(x) => *x, bool),
            ElemTy::Ubyte => a!(Val::Ubyte(x) => *x, u8),
            ElemTy::Ushort => a!(Val::Ushort(x) => *x, u16),
            ElemTy::Uint => a!(Val::Uint(x) => *x, u32),
            ElemTy::Ulong => a!(Val::Ulong(x) => *x, u64),
            ElemTy::Byte => a!(Val::Byte(x) => *x, i8),
            ElemTy::Short => a!(Val::Short(x) => *x, i16),
            ElemTy::Int => a!(Val::Int(x) => *x, i32),
            ElemTy::Long => a!(Val::Long(x) => *x, i64),
            ElemTy::Float => a!(Val::Float(x) => f32::from_bits(*x), f32),
            ElemTy::Double => a!(Val::Double(x) => f64::from_bits(*x), f64),
            ElemTy::Char => a!(Val::Char(x) => *x, char),
            ElemTy::Ts => a!(Val::Ts(x) => ts(*x), DateTime<Utc>),
            ElemTy::Uuid => a!(Val::Uuid(x) => Uuid::from_bytes(*x), Uuid),
            ElemTy::Bin => a!(Val::Bin(x) => Bytes::from(x.clone()), Bytes),
            ElemTy::Str => a!(Val::Str(x) => bs(x), ByteString),
            ElemTy::Sym => a!(Val::Sym(x) => Symbol::from(x.clone()), Symbol),
            ElemTy::Map => {
                let v: Vec<StdMap<Variant, Variant>> = l
                    .iter()
                    .map(|x| match x {
                        Val::Map(m) => m.iter().map(|(k, v)| (variant(k), variant(v))).collect(),
                        _ => panic!(),
                    })
                    .collect();
                return Array::new(v.iter());
            }
            _ => {}
        }
    }
    // no typed constructor: the value can only come from the wire
    let b = refcodec::canonical(&Val::Array(d.clone(), ty, l.to_vec()));
    match Variant::decode(&mut Bytes::from(b)) {
        Ok(Variant::Array(a)) => a,
        r => panic!("array from wire: {r:?}"),
    }
}

pub fn variant(v: &Val) -> Variant {
    match v {
        Val::Null => Variant::Null,
        Val::Bool(x) => Variant::Boolean(*x),
        Val::Ubyte(x) => Variant::Ubyte(*x),
        Val::Ushort(x) => Variant::Ushort(*x),
        Val::Uint(x) => Variant::Uint(*x),
        Val::Ulong(x) => Variant::Ulong(*x),
        Val::Byte(x) => Variant::Byte(*x),
        Val::Short(x) => Variant::Short(*x),
        Val::Int(x) => Variant::Int(*x),
        Val::Long(x) => Variant::Long(*x),
        Val::Float(x) => Variant::Float(OrderedFloat(f32::from_bits(*x))),
        Val::Double(x) => Variant::Double(OrderedFloat(f64::from_bits(*x))),
        Val::Dec32(x) => Variant::Decimal32(*x),
        Val::Dec64(x) => Variant::Decimal64(*x),
        Val::Dec128(x) => Variant::Decimal128(*x),
        Val::Char(x) => Variant::Char(*x),
        Val::Ts(x) => Variant::Timestamp(ts(*x)),
        Val::Uuid(x) => Variant::Uuid(Uuid::from_bytes(*x)),
        Val::Bin(x) => Variant::Binary(Bytes::from(x.clone())),
        Val::Str(x) => Variant::String(Str::from(x.clone())),
        Val::Sym(x) => Variant::Symbol(Symbol::from(x.clone())),
        Val::List(l) => Variant::List(List(l.iter().map(variant).collect())),
        Val::Map(m) => {
            Variant::Map(VariantMap { map: m.iter().map(|(k, v)| (variant(k), variant(v))).collect() })
        }
        Val::Array(d, t, l) => Variant::Array(array(d, *t, l)),
        Val::Desc(d, v) => match &**v {
            Val::List(l) => Variant::DescribedCompound(DescribedCompound::create(
                descriptor(d),
                List(l.iter().map(variant).collect()),
            )),
            Val::Map(m) => {
                let m: StdMap<Variant, Variant> =
                    m.iter().map(|(k, v)| (variant(k), variant(v))).collect();
                Variant::DescribedCompound(DescribedCompound::create(descriptor(d), m))
            }
            Val::Array(ad, t, l) => Variant::DescribedCompound(DescribedCompound::create(
                descriptor(d),
                array(ad, *t, l),
            )),
            v => Variant::Described((descriptor(d), Box::new(variant(v)))),
        },
    }
}

/// The value a library variant denotes (raw parts are read by the reference decoder).
pub fn val(v: &Variant) -> Result<Val, String> {
    let raw = |b: Vec<u8>| {
        refcodec::dec_all(&b).map_err(|e| format!("value holds invalid encoding {b:02x?}: {e:?}"))
    };
    Ok(match v {
        Variant::Null => Val::Null,
        Variant::Boolean(x) => Val::Bool(*x),
        Variant::Ubyte(x) => Val::Ubyte(*x),
        Variant::Ushort(x) => Val::Ushort(*x),
        Variant::Uint(x) => Val::Uint(*x),
        Variant::Ulong(x) => Val::Ulong(*x),
        Variant::Byte(x) => Val::Byte(*x),
        Variant::Short(x) => Val::Short(*x),
        Variant::Int(x) => Val::Int(*x),
        Variant::Long(x) => Val::Long(*x),
        Variant::Float(x) => Val::Float(x.0.to_bits()),
        Variant::Double(x) => Val::Double(x.0.to_bits()),
        Variant::Decimal32(x) => Val::Dec32(*x),
        Variant::Decimal64(x) => Val::Dec64(*x),
        Variant::Decimal128(x) => Val::Dec128(*x),
        Variant::Char(x) => Val::Char(*x),
        Variant::Timestamp(x) => Val::Ts(x.timestamp_millis()),
        Variant::Uuid(x) => Val::Uuid(*x.as_bytes()),
        Variant::Binary(x) => Val::Bin(x.to_vec()),
        Variant::String(x) => Val::Str(x.as_str().to_string()),
        Variant::Symbol(x) => Val::Sym(x.as_str().to_string()),
        Variant::List(l) => Val::List(l.iter().map(val).collect::<Result<_, _>>()?),
        Variant::Map(m) => Val::Map(
            m.map.iter().map(|(k, v)| Ok((val(k)?, val(v)?))).collect::<Result<_, String>>()?,
        ),
        Variant::Array(a) => raw(lib_bytes(a))?,
        Variant::Described((d, v)) => Val::Desc(Box::new(desc_val(d)), Box::new(val(v)?)),
        Variant::DescribedCompound(c) => raw(lib_bytes(c))?,
    })
}

// ------------------------------------------------------------------ field conversions

pub trait Fld: Sized {
    fn from_val(v: &Val) -> Self;
    fn to_val(&self) -> Result<Val, String>;
}

macro_rules! fld {
    ($t:ty, $p:pat => $from:expr, $s:ident => $to:expr) => {
        impl Fld for $t {
            fn from_val(v: &Val) -> Self {
                match v {
                    $p => $from,
                    _ => panic!("field value {:?} for {}", v, stringify!($t)),
                }
            }
            fn to_val(&self) -> Result<Val, String> {
                let $s = self;
                Ok($to)
            }
        }
    };
}

fld!(bool, Val::Bool(x) => *x, s => Val::Bool(*s));
fld!(u8, Val::Ubyte(x) => *x, s => Val::Ubyte(*s));
fld!(u16, Val::Ushort(x) => *x, s => Val::Ushort(*s));
fld!(u32, Val::Uint(x) => *x, s => Val::Uint(*s));
fld!(u64, Val::Ulong(x) => *x, s => Val::Ulong(*s));
fld!(ByteString, Val::Str(x) => bs(x), s => Val::Str(s.to_string()));
fld!(Bytes, Val::Bin(x) => Bytes::from(x.clone()), s => Val::Bin(s.to_vec()));
fld!(Symbol, Val::Sym(x) => Symbol::from(x.clone()), s => Val::Sym(s.as_str().to_string()));
fld!(DateTime<Utc>, Val::Ts(x) => ts(*x), s => Val::Ts(s.timestamp_millis()));
fld!(Role, Val::Bool(x) => if *x { Role::Receiver } else { Role::Sender },
    s => Val::Bool(matches!(s, Role::Receiver)));
fld!(SenderSettleMode, Val::Ubyte(x) => match x {
        0 => SenderSettleMode::Unsettled,
        1 => SenderSettleMode::Settled,
        _ => SenderSettleMode::Mixed,
    },
    s => Val::Ubyte(match s {
        SenderSettleMode::Unsettled => 0,
        SenderSettleMode::Settled => 1,
        SenderSettleMode::Mixed => 2,
    }));
fld!(ReceiverSettleMode, Val::Ubyte(x) => match x {
        0 => ReceiverSettleMode::First,
        _ => ReceiverSettleMode::Second,
    },
    s => Val::Ubyte(match s {
        ReceiverSettleMode::First => 0,
        ReceiverSettleMode::Second => 1,
    }));
fld!(SaslCode, Val::Ubyte(x) => match x {
        0 => SaslCode::Ok,
        1 => SaslCode::Auth,
        2 => SaslCode::Sys,
        3 => SaslCode::SysPerm,
        _ => SaslCode::SysTemp,
    },
    s => Val::Ubyte(match s {
        SaslCode::Ok => 0,
        SaslCode::Auth => 1,
        SaslCode::Sys => 2,
        SaslCode::SysPerm => 3,
        SaslCode::SysTemp => 4,
    }));
fld!(TerminusDurability, Val::Uint(x) => match x {
        0 => TerminusDurability::None,
        1 => TerminusDurability::Configuration,
        _ => TerminusDurability::UnsettledState,
    },
    s => Val::Uint(match s {
        TerminusDurability::None => 0,
        TerminusDurability::Configuration => 1,
        TerminusDurability::UnsettledState => 2,
    }));
fld!(TerminusExpiryPolicy, Val::Sym(x) => match x.as_str() {
        "link-detach" => TerminusExpiryPolicy::LinkDetach,
        "session-end" => TerminusExpiryPolicy::SessionEnd,
        "connection-close" => TerminusExpiryPolicy::ConnectionClose,
        _ => TerminusExpiryPolicy::Never,
    },
    s => Val::sym(match s {
        TerminusExpiryPolicy::LinkDetach => "link-detach",
        TerminusExpiryPolicy::SessionEnd => "session-end",
        TerminusExpiryPolicy::ConnectionClose => "connection-close",
        TerminusExpiryPolicy::Never => "never",
    }));
fld!(DistributionMode, Val::Sym(x) => match x.as_str() {
        "move" => DistributionMode::Move,
        "copy" => DistributionMode::Copy,
        _ => DistributionMode::Custom(Symbol::from(x.clone())),
    },
    s => Val::sym(match s {
        DistributionMode::Move => "move",
        DistributionMode::Copy => "copy",
        DistributionMode::Custom(c) => c.as_str(),
    }));
fld!(MessageId, v => match v {
        Val::Ulong(x) => MessageId::Ulong(*x),
        Val::Uuid(x) => MessageId::Uuid(Uuid::from_bytes(*x)),
        Val::Bin(x) => MessageId::Binary(Bytes::from(x.clone())),
        Val::Str(x) => MessageId::String(bs(x)),
        _ => panic!("message id"),
    },
    s => match s {
        MessageId::Ulong(x) => Val::Ulong(*x),
        MessageId::Uuid(x) => Val::Uuid(*x.as_bytes()),
        MessageId::Binary(x) => Val::Bin(x.to_vec()),
        MessageId::String(x) => Val::Str(x.to_string()),
    });

pub const AMQP_ERR: [&str; 13] = [
    "amqp:internal-error",
    "amqp:not-found",
    "amqp:unauthorized-access",
    "amqp:decode-error",
    "amqp:resource-limit-exceeded",
    "amqp:not-allowed",
    "amqp:invalid-field",
    "amqp:not-implemented",
    "amqp:resource-locked",
    "amqp:precondition-failed",
    "amqp:resource-deleted",
    "amqp:illegal-state",
    "amqp:frame-size-too-small",
];
pub const CONN_ERR: [&str; 3] =
    ["amqp:connection:forced", "amqp:connection:framing-error", "amqp:connection:redirect"];
pub const SESS_ERR: [&str; 4] = [
    "amqp:session:window-violation",
    "amqp:session:errant-link",
    "amqp:session:handle-in-use",
    "amqp:session:unattached-handle",
];
pub const LINK_ERR: [&str; 5] = [
    "amqp:link:detach-forced",
    "amqp:link:transfer-limit-exceeded",
    "amqp:link:message-size-exceeded",
    "amqp:link:redirect",
    "amqp:link:stolen",
];

fn amqp_errs() -> [AmqpError; 13] {
    [
        AmqpError::InternalError,
        AmqpError::NotFound,
        AmqpError::UnauthorizedAccess,
        AmqpError::DecodeError,
        AmqpError::ResourceLimitExceeded,
        AmqpError::NotAllowed,
        AmqpError::InvalidField,
        AmqpError::NotImplemented,
        AmqpError::ResourceLocked,
        AmqpError::PreconditionFailed,
        AmqpError::ResourceDeleted,
        AmqpError::IllegalState,
        AmqpError::FrameSizeTooSmall,
    ]
}
fn conn_errs() -> [ConnectionError; 3] {
    [ConnectionError::ConnectionForced, ConnectionError::FramingError, ConnectionError::Redirect]
}
fn sess_errs() -> [SessionError; 4] {
    [
        SessionError::WindowViolation,
        SessionError::ErrantLink,
        SessionError::HandleInUse,
        SessionError::UnattachedHandle,
    ]
}
fn link_errs() -> [LinkError; 5] {
    [
        LinkError::DetachForced,
        LinkError::TransferLimitExceeded,
        LinkError::MessageSizeExceeded,
        LinkError::Redirect,
        LinkError::Stolen,
    ]
}

impl Fld for ErrorCondition {
    fn from_val(v: &Val) -> Self {
        let Val::Sym(s) = v else { panic!("condition {v:?}") };
        let f = |t: &[&str]| t.iter().position(|x| x == s);
        if let Some(i) = f(&AMQP_ERR) {
            ErrorCondition::AmqpError(amqp_errs()[i].clone())
        } else if let Some(i) = f(&CONN_ERR) {
            ErrorCondition::ConnectionError(conn_errs()[i].clone())
        } else if let Some(i) = f(&SESS_ERR) {
            ErrorCondition::SessionError(sess_errs()[i].clone())
        } else if let Some(i) = f(&LINK_ERR) {
            ErrorCondition::LinkError(link_errs()[i].clone())
        } else {
            ErrorCondition::Custom(Symbol::from(s.clone()))
        }
    }
    fn to_val(&self) -> Result<Val, String> {
        Ok(Val::sym(match self {
            ErrorCondition::AmqpError(e) => {
                AMQP_ERR[amqp_errs().iter().position(|x| x == e).unwrap()]
            }
            ErrorCondition::ConnectionError(e) => {
                CONN_ERR[conn_errs().iter().position(|x| x == e).unwrap()]
            }
            ErrorCondition::SessionError(e) => {
                SESS_ERR[sess_errs().iter().position(|x| x == e).unwrap()]
            }
            ErrorCondition::LinkError(e) => {
                LINK_ERR[link_errs().iter().position(|x| x == e).unwrap()]
            }
            ErrorCondition::Custom(s) => {
                let all: Vec<&str> =
                    AMQP_ERR.iter().chain(&CONN_ERR).chain(&SESS_ERR).chain(&LINK_ERR).copied().collect();
                if all.contains(&s.as_str()) {
                    return Err(format!("standard condition {s:?} reported as custom"));
                }
                s.as_str()
            }
        }))
    }
}

impl Fld for Symbols {
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Array(None, ElemTy::Sym, l) => Multiple(l.iter().map(Symbol::from_val).collect()),
            v => Multiple(vec![Symbol::from_val(v)]),
        }
    }
    fn to_val(&self) -> Result<Val, String> {
        Ok(Val::Array(None, ElemTy::Sym, self.0.iter().map(|s| s.to_val()).collect::<Result<_, _>>()?))
    }
}

fn map_entries(v: &Val) -> &[(Val, Val)] {
    match v {
        Val::Map(m) => m,
        _ => panic!("map expected"),
    }
}

impl Fld for Fields {
    fn from_val(v: &Val) -> Self {
        map_entries(v).iter().map(|(k, v)| (Symbol::from_val(k), variant(v))).collect()
    }
    fn to_val(&self) -> Result<Val, String> {
        Ok(Val::Map(
            self.iter().map(|(k, v)| Ok((k.to_val()?, val(v)?))).collect::<Result<_, String>>()?,
        ))
    }
}

impl Fld for VecSymbolMap {
    fn from_val(v: &Val) -> Self {
        VecSymbolMap(map_entries(v).iter().map(|(k, v)| (Symbol::from_val(k), variant(v))).collect())
    }
    fn to_val(&self) -> Result<Val, String> {
        Ok(Val::Map(
            self.iter().map(|(k, v)| Ok((k.to_val()?, val(v)?))).collect::<Result<_, String>>()?,
        ))
    }
}

impl Fld for VecStringMap {
    fn from_val(v: &Val) -> Self {
        VecStringMap(
            map_entries(v)
                .iter()
                .map(|(k, v)| match k {
                    Val::Str(s) => (Str::from(s.clone()), variant(v)),
                    _ => panic!("string key"),
                })
                .collect(),
        )
    }
    fn to_val(&self) -> Result<Val, String> {
        Ok(Val::Map(
            self.iter()
                .map(|(k, v)| Ok((Val::Str(k.as_str().to_string()), val(v)?)))
                .collect::<Result<_, String>>()?,
        ))
    }
}

impl Fld for Map {
    fn from_val(v: &Val) -> Self {
        map_entries(v).iter().map(|(k, v)| (variant(k), variant(v))).collect()
    }
    fn to_val(&self) -> Result<Val, String> {
        Ok(Val::Map(
            self.iter().map(|(k, v)| Ok((val(k)?, val(v)?))).collect::<Result<_, String>>()?,
        ))
    }
}

impl Fld for FilterSet {
    fn from_val(v: &Val) -> Self {
        map_entries(v)
            .iter()
            .map(|(k, v)| {
                (
                    Symbol::from_val(k),
                    match v {
                        Val::Null => None,
                        v => Some(ByteString::from_val(v)),
                    },
                )
            })
            .collect()
    }
    fn to_val(&self) -> Result<Val, String> {
        Ok(Val::Map(
            self.iter()
                .map(|(k, v)| {
                    Ok((
                        k.to_val()?,
                        match v {
                            None => Val::Null,
                            Some(v) => v.to_val()?,
                        },
                    ))
                })
                .collect::<Result<_, String>>()?,
        ))
    }
}

fn opt<T: Fld>(v: &Val) -> Option<T> {
    match v {
        Val::Null => None,
        v => Some(T::from_val(v)),
    }
}
fn opt_val<T: Fld>(v: &Option<T>) -> Result<Val, String> {
    match v {
        None => Ok(Val::Null),
        Some(v) => v.to_val(),
    }
}

impl<T: Fld> Fld for Option<T> {
    fn from_val(v: &Val) -> Self {
        opt(v)
    }
    fn to_val(&self) -> Result<Val, String> {
        opt_val(self)
    }
}

/// Composite types: a list of all fields, in order.
macro_rules! comp {
    (boxed $t:ident, $inner:ident, $code:expr, [$($f:ident),*]) => {
        impl Fld for $t {
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn from_val(v: &Val) -> Self {
                let l = comp_fields(v, $code);
                let mut i = 0;
                $( let $f = Fld::from_val(&l[i]); i += 1; )*
                $t(Box::new($inner { $($f),* }))
            }
            fn to_val(&self) -> Result<Val, String> {
                Ok(mk($code, vec![$( self.0.$f.to_val()? ),*]))
            }
        }
    };
    (plain $t:ident, $code:expr, [$($f:ident),*]) => {
        impl Fld for $t {
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn from_val(v: &Val) -> Self {
                let l = comp_fields(v, $code);
                let mut i = 0;
                $( let $f = Fld::from_val(&l[i]); i += 1; )*
                $t { $($f),* }
            }
            fn to_val(&self) -> Result<Val, String> {
                Ok(mk($code, vec![$( self.$f.to_val()? ),*]))
            }
        }
    };
}

pub fn mk(code: u64, l: Vec<Val>) -> Val {
    Val::Desc(Box::new(Val::Ulong(code)), Box::new(Val::List(l)))
}

fn comp_fields(v: &Val, code: u64) -> &[Val] {
    match v {
        Val::Desc(d, l) if **d == Val::Ulong(code) => match &**l {
            Val::List(l) => l,
            _ => panic!("composite body"),
        },
        _ => panic!("composite {v:?}, expected {code}"),
    }
}

comp!(boxed Error, ErrorInner, 0x1d, [condition, description, info]);
comp!(boxed Open, OpenInner, 0x10, [container_id, hostname, max_frame_size, channel_max, idle_time_out,
    outgoing_locales, incoming_locales, offered_capabilities, desired_capabilities, properties]);
comp!(boxed Begin, BeginInner, 0x11, [remote_channel, next_outgoing_id, incoming_window, outgoing_window,
    handle_max, offered_capabilities, desired_capabilities, properties]);
comp!(boxed Attach, AttachInner, 0x12, [name, handle, role, snd_settle_mode, rcv_settle_mode, source, target,
    unsettled, incomplete_unsettled, initial_delivery_count, max_message_size, offered_capabilities,
    desired_capabilities, properties]);
comp!(boxed Flow, FlowInner, 0x13, [next_incoming_id, incoming_window, next_outgoing_id, outgoing_window,
    handle, delivery_count, link_credit, available, drain, echo, properties]);
comp!(boxed Disposition, DispositionInner, 0x15, [role, first, last, settled, state, batchable]);
comp!(boxed Detach, DetachInner, 0x16, [handle, closed, error]);
comp!(plain End, 0x17, [error]);
comp!(plain Close, 0x18, [error]);
comp!(plain SaslMechanisms, 0x40, [sasl_server_mechanisms]);
comp!(plain SaslInit, 0x41, [mechanism, initial_response, hostname]);
comp!(plain SaslChallenge, 0x42, [challenge]);
comp!(plain SaslResponse, 0x43, [response]);
comp!(plain SaslOutcome, 0x44, [code, additional_data]);
comp!(plain Source, 0x28, [address, durable, expiry_policy, timeout, dynamic, dynamic_node_properties,
    distribution_mode, filter, default_outcome, outcomes, capabilities]);
comp!(plain Target, 0x29, [address, durable, expiry_policy, timeout, dynamic, dynamic_node_properties,
    capabilities]);
comp!(plain Header, 0x70, [durable, priority, ttl, first_acquirer, delivery_count]);
comp!(plain Properties, 0x73, [message_id, user_id, to, subject, reply_to, correlation_id, content_type,
    content_encoding, absolute_expiry_time, creation_time, group_id, group_sequence, reply_to_group_id]);
comp!(plain Received, 0x23, [section_number, section_offset]);
comp!(plain Accepted, 0x24, []);
comp!(plain Rejected, 0x25, [error]);
comp!(plain Released, 0x26, []);
comp!(plain Modified, 0x27, [delivery_failed, undeliverable_here, message_annotations]);

/// Transfer: the list of fields, then the payload as a last pseudo field.
impl Fld for Transfer {
    fn from_val(v: &Val) -> Self {
        let l = comp_fields(v, 0x14);
        Transfer(Box::new(TransferInner {
            handle: Fld::from_val(&l[0]),
            delivery_id: Fld::from_val(&l[1]),
            delivery_tag: Fld::from_val(&l[2]),
            message_format: Fld::from_val(&l[3]),
            settled: Fld::from_val(&l[4]),
            more: Fld::from_val(&l[5]),
            rcv_settle_mode: Fld::from_val(&l[6]),
            state: Fld::from_val(&l[7]),
            resume: Fld::from_val(&l[8]),
            aborted: Fld::from_val(&l[9]),
            batchable: Fld::from_val(&l[10]),
            body: None,
        }))
    }
    fn to_val(&self) -> Result<Val, String> {
        let s = &self.0;
        Ok(mk(
            0x14,
            vec![
                s.handle.to_val()?,
                s.delivery_id.to_val()?,
                s.delivery_tag.to_val()?,
                s.message_format.to_val()?,
                s.settled.to_val()?,
                s.more.to_val()?,
                s.rcv_settle_mode.to_val()?,
                s.state.to_val()?,
                s.resume.to_val()?,
                s.aborted.to_val()?,
                s.batchable.to_val()?,
            ],
        ))
    }
}

pub fn code_of(v: &Val) -> u64 {
    match v {
        Val::Desc(d, _) => match **d {
            Val::Ulong(c) => c,
            _ => panic!("symbolic"),
        },
        _ => panic!("not described: {v:?}"),
    }
}

impl Fld for DeliveryState {
    fn from_val(v: &Val) -> Self {
        match code_of(v) {
            0x23 => DeliveryState::Received(Fld::from_val(v)),
            0x24 => DeliveryState::Accepted(Fld::from_val(v)),
            0x25 => DeliveryState::Rejected(Fld::from_val(v)),
            0x26 => DeliveryState::Released(Fld::from_val(v)),
            _ => DeliveryState::Modified(Fld::from_val(v)),
        }
    }
    fn to_val(&self) -> Result<Val, String> {
        match self {
            DeliveryState::Received(x) => x.to_val(),
            DeliveryState::Accepted(x) => x.to_val(),
            DeliveryState::Rejected(x) => x.to_val(),
            DeliveryState::Released(x) => x.to_val(),
            DeliveryState::Modified(x) => x.to_val(),
        }
    }
}

impl Fld for Outcome {
    fn from_val(v: &Val) -> Self {
        match code_of(v) {
            0x24 => Outcome::Accepted(Fld::from_val(v)),
            0x25 => Outcome::Rejected(Fld::from_val(v)),
            0x26 => Outcome::Released(Fld::from_val(v)),
            _ => Outcome::Modified(Fld::from_val(v)),
        }
    }
    fn to_val(&self) -> Result<Val, String> {
        match self {
            Outcome::Accepted(x) => x.to_val(),
            Outcome::Rejected(x) => x.to_val(),
            Outcome::Released(x) => x.to_val(),
            Outcome::Modified(x) => x.to_val(),
        }
    }
}

/// Frame (AMQP) from a normalized performative and a payload.
pub fn frame(v: &Val, payload: &[u8]) -> Frame {
    match code_of(v) {
        0x10 => Frame::Open(Fld::from_val(v)),
        0x11 => Frame::Begin(Fld::from_val(v)),
        0x12 => Frame::Attach(Fld::from_val(v)),
        0x13 => Frame::Flow(Fld::from_val(v)),
        0x14 => {
            let mut t = Transfer::from_val(v);
            if !payload.is_empty() {
                t.0.body = Some(TransferBody::Data(Bytes::from(payload.to_vec())));
            }
            Frame::Transfer(t)
        }
        0x15 => Frame::Disposition(Fld::from_val(v)),
        0x16 => Frame::Detach(Fld::from_val(v)),
        0x17 => Frame::End(Fld::from_val(v)),
        0x18 => Frame::Close(Fld::from_val(v)),
        c => panic!("frame code {c}"),
    }
}

pub fn frame_val(f: &Frame) -> Result<(Val, Vec<u8>), String> {
    Ok((
        match f {
            Frame::Open(x) => x.to_val()?,
            Frame::Begin(x) => x.to_val()?,
            Frame::Attach(x) => x.to_val()?,
            Frame::Flow(x) => x.to_val()?,
            Frame::Transfer(x) => {
                let p = match &x.0.body {
                    None => vec![],
                    Some(TransferBody::Data(b)) => b.to_vec(),
                    Some(TransferBody::Message(m)) => lib_bytes(m),
                };
                return Ok((x.to_val()?, p));
            }
            Frame::Disposition(x) => x.to_val()?,
            Frame::Detach(x) => x.to_val()?,
            Frame::End(x) => x.to_val()?,
            Frame::Close(x) => x.to_val()?,
            Frame::Empty => Val::Null,
        },
        vec![],
    ))
}

pub fn sasl_frame(v: &Val) -> SaslFrameBody {
    match code_of(v) {
        0x40 => SaslFrameBody::SaslMechanisms(Fld::from_val(v)),
        0x41 => SaslFrameBody::SaslInit(Fld::from_val(v)),
        0x42 => SaslFrameBody::SaslChallenge(Fld::from_val(v)),
        0x43 => SaslFrameBody::SaslResponse(Fld::from_val(v)),
        _ => SaslFrameBody::SaslOutcome(Fld::from_val(v)),
    }
}

pub fn sasl_val(f: &SaslFrameBody) -> Result<Val, String> {
    match f {
        SaslFrameBody::SaslMechanisms(x) => x.to_val(),
        SaslFrameBody::SaslInit(x) => x.to_val(),
        SaslFrameBody::SaslChallenge(x) => x.to_val(),
        SaslFrameBody::SaslResponse(x) => x.to_val(),
        SaslFrameBody::SaslOutcome(x) => x.to_val(),
    }
}
