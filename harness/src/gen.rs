//! Generators of primitive and compound AMQP values.
use proptest::collection::vec;
use proptest::prelude::*;

use crate::conv::{TS_MAX, TS_MIN};
use crate::refcodec::{ALL_ELEM, ElemTy, Val};

pub fn edge_u16() -> BoxedStrategy<u16> {
    prop_oneof![
        Just(0u16),
        Just(1),
        Just(255),
        Just(256),
        Just(u16::MAX),
        any::<u16>()
    ]
    .boxed()
}
pub fn edge_u32() -> BoxedStrategy<u32> {
    prop_oneof![
        Just(0u32),
        Just(1),
        0u32..10,
        Just(127),
        Just(128),
        Just(255),
        Just(256),
        Just(65535),
        Just(65536),
        Just(i32::MAX as u32),
        Just(1 << 31),
        Just(u32::MAX - 1),
        Just(u32::MAX),
        any::<u32>()
    ]
    .boxed()
}
pub fn edge_u64() -> BoxedStrategy<u64> {
    prop_oneof![
        Just(0u64),
        0u64..10,
        Just(127),
        Just(128),
        Just(255),
        Just(256),
        Just(u32::MAX as u64),
        Just(1 << 32),
        Just(1 << 63),
        Just(u64::MAX),
        any::<u64>()
    ]
    .boxed()
}
pub fn edge_i32() -> BoxedStrategy<i32> {
    prop_oneof![
        Just(0),
        Just(-1),
        Just(127),
        Just(128),
        Just(-128),
        Just(-129),
        Just(255),
        Just(256),
        Just(i32::MIN),
        Just(i32::MAX),
        any::<i32>()
    ]
    .boxed()
}
pub fn edge_i64() -> BoxedStrategy<i64> {
    prop_oneof![
        Just(0i64),
        Just(-1),
        Just(127),
        Just(128),
        Just(-128),
        Just(-129),
        Just(255),
        Just(i32::MAX as i64 + 1),
        Just(i64::MIN),
        Just(i64::MAX),
        any::<i64>()
    ]
    .boxed()
}

/// lengths around the encoding and inline-storage boundaries
fn len() -> BoxedStrategy<usize> {
    prop_oneof![
        10 => 0usize..6,
        4 => 6usize..40,
        1 => 250usize..260,
        1 => Just(255usize),
        1 => Just(256usize),
        1 => 300usize..700,
    ]
    .boxed()
}

pub fn string() -> BoxedStrategy<String> {
    prop_oneof![
        8 => len().prop_flat_map(|n| vec(0x20u8..0x7f, n)).prop_map(|v| String::from_utf8(v).unwrap()),
        2 => vec(any::<char>(), 0..6).prop_map(|v| v.into_iter().collect()),
        // multi-byte characters right at the 8 bit length boundary
        1 => (83usize..88).prop_map(|n| "\u{20ac}".repeat(n)),
        1 => (120usize..135).prop_map(|n| "\u{e9}".repeat(n)),
    ]
    .boxed()
}
pub fn symbol() -> BoxedStrategy<String> {
    len().prop_flat_map(|n| vec(0x20u8..0x7f, n)).prop_map(|v| String::from_utf8(v).unwrap()).boxed()
}
pub fn binary() -> BoxedStrategy<Vec<u8>> {
    len().prop_flat_map(|n| vec(any::<u8>(), n)).boxed()
}
pub fn timestamp() -> BoxedStrategy<i64> {
    prop_oneof![
        Just(0i64),
        -1500i64..1500,
        (-5i64..5).prop_map(|x| x * 1000),
        (-100_000i64..100_000).prop_map(|x| x * 1000),
        any::<i32>().prop_map(|x| x as i64),
        (-4_000_000_000_000i64..4_000_000_000_000),
        TS_MIN..=TS_MAX,
        Just(TS_MIN),
        Just(TS_MAX),
    ]
    .boxed()
}

pub fn scalar(ty: ElemTy) -> BoxedStrategy<Val> {
    use ElemTy as E;
    match ty {
        E::Null => Just(Val::Null).boxed(),
        E::Bool => any::<bool>().prop_map(Val::Bool).boxed(),
        E::Ubyte => any::<u8>().prop_map(Val::Ubyte).boxed(),
        E::Ushort => edge_u16().prop_map(Val::Ushort).boxed(),
        E::Uint => edge_u32().prop_map(Val::Uint).boxed(),
        E::Ulong => edge_u64().prop_map(Val::Ulong).boxed(),
        E::Byte => any::<i8>().prop_map(Val::Byte).boxed(),
        E::Short => any::<i16>().prop_map(Val::Short).boxed(),
        E::Int => edge_i32().prop_map(Val::Int).boxed(),
        E::Long => edge_i64().prop_map(Val::Long).boxed(),
        E::Float => prop_oneof![any::<f32>().prop_map(|f| f.to_bits()), any::<u32>()]
            .prop_map(Val::Float)
            .boxed(),
        E::Double => prop_oneof![any::<f64>().prop_map(|f| f.to_bits()), any::<u64>()]
            .prop_map(Val::Double)
            .boxed(),
        E::Dec32 => any::<[u8; 4]>().prop_map(Val::Dec32).boxed(),
        E::Dec64 => any::<[u8; 8]>().prop_map(Val::Dec64).boxed(),
        E::Dec128 => any::<[u8; 16]>().prop_map(Val::Dec128).boxed(),
        E::Char => any::<char>().prop_map(Val::Char).boxed(),
        E::Ts => timestamp().prop_map(Val::Ts).boxed(),
        E::Uuid => any::<[u8; 16]>().prop_map(Val::Uuid).boxed(),
        E::Bin => binary().prop_map(Val::Bin).boxed(),
        E::Str => string().prop_map(Val::Str).boxed(),
        E::Sym => symbol().prop_map(Val::Sym).boxed(),
        _ => unreachable!(),
    }
}

const SCALARS: usize = 21;

pub fn any_scalar() -> BoxedStrategy<Val> {
    (0..SCALARS).prop_flat_map(|i| scalar(ALL_ELEM[i])).boxed()
}

pub fn descriptor() -> BoxedStrategy<Val> {
    prop_oneof![
        edge_u64().prop_map(Val::Ulong),
        symbol().prop_map(Val::Sym),
        "[a-z]{1,6}:[a-z]{1,6}".prop_map(Val::Sym)
    ]
    .boxed()
}

/// Keys must differ in the library's sense (its floats treat 0.0 and -0.0, and all NaN, as equal).
pub fn dedup_map(m: Vec<(Val, Val)>) -> Val {
    fn key(v: &Val) -> Val {
        match v {
            Val::Float(b) => {
                let f = f32::from_bits(*b);
                Val::Float(if f == 0.0 { 0 } else if f.is_nan() { f32::NAN.to_bits() } else { *b })
            }
            Val::Double(b) => {
                let f = f64::from_bits(*b);
                Val::Double(if f == 0.0 { 0 } else if f.is_nan() { f64::NAN.to_bits() } else { *b })
            }
            Val::List(l) => Val::List(l.iter().map(key).collect()),
            Val::Map(m) => {
                let mut m: Vec<_> = m.iter().map(|(k, v)| (key(k), key(v))).collect();
                m.sort();
                Val::Map(m)
            }
            Val::Array(d, t, l) => Val::Array(d.clone(), *t, l.iter().map(key).collect()),
            Val::Desc(d, v) => Val::Desc(d.clone(), Box::new(key(v))),
            v => v.clone(),
        }
    }
    let mut seen = std::collections::HashSet::new();
    Val::Map(m.into_iter().filter(|(k, _)| seen.insert(key(k))).collect())
}

pub fn sym_map(depth: u32, n: usize) -> BoxedStrategy<Val> {
    vec((symbol().prop_map(Val::Sym), val(depth, 6)), 0..n).prop_map(dedup_map).boxed()
}
pub fn str_map(depth: u32, n: usize) -> BoxedStrategy<Val> {
    vec((string().prop_map(Val::Str), val(depth, 6)), 0..n).prop_map(dedup_map).boxed()
}

fn array_of(inner: BoxedStrategy<Val>) -> BoxedStrategy<Val> {
    // elements of one type; compound elements are picked out of generated values
    let scal = (0..SCALARS, prop_oneof![8 => 0usize..6, 1 => 250usize..300])
        .prop_flat_map(|(i, n)| {
            let n = if i >= 18 { n.min(12) } else { n };
            (Just(i), vec(scalar(ALL_ELEM[i]), n))
        })
        .prop_map(|(i, l)| (ALL_ELEM[i], l));
    let comp = (0usize..3, vec(vec(inner, 0..4), 0..4)).prop_map(|(k, ls)| {
        let ty = [ElemTy::List, ElemTy::Map, ElemTy::Array][k];
        let l = ls
            .into_iter()
            .map(|l| match ty {
                ElemTy::List => Val::List(l),
                ElemTy::Map => {
                    let mut it = l.into_iter();
                    let mut m = Vec::new();
                    while let (Some(k), Some(v)) = (it.next(), it.next()) {
                        m.push((k, v));
                    }
                    dedup_map(m)
                }
                _ => {
                    let ty = l.first().and_then(|v| v.ty()).unwrap_or(ElemTy::Uint);
                    let l = l.into_iter().filter(|v| v.ty() == Some(ty)).collect();
                    Val::Array(None, ty, l)
                }
            })
            .collect();
        (ty, l)
    });
    (prop_oneof![3 => scal, 1 => comp], prop_oneof![4 => Just(None), 1 => descriptor().prop_map(Some)])
        .prop_map(|((ty, l), d)| Val::Array(d.map(Box::new), ty, l))
        .boxed()
}

pub fn val(depth: u32, size: u32) -> BoxedStrategy<Val> {
    any_scalar()
        .prop_recursive(depth, size, 6, |inner| {
            prop_oneof![
                3 => vec(inner.clone(), 0..6).prop_map(Val::List),
                2 => vec((inner.clone(), inner.clone()), 0..5).prop_map(dedup_map),
                2 => array_of(inner.clone()),
                2 => (descriptor(), inner).prop_map(|(d, v)| Val::Desc(Box::new(d), Box::new(v))),
            ]
        })
        .boxed()
}

/// A value wrapped in `n` levels of nesting.
pub fn deep(max: usize) -> BoxedStrategy<Val> {
    (any_scalar(), vec(0u8..4, 1..max))
        .prop_map(|(v, w)| {
            w.into_iter().fold(v, |v, k| match k {
                0 => Val::List(vec![v]),
                1 => Val::Map(vec![(Val::Uint(1), v)]),
                2 => Val::Desc(Box::new(Val::Ulong(5)), Box::new(v)),
                _ => Val::List(vec![Val::Null, v, Val::Uint(7)]),
            })
        })
        .boxed()
}

/// Occasionally large lists / maps (32 bit forms by count and by size).
pub fn big() -> BoxedStrategy<Val> {
    prop_oneof![
        vec(any_scalar(), 100..400).prop_map(Val::List),
        (120usize..300).prop_map(|n| Val::Map((0..n as u32).map(|i| (Val::Uint(i), Val::Null)).collect())),
        (240usize..300).prop_map(|n| Val::List(vec![Val::Null; n])),
        (118usize..132).prop_map(|n| Val::List(vec![Val::Ubyte(1); n])),
        (0usize..21, 250usize..300).prop_flat_map(|(i, n)| vec(scalar(ALL_ELEM[i]), if i >= 18 { 30 } else { n }).prop_map(move |l| Val::Array(None, ALL_ELEM[i], l))),
        (30usize..70_000).prop_map(|n| Val::Bin(vec![7; n])),
    ]
    .boxed()
}

pub fn choices() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![1 => Just(vec![]), 8 => vec(any::<u8>(), 1..40)].boxed()
}
