//! Independent AMQP 1.0 type codec, written from the specification (part 1).
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Val {
    Null,
    Bool(bool),
    Ubyte(u8),
    Ushort(u16),
    Uint(u32),
    Ulong(u64),
    Byte(i8),
    Short(i16),
    Int(i32),
    Long(i64),
    /// bits
    Float(u32),
    Double(u64),
    Dec32([u8; 4]),
    Dec64([u8; 8]),
    Dec128([u8; 16]),
    Char(char),
    Ts(i64),
    Uuid([u8; 16]),
    Bin(Vec<u8>),
    Str(String),
    Sym(String),
    List(Vec<Val>),
    Map(Vec<(Val, Val)>),
    /// descriptor of the element constructor, elements (all of one type)
    Array(Option<Box<Val>>, ElemTy, Vec<Val>),
    Desc(Box<Val>, Box<Val>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum ElemTy {
    Null,
    Bool,
    Ubyte,
    Ushort,
    Uint,
    Ulong,
    Byte,
    Short,
    Int,
    Long,
    Float,
    Double,
    Dec32,
    Dec64,
    Dec128,
    Char,
    Ts,
    Uuid,
    Bin,
    Str,
    Sym,
    List,
    Map,
    Array,
}

pub const ALL_ELEM: [ElemTy; 24] = [
    ElemTy::Null,
    ElemTy::Bool,
    ElemTy::Ubyte,
    ElemTy::Ushort,
    ElemTy::Uint,
    ElemTy::Ulong,
    ElemTy::Byte,
    ElemTy::Short,
    ElemTy::Int,
    ElemTy::Long,
    ElemTy::Float,
    ElemTy::Double,
    ElemTy::Dec32,
    ElemTy::Dec64,
    ElemTy::Dec128,
    ElemTy::Char,
    ElemTy::Ts,
    ElemTy::Uuid,
    ElemTy::Bin,
    ElemTy::Str,
    ElemTy::Sym,
    ElemTy::List,
    ElemTy::Map,
    ElemTy::Array,
];

impl Val {
    pub fn sym(s: &str) -> Val {
        Val::Sym(s.to_string())
    }
    pub fn str(s: &str) -> Val {
        Val::Str(s.to_string())
    }
    pub fn ty(&self) -> Option<ElemTy> {
        use ElemTy as E;
        Some(match self {
            Val::Null => E::Null,
            Val::Bool(_) => E::Bool,
            Val::Ubyte(_) => E::Ubyte,
            Val::Ushort(_) => E::Ushort,
            Val::Uint(_) => E::Uint,
            Val::Ulong(_) => E::Ulong,
            Val::Byte(_) => E::Byte,
            Val::Short(_) => E::Short,
            Val::Int(_) => E::Int,
            Val::Long(_) => E::Long,
            Val::Float(_) => E::Float,
            Val::Double(_) => E::Double,
            Val::Dec32(_) => E::Dec32,
            Val::Dec64(_) => E::Dec64,
            Val::Dec128(_) => E::Dec128,
            Val::Char(_) => E::Char,
            Val::Ts(_) => E::Ts,
            Val::Uuid(_) => E::Uuid,
            Val::Bin(_) => E::Bin,
            Val::Str(_) => E::Str,
            Val::Sym(_) => E::Sym,
            Val::List(_) => E::List,
            Val::Map(_) => E::Map,
            Val::Array(..) => E::Array,
            Val::Desc(..) => return None,
        })
    }

    /// Order of map entries is not significant to the library's hash maps.
    pub fn normalized(&self) -> Val {
        match self {
            Val::List(l) => Val::List(l.iter().map(Val::normalized).collect()),
            Val::Map(m) => {
                let mut m: Vec<_> =
                    m.iter().map(|(k, v)| (k.normalized(), v.normalized())).collect();
                m.sort();
                Val::Map(m)
            }
            Val::Array(d, t, e) => {
                Val::Array(d.clone(), *t, e.iter().map(Val::normalized).collect())
            }
            Val::Desc(d, v) => Val::Desc(d.clone(), Box::new(v.normalized())),
            v => v.clone(),
        }
    }

    pub fn depth(&self) -> usize {
        match self {
            Val::List(l) => 1 + l.iter().map(Val::depth).max().unwrap_or(0),
            Val::Map(m) => 1 + m.iter().map(|(k, v)| k.depth().max(v.depth())).max().unwrap_or(0),
            Val::Array(_, _, l) => 1 + l.iter().map(Val::depth).max().unwrap_or(0),
            Val::Desc(_, v) => 1 + v.depth(),
            _ => 0,
        }
    }

    pub fn nodes(&self) -> usize {
        match self {
            Val::List(l) => 1 + l.iter().map(Val::nodes).sum::<usize>(),
            Val::Map(m) => 1 + m.iter().map(|(k, v)| k.nodes() + v.nodes()).sum::<usize>(),
            Val::Array(_, _, l) => 1 + l.iter().map(Val::nodes).sum::<usize>(),
            Val::Desc(_, v) => 1 + v.nodes(),
            _ => 1,
        }
    }
}

// ------------------------------------------------------------------ encoding

/// Source of encoding choices; 0 everywhere = most compact.
pub struct Ch<'a> {
    data: &'a [u8],
    pos: usize,
    pub used_alt: usize,
}

impl<'a> Ch<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Ch { data, pos: 0, used_alt: 0 }
    }
    pub fn pick(&mut self, n: usize) -> usize {
        if n <= 1 || self.data.is_empty() {
            return 0;
        }
        let b = self.data[self.pos % self.data.len()] as usize;
        self.pos += 1;
        let r = b % n;
        if r != 0 {
            self.used_alt += 1;
        }
        r
    }
}

pub fn canonical(v: &Val) -> Vec<u8> {
    let mut out = Vec::new();
    enc(v, &mut Ch::new(&[]), &mut out);
    out
}

pub fn enc(v: &Val, ch: &mut Ch, out: &mut Vec<u8>) {
    if let Val::Desc(d, v) = v {
        out.push(0);
        enc(d, ch, out);
        enc(v, ch, out);
        return;
    }
    let codes = codes_for(std::slice::from_ref(v), v.ty().unwrap(), false);
    let code = codes[ch.pick(codes.len())];
    match v {
        Val::List(_) | Val::Map(_) | Val::Array(..) => {
            let mut data = Vec::new();
            // the 8 bit form may turn out too small
            enc_data(v, code, ch, &mut data, out);
        }
        _ => {
            out.push(code);
            enc_scalar(v, code, out);
        }
    }
}

fn enc_data(v: &Val, code: u8, ch: &mut Ch, body: &mut Vec<u8>, out: &mut Vec<u8>) {
    let count = body_of(v, ch, body);
    put_compound(code, count, body, out, true);
}

/// Encodes the contents of a compound / array value (no size, no count).
fn body_of(v: &Val, ch: &mut Ch, body: &mut Vec<u8>) -> usize {
    match v {
        Val::List(l) => {
            for x in l {
                enc(x, ch, body);
            }
            l.len()
        }
        Val::Map(m) => {
            for (k, x) in m {
                enc(k, ch, body);
                enc(x, ch, body);
            }
            m.len() * 2
        }
        Val::Array(d, ty, l) => {
            if let Some(d) = d {
                body.push(0);
                enc(d, ch, body);
            }
            enc_elems(*ty, l, ch, body);
            l.len()
        }
        _ => unreachable!(),
    }
}

fn enc_elems(ty: ElemTy, l: &[Val], ch: &mut Ch, out: &mut Vec<u8>) {
    let codes = codes_for(l, ty, true);
    let mut code = codes[ch.pick(codes.len())];
    match ty {
        ElemTy::List | ElemTy::Map | ElemTy::Array => {
            let mut bodies = Vec::new();
            for x in l {
                let mut b = Vec::new();
                let c = body_of(x, ch, &mut b);
                bodies.push((c, b));
            }
            if code == 0xc0 || code == 0xc1 || code == 0xe0 {
                if bodies.iter().any(|(c, b)| *c > 255 || b.len() + 1 > 255) {
                    code |= 0x10;
                }
            }
            out.push(code);
            for (c, b) in &bodies {
                put_compound(code, *c, b, out, false);
            }
        }
        _ => {
            out.push(code);
            for x in l {
                enc_scalar(x, code, out);
            }
        }
    }
}

fn put_compound(code: u8, count: usize, body: &[u8], out: &mut Vec<u8>, with_code: bool) {
    let mut code = code;
    if code == 0x45 {
        if with_code {
            out.push(code);
        }
        return;
    }
    if code & 0xf0 != 0xd0 && code != 0xf0 && (count > 255 || body.len() + 1 > 255) {
        assert!(with_code);
        code |= 0x10;
    }
    if with_code {
        out.push(code);
    }
    if code & 0xf0 == 0xd0 || code == 0xf0 {
        out.extend_from_slice(&((body.len() + 4) as u32).to_be_bytes());
        out.extend_from_slice(&(count as u32).to_be_bytes());
    } else {
        out.push((body.len() + 1) as u8);
        out.push(count as u8);
    }
    out.extend_from_slice(body);
}

/// Legal format codes able to carry all of `vs`.
fn codes_for(vs: &[Val], ty: ElemTy, in_array: bool) -> Vec<u8> {
    use ElemTy as E;
    let all = |f: &dyn Fn(&Val) -> bool| vs.iter().all(f);
    let mut c: Vec<u8> = Vec::new();
    match ty {
        E::Null => c.push(0x40),
        E::Bool => {
            if !in_array || !vs.is_empty() {
                if all(&|v| matches!(v, Val::Bool(true))) {
                    c.push(0x41);
                }
                if all(&|v| matches!(v, Val::Bool(false))) && !c.contains(&0x41) {
                    c.push(0x42);
                }
            }
            if in_array {
                c.insert(0, 0x56);
            } else {
                c.push(0x56);
            }
        }
        E::Ubyte => c.push(0x50),
        E::Ushort => c.push(0x60),
        E::Uint => {
            if all(&|v| matches!(v, Val::Uint(0))) {
                c.push(0x43);
            }
            if all(&|v| matches!(v, Val::Uint(x) if *x < 256)) {
                c.push(0x52);
            }
            c.push(0x70);
        }
        E::Ulong => {
            if all(&|v| matches!(v, Val::Ulong(0))) {
                c.push(0x44);
            }
            if all(&|v| matches!(v, Val::Ulong(x) if *x < 256)) {
                c.push(0x53);
            }
            c.push(0x80);
        }
        E::Byte => c.push(0x51),
        E::Short => c.push(0x61),
        E::Int => {
            if all(&|v| matches!(v, Val::Int(x) if (-128..=127).contains(x))) {
                c.push(0x54);
            }
            c.push(0x71);
        }
        E::Long => {
            if all(&|v| matches!(v, Val::Long(x) if (-128..=127).contains(x))) {
                c.push(0x55);
            }
            c.push(0x81);
        }
        E::Float => c.push(0x72),
        E::Double => c.push(0x82),
        E::Dec32 => c.push(0x74),
        E::Dec64 => c.push(0x84),
        E::Dec128 => c.push(0x94),
        E::Char => c.push(0x73),
        E::Ts => c.push(0x83),
        E::Uuid => c.push(0x98),
        E::Bin => {
            if all(&|v| matches!(v, Val::Bin(x) if x.len() < 256)) {
                c.push(0xa0);
            }
            c.push(0xb0);
        }
        E::Str => {
            if all(&|v| matches!(v, Val::Str(x) if x.len() < 256)) {
                c.push(0xa1);
            }
            c.push(0xb1);
        }
        E::Sym => {
            if all(&|v| matches!(v, Val::Sym(x) if x.len() < 256)) {
                c.push(0xa3);
            }
            c.push(0xb3);
        }
        E::List => {
            if all(&|v| matches!(v, Val::List(x) if x.is_empty())) {
                c.push(0x45);
            }
            c.push(0xc0);
            c.push(0xd0);
        }
        E::Map => {
            c.push(0xc1);
            c.push(0xd1);
        }
        E::Array => {
            c.push(0xe0);
            c.push(0xf0);
        }
    }
    c
}

fn enc_scalar(v: &Val, code: u8, out: &mut Vec<u8>) {
    match (v, code) {
        (Val::Null, _) => {}
        (Val::Bool(b), 0x56) => out.push(*b as u8),
        (Val::Bool(_), _) => {}
        (Val::Ubyte(x), _) => out.push(*x),
        (Val::Ushort(x), _) => out.extend_from_slice(&x.to_be_bytes()),
        (Val::Uint(_), 0x43) | (Val::Ulong(_), 0x44) => {}
        (Val::Uint(x), 0x52) => out.push(*x as u8),
        (Val::Uint(x), _) => out.extend_from_slice(&x.to_be_bytes()),
        (Val::Ulong(x), 0x53) => out.push(*x as u8),
        (Val::Ulong(x), _) => out.extend_from_slice(&x.to_be_bytes()),
        (Val::Byte(x), _) => out.push(*x as u8),
        (Val::Short(x), _) => out.extend_from_slice(&x.to_be_bytes()),
        (Val::Int(x), 0x54) => out.push(*x as i8 as u8),
        (Val::Int(x), _) => out.extend_from_slice(&x.to_be_bytes()),
        (Val::Long(x), 0x55) => out.push(*x as i8 as u8),
        (Val::Long(x), _) => out.extend_from_slice(&x.to_be_bytes()),
        (Val::Float(x), _) => out.extend_from_slice(&x.to_be_bytes()),
        (Val::Double(x), _) => out.extend_from_slice(&x.to_be_bytes()),
        (Val::Dec32(x), _) => out.extend_from_slice(x),
        (Val::Dec64(x), _) => out.extend_from_slice(x),
        (Val::Dec128(x), _) => out.extend_from_slice(x),
        (Val::Char(x), _) => out.extend_from_slice(&(*x as u32).to_be_bytes()),
        (Val::Ts(x), _) => out.extend_from_slice(&x.to_be_bytes()),
        (Val::Uuid(x), _) => out.extend_from_slice(x),
        (Val::Bin(x), c) => var(x, c, out),
        (Val::Str(x), c) | (Val::Sym(x), c) => var(x.as_bytes(), c, out),
        _ => unreachable!("{v:?} {code}"),
    }
}

fn var(b: &[u8], code: u8, out: &mut Vec<u8>) {
    if code & 0xf0 == 0xa0 {
        out.push(b.len() as u8);
    } else {
        out.extend_from_slice(&(b.len() as u32).to_be_bytes());
    }
    out.extend_from_slice(b);
}

// ------------------------------------------------------------------ strict decoding

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DErr {
    /// input ends before the value does
    Short,
    Bad(&'static str),
}

type R<T> = Result<T, DErr>;

fn take<'a>(b: &mut &'a [u8], n: usize) -> R<&'a [u8]> {
    if b.len() < n {
        return Err(DErr::Short);
    }
    let (x, r) = b.split_at(n);
    *b = r;
    Ok(x)
}
fn u8_(b: &mut &[u8]) -> R<u8> {
    Ok(take(b, 1)?[0])
}
fn u32_(b: &mut &[u8]) -> R<u32> {
    Ok(u32::from_be_bytes(take(b, 4)?.try_into().unwrap()))
}

/// Decodes one value; the rest of the input is returned.
pub fn dec<'a>(input: &'a [u8]) -> R<(Val, &'a [u8])> {
    let mut b = input;
    let v = dec_val(&mut b, 0)?;
    Ok((v, b))
}

/// Decodes exactly one value.
pub fn dec_all(input: &[u8]) -> R<Val> {
    let (v, r) = dec(input)?;
    if r.is_empty() { Ok(v) } else { Err(DErr::Bad("trailing bytes")) }
}

thread_local! {
    static RAW: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Like `dec_all`, without looking into arrays and described compound values, and with any
/// non-zero boolean byte for true.
pub fn dec_all_raw(input: &[u8]) -> R<Val> {
    raw(|| dec_all(input))
}

pub fn raw<T>(f: impl FnOnce() -> T) -> T {
    RAW.set(true);
    let r = f();
    RAW.set(false);
    r
}

pub const MAX_DEPTH: usize = 2000;

fn dec_val(b: &mut &[u8], depth: usize) -> R<Val> {
    if depth > MAX_DEPTH {
        return Err(DErr::Bad("depth"));
    }
    let code = u8_(b)?;
    if code == 0 {
        let d = dec_val(b, depth + 1)?;
        if RAW.get() && depth > 0 && matches!(b.first(), Some(0xc0 | 0xd0 | 0xc1 | 0xd1 | 0xe0 | 0xf0)) {
            let n = if u8_(b)? & 0x10 == 0 { u8_(b)? as usize } else { u32_(b)? as usize };
            take(b, n)?;
            return Ok(Val::Desc(Box::new(d), Box::new(Val::Null)));
        }
        let v = dec_val(b, depth + 1)?;
        return Ok(Val::Desc(Box::new(d), Box::new(v)));
    }
    dec_code(b, code, depth)
}

pub fn elem_ty(code: u8) -> Option<ElemTy> {
    use ElemTy as E;
    Some(match code {
        0x40 => E::Null,
        0x41 | 0x42 | 0x56 => E::Bool,
        0x50 => E::Ubyte,
        0x60 => E::Ushort,
        0x70 | 0x52 | 0x43 => E::Uint,
        0x80 | 0x53 | 0x44 => E::Ulong,
        0x51 => E::Byte,
        0x61 => E::Short,
        0x71 | 0x54 => E::Int,
        0x81 | 0x55 => E::Long,
        0x72 => E::Float,
        0x82 => E::Double,
        0x74 => E::Dec32,
        0x84 => E::Dec64,
        0x94 => E::Dec128,
        0x73 => E::Char,
        0x83 => E::Ts,
        0x98 => E::Uuid,
        0xa0 | 0xb0 => E::Bin,
        0xa1 | 0xb1 => E::Str,
        0xa3 | 0xb3 => E::Sym,
        0x45 | 0xc0 | 0xd0 => E::List,
        0xc1 | 0xd1 => E::Map,
        0xe0 | 0xf0 => E::Array,
        _ => return None,
    })
}

fn dec_code(b: &mut &[u8], code: u8, depth: usize) -> R<Val> {
    let utf = |x: &[u8]| -> R<String> {
        std::str::from_utf8(x).map(|s| s.to_string()).map_err(|_| DErr::Bad("utf8"))
    };
    macro_rules! be {
        ($t:ty) => {
            <$t>::from_be_bytes(take(b, std::mem::size_of::<$t>())?.try_into().unwrap())
        };
    }
    Ok(match code {
        0x40 => Val::Null,
        0x41 => Val::Bool(true),
        0x42 => Val::Bool(false),
        0x56 => match u8_(b)? {
            0 => Val::Bool(false),
            1 => Val::Bool(true),
            _ if RAW.get() => Val::Bool(true),
            _ => return Err(DErr::Bad("boolean byte")),
        },
        0x50 => Val::Ubyte(u8_(b)?),
        0x60 => Val::Ushort(be!(u16)),
        0x70 => Val::Uint(be!(u32)),
        0x52 => Val::Uint(u8_(b)? as u32),
        0x43 => Val::Uint(0),
        0x80 => Val::Ulong(be!(u64)),
        0x53 => Val::Ulong(u8_(b)? as u64),
        0x44 => Val::Ulong(0),
        0x51 => Val::Byte(u8_(b)? as i8),
        0x61 => Val::Short(be!(i16)),
        0x71 => Val::Int(be!(i32)),
        0x54 => Val::Int(u8_(b)? as i8 as i32),
        0x81 => Val::Long(be!(i64)),
        0x55 => Val::Long(u8_(b)? as i8 as i64),
        0x72 => Val::Float(be!(u32)),
        0x82 => Val::Double(be!(u64)),
        0x74 => Val::Dec32(take(b, 4)?.try_into().unwrap()),
        0x84 => Val::Dec64(take(b, 8)?.try_into().unwrap()),
        0x94 => Val::Dec128(take(b, 16)?.try_into().unwrap()),
        0x73 => Val::Char(char::from_u32(be!(u32)).ok_or(DErr::Bad("char"))?),
        0x83 => Val::Ts(be!(i64)),
        0x98 => Val::Uuid(take(b, 16)?.try_into().unwrap()),
        0xa0 | 0xa1 | 0xa3 | 0xb0 | 0xb1 | 0xb3 => {
            let n = if code & 0xf0 == 0xa0 { u8_(b)? as usize } else { u32_(b)? as usize };
            let x = take(b, n)?;
            match code & 0xf {
                0 => Val::Bin(x.to_vec()),
                1 => Val::Str(utf(x)?),
                _ => Val::Sym(utf(x)?),
            }
        }
        0x45 => Val::List(vec![]),
        0xc0 | 0xd0 | 0xc1 | 0xd1 | 0xe0 | 0xf0 => {
            let wide = code & 0xf0 == 0xd0 || code == 0xf0;
            let size = if wide { u32_(b)? as usize } else { u8_(b)? as usize };
            let mut body = take(b, size)?;
            let short = |e: DErr| match e {
                DErr::Short => DErr::Bad("content exceeds the declared size"),
                e => e,
            };
            let count = if wide { u32_(&mut body) } else { u8_(&mut body).map(u32::from) }
                .map_err(short)? as usize;
            match code & 0xf {
                0 if code < 0xe0 => {
                    let mut l = Vec::new();
                    for _ in 0..count {
                        l.push(dec_val(&mut body, depth + 1).map_err(short)?);
                    }
                    if !body.is_empty() {
                        return Err(DErr::Bad("list longer than its content"));
                    }
                    Val::List(l)
                }
                1 => {
                    if count % 2 != 0 {
                        return Err(DErr::Bad("odd map count"));
                    }
                    let mut l = Vec::new();
                    for _ in 0..count / 2 {
                        let k = dec_val(&mut body, depth + 1).map_err(short)?;
                        let v = dec_val(&mut body, depth + 1).map_err(short)?;
                        l.push((k, v));
                    }
                    if !body.is_empty() {
                        return Err(DErr::Bad("map longer than its content"));
                    }
                    Val::Map(l)
                }
                _ if RAW.get() && depth > 0 => Val::Null,
                _ => {
                    let mut c = u8_(&mut body).map_err(short)?;
                    let mut d = None;
                    if c == 0 {
                        d = Some(Box::new(dec_val(&mut body, depth + 1).map_err(short)?));
                        c = u8_(&mut body).map_err(short)?;
                    }
                    let ty = elem_ty(c).ok_or(DErr::Bad(if count == 0 {
                        "element code of an empty array"
                    } else {
                        "array element code"
                    }))?;
                    let mut l = Vec::new();
                    if count > 65_535 && matches!(c, 0x40..=0x45) {
                        return Err(DErr::Bad("huge array of empty elements"));
                    }
                    for _ in 0..count {
                        l.push(dec_code(&mut body, c, depth + 1).map_err(short)?);
                    }
                    if !body.is_empty() {
                        return Err(DErr::Bad("array longer than its content"));
                    }
                    Val::Array(d, ty, l)
                }
            }
        }
        _ => return Err(DErr::Bad("format code")),
    })
}
