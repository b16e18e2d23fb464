//! Raw AMQP peer: frame building with the reference codec, parsing of what the endpoint writes.
use crate::conv::mk;
use crate::refcodec::{self, Ch, ElemTy, Val};
use crate::schema;

pub const OPEN: u64 = 0x10;
pub const BEGIN: u64 = 0x11;
pub const ATTACH: u64 = 0x12;
pub const FLOW: u64 = 0x13;
pub const TRANSFER: u64 = 0x14;
pub const DISPOSITION: u64 = 0x15;
pub const DETACH: u64 = 0x16;
pub const END: u64 = 0x17;
pub const CLOSE: u64 = 0x18;
pub const EMPTY: u64 = 0;

pub const HDR_AMQP: [u8; 8] = *b"AMQP\x00\x01\x00\x00";
pub const HDR_SASL: [u8; 8] = *b"AMQP\x03\x01\x00\x00";

pub fn u(x: u32) -> Val {
    Val::Uint(x)
}
pub fn ou(x: Option<u32>) -> Val {
    x.map_or(Val::Null, Val::Uint)
}
pub fn b(x: bool) -> Val {
    Val::Bool(x)
}

/// One frame written by the endpoint, fields in normal form.
#[derive(Clone, Debug)]
pub struct WF {
    pub ftype: u8,
    pub ch: u16,
    pub code: u64,
    pub f: Vec<Val>,
    pub payload: Vec<u8>,
    pub size: usize,
}

impl WF {
    pub fn u32(&self, i: usize) -> Option<u32> {
        match self.f.get(i) {
            Some(Val::Uint(x)) => Some(*x),
            _ => None,
        }
    }
    pub fn u16(&self, i: usize) -> Option<u16> {
        match self.f.get(i) {
            Some(Val::Ushort(x)) => Some(*x),
            _ => None,
        }
    }
    pub fn u64(&self, i: usize) -> Option<u64> {
        match self.f.get(i) {
            Some(Val::Ulong(x)) => Some(*x),
            _ => None,
        }
    }
    pub fn bool(&self, i: usize) -> Option<bool> {
        match self.f.get(i) {
            Some(Val::Bool(x)) => Some(*x),
            _ => None,
        }
    }
    pub fn str(&self, i: usize) -> Option<&str> {
        match self.f.get(i) {
            Some(Val::Str(x)) => Some(x),
            _ => None,
        }
    }
    pub fn bin(&self, i: usize) -> Option<&[u8]> {
        match self.f.get(i) {
            Some(Val::Bin(x)) => Some(x),
            _ => None,
        }
    }
    /// condition of an error field
    pub fn cond(&self, i: usize) -> Option<String> {
        match self.f.get(i) {
            Some(v @ Val::Desc(..)) => match fields(v).first() {
                Some(Val::Sym(s)) => Some(s.clone()),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn name(&self) -> &'static str {
        match self.code {
            OPEN => "open",
            BEGIN => "begin",
            ATTACH => "attach",
            FLOW => "flow",
            TRANSFER => "transfer",
            DISPOSITION => "disposition",
            DETACH => "detach",
            END => "end",
            CLOSE => "close",
            EMPTY => "empty",
            _ => "?",
        }
    }
    pub fn brief(&self) -> String {
        let mut s = format!("ch{} {}", self.ch, self.name());
        for (i, v) in self.f.iter().enumerate() {
            match v {
                Val::Null => {}
                Val::Bool(false) => {}
                Val::Uint(x) => s.push_str(&format!(" {i}:{x}")),
                Val::Ushort(x) => s.push_str(&format!(" {i}:{x}")),
                Val::Ulong(x) => s.push_str(&format!(" {i}:{x}")),
                Val::Bool(x) => s.push_str(&format!(" {i}:{x}")),
                Val::Str(x) => s.push_str(&format!(" {i}:{x:?}")),
                Val::Bin(x) if x.len() < 8 => s.push_str(&format!(" {i}:{x:02x?}")),
                Val::Desc(..) => {
                    let t = format!("{:?}", fields(v));
                    s.push_str(&format!(" {i}:{}", t.chars().take(80).collect::<String>()));
                }
                _ => s.push_str(&format!(" {i}:..")),
            }
        }
        if !self.payload.is_empty() {
            s.push_str(&format!(" +{}B", self.payload.len()));
        }
        s
    }
}

pub fn fields(v: &Val) -> &[Val] {
    match v {
        Val::Desc(_, b) => match &**b {
            Val::List(l) => l,
            _ => &[],
        },
        _ => &[],
    }
}

#[derive(Clone, Debug)]
pub enum Item {
    Header([u8; 8]),
    Frame(WF),
}

/// Takes the next complete item at `pos`.
pub fn next_item(buf: &[u8], pos: &mut usize) -> Result<Option<Item>, String> {
    let rest = &buf[*pos..];
    if rest.len() < 8 {
        return Ok(None);
    }
    if &rest[..4] == b"AMQP" {
        let mut h = [0; 8];
        h.copy_from_slice(&rest[..8]);
        *pos += 8;
        return Ok(Some(Item::Header(h)));
    }
    let size = u32::from_be_bytes([rest[0], rest[1], rest[2], rest[3]]) as usize;
    if size < 8 {
        return Err(format!("frame size {size} written"));
    }
    if rest.len() < size {
        return Ok(None);
    }
    *pos += size;
    parse_frame(&rest[..size]).map(|f| Some(Item::Frame(f)))
}

pub fn parse_frame(raw: &[u8]) -> Result<WF, String> {
    let doff = raw[4] as usize * 4;
    let ftype = raw[5];
    let ch = u16::from_be_bytes([raw[6], raw[7]]);
    if doff < 8 || doff > raw.len() || ftype > 1 {
        return Err(format!("bad frame header {:02x?}", &raw[..8]));
    }
    let body = &raw[doff..];
    if body.is_empty() {
        return Ok(WF { ftype, ch, code: EMPTY, f: vec![], payload: vec![], size: raw.len() });
    }
    let (v, rest) = refcodec::dec(body).map_err(|e| format!("unreadable frame {raw:02x?}: {e:?}"))?;
    let v = schema::normalize(&v, if ftype == 0 { schema::FRAMES } else { schema::SASL_FRAMES })?;
    let code = crate::conv::code_of(&v);
    if code != TRANSFER && !rest.is_empty() {
        return Err(format!("{} bytes follow the performative {code:#x}", rest.len()));
    }
    Ok(WF { ftype, ch, code, f: fields(&v).to_vec(), payload: rest.to_vec(), size: raw.len() })
}

pub fn read_all(buf: &mut Vec<u8>) -> Result<Vec<Item>, String> {
    let mut out = vec![];
    let mut pos = 0;
    while let Some(i) = next_item(buf, &mut pos)? {
        out.push(i);
    }
    buf.drain(..pos);
    Ok(out)
}

/// Serializes performatives, canonically or with random legal encodings.
pub struct Enc {
    seed: u64,
    on: bool,
    /// values need not fit the schema
    pub loose: bool,
}

impl Enc {
    pub fn new(seed: u64) -> Enc {
        Enc { seed: seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1, on: seed != 0, loose: false }
    }
    pub fn frame(&mut self, ftype: u8, ch: u16, v: &Val, payload: &[u8]) -> Vec<u8> {
        if !self.on {
            return schema::frame_bytes(ftype, ch, &refcodec::canonical(v), payload);
        }
        let mut bytes = Vec::with_capacity(64);
        for _ in 0..8 {
            self.seed ^= self.seed << 13;
            self.seed ^= self.seed >> 7;
            self.seed ^= self.seed << 17;
            bytes.extend_from_slice(&self.seed.to_le_bytes());
        }
        let mut c = Ch::new(&bytes);
        let v = if self.loose && !schema::normalize(v, schema::FRAMES).is_ok_and(|n| n == *v) { v.clone() } else { schema::vary(v, &mut c) };
        let mut body = Vec::new();
        refcodec::enc(&v, &mut c, &mut body);
        schema::frame_bytes(ftype, ch, &body, payload)
    }
}

pub fn error(cond: &str, descr: Option<&str>) -> Val {
    mk(0x1d, vec![Val::sym(cond), descr.map_or(Val::Null, Val::str), Val::Null])
}

pub fn open(id: &str, host: Option<&str>, max_frame: u32, ch_max: u16, idle: Option<u32>) -> Val {
    mk(
        OPEN,
        vec![
            Val::str(id),
            host.map_or(Val::Null, Val::str),
            u(max_frame),
            Val::Ushort(ch_max),
            ou(idle),
            Val::Null,
            Val::Null,
            Val::Null,
            Val::Null,
            Val::Null,
        ],
    )
}

pub fn begin(remote: Option<u16>, next_out: u32, in_win: u32, out_win: u32) -> Val {
    mk(
        BEGIN,
        vec![
            remote.map_or(Val::Null, Val::Ushort),
            u(next_out),
            u(in_win),
            u(out_win),
            u(u32::MAX),
            Val::Null,
            Val::Null,
            Val::Null,
        ],
    )
}

pub fn source(addr: Option<&str>) -> Val {
    mk(
        0x28,
        vec![
            addr.map_or(Val::Null, Val::str),
            u(0),
            Val::sym("session-end"),
            u(0),
            b(false),
            Val::Null,
            Val::Null,
            Val::Null,
            Val::Null,
            Val::Null,
            Val::Null,
        ],
    )
}
pub fn target(addr: Option<&str>) -> Val {
    mk(
        0x29,
        vec![
            addr.map_or(Val::Null, Val::str),
            u(0),
            Val::sym("session-end"),
            u(0),
            b(false),
            Val::Null,
            Val::Null,
        ],
    )
}

/// `role`: true = receiver (of the writer)
pub fn attach(
    name: &str,
    handle: u32,
    receiver: bool,
    src: Option<Val>,
    tgt: Option<Val>,
    idc: Option<u32>,
    max: Option<u64>,
) -> Val {
    mk(
        ATTACH,
        vec![
            Val::str(name),
            u(handle),
            b(receiver),
            Val::Ubyte(2),
            Val::Ubyte(0),
            src.unwrap_or(Val::Null),
            tgt.unwrap_or(Val::Null),
            Val::Null,
            b(false),
            ou(idc),
            max.map_or(Val::Null, Val::Ulong),
            Val::Null,
            Val::Null,
            Val::Null,
        ],
    )
}

pub fn flow(
    nii: Option<u32>,
    iw: u32,
    noi: u32,
    ow: u32,
    link: Option<(u32, Option<u32>, Option<u32>)>,
    echo: bool,
) -> Val {
    let (h, dc, lc) = match link {
        Some((h, dc, lc)) => (Some(h), dc, lc),
        None => (None, None, None),
    };
    mk(
        FLOW,
        vec![
            ou(nii),
            u(iw),
            u(noi),
            u(ow),
            ou(h),
            ou(dc),
            ou(lc),
            Val::Null,
            b(false),
            b(echo),
            Val::Null,
        ],
    )
}

#[derive(Clone, Debug, Default)]
pub struct Xfer {
    pub handle: u32,
    pub id: Option<u32>,
    pub tag: Option<Vec<u8>>,
    pub fmt: Option<u32>,
    pub settled: Option<bool>,
    pub more: bool,
    pub state: Option<Val>,
    pub aborted: bool,
    pub payload: Vec<u8>,
}

pub fn transfer(x: &Xfer) -> Val {
    mk(
        TRANSFER,
        vec![
            u(x.handle),
            ou(x.id),
            x.tag.clone().map_or(Val::Null, Val::Bin),
            ou(x.fmt),
            x.settled.map_or(Val::Null, Val::Bool),
            b(x.more),
            Val::Null,
            x.state.clone().unwrap_or(Val::Null),
            b(false),
            b(x.aborted),
            b(false),
        ],
    )
}

pub fn disposition(
    receiver: bool,
    first: u32,
    last: Option<u32>,
    settled: bool,
    state: Option<Val>,
) -> Val {
    mk(
        DISPOSITION,
        vec![b(receiver), u(first), ou(last), b(settled), state.unwrap_or(Val::Null), b(false)],
    )
}

pub fn detach(handle: u32, closed: bool, err: Option<Val>) -> Val {
    mk(DETACH, vec![u(handle), b(closed), err.unwrap_or(Val::Null)])
}
pub fn end(err: Option<Val>) -> Val {
    mk(END, vec![err.unwrap_or(Val::Null)])
}
pub fn close(err: Option<Val>) -> Val {
    mk(CLOSE, vec![err.unwrap_or(Val::Null)])
}

pub fn accepted() -> Val {
    mk(0x24, vec![])
}
pub fn rejected(e: Option<Val>) -> Val {
    mk(0x25, vec![e.unwrap_or(Val::Null)])
}
pub fn released() -> Val {
    mk(0x26, vec![])
}
pub fn modified(df: Option<bool>, uh: Option<bool>) -> Val {
    mk(0x27, vec![df.map_or(Val::Null, Val::Bool), uh.map_or(Val::Null, Val::Bool), Val::Null])
}
pub fn received(n: u32, off: u64) -> Val {
    mk(0x23, vec![u(n), Val::Ulong(off)])
}

pub fn empty() -> Vec<u8> {
    vec![0, 0, 0, 8, 2, 0, 0, 0]
}

pub fn syms(l: &[&str]) -> Val {
    Val::Array(None, ElemTy::Sym, l.iter().map(|s| Val::sym(s)).collect())
}
