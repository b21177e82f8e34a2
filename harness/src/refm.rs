//! Reference model of AMQP 1.0 values: strict parser and encoder, written from the specification.

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
    Char(u32),
    Ts(i64),
    Uuid([u8; 16]),
    Bin(Vec<u8>),
    Str(String),
    Sym(String),
    List(Vec<V>),
    Map(Vec<(V, V)>),
    /// element format (widest code of the element type), elements
    Arr(u8, Vec<V>),
    Desc(Box<V>, Box<V>),
}
use V::*;

impl V {
    pub fn s(x: &str) -> V {
        Str(x.to_string())
    }
    pub fn sym(x: &str) -> V {
        Sym(x.to_string())
    }
    pub fn desc(code: u64, v: V) -> V {
        Desc(Box::new(U64(code)), Box::new(v))
    }
    pub fn depth(&self) -> usize {
        match self {
            List(l) => 1 + l.iter().map(|x| x.depth()).max().unwrap_or(0),
            Arr(_, l) => 1 + l.iter().map(|x| x.depth()).max().unwrap_or(0),
            Map(m) => 1 + m.iter().map(|(k, v)| k.depth().max(v.depth())).max().unwrap_or(0),
            Desc(_, v) => 1 + v.depth(),
            _ => 0,
        }
    }
    pub fn is_compound(&self) -> bool {
        matches!(self, List(_) | Arr(..) | Map(_) | Desc(..))
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Null => "null",
            Bool(_) => "boolean",
            U8(_) => "ubyte",
            U16(_) => "ushort",
            U32(_) => "uint",
            U64(_) => "ulong",
            I8(_) => "byte",
            I16(_) => "short",
            I32(_) => "int",
            I64(_) => "long",
            F32(_) => "float",
            F64(_) => "double",
            Char(_) => "char",
            Ts(_) => "timestamp",
            Uuid(_) => "uuid",
            Bin(_) => "binary",
            Str(_) => "string",
            Sym(_) => "symbol",
            List(_) => "list",
            Map(_) => "map",
            Arr(..) => "array",
            Desc(..) => "described",
        }
    }
}

/// Short rendering for messages.
pub fn show(v: &V) -> String {
    fn go(v: &V, o: &mut String) {
        if o.len() > 500 {
            o.push('~');
            return;
        }
        let long = |s: String, n: usize| if n > 24 { format!("{}..({})", s.chars().take(16).collect::<String>(), n) } else { s };
        match v {
            Null => o.push_str("null"),
            Bin(b) => o.push_str(&if b.len() > 12 { format!("bin({})", b.len()) } else { format!("bin{:02x?}", b) }),
            Str(s) => o.push_str(&format!("{:?}", long(s.clone(), s.len()))),
            Sym(s) => o.push_str(&format!(":{:?}", long(s.clone(), s.len()))),
            List(l) => {
                o.push('[');
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    if i >= 16 {
                        o.push_str(&format!("..({})", l.len()));
                        break;
                    }
                    go(x, o);
                }
                o.push(']');
            }
            Arr(f, l) => {
                o.push_str(&format!("arr{:02x}[", f));
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    if i >= 8 {
                        o.push_str(&format!("..({})", l.len()));
                        break;
                    }
                    go(x, o);
                }
                o.push(']');
            }
            Map(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    if i >= 8 {
                        o.push_str(&format!("..({})", m.len()));
                        break;
                    }
                    go(k, o);
                    o.push_str(": ");
                    go(x, o);
                }
                o.push('}');
            }
            Desc(d, x) => {
                o.push('@');
                go(d, o);
                o.push(' ');
                go(x, o);
            }
            x => o.push_str(&format!("{:?}", x)),
        }
    }
    let mut o = String::new();
    go(v, &mut o);
    o
}

// ---------------- encoding ----------------
/// `ch(n)` chooses among n legal alternatives; 0 is the compact, crate-like one.
pub type Ch<'a> = &'a mut dyn FnMut(u64) -> u64;

pub fn formats(v: &V) -> Vec<u8> {
    match v {
        Null => vec![0x40],
        Bool(true) => vec![0x41, 0x56],
        Bool(false) => vec![0x42, 0x56],
        U8(_) => vec![0x50],
        U16(_) => vec![0x60],
        U32(0) => vec![0x43, 0x52, 0x70],
        U32(x) if *x < 256 => vec![0x52, 0x70],
        U32(_) => vec![0x70],
        U64(0) => vec![0x44, 0x53, 0x80],
        U64(x) if *x < 256 => vec![0x53, 0x80],
        U64(_) => vec![0x80],
        I8(_) => vec![0x51],
        I16(_) => vec![0x61],
        I32(x) if *x >= -128 && *x < 128 => vec![0x54, 0x71],
        I32(_) => vec![0x71],
        I64(x) if *x >= -128 && *x < 128 => vec![0x55, 0x81],
        I64(_) => vec![0x81],
        F32(_) => vec![0x72],
        F64(_) => vec![0x82],
        Char(_) => vec![0x73],
        Ts(_) => vec![0x83],
        Uuid(_) => vec![0x98],
        Bin(b) => vlen(b.len(), 0xa0, 0xb0),
        Str(b) => vlen(b.len(), 0xa1, 0xb1),
        Sym(b) => vlen(b.len(), 0xa3, 0xb3),
        List(l) if l.is_empty() => vec![0xc0, 0x45, 0xd0],
        List(_) => vec![0xc0, 0xd0],
        Map(_) => vec![0xc1, 0xd1],
        Arr(..) => vec![0xe0, 0xf0],
        Desc(..) => vec![0x00],
    }
}
fn vlen(n: usize, a: u8, b: u8) -> Vec<u8> {
    if n < 256 {
        vec![a, b]
    } else {
        vec![b]
    }
}

pub fn enc(v: &V, out: &mut Vec<u8>, ch: Ch) {
    let fs = formats(v);
    let f = fs[ch(fs.len() as u64) as usize];
    if f != 0x45 {
        if let Some((count, body)) = enc_body(v, ch) {
            // the wide form when the chosen 8-bit one cannot hold the contents
            let at = out.len();
            out.push(f);
            if !compound(count, f >= 0xd0 && f != 0xe0, &body, out) {
                out.truncate(at);
                out.push(*fs.last().unwrap());
                compound(count, true, &body, out);
            }
            return;
        }
    }
    out.push(f);
    enc_payload(v, f, out, ch);
}

/// Compound body with size/count header; false when an 8-bit header cannot hold it.
fn compound(count: usize, wide: bool, body: &[u8], out: &mut Vec<u8>) -> bool {
    if wide {
        out.extend_from_slice(&(body.len() as u32 + 4).to_be_bytes());
        out.extend_from_slice(&(count as u32).to_be_bytes());
    } else {
        if body.len() + 1 > 255 || count > 255 {
            return false;
        }
        out.push(body.len() as u8 + 1);
        out.push(count as u8);
    }
    out.extend_from_slice(body);
    true
}

pub fn enc_payload(v: &V, f: u8, out: &mut Vec<u8>, ch: Ch) -> bool {
    match v {
        Null => {}
        Bool(b) => {
            if f == 0x56 {
                out.push(*b as u8)
            }
        }
        U8(x) => out.push(*x),
        U16(x) => out.extend_from_slice(&x.to_be_bytes()),
        U32(x) => match f {
            0x43 => {}
            0x52 => out.push(*x as u8),
            _ => out.extend_from_slice(&x.to_be_bytes()),
        },
        U64(x) => match f {
            0x44 => {}
            0x53 => out.push(*x as u8),
            _ => out.extend_from_slice(&x.to_be_bytes()),
        },
        I8(x) => out.push(*x as u8),
        I16(x) => out.extend_from_slice(&x.to_be_bytes()),
        I32(x) => match f {
            0x54 => out.push(*x as u8),
            _ => out.extend_from_slice(&x.to_be_bytes()),
        },
        I64(x) => match f {
            0x55 => out.push(*x as u8),
            _ => out.extend_from_slice(&x.to_be_bytes()),
        },
        F32(x) => out.extend_from_slice(&x.to_be_bytes()),
        F64(x) => out.extend_from_slice(&x.to_be_bytes()),
        Char(x) => out.extend_from_slice(&x.to_be_bytes()),
        Ts(x) => out.extend_from_slice(&x.to_be_bytes()),
        Uuid(x) => out.extend_from_slice(x),
        Bin(b) => var(b, f, out),
        Str(b) => var(b.as_bytes(), f, out),
        Sym(b) => var(b.as_bytes(), f, out),
        List(_) if f == 0x45 => {}
        List(_) | Map(_) | Arr(..) => {
            let (count, body) = enc_body(v, ch).unwrap();
            return compound(count, f >= 0xd0 && f != 0xe0, &body, out);
        }
        Desc(d, x) => {
            enc(d, out, ch);
            enc(x, out, ch);
        }
    }
    true
}
/// Item count and contents of a compound.
fn enc_body(v: &V, ch: Ch) -> Option<(usize, Vec<u8>)> {
    let mut body = vec![];
    let count = match v {
        List(l) => {
            for x in l {
                enc(x, &mut body, ch);
            }
            l.len()
        }
        Map(m) => {
            for (k, x) in m {
                enc(k, &mut body, ch);
                enc(x, &mut body, ch);
            }
            m.len() * 2
        }
        Arr(ef, l) => {
            // element constructors legal for every element, widest first
            let mut fs: Vec<u8> = match l.first() {
                None => vec![*ef],
                Some(x) => {
                    let mut c = formats(x);
                    if let Bool(_) = x {
                        c = vec![0x56, c[0]];
                    } else {
                        c.reverse();
                    }
                    c
                }
            };
            for x in l.iter() {
                let c = formats(x);
                fs.retain(|q| c.contains(q));
            }
            let mut e = fs[ch(fs.len() as u64) as usize];
            body.push(e);
            let mut ok = true;
            for x in l {
                ok &= enc_payload(x, e, &mut body, ch);
            }
            if !ok {
                e = fs[0];
                body = vec![e];
                for x in l {
                    assert!(enc_payload(x, e, &mut body, ch));
                }
            }
            l.len()
        }
        _ => return None,
    };
    Some((count, body))
}
fn var(b: &[u8], f: u8, out: &mut Vec<u8>) {
    if f >= 0xb0 {
        out.extend_from_slice(&(b.len() as u32).to_be_bytes());
    } else {
        out.push(b.len() as u8);
    }
    out.extend_from_slice(b);
}

pub fn enc_compact(v: &V) -> Vec<u8> {
    let mut o = vec![];
    enc(v, &mut o, &mut |_| 0);
    o
}

/// Canonical bytes: equal exactly when the values mean the same (maps as sets of pairs).
pub fn canon(v: &V) -> Vec<u8> {
    fn c(v: &V) -> V {
        match v {
            List(l) => List(l.iter().map(c).collect()),
            Arr(f, l) => {
                if l.is_empty() {
                    Arr(0x40, vec![])
                } else {
                    Arr(*f, l.iter().map(c).collect())
                }
            }
            Map(m) => {
                let mut e: Vec<(Vec<u8>, Vec<u8>, V, V)> = m
                    .iter()
                    .map(|(k, x)| {
                        let (k, x) = (c(k), c(x));
                        (enc_compact(&k), enc_compact(&x), k, x)
                    })
                    .collect();
                e.sort_by(|a, b| (&a.0, &a.1).cmp(&(&b.0, &b.1)));
                Map(e.into_iter().map(|(_, _, k, x)| (k, x)).collect())
            }
            Desc(d, x) => Desc(Box::new(c(d)), Box::new(c(x))),
            x => x.clone(),
        }
    }
    enc_compact(&c(v))
}
pub fn veq(a: &V, b: &V) -> bool {
    a == b || canon(a) == canon(b)
}
pub fn same(what: &str, got: &V, want: &V) -> Result<(), String> {
    if veq(got, want) {
        Ok(())
    } else {
        Err(format!("{}: got {} expected {}", what, show(got), show(want)))
    }
}

// ---------------- strict parser ----------------
type P<T> = Result<T, String>;

fn take<'a>(b: &'a [u8], n: usize, what: &str) -> P<(&'a [u8], &'a [u8])> {
    if b.len() < n {
        Err(format!("{}: needs {} bytes, {} left", what, n, b.len()))
    } else {
        Ok((&b[..n], &b[n..]))
    }
}
fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, &x| (a << 8) | x as u64)
}

/// Parse one value; everything declared must be exact.
pub fn parse(b: &[u8]) -> P<(V, &[u8])> {
    parse_d(b, 0)
}
pub fn parse_all(b: &[u8]) -> P<V> {
    let (v, r) = parse(b)?;
    if !r.is_empty() {
        return Err(format!("{} bytes after the value", r.len()));
    }
    Ok(v)
}
fn parse_d(b: &[u8], d: usize) -> P<(V, &[u8])> {
    if d > 400 {
        return Err("nesting".into());
    }
    let (f, r) = take(b, 1, "constructor")?;
    parse_payload(f[0], r, d)
}
fn utf8(b: &[u8]) -> P<String> {
    String::from_utf8(b.to_vec()).map_err(|e| format!("invalid utf-8: {}", e))
}
fn ascii(b: &[u8]) -> P<String> {
    if b.is_ascii() {
        utf8(b)
    } else {
        Err("symbol is not ascii".into())
    }
}
fn parse_payload(f: u8, b: &[u8], d: usize) -> P<(V, &[u8])> {
    let fixed = |n: usize| take(b, n, "fixed-width value");
    Ok(match f {
        0x00 => {
            let (desc, r) = parse_d(b, d + 1)?;
            match desc {
                U64(_) | Sym(_) => {}
                x => return Err(format!("descriptor is a {}", x.kind())),
            }
            let (v, r) = parse_d(r, d + 1)?;
            (Desc(Box::new(desc), Box::new(v)), r)
        }
        0x40 => (Null, b),
        0x41 => (Bool(true), b),
        0x42 => (Bool(false), b),
        0x43 => (U32(0), b),
        0x44 => (U64(0), b),
        0x45 => (List(vec![]), b),
        0x50 => fixed(1).map(|(x, r)| (U8(x[0]), r))?,
        0x51 => fixed(1).map(|(x, r)| (I8(x[0] as i8), r))?,
        0x52 => fixed(1).map(|(x, r)| (U32(x[0] as u32), r))?,
        0x53 => fixed(1).map(|(x, r)| (U64(x[0] as u64), r))?,
        0x54 => fixed(1).map(|(x, r)| (I32(x[0] as i8 as i32), r))?,
        0x55 => fixed(1).map(|(x, r)| (I64(x[0] as i8 as i64), r))?,
        0x56 => {
            let (x, r) = fixed(1)?;
            match x[0] {
                0 => (Bool(false), r),
                1 => (Bool(true), r),
                y => return Err(format!("boolean byte {}", y)),
            }
        }
        0x60 => fixed(2).map(|(x, r)| (U16(be(x) as u16), r))?,
        0x61 => fixed(2).map(|(x, r)| (I16(be(x) as i16), r))?,
        0x70 => fixed(4).map(|(x, r)| (U32(be(x) as u32), r))?,
        0x71 => fixed(4).map(|(x, r)| (I32(be(x) as i32), r))?,
        0x72 => fixed(4).map(|(x, r)| (F32(be(x) as u32), r))?,
        0x73 => {
            let (x, r) = fixed(4)?;
            let c = be(x) as u32;
            if char::from_u32(c).is_none() {
                return Err(format!("char {:x}", c));
            }
            (Char(c), r)
        }
        0x80 => fixed(8).map(|(x, r)| (U64(be(x)), r))?,
        0x81 => fixed(8).map(|(x, r)| (I64(be(x) as i64), r))?,
        0x82 => fixed(8).map(|(x, r)| (F64(be(x)), r))?,
        0x83 => fixed(8).map(|(x, r)| (Ts(be(x) as i64), r))?,
        0x98 => {
            let (x, r) = fixed(16)?;
            let mut a = [0; 16];
            a.copy_from_slice(x);
            (Uuid(a), r)
        }
        0xa0 | 0xa1 | 0xa3 | 0xb0 | 0xb1 | 0xb3 => {
            let w = if f >= 0xb0 { 4 } else { 1 };
            let (n, r) = take(b, w, "length")?;
            let (x, r) = take(r, be(n) as usize, "variable-width value")?;
            (
                match f & 0x0f {
                    0 => Bin(x.to_vec()),
                    1 => Str(utf8(x)?),
                    _ => Sym(ascii(x)?),
                },
                r,
            )
        }
        0xc0 | 0xd0 | 0xc1 | 0xd1 | 0xe0 | 0xf0 => {
            let w = if f & 0x10 != 0 { 4 } else { 1 };
            let (n, r) = take(b, w, "compound size")?;
            let (mut x, r) = take(r, be(n) as usize, "compound")?;
            let (c, y) = take(x, w, "compound count")?;
            let count = be(c) as usize;
            x = y;
            let v = match f & 0xf1 {
                0xc0 | 0xd0 => {
                    let mut l = vec![];
                    for _ in 0..count {
                        let (v, y) = parse_d(x, d + 1)?;
                        l.push(v);
                        x = y;
                    }
                    List(l)
                }
                0xc1 | 0xd1 => {
                    if count % 2 != 0 {
                        return Err("odd number of map items".into());
                    }
                    let mut m = vec![];
                    let mut keys = std::collections::HashSet::new();
                    for _ in 0..count / 2 {
                        let (k, y) = parse_d(x, d + 1)?;
                        let (v, y) = parse_d(y, d + 1)?;
                        if !keys.insert(canon(&k)) {
                            return Err(format!("duplicate map key {}", show(&k)));
                        }
                        m.push((k, v));
                        x = y;
                    }
                    Map(m)
                }
                _ => {
                    let (ef, y) = take(x, 1, "array constructor")?;
                    x = y;
                    if ef[0] == 0 {
                        return Err("array of described elements".into());
                    }
                    let mut l = vec![];
                    for _ in 0..count {
                        let (v, y) = parse_payload(ef[0], x, d + 1)?;
                        l.push(v);
                        x = y;
                        if l.len() > 1_200_000 {
                            return Err("array too long".into());
                        }
                    }
                    Arr(widest(ef[0]), l)
                }
            };
            if !x.is_empty() {
                return Err(format!("{} bytes left inside a compound of declared size {} and count {}", x.len(), be(n), count));
            }
            (v, r)
        }
        f => return Err(format!("constructor {:#04x}", f)),
    })
}
pub fn widest(f: u8) -> u8 {
    match f {
        0x41 | 0x42 => 0x56,
        0x43 | 0x52 => 0x70,
        0x44 | 0x53 => 0x80,
        0x54 => 0x71,
        0x55 => 0x81,
        0xa0 => 0xb0,
        0xa1 => 0xb1,
        0xa3 => 0xb3,
        0xc0 | 0x45 => 0xd0,
        0xc1 => 0xd1,
        0xe0 => 0xf0,
        x => x,
    }
}
pub fn fmt_of(v: &V) -> u8 {
    let f = formats(v);
    widest(*f.last().unwrap())
}
