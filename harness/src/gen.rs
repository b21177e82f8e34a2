//! Generators of reference values.
use crate::refm::V::{self, *};
use crate::refm::{canon, enc_compact};
use crate::schema::{self as sc, T};
use crate::src::Src;

const WORDS: &[&str] = &["", "a", "key", "amqp:open:list", "x-opt-thing", "session-end", "move", "copy", "never", "amqp:link:stolen", "PLAIN"];
/// Texts that clean-up code likes to change.
const ODD: &[&str] = &["\u{feff}a", " a", "a ", "\t", "a\r\n", "a\n", "a\0", "\0a", "\\", "\"a\"", "e\u{301}", "\u{200b}a", "\u{202e}a", "ſ", "İ", "ß", "A", "%20", "&amp;", "null", "0", "-1", "00", "1e3",
    "true", "01234567-89ab-cdef-0123-456789abcdef", "12345678901234567890", "2020-01-01T00:00:00Z", "urn:uuid:01234567-89ab-cdef-0123-456789abcdef", "a/../b", "x-opt-", "amqp:", "é", "\u{fffd}", "💯"];
const CHARS: &[char] = &['a', 'Z', '0', ' ', '\0', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '漢', '\u{ffff}', '\u{10000}', '💯', '\u{10ffff}'];

pub fn text(s: &mut Src, max: usize) -> String {
    match s.weighted(&[6, 3, 6, 4, 2]) {
        4 => {
            let t = *s.pick(ODD);
            if t.len() <= max { t.to_string() } else { String::new() }
        }
        0 => s.pick(WORDS).chars().take(max).collect(),
        1 => {
            let d = s.dict();
            if d.texts.is_empty() {
                return "t".into();
            }
            let t = &d.texts[s.idx(d.texts.len())];
            if t.len() <= max {
                t.clone()
            } else {
                String::new()
            }
        }
        2 => {
            let n = s.len(max);
            ascii(s, n)
        }
        _ => {
            let n = s.len(max);
            let k = s.idx(CHARS.len());
            let mix = s.bool();
            let mut o = String::with_capacity(n);
            let mut i = k;
            while o.len() < n {
                let c = CHARS[i % CHARS.len()];
                if o.len() + c.len_utf8() > n {
                    o.push('p');
                } else {
                    o.push(c);
                }
                if mix {
                    i += 1;
                }
            }
            o
        }
    }
}
fn ascii(s: &mut Src, n: usize) -> String {
    s.fill(n).into_iter().map(|b| (b & 0x7f) as char).map(|c| if n > 4 && (c as u32) < 32 { 'q' } else { c }).collect()
}
pub fn symbol(s: &mut Src, max: usize) -> String {
    match s.weighted(&[6, 3, 5, 3]) {
        0 => s.pick(WORDS).chars().take(max).collect(),
        1 => {
            let d = s.dict();
            if d.texts.is_empty() {
                return "t".into();
            }
            let t = &d.texts[s.idx(d.texts.len())];
            if t.len() <= max && t.is_ascii() {
                t.clone()
            } else {
                String::new()
            }
        }
        2 => {
            let n = s.len(max);
            ascii(s, n)
        }
        _ => {
            let k = [sc::AMQP_ERRORS, sc::CONN_ERRORS, sc::SESSION_ERRORS, sc::LINK_ERRORS, sc::EXPIRY][s.idx(5)];
            near(s, k).chars().take(max).collect()
        }
    }
}
/// A known name, or something close to one.
pub fn near(s: &mut Src, names: &[&str]) -> String {
    let mut n = s.pick(names).to_string();
    match s.weighted(&[10, 1, 1, 1, 1, 3]) {
        0 => {}
        1 => n.push('x'),
        2 => {
            n.pop();
        }
        3 => n = n.to_uppercase(),
        4 => n = n.replace('-', "_"),
        _ => {
            let l = slips(&n);
            if !l.is_empty() {
                n = l[s.idx(l.len())].clone();
            }
        }
    }
    n
}
/// Every text one slip away from an ASCII text: a character added, lost, doubled, exchanged with the next, of the
/// other case, or another separator.
pub fn slips(t: &str) -> Vec<String> {
    let b: Vec<char> = t.chars().collect();
    let mut o: Vec<Vec<char>> = vec![];
    for i in 0..=b.len() {
        let at = i == 0 || i == b.len() || b[i - 1] == ':' || (i < b.len() && b[i] == ':');
        for c in [' ', '\0', '\n', '\t', '.', '-', '_', ':', 'x', '*'] {
            if at {
                let mut v = b.clone();
                v.insert(i, c);
                o.push(v);
            }
            if i < b.len() && (at || !b[i].is_alphanumeric()) {
                let mut v = b.clone();
                v[i] = c;
                o.push(v);
            }
        }
        if i < b.len() {
            let mut v = b.clone();
            v.remove(i);
            o.push(v);
            let mut v = b.clone();
            v.insert(i, b[i]);
            o.push(v);
            let mut v = b.clone();
            v[i] = if b[i].is_ascii_lowercase() { b[i].to_ascii_uppercase() } else { b[i].to_ascii_lowercase() };
            o.push(v);
            if i + 1 < b.len() {
                let mut v = b.clone();
                v.swap(i, i + 1);
                o.push(v);
            }
        }
    }
    o.retain(|v| v != &b);
    o.into_iter().map(|v| v.into_iter().collect()).collect()
}
pub fn bin(s: &mut Src, max: usize) -> Vec<u8> {
    let n = s.len(max);
    s.fill(n)
}
pub const MAX_MS: i64 = 8_200_000_000_000_000; // inside every calendar chrono has had
pub const MIN_MS: i64 = -8_300_000_000_000_000;
pub fn millis(s: &mut Src) -> i64 {
    let x = s.int(64) as i64;
    match s.weighted(&[4, 4, 1]) {
        0 => (x % 4_000_000_000_000_000).clamp(MIN_MS, MAX_MS),
        1 => x % 4_000_000_000_000,
        _ => x.clamp(MIN_MS, MAX_MS),
    }
}
pub fn ch(s: &mut Src) -> u32 {
    let x = match s.weighted(&[3, 3, 2]) {
        0 => *s.pick(CHARS) as u32,
        1 => s.int(21) as u32 % 0x110000,
        _ => s.below(128) as u32,
    };
    if (0xd800..0xe000).contains(&x) {
        0xe000
    } else {
        x
    }
}
pub fn float32(s: &mut Src) -> u32 {
    match s.weighted(&[2, 3]) {
        0 => *s.pick(&[0u32, 0x8000_0000, 0x3f80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7fc0_0001, 1, 0x7f7f_ffff]),
        _ => {
            // signalling NaN patterns are not generated: a float that passes through a register may be quieted
            let x = s.int(32) as u32;
            if x & 0x7f80_0000 == 0x7f80_0000 && x & 0x7f_ffff != 0 {
                x | 0x40_0000
            } else {
                x
            }
        }
    }
}
pub fn float64(s: &mut Src) -> u64 {
    match s.weighted(&[2, 3]) {
        0 => *s.pick(&[0u64, 1 << 63, 0x3ff0_0000_0000_0000, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 1, 0x7fef_ffff_ffff_ffff]),
        _ => {
            let x = s.int(64);
            if x & (0x7ff << 52) == 0x7ff << 52 && x & ((1 << 52) - 1) != 0 {
                x | (1 << 51)
            } else {
                x
            }
        }
    }
}
pub fn uuid(s: &mut Src) -> [u8; 16] {
    let mut a = [0; 16];
    match s.weighted(&[4, 1, 1]) {
        0 => a.copy_from_slice(&s.fill(16)),
        // nearly all bytes alike
        1 => a[s.idx(16)] = s.int(8) as u8,
        _ => {
            a = [s.int(8) as u8; 16];
            a[s.idx(16)] = s.int(8) as u8;
        }
    }
    a
}

pub const SCALARS: u64 = 18;
pub fn scalar_of(s: &mut Src, k: u64, max: usize) -> V {
    match k {
        0 => Null,
        1 => Bool(s.bool()),
        2 => U32(s.int(32) as u32),
        3 => Str(text(s, max)),
        4 => Sym(symbol(s, max)),
        5 => U64(s.int(64)),
        6 => I32(s.int(32) as i32),
        7 => I64(s.int(64) as i64),
        8 => U8(s.int(8) as u8),
        9 => U16(s.int(16) as u16),
        10 => I8(s.int(8) as i8),
        11 => I16(s.int(16) as i16),
        12 => F32(float32(s)),
        13 => F64(float64(s)),
        14 => Char(ch(s)),
        15 => Ts(millis(s)),
        16 => Uuid(uuid(s)),
        _ => Bin(bin(s, max)),
    }
}
pub fn scalar(s: &mut Src) -> V {
    let k = s.below(SCALARS);
    scalar_of(s, k, 70_000)
}

/// Key identity as the crate sees it: all NaNs are one key, and so are the two zeroes.
pub fn ckey(v: &V) -> Vec<u8> {
    fn c(v: &V) -> V {
        match v {
            F32(x) if x & 0x7fff_ffff > 0x7f80_0000 => F32(0x7fc0_0000),
            F32(0x8000_0000) => F32(0),
            F64(x) if x & !(1 << 63) > 0x7ff << 52 => F64(0x7ff8 << 48),
            F64(0x8000_0000_0000_0000) => F64(0),
            List(l) => List(l.iter().map(c).collect()),
            Arr(f, l) => Arr(*f, l.iter().map(c).collect()),
            Map(m) => Map(m.iter().map(|(k, x)| (c(k), c(x))).collect()),
            Desc(d, x) => Desc(d.clone(), Box::new(c(x))),
            x => x.clone(),
        }
    }
    canon(&c(v))
}
pub fn dedup(m: Vec<(V, V)>) -> Vec<(V, V)> {
    let mut seen = std::collections::HashSet::new();
    m.into_iter().filter(|(k, _)| seen.insert(ckey(k))).collect()
}

/// Any value a `Variant` can hold; `depth` levels of compounds may still open.
pub fn value(s: &mut Src, depth: usize) -> V {
    if depth == 0 || s.budget < 64 {
        return scalar(s);
    }
    match s.weighted(&[30, 6, 5, 3, 1]) {
        0 => scalar(s),
        1 => list(s, depth),
        2 => map(s, depth),
        3 => {
            let d = descriptor(s);
            Desc(Box::new(d), Box::new(value(s, depth - 1)))
        }
        _ => chain(s, depth),
    }
}
/// A compound for sure.
pub fn compound(s: &mut Src, depth: usize) -> V {
    match s.weighted(&[4, 4, 2, 1]) {
        0 => list(s, depth),
        1 => map(s, depth),
        2 => {
            let d = descriptor(s);
            Desc(Box::new(d), Box::new(value(s, depth - 1)))
        }
        _ => chain(s, depth),
    }
}
pub fn descriptor(s: &mut Src) -> V {
    if s.chance(40) {
        Sym(symbol(s, 300))
    } else {
        U64(s.int(64))
    }
}
fn chain(s: &mut Src, depth: usize) -> V {
    let n = s.below(depth as u64 + 1) as usize;
    let kinds = s.below(4);
    let mut v = scalar(s);
    for i in 0..n {
        let k = if kinds == 3 { (i % 3) as u64 } else { kinds };
        v = match k {
            0 => List(vec![v]),
            1 => Desc(Box::new(U64(i as u64)), Box::new(v)),
            _ => {
                if i % 2 == 0 {
                    Map(vec![(Null, v)])
                } else {
                    Map(vec![(v, Null)])
                }
            }
        };
    }
    v
}
fn node_count(s: &mut Src, max: usize) -> usize {
    let n = s.count(max).min(s.budget / 8);
    s.budget -= n * 8;
    n
}
pub fn list(s: &mut Src, depth: usize) -> V {
    let v = match s.weighted(&[10, 2]) {
        0 => {
            let n = node_count(s, 300);
            let d = depth.saturating_sub(1).min(if n > 4 { 2 } else { 64 });
            (0..n).map(|_| value(s, d)).collect::<Vec<_>>()
        }
        _ => {
            // many equal small elements: counts around 255
            let n = s.len(4200);
            let k = s.below(3);
            vec![[Null, Bool(true), U32(0)][k as usize].clone(); n]
        }
    };
    if s.chance(15) {
        tune(s, List(v))
    } else {
        List(v)
    }
}
pub fn map(s: &mut Src, depth: usize) -> V {
    let d = depth.saturating_sub(1);
    let m = match s.weighted(&[10, 1]) {
        0 => {
            let n = node_count(s, 120);
            let d = d.min(if n > 4 { 2 } else { 64 });
            (0..n).map(|_| {
                let k = if s.chance(12) { value(s, d.min(3)) } else { scalar(s) };
                (k, value(s, d))
            }).collect::<Vec<_>>()
        }
        _ => {
            let n = s.len(400);
            (0..n).map(|i| (U8(i as u8), Null)).take(256).collect()
        }
    };
    let m = Map(dedup(m));
    if s.chance(15) {
        tune(s, m)
    } else {
        m
    }
}
/// Pad a compound so that its compact content lands near the 8-bit size limit.
pub fn tune(s: &mut Src, v: V) -> V {
    let target = 245 + s.below(14) as usize;
    let content = |v: &V| -> usize {
        match v {
            List(l) => l.iter().map(|x| enc_compact(x).len()).sum(),
            Map(m) => m.iter().map(|(k, x)| enc_compact(k).len() + enc_compact(x).len()).sum(),
            _ => 0,
        }
    };
    let n = content(&v);
    match v {
        List(mut l) => {
            if n + 2 <= target {
                l.push(Bin(vec![7; target - n - 2]));
            }
            List(l)
        }
        Map(mut m) => {
            let k = U16(0x1234);
            if n + 5 <= target && !m.iter().any(|(x, _)| *x == k) {
                m.push((k, Bin(vec![7; target - n - 5])));
            }
            Map(m)
        }
        v => v,
    }
}
/// Homogeneous array content of one scalar kind.
pub fn array(s: &mut Src, k: u64, fmt: u8) -> V {
    let w = match fmt {
        0x50 | 0x51 | 0x56 => 1,
        0x60 | 0x61 => 2,
        0x70 | 0x71 | 0x72 | 0x73 => 4,
        0x80..=0x83 => 8,
        0x98 => 16,
        _ => 0,
    };
    let l: Vec<V> = match s.weighted(&[6, 3]) {
        0 => {
            let n = node_count(s, 300);
            (0..n).map(|_| scalar_of(s, k, 70_000)).collect()
        }
        _ if w > 0 => {
            // content of exactly the drawn size, or nearly
            let n = s.len(2000) / w;
            let a = scalar_of(s, k, 100);
            let b = scalar_of(s, k, 100);
            (0..n).map(|i| if i % 3 == 0 { a.clone() } else { b.clone() }).collect()
        }
        _ => {
            let n = 1 + s.below(3) as usize;
            let total = 240 + s.below(24) as usize;
            let each = (total / n).saturating_sub(4);
            (0..n).map(|i| {
                let m = if i == 0 { total.saturating_sub(each * (n - 1) + 4 * n) } else { each };
                let t = "m".repeat(m);
                match fmt {
                    0xb0 => Bin(t.into_bytes()),
                    0xb1 => Str(t),
                    _ => Sym(t),
                }
            }).collect()
        }
    };
    Arr(fmt, l)
}

// ---- composites ----
pub fn fields(s: &mut Src) -> V {
    let n = node_count(s, 40);
    let m = (0..n).map(|_| (Sym(symbol(s, 300)), value(s, 3))).collect();
    let m = Map(dedup(m));
    if s.chance(10) {
        tune_sym(s, m)
    } else {
        m
    }
}
fn tune_sym(s: &mut Src, v: V) -> V {
    if let Map(mut m) = v {
        let n: usize = m.iter().map(|(k, x)| enc_compact(k).len() + enc_compact(x).len()).sum();
        let target = 245 + s.below(14) as usize;
        if n + 6 <= target && !m.iter().any(|(k, _)| *k == V::sym("zz")) {
            m.push((V::sym("zz"), Bin(vec![1; target - n - 6])));
        }
        Map(m)
    } else {
        v
    }
}
pub fn multi(s: &mut Src) -> V {
    if s.chance(12) {
        return array(s, 4, 0xb3);
    }
    let n = node_count(s, 30);
    Arr(0xb3, (0..n).map(|_| Sym(symbol(s, 300))).collect())
}
pub fn msg_id(s: &mut Src) -> V {
    match s.below(4) {
        0 => U64(s.int(64)),
        1 => Uuid(uuid(s)),
        2 => Bin(bin(s, 2000)),
        _ => Str(text(s, 2000)),
    }
}
pub fn condition(s: &mut Src) -> V {
    V::Sym(symbol(s, 400))
}
pub fn field(s: &mut Src, t: T) -> V {
    match t {
        T::Bool => Bool(s.bool()),
        T::U8 => U8(s.int(8) as u8),
        T::U16 => U16(s.int(16) as u16),
        T::U32 => U32(s.int(32) as u32),
        T::U64 => U64(s.int(64)),
        T::Bin => Bin(bin(s, 3000)),
        T::Str => Str(text(s, 3000)),
        T::Sym => Sym(symbol(s, 400)),
        T::Ts => Ts(millis(s)),
        T::Multi => multi(s),
        T::Fields => fields(s),
        T::Filter => {
            let n = node_count(s, 20);
            Map(dedup((0..n).map(|_| (Sym(symbol(s, 300)), if s.chance(30) { Null } else { Str(text(s, 300)) })).collect()))
        }
        T::Map => map(s, 3),
        T::MsgId => msg_id(s),
        T::EnumU8(a) => U8(*s.pick(a)),
        T::EnumU16(a) => U16(*s.pick(a)),
        T::EnumU32(a) => U32(*s.pick(a)),
        T::EnumU64(a) => U64(*s.pick(a)),
        T::Uuid => Uuid(uuid(s)),
        T::EnumSym(a) => V::sym(*s.pick(a)),
        T::Comp(n) => comp(s, n),
        T::State => {
            let n = *s.pick(sc::STATES);
            comp(s, n)
        }
        T::Outcome => {
            let n = *s.pick(sc::OUTCOMES);
            comp(s, n)
        }
    }
}
/// Full canonical form of a composite.
pub fn comp(s: &mut Src, name: &str) -> V {
    let c = sc::comp(name);
    // how often optional fields are present in this instance
    let p = *s.pick(&[50u64, 0, 15, 90, 100]);
    let mut l = vec![];
    for f in &c.fields {
        l.push(if f.mandatory {
            field(s, f.ty)
        } else if let Some(d) = &f.default {
            if s.chance(50) {
                d.clone()
            } else {
                field(s, f.ty)
            }
        } else if s.chance(p) {
            field(s, f.ty)
        } else {
            Null
        });
    }
    if s.chance(20) {
        tune_comp(s, c, &mut l);
    }
    V::desc(c.code, List(l))
}
/// Size one variable-width field so that the list content lands near the 8-bit limit.
fn tune_comp(s: &mut Src, c: &sc::C, l: &mut Vec<V>) {
    let var: Vec<usize> = (0..l.len()).filter(|&i| matches!(c.fields[i].ty, T::Bin | T::Str | T::Sym)).collect();
    if var.is_empty() {
        return;
    }
    let i = var[s.idx(var.len())];
    let n: usize = l.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, x)| enc_compact(x).len()).sum();
    let target = 245 + s.below(14) as usize;
    if n + 2 <= target && target - n - 2 < 256 {
        let t = "t".repeat(target - n - 2);
        l[i] = match c.fields[i].ty {
            T::Bin => Bin(t.into_bytes()),
            T::Str => Str(t),
            _ => Sym(t),
        };
    }
}

// ---- frames and messages ----
pub fn frame(s: &mut Src) -> crate::conv::FrameV {
    let channel = s.int(16) as u16;
    if s.chance(4) {
        return crate::conv::FrameV { channel, perf: None, payload: vec![] };
    }
    let name = *s.pick(sc::PERFORMATIVES);
    let perf = comp(s, name);
    let payload = if name == "transfer" && s.chance(70) { bin(s, 70_000) } else { vec![] };
    crate::conv::FrameV { channel, perf: Some(perf), payload }
}
pub fn str_map(s: &mut Src) -> V {
    let n = node_count(s, 40);
    let m = (0..n).map(|_| (Str(text(s, 300)), value(s, 3))).collect();
    let mut m = dedup(m);
    if s.chance(10) {
        let n: usize = m.iter().map(|(k, x)| enc_compact(k).len() + enc_compact(x).len()).sum();
        let target = 245 + s.below(14) as usize;
        if n + 6 <= target && !m.iter().any(|(k, _)| *k == V::s("zz")) {
            m.push((V::s("zz"), Bin(vec![1; target - n - 6])));
        }
    }
    Map(m)
}
/// `received`: sections only a peer can set are included.
pub fn message(s: &mut Src, received: bool) -> crate::conv::MV {
    let mut m = crate::conv::MV::default();
    let p = *s.pick(&[50u64, 0, 20, 100]);
    if s.chance(p) {
        m.header = Some(comp(s, "header"));
    }
    if received && s.chance(p) {
        m.da = Some(fields(s));
    }
    if received && s.chance(p) {
        m.ma = Some(fields(s));
    }
    if s.chance(p) {
        m.props = Some(comp(s, "properties"));
    }
    if s.chance(p) {
        let ap = str_map(s);
        if received || ap != Map(vec![]) {
            m.ap = Some(ap);
        }
    }
    body(s, &mut m);
    if received && s.chance(p) {
        m.footer = Some(fields(s));
    }
    m
}
pub fn body(s: &mut Src, m: &mut crate::conv::MV) {
    match s.weighted(&[3, 5, 3, 4, 2]) {
        0 => {}
        1 => {
            let n = 1 + s.count(60);
            m.data = (0..n).map(|_| bin(s, 70_000)).collect();
        }
        2 => {
            let n = 1 + s.count(40);
            m.seq = (0..n).map(|_| list(s, 4)).collect();
        }
        3 => m.value = Some(value(s, 6)),
        _ => {
            let n = s.below(3);
            m.data = (0..n).map(|_| bin(s, 600)).collect();
            let n = s.below(3);
            m.seq = (0..n).map(|_| list(s, 2)).collect();
            if s.bool() {
                m.value = Some(value(s, 2));
            }
        }
    }
}

// ---- the forms a peer may choose ----
/// An equivalent composite as a peer may write it: symbolic descriptors, defaults as null, omitted tails,
/// single symbols with or without an array.
pub fn peer(s: &mut Src, v: &V) -> V {
    let (d, l) = match v {
        Desc(d, l) => (d, l),
        _ => panic!("harness"),
    };
    let c = match &**d {
        U64(c) => sc::by_code(*c).unwrap(),
        _ => panic!("harness"),
    };
    let l = match &**l {
        List(l) => l,
        _ => panic!("harness"),
    };
    let mut o = vec![];
    for (f, x) in c.fields.iter().zip(l) {
        o.push(match (f.ty, x) {
            (_, x) if Some(x) == f.default.as_ref() && s.bool() => Null,
            (_, Null) => Null,
            (T::Multi, Arr(_, l)) if l.len() == 1 && s.bool() => l[0].clone(),
            (T::Comp(_), x) | (T::State, x) | (T::Outcome, x) => peer(s, x),
            (_, x) => x.clone(),
        });
    }
    let mut cut = o.len();
    while cut > 0 && o[cut - 1] == Null && s.chance(70) {
        cut -= 1;
    }
    o.truncate(cut);
    let d = if s.chance(40) { V::sym(c.sym) } else { U64(c.code) };
    Desc(Box::new(d), Box::new(List(o)))
}
pub fn peer_section(s: &mut Src, v: &V) -> V {
    if let Desc(d, x) = v {
        if let U64(c) = **d {
            if c == 0x70 || c == 0x73 {
                return peer(s, v);
            }
            let sec = sc::SECTIONS.iter().find(|x| x.0 == c).unwrap();
            let d = if s.chance(40) { V::sym(sec.1) } else { U64(c) };
            return Desc(Box::new(d), x.clone());
        }
    }
    panic!("harness")
}
/// Encode with freely chosen constructors.
pub fn enc_free(s: &mut Src, v: &V, out: &mut Vec<u8>) {
    match s.weighted(&[2, 1, 3]) {
        0 => crate::refm::enc(v, out, &mut |_| 0),
        1 => crate::refm::enc(v, out, &mut |n| n - 1),
        _ => crate::refm::enc(v, out, &mut |n| s.below(n)),
    }
}
pub fn frame_bytes(ftype: u8, channel: u16, ext: &[u8], body: &[u8]) -> Vec<u8> {
    assert!(ext.len() % 4 == 0);
    let mut o = vec![];
    o.extend_from_slice(&((8 + ext.len() + body.len()) as u32).to_be_bytes());
    o.push(2 + (ext.len() / 4) as u8);
    o.push(ftype);
    o.extend_from_slice(&channel.to_be_bytes());
    o.extend_from_slice(ext);
    o.extend_from_slice(body);
    o
}
pub fn ext(s: &mut Src) -> Vec<u8> {
    if s.chance(30) {
        let n = 4 * s.below(if s.rec.len() % 5 == 0 { 254 } else { 6 }) as usize;
        s.fill(n)
    } else {
        vec![]
    }
}
