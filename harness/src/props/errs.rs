//! C27: one fault in an otherwise valid input is reported as that fault, however deep it sits.
use super::access::camel;
use super::values::hex;
use crate::conv::*;
use crate::engine::{Ctx, Res};
use crate::gen as g;
use crate::kinds;
use crate::refm::V::{self, *};
use crate::refm::show;
use crate::schema::{self as sc, T};
use crate::src::Src;
use amqp_codec::protocol as p;
use amqp_codec::types as t;
use amqp_codec::{AmqpCodec, AmqpCodecError, AmqpFrame, AmqpParseError, Decode, InMessage, OutMessage, SaslFrame};
use bytes::BytesMut;
use tokio_io::codec::Decoder;

/// What must be reported.
#[derive(Clone)]
pub struct Want {
    /// debug text of the error; of a truncation only its kind matters
    text: String,
    exact: bool,
}
fn exactly(e: AmqpParseError) -> Want {
    Want { text: format!("{:?}", e), exact: true }
}
fn incomplete() -> Want {
    Want { text: "Incomplete".into(), exact: false }
}
fn code(c: u8) -> Want {
    exactly(AmqpParseError::InvalidFormatCode(c))
}
impl Want {
    fn is(&self, got: &str) -> bool {
        if self.exact {
            got == self.text
        } else {
            got.starts_with(&self.text)
        }
    }
}
pub type Bad = (Vec<u8>, Want);

fn free(s: &mut Src, v: &V) -> Vec<u8> {
    let mut o = vec![];
    g::enc_free(s, v, &mut o);
    o
}
/// list (0xc0/0xd0) or map (0xc1/0xd1) of encoded parts
fn compound(s: &mut Src, wide: u8, parts: &[Vec<u8>]) -> Vec<u8> {
    let body: Vec<u8> = parts.concat();
    let mut o = vec![];
    if body.len() < 255 && parts.len() < 256 && s.bool() {
        o.extend([wide - 0x10, body.len() as u8 + 1, parts.len() as u8]);
    } else {
        o.push(wide);
        o.extend((body.len() as u32 + 4).to_be_bytes());
        o.extend((parts.len() as u32).to_be_bytes());
    }
    o.extend(body);
    o
}
fn described(s: &mut Src, num: u64, sym: &str, body: Vec<u8>) -> Vec<u8> {
    let d = if s.chance(40) { V::sym(sym) } else { U64(num) };
    let mut o = vec![0];
    o.extend(free(s, &d));
    o.extend(body);
    o
}
const VALUE_CODES: &[u8] = &[
    0x00, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x60, 0x61, 0x70, 0x71, 0x72, 0x73, 0x80, 0x81, 0x82, 0x83, 0x98, 0xa0, 0xa1, 0xa3, 0xb0, 0xb1, 0xb3, 0xc0,
    0xc1, 0xd0, 0xd1, // decimals and arrays: legal AMQP that free-form values do not support
    0x74, 0x84, 0x94, 0xe0, 0xf0,
];
/// a constructor of none of `ok`, with a payload of the right length if it is a legal constructor
fn wrong_code(s: &mut Src, ok: &[u8]) -> Bad {
    if s.bool() {
        for _ in 0..4 {
            let k = s.below(g::SCALARS);
            let v = g::scalar_of(s, k, 40);
            let b = free(s, &v);
            if !ok.contains(&b[0]) {
                let c = b[0];
                return (b, code(c));
            }
        }
    }
    let mut c = s.below(256) as u8;
    while ok.contains(&c) {
        c = c.wrapping_add(1);
    }
    let n = s.below(4) as usize;
    let mut b = vec![c];
    b.extend(s.fill(n));
    (b, code(c))
}
fn bad_text(s: &mut Src, a: u8, b: u8) -> Bad {
    let mut x = g::text(s, 300).into_bytes();
    let bad: &[&[u8]] = &[&[0xff], &[0x80], &[0xc0, 0x80], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xc3], &[0xf8, 0x88, 0x80, 0x80, 0x80]];
    let bad: &[u8] = *s.pick(bad);
    let at = s.idx(x.len() + 1);
    let tail = x.split_off(at);
    x.extend_from_slice(bad);
    x.extend(tail);
    match std::str::from_utf8(&x) {
        // splitting a character and inserting cannot give valid text, but be safe
        Ok(_) => (vec![0x01], code(0x01)),
        Err(e) => {
            let mut o = vec![];
            if x.len() < 256 && s.bool() {
                o.extend([a, x.len() as u8]);
            } else {
                o.push(b);
                o.extend((x.len() as u32).to_be_bytes());
            }
            o.extend(x);
            (o, exactly(AmqpParseError::Utf8Error(e)))
        }
    }
}
fn bad_time(s: &mut Src) -> Bad {
    let x = (1i64 << 55) + (s.int(62) as i64 >> 8);
    let x = if s.bool() { x } else { -x };
    let mut o = vec![0x83];
    o.extend(x.to_be_bytes());
    (o, exactly(AmqpParseError::InvalidTimestamp(x)))
}
/// header of a compound whose size cannot even hold its count
fn small_size(s: &mut Src, wide: u8) -> Bad {
    let b = if s.bool() {
        vec![wide - 0x10, 0, s.below(4) as u8]
    } else {
        let mut b = vec![wide];
        b.extend((s.below(4) as u32).to_be_bytes());
        b.extend((s.below(4) as u32).to_be_bytes());
        b
    };
    (b, exactly(AmqpParseError::InvalidSize))
}
/// more elements announced than there are
fn too_many(s: &mut Src, wide: u8, pairs: bool) -> Bad {
    let n = s.below(3) as usize * if pairs { 2 } else { 1 };
    let parts: Vec<Vec<u8>> = (0..n).map(|i| if pairs && i % 2 == 0 { free(s, &V::sym(["a", "b", "c"][i / 2])) } else { free(s, &V::Str("x".into())) }).collect();
    let body = parts.concat();
    let count = n as u32 + if pairs { 2 } else { 1 } + s.below(200) as u32;
    let mut o = vec![wide];
    o.extend((body.len() as u32 + 4).to_be_bytes());
    o.extend(count.to_be_bytes());
    o.extend(body);
    (o, incomplete())
}
/// A faulty value where any value may stand.
pub fn bad_value(s: &mut Src, depth: usize) -> Bad {
    if depth > 0 && s.chance(55) {
        let (b, w) = bad_value(s, depth - 1);
        let k = s.weighted(&[4, 3, 2, 3]);
        let mut parts = vec![];
        let n = s.below(3);
        for _ in 0..n {
            let v = g::value(s, 2);
            parts.push(free(s, &v));
        }
        match k {
            0 => {
                parts.push(b);
                let m = s.below(3);
                for _ in 0..m {
                    let v = g::value(s, 2);
                    parts.push(free(s, &v));
                }
                return (compound(s, 0xd0, &parts), w);
            }
            1 | 2 => {
                if parts.len() % 2 == 1 {
                    parts.pop();
                }
                if k == 1 {
                    let key = g::value(s, 1);
                    parts.push(free(s, &key));
                    parts.push(b);
                } else {
                    parts.push(b);
                    let v = g::value(s, 1);
                    parts.push(free(s, &v));
                }
                return (compound(s, 0xd1, &parts), w);
            }
            _ => {
                let d = g::descriptor(s);
                let mut o = vec![0];
                o.extend(free(s, &d));
                o.extend(b);
                return (o, w);
            }
        }
    }
    match s.below(10) {
        0 | 1 => {
            let mut c = s.below(256) as u8;
            while VALUE_CODES.contains(&c) {
                c = c.wrapping_add(1);
            }
            let n = s.below(5) as usize;
            let mut b = vec![c];
            b.extend(s.fill(n));
            (b, code(c))
        }
        2 => {
            let x = if s.bool() { 0xd800 + s.below(0x800) as u32 } else { 0x11_0000 + s.int(31) as u32 };
            let mut b = vec![0x73];
            b.extend(x.to_be_bytes());
            (b, exactly(AmqpParseError::InvalidChar(x)))
        }
        3 => bad_time(s),
        4 => bad_text(s, 0xa1, 0xb1),
        5 => bad_text(s, 0xa3, 0xb3),
        6 => {
            let w = *s.pick(&[0xd0u8, 0xd1]);
            small_size(s, w)
        }
        7 => {
            let pairs = s.bool();
            too_many(s, if pairs { 0xd1 } else { 0xd0 }, pairs)
        }
        _ => {
            // a descriptor that is neither a number nor a symbol
            let (b, w) = wrong_code(s, &[0x44, 0x53, 0x80, 0xa3, 0xb3, 0x00]);
            let mut o = vec![0];
            o.extend(b);
            o.push(0x40);
            (o, w)
        }
    }
}
fn codes(t: T) -> &'static [u8] {
    match t {
        T::Bool => &[0x56, 0x41, 0x42],
        T::U8 | T::EnumU8(_) => &[0x50],
        T::U16 | T::EnumU16(_) => &[0x60],
        T::U32 | T::EnumU32(_) => &[0x70, 0x52, 0x43],
        T::U64 | T::EnumU64(_) => &[0x80, 0x53, 0x44],
        T::Bin => &[0xa0, 0xb0],
        T::Str => &[0xa1, 0xb1],
        T::Sym | T::EnumSym(_) => &[0xa3, 0xb3],
        T::Ts => &[0x83],
        T::Uuid => &[0x98],
        T::Multi => &[0xe0, 0xf0, 0xa3, 0xb3],
        T::Fields | T::Filter | T::Map => &[0xc1, 0xd1],
        T::MsgId => &[0x80, 0x53, 0x44, 0x98, 0xa0, 0xb0, 0xa1, 0xb1],
        T::Comp(_) | T::State | T::Outcome => &[0x00],
    }
}
/// A faulty encoding of a field of type `t` (never a null).
fn bad_field(s: &mut Src, owner: &str, name: &str, t: T, depth: usize) -> Bad {
    let mut ok = codes(t).to_vec();
    ok.push(0x40);
    if s.chance(40) {
        return wrong_code(s, &ok);
    }
    match t {
        T::Str => bad_text(s, 0xa1, 0xb1),
        T::MsgId => bad_text(s, 0xa1, 0xb1),
        T::Sym => bad_text(s, 0xa3, 0xb3),
        T::Ts => bad_time(s),
        T::EnumU8(a) => {
            let mut x = s.below(256) as u8;
            while a.contains(&x) {
                x = x.wrapping_add(1 + s.below(200) as u8);
            }
            let e = match (owner, name) {
                ("sasl-outcome", _) => "SaslCode",
                (_, "snd-settle-mode") => "SenderSettleMode",
                _ => "ReceiverSettleMode",
            };
            (vec![0x50, x], exactly(AmqpParseError::UnknownEnumOption(e)))
        }
        T::EnumU32(a) => {
            let mut x = s.int(32) as u32;
            while a.contains(&x) {
                x = x.wrapping_add(1 + s.below(1 << 20) as u32);
            }
            (free(s, &U32(x)), exactly(AmqpParseError::UnknownEnumOption("TerminusDurability")))
        }
        T::EnumSym(a) => {
            let x = if s.bool() { g::near(s, a) } else { g::symbol(s, 300) };
            if a.contains(&&x[..]) {
                return wrong_code(s, &ok);
            }
            (free(s, &Sym(x)), exactly(AmqpParseError::UnknownEnumOption("TerminusExpiryPolicy")))
        }
        T::Multi => {
            let mut n = 1 + s.below(3) as usize;
            if s.bool() {
                // a wrong element type
                let c = *s.pick(&[0xa0u8, 0xa1, 0x50, 0x70, 0xb1, 0x40, 0x01]);
                let mut body = vec![c];
                for _ in 0..n {
                    body.extend([0, 0, 0, 0, 0]);
                }
                let mut o = vec![0xe0, body.len() as u8 + 1, n as u8];
                o.extend(body);
                return (o, code(c));
            }
            let (b, w) = bad_text(s, 0xa3, 0xb3);
            if b[0] == 0xb3 {
                let mut body = vec![0xb3];
                while n > 1 {
                    body.extend([0, 0, 0, 2, b'o', b'k']);
                    n -= 1;
                }
                body.extend(&b[1..]);
                let mut o = vec![0xf0];
                o.extend((body.len() as u32 + 4).to_be_bytes());
                o.extend(((body.len() - b.len()) as u32 / 6 + 1).to_be_bytes());
                o.extend(body);
                return (o, w);
            }
            (b, w)
        }
        T::Fields | T::Filter | T::Map => match s.below(5) {
            0 => small_size(s, 0xd1),
            1 => too_many(s, 0xd1, true),
            k => {
                let (kb, vb, w);
                if t == T::Map {
                    let r = bad_value(s, 2);
                    let other = g::value(s, 2);
                    let o = free(s, &other);
                    if k == 2 {
                        kb = r.0;
                        vb = o;
                    } else {
                        kb = o;
                        vb = r.0;
                    }
                    w = r.1;
                } else if k == 2 {
                    let r = wrong_code(s, &[0xa3, 0xb3]);
                    kb = r.0;
                    vb = vec![0x40];
                    w = r.1;
                } else {
                    let key = g::symbol(s, 40);
                    kb = free(s, &Sym(key));
                    let r = if t == T::Filter { wrong_code(s, &[0xa1, 0xb1, 0x40]) } else { bad_value(s, 3) };
                    vb = r.0;
                    w = r.1;
                }
                let mut parts = vec![];
                if s.bool() {
                    parts.push(free(s, &V::sym("before")));
                    parts.push(free(s, &V::s("value")));
                }
                parts.push(kb);
                parts.push(vb);
                (compound(s, 0xd1, &parts), w)
            }
        },
        T::Comp(n) => bad_one(s, &[n], depth),
        T::State => bad_one(s, sc::STATES, depth),
        T::Outcome => bad_one(s, sc::OUTCOMES, depth),
        _ => wrong_code(s, &ok),
    }
}
/// A faulty composite where one of `names` belongs.
pub fn bad_one(s: &mut Src, names: &[&'static str], depth: usize) -> Bad {
    if depth == 0 || s.chance(20) {
        // unknown descriptor
        let d = if s.bool() {
            let n = sc::comp(*s.pick(names));
            match s.below(3) {
                0 => Sym(g::near(s, &[n.sym])),
                1 => U64(n.code ^ (1u64 << s.below(64))),
                _ => U64(n.code + 256 * (1 + s.below(300))),
            }
        } else if s.bool() {
            U64(s.int(64))
        } else {
            Sym(g::symbol(s, 300))
        };
        let known = names.iter().any(|n| {
            let c = sc::comp(n);
            d == U64(c.code) || d == V::sym(c.sym)
        });
        if known {
            return wrong_code(s, &[0x00, 0x40]);
        }
        let mut o = vec![0];
        o.extend(free(s, &d));
        o.push(0x45);
        return (o, exactly(AmqpParseError::InvalidDescriptor(fv(&d))));
    }
    let n = *s.pick(names);
    bad_comp(s, n, depth - 1)
}
/// A composite with one fault in its list.
pub fn bad_comp(s: &mut Src, name: &str, depth: usize) -> Bad {
    let c = sc::comp(name);
    let mut parts: Vec<Vec<u8>> = vec![];
    let v = g::comp(s, name);
    let v = g::peer(s, &v);
    if let Desc(_, l) = &v {
        if let List(l) = &**l {
            for x in l {
                parts.push(free(s, x));
            }
        }
    }
    let mandatory: Vec<usize> = (0..c.fields.len()).filter(|&i| c.fields[i].mandatory).collect();
    let k = s.weighted(&[6, if mandatory.is_empty() { 0 } else { 2 }, 1, 1]);
    let (list, w) = match k {
        0 if !c.fields.is_empty() => {
            let i = s.idx(c.fields.len());
            while parts.len() <= i {
                parts.push(vec![0x40]);
            }
            let f = &c.fields[i];
            let (b, w) = bad_field(s, name, f.name, f.ty, depth);
            parts[i] = b;
            (compound(s, 0xd0, &parts), w)
        }
        1 if !mandatory.is_empty() => {
            let i = mandatory[s.idx(mandatory.len())];
            // everything before it is there
            parts.truncate(i);
            let n: &'static str = intern(&c.fields[i].name.replace('-', "_"));
            let l = if parts.is_empty() && s.bool() { vec![0x45] } else { compound(s, 0xd0, &parts) };
            (l, exactly(AmqpParseError::RequiredFieldOmitted(n)))
        }
        2 => small_size(s, 0xd0),
        _ => wrong_code(s, &[0x45, 0xc0, 0xd0]),
    };
    (described(s, c.code, c.sym, list), w)
}
fn verdict<T: Decode>(what: &str, b: &[u8], w: &Want) -> Res {
    match T::decode(b) {
        Ok(_) => Err(format!("{}: accepts {} (must report {})", what, hex(b), w.text)),
        Err(e) => named(what, b, &e, w),
    }
}
fn named(what: &str, b: &[u8], e: &AmqpParseError, w: &Want) -> Res {
    let got = format!("{:?}", e);
    if !w.is(&got) {
        return Err(format!("{}: {} is reported as {}, is {}", what, hex(b), got, w.text));
    }
    // the same error after cloning and on its way through the stream decoder's error
    let copy = e.clone();
    let up: AmqpCodecError = e.clone().into();
    if format!("{:?}", copy) != got || copy.to_string() != e.to_string() {
        return Err(format!("{}: clone of {} is {:?}", what, got, copy));
    }
    upper(what, &up, &got, &e.to_string())
}
fn upper(what: &str, up: &AmqpCodecError, got: &str, text: &str) -> Res {
    for x in [up, &up.clone()] {
        match x {
            AmqpCodecError::ParseError(y) if format!("{:?}", y) == got => {}
            y => return Err(format!("{}: {} becomes {:?}", what, got, y)),
        }
        if text.is_empty() || !x.to_string().contains(text) {
            return Err(format!("{}: {:?} is shown as {:?}", what, x, x.to_string()));
        }
    }
    Ok(())
}
fn streamed<F: Decode + amqp_codec::Encode>(what: &str, frame: &[u8], w: &Want) -> Res {
    let mut buf = BytesMut::from(frame.to_vec());
    match AmqpCodec::<F>::new().decode(&mut buf) {
        Err(AmqpCodecError::ParseError(e)) => named(what, frame, &e, w),
        r => Err(format!("{}: {} gives {:?}, is {}", what, hex(frame), r.map(|x| x.is_some()), w.text)),
    }
}
fn in_frame(s: &mut Src, ftype: u8, body: &[u8], w: &Want) -> Res {
    let e = g::ext(s);
    let ch = if ftype == 0 { s.int(16) as u16 } else { 0 };
    let f = g::frame_bytes(ftype, ch, &e, body);
    if ftype == 0 {
        verdict::<AmqpFrame>("AMQP frame", &f[4..], w)?;
        streamed::<AmqpFrame>("AMQP stream", &f, w)
    } else {
        verdict::<SaslFrame>("SASL frame", &f[4..], w)?;
        streamed::<SaslFrame>("SASL stream", &f, w)
    }
}
/// as a section of a message, after other sections
fn in_message(s: &mut Src, section: &[u8], w: &Want) -> Res {
    verdict::<p::Section>("section", section, w)?;
    let mut b = vec![];
    let n = s.below(3);
    for _ in 0..n {
        let x = kinds::section(s);
        let x = g::peer_section(s, &x);
        b.extend(free(s, &x));
    }
    b.extend_from_slice(section);
    verdict::<InMessage>("received message", &b, w)?;
    verdict::<OutMessage>("outgoing message", &b, w)
}
pub fn c27(s: &mut Src, ctx: &mut Ctx) -> Res {
    set_static_mode(0);
    ctx.nontrivial = true;
    match s.weighted(&[5, 6, 3, 2, 2, 2, 3]) {
        0 => {
            let (b, w) = bad_value(s, 4);
            ctx.label("value");
            ctx.desc(|| format!("{} in {}", w.text, hex(&b)));
            verdict::<t::Variant>("value", &b, &w)?;
            let k = s.below(6);
            match k {
                0 => {
                    let d = described(s, 0x77, "amqp:amqp-value:*", b);
                    in_message(s, &d, &w)
                }
                1 => {
                    let l = compound(s, 0xd0, &[b]);
                    verdict::<t::List>("list", &l, &w)?;
                    let d = described(s, 0x76, "amqp:amqp-sequence:list", l);
                    in_message(s, &d, &w)
                }
                2 => {
                    let key = g::text(s, 20);
                    let key = free(s, &Str(key));
                    let l = compound(s, 0xd1, &[key, b]);
                    verdict::<t::VecVariantMap>("ordered map", &l, &w)?;
                    verdict::<p::StringVariantMap>("string map", &l, &w)?;
                    let d = described(s, 0x74, "amqp:application-properties:map", l);
                    in_message(s, &d, &w)
                }
                3 => {
                    let key = g::symbol(s, 20);
                    let key = free(s, &Sym(key));
                    let l = compound(s, 0xd1, &[key, b]);
                    verdict::<p::Fields>("fields", &l, &w)?;
                    let n = *s.pick(&[0x71u64, 0x72, 0x78]);
                    let y = sc::SECTIONS.iter().find(|x| x.0 == n).unwrap().1;
                    let d = described(s, n, y, l);
                    in_message(s, &d, &w)
                }
                _ => {
                    verdict::<Option<t::Variant>>("optional value", &b, &w)
                }
            }
        }
        1 => {
            let names: Vec<&'static str> = sc::all().iter().map(|c| c.name).collect();
            let n = *s.pick(&names);
            let (b, w) = bad_comp(s, n, 2);
            ctx.label(n);
            ctx.desc(|| format!("{} in {}", w.text, hex(&b)));
            composite(s, n, &b, &w)
        }
        2 => {
            // the frame itself
            let f = g::frame(s);
            let v = match &f.perf {
                Some(v) => v.clone(),
                None => return Ok(()),
            };
            let name = sc::by_code(code_of(&v)).unwrap().name;
            let w = g::peer(s, &v);
            let body = free(s, &w);
            let e = g::ext(s);
            let mut b = g::frame_bytes(0, f.channel, &e, &body);
            ctx.label("frame");
            match s.below(6) {
                0 => {
                    let ft = 1 + s.below(255) as u8;
                    b[5] = ft;
                    ctx.desc(|| format!("frame type {}", ft));
                    let w = exactly(AmqpParseError::UnexpectedFrameType(ft));
                    verdict::<AmqpFrame>("frame", &b[4..], &w)?;
                    streamed::<AmqpFrame>("stream", &b, &w)?;
                    let back = if ft == 1 { 0 } else { ft };
                    b[5] = back;
                    streamed::<SaslFrame>("SASL stream", &b, &exactly(AmqpParseError::UnexpectedFrameType(back)))
                }
                1 => {
                    b[4] = s.below(2) as u8;
                    ctx.desc(|| format!("data offset {}", b[4]));
                    streamed::<AmqpFrame>("stream", &b, &exactly(AmqpParseError::InvalidSize))
                }
                2 => {
                    // data offset beyond the frame
                    let least = b.len() / 4 + 1;
                    if least > 255 {
                        return Ok(());
                    }
                    b[4] = (least + s.idx(256 - least)) as u8;
                    ctx.desc(|| format!("data offset {} of {} bytes", b[4], b.len()));
                    streamed::<AmqpFrame>("stream", &b, &incomplete())
                }
                3 => {
                    // bytes after the performative
                    if name == "transfer" {
                        return Ok(());
                    }
                    let n = 1 + s.below(40) as usize;
                    let mut body = body;
                    body.extend(s.fill(n));
                    let b = g::frame_bytes(0, f.channel, &e, &body);
                    ctx.desc(|| format!("{} bytes after {}", n, name));
                    let mut buf = BytesMut::from(b.clone());
                    match AmqpCodec::<AmqpFrame>::new().decode(&mut buf) {
                        Err(e @ AmqpCodecError::UnparsedBytesLeft) => {
                            if let AmqpCodecError::UnparsedBytesLeft = e.clone() {
                                if !e.to_string().is_empty() {
                                    return Ok(());
                                }
                            }
                            Err(format!("clone of {:?} is {:?}", e, e.clone()))
                        }
                        r => Err(format!("bytes left after {}: {:?}", name, r.map(|x| x.is_some()))),
                    }
                }
                4 => {
                    // ends inside the performative
                    let n = 1 + s.idx(body.len() - 1);
                    let b = g::frame_bytes(0, f.channel, &e, &body[..n]);
                    ctx.desc(|| format!("{} cut after {} of {}", name, n, body.len()));
                    streamed::<AmqpFrame>("stream", &b, &incomplete())
                }
                _ => {
                    let n = s.below(8) as u32;
                    b[..4].copy_from_slice(&n.to_be_bytes());
                    ctx.desc(|| format!("frame of {} bytes", n));
                    streamed::<AmqpFrame>("stream", &b, &exactly(AmqpParseError::InvalidSize))?;
                    streamed::<SaslFrame>("SASL stream", &b, &exactly(AmqpParseError::InvalidSize))
                }
            }
        }
        3 => {
            // descriptors nobody knows
            let d = if s.bool() { U64(s.int(64)) } else { Sym(g::symbol(s, 300)) };
            let known = sc::all().iter().any(|c| d == U64(c.code) || d == V::sym(c.sym)) || sc::SECTIONS.iter().any(|c| d == U64(c.0) || d == V::sym(c.1));
            if known {
                ctx.nontrivial = false;
                return Ok(());
            }
            ctx.label("descriptor");
            ctx.desc(|| show(&d));
            let mut b = vec![0];
            b.extend(free(s, &d));
            let x = g::value(s, 3);
            b.extend(free(s, &x));
            let w = exactly(AmqpParseError::InvalidDescriptor(fv(&d)));
            in_frame(s, 0, &b, &w)?;
            in_frame(s, 1, &b, &w)?;
            in_message(s, &b, &w)?;
            verdict::<p::DeliveryState>("delivery state", &b, &w)?;
            verdict::<p::Outcome>("outcome", &b, &w)
        }
        4 => {
            // something that is not described at all
            let (b, w) = wrong_code(s, &[0x00]);
            ctx.label("not described");
            ctx.desc(|| hex(&b));
            in_frame(s, 0, &b, &w)?;
            in_frame(s, 1, &b, &w)?;
            in_message(s, &b, &w)?;
            verdict::<p::DeliveryState>("delivery state", &b, &w)?;
            verdict::<p::Outcome>("outcome", &b, &w)
        }
        5 => {
            // nested beyond reason
            let n = 400 + s.below(600) as usize;
            let mut b = vec![0x40];
            for _ in 0..n {
                let k = s.below(3);
                b = match k {
                    0 => compound(s, 0xd0, &[b]),
                    1 => {
                        let key = free(s, &U8(1));
                        compound(s, 0xd1, &[key, b])
                    }
                    _ => {
                        let mut o = vec![0, 0x53, 7];
                        o.extend(b);
                        o
                    }
                };
            }
            ctx.label("nesting");
            ctx.desc(|| format!("{} levels", n));
            let w = exactly(AmqpParseError::NestingTooDeep);
            verdict::<t::Variant>("value", &b, &w)?;
            let d = described(s, 0x77, "amqp:amqp-value:*", b);
            in_message(s, &d, &w)
        }
        _ => {
            let k = kinds::pick(s);
            let v = (k.gen)(s);
            let v = kinds::peer_form(s, k, &v);
            let b = free(s, &v);
            let n = s.idx(b.len());
            ctx.label("truncation");
            ctx.desc(|| format!("{} cut after {} of {}", k.name, n, b.len()));
            match (k.dec)(&b[..n]) {
                Err(e) if e.starts_with("Incomplete") => Ok(()),
                Err(e) => Err(format!("{} cut after {} of {} bytes is reported as {}: {}", k.name, n, b.len(), e, hex(&b))),
                Ok(_) => Err(format!("{} cut after {} of {} bytes is accepted", k.name, n, b.len())),
            }
        }
    }
}
fn composite(s: &mut Src, n: &str, b: &[u8], w: &Want) -> Res {
    if n != "transfer" {
        match (kinds::by_name(&camel(n)).dec)(b) {
            Ok(_) => return Err(format!("{}: accepts {} (must report {})", n, hex(b), w.text)),
            Err(e) if w.is(&e) => {}
            Err(e) => return Err(format!("{}: {} is reported as {}, is {}", n, hex(b), e, w.text)),
        }
    }
    if sc::PERFORMATIVES.contains(&n) {
        verdict::<p::Frame>("performative", b, w)?;
        return in_frame(s, 0, b, w);
    }
    if sc::SASL.contains(&n) {
        verdict::<p::SaslFrameBody>("SASL body", b, w)?;
        return in_frame(s, 1, b, w);
    }
    if n == "header" || n == "properties" {
        return in_message(s, b, w);
    }
    if sc::STATES.contains(&n) {
        verdict::<p::DeliveryState>("delivery state", b, w)?;
        if sc::OUTCOMES.contains(&n) {
            verdict::<p::Outcome>("outcome", b, w)?;
        }
        let parts = [vec![0x41], vec![0x43], vec![0x40], vec![0x40], b.to_vec()];
        let l = compound(s, 0xd0, &parts);
        let d = described(s, 0x15, "amqp:disposition:list", l);
        verdict::<p::Disposition>("disposition", &d, w)?;
        return in_frame(s, 0, &d, w);
    }
    if n == "error" {
        let l = compound(s, 0xd0, &[b.to_vec()]);
        let d = described(s, 0x18, "amqp:close:list", l);
        return in_frame(s, 0, &d, w);
    }
    if n == "source" || n == "target" {
        let mut parts = vec![vec![0xa1, 1, b'n'], vec![0x43], vec![0x42], vec![0x40], vec![0x40]];
        if n == "target" {
            parts.push(vec![0x40]);
        }
        parts.push(b.to_vec());
        let l = compound(s, 0xd0, &parts);
        let d = described(s, 0x12, "amqp:attach:list", l);
        return in_frame(s, 0, &d, w);
    }
    Ok(())
}
/// every mandatory field left out, every enumeration given a value outside it, through every carrier
pub fn c27_fixed(ctx: &mut Ctx) -> Res {
    for c in sc::all() {
        for (i, f) in c.fields.iter().enumerate() {
            if !f.mandatory {
                continue;
            }
            let full = super::frames::all_singles().into_iter().find(|v| code_of(v) == c.code).ok_or("harness")?;
            let parts = match &full {
                Desc(_, l) => match &**l {
                    List(l) => l[..i].to_vec(),
                    _ => return Err("harness".into()),
                },
                _ => return Err("harness".into()),
            };
            let n: &'static str = intern(&f.name.replace('-', "_"));
            let w = exactly(AmqpParseError::RequiredFieldOmitted(n));
            let b = crate::refm::enc_compact(&V::desc(c.code, List(parts)));
            let mut s = Src::new(vec![], false, 1, Default::default(), std::ptr::null_mut());
            composite(&mut s, c.name, &b, &w)?;
            ctx.sub += 1;
        }
    }
    let io = AmqpCodecError::from(std::io::Error::new(std::io::ErrorKind::Other, "lost"));
    match (&io, io.clone()) {
        (AmqpCodecError::Io(Some(e)), AmqpCodecError::Io(_)) if e.to_string() == "lost" => {}
        x => return Err(format!("stream failure becomes {:?}", x)),
    }
    if io.to_string().is_empty() || io.clone().to_string().is_empty() {
        return Err("stream failure has no text".into());
    }
    Ok(())
}
