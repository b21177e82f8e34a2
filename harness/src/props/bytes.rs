//! C07 C08 C22: arbitrary bytes into every decoder.
use super::values::hex;
use crate::conv::*;
use crate::engine::{Ctx, Res};
use crate::gen as g;
use crate::kinds;
use crate::refm::V::{self, *};
use crate::refm::{enc_compact, same, show};
use crate::schema as sc;
use crate::src::Src;
use amqp_codec::protocol as p;
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, InMessage, OutMessage, ProtocolIdCodec, SaslFrame};
use bytes::BytesMut;
use tokio_io::codec::Decoder;

const CODES: &[u8] = &[
    0x00, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x60, 0x61, 0x70, 0x71, 0x72, 0x73, 0x74, 0x80, 0x81, 0x82, 0x83, 0x84, 0x94, 0x98,
    0xa0, 0xa1, 0xa3, 0xb0, 0xb1, 0xb3, 0xc0, 0xc1, 0xd0, 0xd1, 0xe0, 0xf0,
];
/// what a byte string was made for
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum For {
    Kind(usize),
    Frame,
    Sasl,
    Message,
    Any,
}
/// A well-formed item in some legal form.
pub fn valid(s: &mut Src) -> (For, Vec<u8>) {
    match s.weighted(&[5, 3, 1, 3]) {
        0 => {
            let k = kinds::pick(s);
            let i = kinds::kinds().iter().position(|x| x.name == k.name).unwrap();
            let v = (k.gen)(s);
            let w = kinds::peer_form(s, k, &v);
            let mut b = vec![];
            g::enc_free(s, &w, &mut b);
            (For::Kind(i), b)
        }
        1 => {
            let f = g::frame(s);
            let mut body = vec![];
            if let Some(p) = &f.perf {
                let w = g::peer(s, p);
                g::enc_free(s, &w, &mut body);
            }
            body.extend_from_slice(&f.payload);
            let e = g::ext(s);
            (For::Frame, g::frame_bytes(0, f.channel, &e, &body))
        }
        2 => {
            let n = *s.pick(sc::SASL);
            let v = g::comp(s, n);
            let mut body = vec![];
            let w = g::peer(s, &v);
            g::enc_free(s, &w, &mut body);
            (For::Sasl, g::frame_bytes(1, 0, &[], &body))
        }
        _ => {
            let m = g::message(s, true);
            let mut b = vec![];
            for x in m.on_wire().sections() {
                let w = g::peer_section(s, &x);
                g::enc_free(s, &w, &mut b);
            }
            (For::Message, b)
        }
    }
}
pub fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    let n = 1 + s.count(5);
    for _ in 0..n {
        if b.is_empty() {
            b.push(s.int(8) as u8);
            continue;
        }
        let len = b.len() as u64;
        // early bytes hold the structure
        let i = if s.bool() { s.below(len.min(40)) } else { s.below(len) } as usize;
        match s.below(9) {
            0 => b[i] = s.int(8) as u8,
            1 => b[i] = *s.pick(CODES),
            2 => b[i] ^= 1 << s.below(8),
            3 => b[i] = b[i].wrapping_add(if s.bool() { 1 } else { 255 }),
            4 => b.truncate(i),
            5 => {
                let k = 1 + s.below(4) as usize;
                let f = s.fill(k);
                for (j, x) in f.into_iter().enumerate() {
                    b.insert(i + j, x);
                }
            }
            6 => {
                let k = (1 + s.below(8) as usize).min(b.len() - i);
                b.drain(i..i + k);
            }
            7 => {
                let v = (s.int(32) as u32).to_be_bytes();
                for (j, x) in v.iter().enumerate() {
                    if i + j < b.len() {
                        b[i + j] = *x;
                    }
                }
            }
            _ => {
                let k = (1 + s.below(30) as usize).min(b.len() - i);
                let c = b[i..i + k].to_vec();
                let at = s.below(b.len() as u64 + 1) as usize;
                for (j, x) in c.into_iter().enumerate() {
                    b.insert(at + j, x);
                }
            }
        }
    }
}
/// Constructors with sizes and counts of their own choosing.
fn contradictory(s: &mut Src, depth: usize, out: &mut Vec<u8>) {
    if out.len() > 4000 {
        return;
    }
    let f = match s.weighted(&[6, 4, 3, 1]) {
        0 => *s.pick(&[0xc0u8, 0xd0, 0xc1, 0xd1, 0xe0, 0xf0]),
        1 => *s.pick(CODES),
        2 => 0,
        _ => s.int(8) as u8,
    };
    out.push(f);
    match f {
        0 => {
            match s.below(4) {
                0 => out.extend([0x53, s.int(8) as u8]),
                1 => out.push(0x44),
                2 => out.extend([0xa3, 1, b'x']),
                _ => contradictory(s, depth.saturating_sub(1), out),
            }
            if depth > 0 {
                contradictory(s, depth - 1, out)
            }
        }
        0xc0 | 0xc1 | 0xe0 | 0xd0 | 0xd1 | 0xf0 => {
            let mut body = vec![];
            if depth > 0 {
                for _ in 0..s.below(4) {
                    contradictory(s, depth - 1, &mut body);
                }
            }
            let near = |s: &mut Src, x: usize| -> u64 {
                match s.below(5) {
                    0 => x as u64,
                    1 => (x as u64).wrapping_add(s.below(5)).wrapping_sub(2),
                    2 => s.below(6),
                    3 => s.int(32),
                    _ => s.int(8),
                }
            };
            let wide = f & 0x10 != 0;
            let size = near(s, body.len() + if wide { 4 } else { 1 });
            let count = near(s, 2);
            if wide {
                out.extend((size as u32).to_be_bytes());
                out.extend((count as u32).to_be_bytes());
            } else {
                out.push(size as u8);
                out.push(count as u8);
            }
            if f & 0xf0 == 0xe0 || f == 0xf0 {
                out.push(*s.pick(CODES));
            }
            out.extend(body);
        }
        0xa0 | 0xa1 | 0xa3 => {
            let n = s.below(6) as usize;
            out.push(if s.bool() { n as u8 } else { s.int(8) as u8 });
            out.extend(s.fill(n));
        }
        0xb0 | 0xb1 | 0xb3 => {
            let n = s.below(6) as usize;
            out.extend((if s.bool() { n as u32 } else { s.int(32) as u32 }).to_be_bytes());
            out.extend(s.fill(n));
        }
        f => {
            let w = match f >> 4 {
                5 => 1,
                6 => 2,
                7 => 4,
                8 => 8,
                9 => 16,
                _ => 0,
            };
            let w = if s.chance(10) { s.below(w + 1) } else { w } as usize;
            out.extend(s.fill(w));
        }
    }
}
/// Very deep nesting, honest or not about sizes.
pub fn deep(n: usize, how: u64, honest: bool) -> Vec<u8> {
    let mut open: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let k = if how == 5 { (i % 5) as u64 } else { how };
        open.push(match k {
            0 => vec![0xd0, 0, 0, 0, 0, 0, 0, 0, 1],
            1 => vec![0x00, 0x44],
            2 => vec![0xd1, 0, 0, 0, 0, 0, 0, 0, 2, 0x40],
            3 => vec![0x00, 0xa3, 1, b'd'],
            _ => vec![0xc0, 0xff, 1],
        });
    }
    // sizes from the inside out
    let mut inner = 1usize;
    for o in open.iter_mut().rev() {
        if o[0] == 0xd0 || o[0] == 0xd1 {
            let size = if honest { inner + o.len() - 5 } else { 0x7fff_ffff };
            let b = (size as u32).to_be_bytes();
            o[1..5].copy_from_slice(&b);
        }
        inner += o.len();
    }
    let mut b: Vec<u8> = open.concat();
    b.push(0x40);
    b
}
pub fn input(s: &mut Src, ctx: &mut Ctx) -> (For, Vec<u8>) {
    match s.weighted(&[2, 6, 6, 1]) {
        0 => {
            let n = s.len(300);
            let mut b = s.fill(n);
            if n > 0 && s.chance(70) {
                b[0] = *s.pick(CODES);
            }
            ctx.label("random bytes");
            (For::Any, b)
        }
        1 => {
            s.budget = 3000;
            let (f, mut b) = valid(s);
            mutate(s, &mut b);
            ctx.label("mutated encoding");
            (f, b)
        }
        2 => {
            let mut b = vec![];
            match s.weighted(&[4, 2, 1]) {
                0 => {
                    contradictory(s, 5, &mut b);
                    ctx.label("contradictory sizes");
                    (For::Any, b)
                }
                1 => {
                    // inside a composite, section or frame
                    let c = &sc::all()[s.idx(sc::all().len())];
                    let mut inner = vec![];
                    for _ in 0..s.below(5) {
                        contradictory(s, 3, &mut inner);
                    }
                    b.extend([0, 0x53, c.code as u8, 0xd0]);
                    b.extend((inner.len() as u32 + 4).to_be_bytes());
                    b.extend((c.fields.len() as u32).min(s.below(16) as u32).to_be_bytes());
                    b.extend(inner);
                    ctx.label("contradictory composite");
                    if sc::PERFORMATIVES.contains(&c.name) {
                        (For::Frame, g::frame_bytes(0, 0, &[], &b))
                    } else if sc::SASL.contains(&c.name) {
                        (For::Sasl, g::frame_bytes(1, 0, &[], &b))
                    } else {
                        (For::Any, b)
                    }
                }
                _ => {
                    let sec = sc::SECTIONS[s.idx(9)];
                    b.extend([0, 0x53, sec.0 as u8]);
                    contradictory(s, 4, &mut b);
                    ctx.label("contradictory section");
                    (For::Message, b)
                }
            }
        }
        _ => {
            let n = match s.below(3) {
                0 => s.below(400),
                1 => s.below(5000),
                _ => s.below(60_000),
            } as usize;
            let how = s.below(6);
            let honest = s.chance(70);
            let mut b = deep(n, how, honest);
            ctx.label("deep nesting");
            let f = match s.below(4) {
                0 => For::Any,
                1 => {
                    let mut x = vec![0, 0x53, 0x77];
                    x.extend(b);
                    b = x;
                    For::Message
                }
                2 => {
                    let mut x = vec![0, 0x53, 0x12, 0xd0];
                    x.extend((b.len() as u32 + 20).to_be_bytes());
                    x.extend([0, 0, 0, 8, 0xa1, 0, 0x43, 0x41, 0x40, 0x40, 0x40, 0x40]);
                    x.extend(b);
                    b = g::frame_bytes(0, 0, &[], &x);
                    For::Frame
                }
                _ => {
                    if s.bool() {
                        b.truncate(b.len() / 2);
                    }
                    For::Any
                }
            };
            (f, b)
        }
    }
}
/// A direct array whose elements take no bytes, declaring very many of them (recorded under C08).
pub fn zero_width_bomb(b: &[u8]) -> bool {
    let (w, at) = match b.first() {
        Some(0xe0) => (1, 2),
        Some(0xf0) => (4, 5),
        _ => return false,
    };
    if b.len() < at + w + 1 {
        return false;
    }
    let count = b[at..at + w].iter().fold(0u64, |a, x| a << 8 | *x as u64);
    (0x40..=0x45).contains(&b[at + w]) && count > 65_536
}
pub fn drain<X: Decode + amqp_codec::Encode>(s: &mut Src, b: &[u8]) -> Res {
    let mut c = AmqpCodec::<X>::new();
    let mut buf = BytesMut::new();
    let step = if s.bool() { b.len().max(1) } else { (1 + s.below(40) as usize).max(b.len() / 50) };
    let mut results = 0;
    for part in b.chunks(step) {
        buf.extend_from_slice(part);
        loop {
            match c.decode(&mut buf) {
                Ok(None) => break,
                _ => {
                    results += 1;
                    if results > b.len() + 8 {
                        return Err("the stream codec reports results without consuming input".into());
                    }
                }
            }
        }
    }
    let _ = c.decode_eof(&mut buf);
    Ok(())
}
fn everything(s: &mut Src, f: For, b: &[u8], ctx: &mut Ctx) -> Res {
    let ks = kinds::kinds();
    let bomb = zero_width_bomb(b);
    let skip = |k: &kinds::Kind| k.vec && bomb;
    let mut accepted = 0;
    let mut run = |i: usize| {
        if !skip(&ks[i]) {
            accepted += (ks[i].touch)(b) as u32;
        }
    };
    if let For::Kind(i) = f {
        run(i);
    }
    if b.len() < 400 && s.chance(30) {
        for i in 0..ks.len() {
            run(i);
        }
    } else {
        for _ in 0..6 {
            run(s.idx(ks.len()));
        }
        run(ks.iter().position(|k| k.name == "Variant").unwrap());
    }
    let body = if b.len() >= 4 { &b[4..] } else { b };
    match f {
        For::Frame => {
            accepted += AmqpFrame::decode(body).is_ok() as u32;
            accepted += SaslFrame::decode(body).is_ok() as u32;
            drain::<AmqpFrame>(s, b)?;
        }
        For::Sasl => {
            accepted += SaslFrame::decode(body).is_ok() as u32;
            accepted += AmqpFrame::decode(body).is_ok() as u32;
            drain::<SaslFrame>(s, b)?;
        }
        For::Message => {
            accepted += InMessage::decode(b).is_ok() as u32;
            accepted += OutMessage::decode(b).is_ok() as u32;
        }
        _ => {
            accepted += AmqpFrame::decode(b).is_ok() as u32;
            accepted += SaslFrame::decode(b).is_ok() as u32;
            accepted += p::Frame::decode(b).is_ok() as u32;
            accepted += InMessage::decode(b).is_ok() as u32;
            accepted += OutMessage::decode(b).is_ok() as u32;
            accepted += (!bomb && Vec::<amqp_codec::types::Variant>::decode(b).is_ok()) as u32;
            drain::<AmqpFrame>(s, b)?;
            drain::<SaslFrame>(s, b)?;
            let mut c = ProtocolIdCodec;
            let mut buf = BytesMut::from(b);
            for _ in 0..4 {
                let _ = c.decode(&mut buf);
            }
        }
    }
    if accepted > 0 {
        ctx.label("accepted by some decoder");
    }
    Ok(())
}
pub fn c07(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (f, b) = input(s, ctx);
    ctx.nontrivial = b.len() > 1;
    ctx.desc(|| format!("{:?} {}", f, hex(&b)));
    everything(s, f, &b, ctx).map_err(|e| format!("{} for {}", e, hex(&b)))
}
/// every one-, two- and (after a constructor) three-byte input into every decoder
pub fn c07_short(ctx: &mut Ctx) -> Res {
    let ks = kinds::kinds();
    let go = |b: &[u8]| {
        for k in ks {
            if !(k.vec && zero_width_bomb(b)) {
                (k.touch)(b);
            }
        }
        let _ = AmqpFrame::decode(b);
        let _ = SaslFrame::decode(b);
        let _ = p::Frame::decode(b);
        let _ = InMessage::decode(b);
        let _ = OutMessage::decode(b);
    };
    go(&[]);
    for a in 0..=255u8 {
        go(&[a]);
        for b in 0..=255u8 {
            go(&[a, b]);
            ctx.sub += 1;
        }
    }
    for &a in CODES {
        for b in (0..8).chain([0x40, 0x43, 0x44, 0x45, 0x53, 0x7f, 0x80, 0xa3, 0xc0, 0xc1, 0xd0, 0xd1, 0xe0, 0xf0, 0xff]) {
            for c in (0..8).chain([0x40, 0x43, 0x44, 0x45, 0x53, 0x7f, 0x80, 0xa3, 0xc0, 0xc1, 0xd0, 0xd1, 0xe0, 0xf0, 0xff]) {
                go(&[a, b, c]);
                for d in [0, 1, 2, 0x40, 0x41, 0x45, 0x53, 0x56, 0xa1, 0xc0, 0xff] {
                    go(&[a, b, c, d]);
                    go(&[a, b, c, d, 0, 0, 0, 0, 0, 0, 0, 0]);
                    ctx.sub += 3;
                }
            }
        }
    }
    // wide headers at their extremes
    for &a in &[0xb0u8, 0xb1, 0xb3, 0xd0, 0xd1, 0xf0] {
        for size in [0u32, 1, 2, 3, 4, 5, 6, 8, 9, 0x7fff_ffff, 0x8000_0000, 0xffff_fffb, 0xffff_fffc, 0xffff_ffff] {
            for count in [0u32, 1, 2, 3, 16, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff] {
                for tail in [&[][..], &[0x40], &[0x41], &[0x50, 1], &[0x40, 0x40, 0x40, 0x40, 0x40], &[0; 20]] {
                    let mut b = vec![a];
                    b.extend(size.to_be_bytes());
                    b.extend(count.to_be_bytes());
                    b.extend(tail);
                    for cut in [b.len(), 9.min(b.len()), 8, 6, 5, 3] {
                        go(&b[..cut.min(b.len())]);
                    }
                    ctx.sub += 1;
                }
            }
        }
    }
    // timestamps at the ends of the line
    for x in [i64::MIN, i64::MIN + 1, -1 - (1 << 62), -8_334_632_851_200_001, -62_135_596_800_001, -1001, -1000, -999, -1, 0, 999, 1 << 43, 8_210_298_412_800_000, 1 << 62, i64::MAX - 1, i64::MAX] {
        go(&enc_compact(&Ts(x)));
        go(&[&[0x00, 0x53, 0x77][..], &enc_compact(&List(vec![Ts(x)]))].concat());
        go(&enc_compact(&Arr(0x83, vec![Ts(x)])));
    }
    // maps as keys
    let m = Map(vec![(V::s("a"), Null)]);
    go(&enc_compact(&Map(vec![(m.clone(), Null), (List(vec![m.clone()]), Null), (Desc(Box::new(U64(1)), Box::new(m)), Null)])));
    Ok(())
}
pub fn c07_deep(ctx: &mut Ctx) -> Res {
    for n in [10usize, 60, 100, 127, 128, 129, 200, 1000, 20_000, 150_000] {
        for how in 0..6 {
            for honest in [true, false] {
                let b = deep(n, how, honest);
                for name in ["Variant", "List", "Map", "Fields", "VecVariantMap"] {
                    (kinds::by_name(name).touch)(&b);
                }
                for pre in [&[0u8, 0x53, 0x77][..], &[0, 0x53, 0x76], &[0, 0x53, 0x71]] {
                    let m = [pre, &b].concat();
                    let _ = InMessage::decode(&m);
                    let _ = OutMessage::decode(&m);
                }
                // as a map key or value, and inside an unsettled map of an attach
                let mut k = vec![0xd1];
                k.extend((b.len() as u32 + 5).to_be_bytes());
                k.extend([0, 0, 0, 2]);
                k.extend(&b);
                k.push(0x40);
                (kinds::by_name("Variant").touch)(&k);
                ctx.sub += 1;
            }
        }
    }
    Ok(())
}

// ---------- C08 ----------
fn bound(n: usize) -> usize {
    512 * n + (1 << 20)
}
fn measured<R, F: FnOnce() -> R>(what: &str, n: usize, f: F) -> Result<R, String> {
    let m = crate::alloc_mark();
    let r = f();
    let peak = crate::alloc_peak_since(m);
    if peak > bound(n) {
        return Err(format!("{}: {} bytes allocated for {} bytes of input", what, peak, n));
    }
    Ok(r)
}
fn weigh(i: usize, b: &[u8]) -> Res {
    let k = &kinds::kinds()[i];
    if k.vec && zero_width_bomb(b) {
        return Ok(());
    }
    measured(k.name, b.len(), || (k.touch)(b)).map(|_| ())
}
fn weigh_all(f: For, b: &[u8], picks: &[usize]) -> Res {
    for &i in picks {
        weigh(i, b)?;
    }
    if let For::Kind(i) = f {
        weigh(i, b)?;
    }
    let body = if b.len() >= 4 { &b[4..] } else { b };
    measured("AmqpFrame", b.len(), || AmqpFrame::decode(body).is_ok())?;
    measured("SaslFrame", b.len(), || SaslFrame::decode(body).is_ok())?;
    measured("Frame", b.len(), || p::Frame::decode(b).is_ok())?;
    measured("InMessage", b.len(), || InMessage::decode(b).is_ok())?;
    measured("OutMessage", b.len(), || OutMessage::decode(b).is_ok())?;
    Ok(())
}
/// honest but dense: as many elements as the bytes allow
fn dense(s: &mut Src) -> Vec<u8> {
    let n = s.len(60_000);
    let unit: Vec<u8> = match s.below(8) {
        0 => vec![0x40],
        1 => vec![0x45],
        2 => vec![0xa0, 0],
        3 => vec![0xc1, 1, 0],
        4 => vec![0xc0, 1, 0],
        5 => vec![0x00, 0x44, 0x40],
        6 => vec![0x50, 7],
        _ => vec![0xc1, 3, 2, 0x40, 0x40],
    };
    let count = n / unit.len();
    let map = s.bool();
    let mut body = vec![];
    for i in 0..count {
        if map {
            body.push(0x70);
            body.extend((i as u32).to_be_bytes());
        }
        body.extend(&unit);
    }
    let mut b = vec![if map { 0xd1 } else { 0xd0 }];
    b.extend((body.len() as u32 + 4).to_be_bytes());
    b.extend((count as u32 * if map { 2 } else { 1 }).to_be_bytes());
    b.extend(body);
    b
}
/// A stream decoder fed in pieces: what it sets aside, before the bytes are there.
fn weigh_stream<T: Decode + amqp_codec::Encode>(what: &str, b: &[u8], cuts: &[usize]) -> Res {
    let m = crate::alloc_mark();
    let mut c = AmqpCodec::<T>::new();
    let mut buf = BytesMut::with_capacity(16);
    let mut at = 0;
    for &n in cuts.iter().chain(&[b.len()]) {
        let to = (at + n).min(b.len());
        buf.reserve(to - at);
        buf.extend_from_slice(&b[at..to]);
        at = to;
        loop {
            let was = buf.len();
            let r = c.decode(&mut buf);
            let peak = crate::alloc_peak_since(m);
            if peak > bound(at) {
                return Err(format!("{}: {} bytes allocated after {} bytes of stream", what, peak, at));
            }
            match r {
                Ok(None) => break,
                Err(_) if buf.len() == was => break,
                _ => {}
            }
        }
    }
    Ok(())
}
fn stream(s: &mut Src) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..1 + s.below(4) {
        match s.below(4) {
            // a frame that never comes to its end
            0 => {
                let size = match s.below(4) {
                    0 => 0xffff_ffff,
                    1 => 0x7fff_ffff,
                    2 => 8 + s.int(24),
                    _ => s.int(32),
                };
                b.extend((size as u32).to_be_bytes());
                b.extend(&[2, s.below(2) as u8, 0, 0][..1 + s.below(4) as usize]);
                let n = s.len(300);
                for _ in 0..n {
                    b.push(s.below(256) as u8);
                }
            }
            1 => {
                let (_, x) = valid(s);
                b.extend(g::frame_bytes(s.below(2) as u8, 0, &[], &x));
            }
            2 => {
                let f = g::frame(s);
                let mut body = vec![];
                if let Some(p) = &f.perf {
                    body = enc_compact(p);
                }
                body.extend_from_slice(&f.payload);
                let e = g::ext(s);
                b.extend(g::frame_bytes(0, f.channel, &e, &body));
            }
            _ => b.extend(&[0, 0, 0, 8, 2, 0, 0, 0]),
        }
    }
    b
}
pub fn c08(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.chance(12) {
        ctx.label("stream");
        let b = stream(s);
        ctx.nontrivial = b.len() > 4;
        let cuts: Vec<usize> = (0..s.below(12)).map(|_| 1 + s.below(12) as usize).collect();
        ctx.desc(|| format!("stream {} in {:?}", hex(&b), cuts));
        let r = if s.bool() { weigh_stream::<AmqpFrame>("AmqpCodec<AmqpFrame>", &b, &cuts) } else { weigh_stream::<SaslFrame>("AmqpCodec<SaslFrame>", &b, &cuts) };
        return r.map_err(|e| format!("{} {}", e, hex(&b)));
    }
    let (f, b) = if s.chance(15) {
        ctx.label("dense");
        (For::Any, dense(s))
    } else {
        input(s, ctx)
    };
    ctx.nontrivial = b.len() > 4;
    ctx.desc(|| format!("{:?} {}", f, hex(&b)));
    let ks = kinds::kinds();
    let mut picks: Vec<usize> = (0..8).map(|_| s.idx(ks.len())).collect();
    for n in ["Variant", "List", "Map"] {
        picks.push(ks.iter().position(|k| k.name == n).unwrap());
    }
    if b.len() < 200 && s.chance(30) {
        picks = (0..ks.len()).collect();
    }
    weigh_all(f, &b, &picks).map_err(|e| format!("{} {}", e, hex(&b)))
}
/// every compound constructor with inflated counts, at every level a decoder reads one
pub fn c08_counts(ctx: &mut Ctx) -> Res {
    let ks = kinds::kinds();
    let all: Vec<usize> = (0..ks.len()).collect();
    for code in [0xd0u8, 0xd1, 0xf0, 0xc0, 0xc1, 0xe0] {
        for count in [255u32, 1 << 16, 1 << 20, 1 << 24, 1 << 28, 0x7fff_fffe, 0xffff_fffe] {
            for size in [4u32, 9, 100, 0x7fff_fff0, 0xffff_ffff] {
                for tail in [&[][..], &[0x40; 4], &[0x70, 0, 0, 0, 1, 0, 0, 0, 1], &[0xb3, 0, 0, 0, 0], &[0xa3, 1, b'x', 0x40], &[0xd1, 0, 0, 0, 4, 0, 0, 0, 0]] {
                    let mut b = vec![code];
                    if code & 0x10 != 0 {
                        b.extend(size.to_be_bytes());
                        b.extend(count.to_be_bytes());
                    } else {
                        b.push(size as u8);
                        b.push(count as u8);
                    }
                    b.extend(tail);
                    weigh_all(For::Any, &b, &all)?;
                    // as a section's content, and as an application property
                    for sec in sc::SECTIONS {
                        let m = [&[0, 0x53, sec.0 as u8][..], &b].concat();
                        weigh_all(For::Message, &m, &[])?;
                    }
                    // as each field of each composite
                    if size == 9 || size == 0xffff_ffff {
                        for c in sc::all() {
                            for i in 0..c.fields.len() {
                                let mut x = vec![0x40; i];
                                for (j, f) in c.fields[..i].iter().enumerate() {
                                    if f.mandatory {
                                        x[j] = 0x40;
                                    }
                                }
                                x.extend(&b);
                                let mut y = vec![0, 0x53, c.code as u8, 0xd0];
                                y.extend((x.len() as u32 + 4).to_be_bytes());
                                y.extend((i as u32 + 1).to_be_bytes());
                                y.extend(x);
                                measured(c.name, y.len(), || p::Frame::decode(&y).is_ok())?;
                                measured(c.name, y.len(), || p::Section::decode(&y).is_ok())?;
                                measured(c.name, y.len(), || p::SaslFrameBody::decode(&y).is_ok())?;
                                ctx.sub += 1;
                            }
                        }
                    }
                }
            }
        }
    }
    // announced counts and lengths over the whole range, about one percent apart
    let mut n = 4096u64;
    while n <= u32::MAX as u64 {
        for code in [0xd0u8, 0xd1, 0xf0, 0xb0, 0xb1, 0xb3] {
            let mut b = vec![code];
            if code < 0xc0 {
                b.extend((n as u32).to_be_bytes());
            } else {
                b.extend(0x7fff_fff0u32.to_be_bytes());
                b.extend((n as u32).to_be_bytes());
                b.push(if code == 0xf0 { 0xa3 } else { 0xa1 });
            }
            b.extend([1, b'x', 0x40, 0xa1, 1, b'y', 0x40]);
            let short = [&[code], &100u32.to_be_bytes()[..], &b[5..]].concat();
            let honest = [&[code], &(b.len() as u32 - 5).to_be_bytes()[..], &b[5..]].concat();
            for x in [&b, &short, &honest] {
                weigh_all(For::Any, x, &all)?;
                for c in [0x10u8, 0x14, 0x30, 0x40, 0x70, 0x74, 0x75, 0x76, 0x77] {
                    let m = [&[0, 0x53, c][..], x].concat();
                    weigh_all(For::Message, &m, &[])?;
                }
            }
        }
        let size = [&(n as u32).to_be_bytes()[..], &[2, 0, 0, 0], &[0x40; 12]].concat();
        weigh_stream::<AmqpFrame>("AmqpCodec<AmqpFrame>", &size, &[8, 4])?;
        weigh_stream::<SaslFrame>("AmqpCodec<SaslFrame>", &size, &[9])?;
        ctx.sub += 14;
        n += n / 97;
    }
    for size in [0x0010_0000u32, 0x0100_0000, 0x4000_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff] {
        for n in 0..20usize {
            let b = [&size.to_be_bytes()[..], &[2, 0, 0, 0], &[0x40; 20][..n]].concat();
            weigh_stream::<AmqpFrame>("AmqpCodec<AmqpFrame>", &b, &[])?;
            weigh_stream::<AmqpFrame>("AmqpCodec<AmqpFrame>", &b, &[1; 24])?;
            weigh_stream::<SaslFrame>("AmqpCodec<SaslFrame>", &b, &[4, 4])?;
        }
    }
    // inflated counts at every level of a nest
    for n in [2usize, 20, 100, 127] {
        for how in [0u64, 2] {
            let mut b = deep(n, how, true);
            let step = if how == 0 { 9 } else { 10 };
            for i in 0..n {
                b[i * step + 5..i * step + 9].copy_from_slice(&0x7fff_fffeu32.to_be_bytes());
            }
            weigh_all(For::Any, &b, &all)?;
        }
    }
    Ok(())
}
/// Direct arrays of elements without content: the recorded finding.
pub fn c08_zero_width(_: &mut Ctx) -> Res {
    for (name, ctor) in [("Vec<bool>", 0x41u8), ("Vec<u32>", 0x43), ("Vec<u64>", 0x44)] {
        let mut b = vec![0xf0, 0, 0, 0, 5];
        b.extend((1u32 << 24).to_be_bytes());
        b.push(ctor);
        let k = kinds::by_name(name);
        measured(name, b.len(), || (k.touch)(&b))?;
    }
    Ok(())
}

// ---------- C22 ----------
pub fn c22(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.budget = 6000;
    let (f, b) = match s.weighted(&[3, 4, 2]) {
        0 => {
            ctx.label("legal form");
            valid(s)
        }
        1 => {
            let (f, mut b) = valid(s);
            mutate(s, &mut b);
            ctx.label("mutated encoding");
            (f, b)
        }
        _ => input(s, ctx),
    };
    ctx.desc(|| format!("{:?} {}", f, hex(&b)));
    let ks = kinds::kinds();
    let mut did = false;
    let mut picks: Vec<usize> = (0..4).map(|_| s.idx(ks.len())).collect();
    if let For::Kind(i) = f {
        picks.push(i);
    }
    picks.push(ks.iter().position(|k| k.name == "Variant").unwrap());
    for i in picks {
        if !(ks[i].vec && zero_width_bomb(&b)) {
            did |= relay_kind(&ks[i], &b)?;
        }
    }
    let body = if b.len() >= 4 { &b[4..] } else { &b[..] };
    if f == For::Frame || f == For::Any {
        did |= relay_frame(body)?;
        did |= relay_sasl(body)?;
    }
    if f == For::Sasl {
        did |= relay_sasl(body)?;
    }
    if f == For::Message || f == For::Any {
        did |= relay_msg::<InMessage>(&b)?;
        did |= relay_msg::<OutMessage>(&b)?;
    }
    if did {
        ctx.label("accepted by some decoder");
    }
    ctx.nontrivial = did && b.len() > 2;
    Ok(())
}
fn relay_kind(k: &kinds::Kind, b: &[u8]) -> Result<bool, String> {
    let (v, _, n, e) = match (k.relay)(b) {
        Some(x) => x,
        None => return Ok(false),
    };
    let what = || format!("{} {} read as {}", k.name, hex(b), show(&v));
    if n != e.len() {
        return Err(format!("{}: re-encoding announces {} bytes and writes {}", what(), n, e.len()));
    }
    let (w, left, n2, e2) = (k.relay)(&e).ok_or_else(|| format!("{}: re-encoding {} is rejected", what(), hex(&e)))?;
    if left != 0 {
        return Err(format!("{}: {} bytes of the re-encoding left", what(), left));
    }
    same(&what(), &w, &v)?;
    if n2 != n || e2.len() != e.len() {
        return Err(format!("{}: encoded again in {} bytes instead of {}", what(), e2.len(), e.len()));
    }
    let (x, _, _, _) = (k.relay)(&e2).ok_or_else(|| format!("{}: second re-encoding is rejected", what()))?;
    same(&what(), &x, &v)?;
    Ok(true)
}
fn relay_frame(b: &[u8]) -> Result<bool, String> {
    let x = match dec::<AmqpFrame>(b) {
        Ok((x, _)) => x,
        Err(_) => return Ok(false),
    };
    let v = view_frame(&x);
    let (n, e) = enc_of(&x);
    if n != e.len() {
        return Err(format!("frame {}: re-encoding announces {} bytes and writes {}", hex(b), n, e.len()));
    }
    let (y, left) = dec::<AmqpFrame>(&e[4..]).map_err(|r| format!("frame {}: re-encoding {} is rejected: {}", hex(b), hex(&e), r))?;
    if left != 0 {
        return Err("bytes of a relayed frame left".into());
    }
    frames_same("relayed frame", &view_frame(&y), &v)?;
    let (m, e2) = enc_of(&y);
    if m != n || e2.len() != e.len() {
        return Err(format!("frame {}: encoded again in {} bytes instead of {}", hex(b), m, n));
    }
    Ok(true)
}
fn relay_sasl(b: &[u8]) -> Result<bool, String> {
    let x = match dec::<SaslFrame>(b) {
        Ok((x, _)) => x,
        Err(_) => return Ok(false),
    };
    let (n, e) = enc_of(&x);
    if n != e.len() {
        return Err(format!("sasl frame {}: re-encoding announces {} bytes and writes {}", hex(b), n, e.len()));
    }
    let (y, left) = dec::<SaslFrame>(&e[4..]).map_err(|r| format!("sasl frame {}: re-encoding {} is rejected: {}", hex(b), hex(&e), r))?;
    if left != 0 {
        return Err("bytes of a relayed sasl frame left".into());
    }
    same("relayed sasl frame", &y.body.v(), &x.body.v())?;
    Ok(true)
}
/// all text keys a map in these bytes could have
fn keys_in(b: &[u8]) -> Vec<String> {
    let mut o = vec![];
    for i in 0..b.len() {
        let r = match b[i] {
            0xa1 if i + 1 < b.len() => (i + 2, b[i + 1] as usize),
            0xb1 if i + 4 < b.len() => (i + 5, u32::from_be_bytes([b[i + 1], b[i + 2], b[i + 3], b[i + 4]]) as usize),
            _ => continue,
        };
        if r.1 <= b.len() && r.0 + r.1 <= b.len() {
            if let Ok(t) = std::str::from_utf8(&b[r.0..r.0 + r.1]) {
                if !o.iter().any(|x| x == t) {
                    o.push(t.to_string());
                }
            }
        }
    }
    o
}
fn relay_msg<M: Msg>(b: &[u8]) -> Result<bool, String> {
    let x = match dec::<M>(b) {
        Ok((x, _)) => x,
        Err(_) => return Ok(false),
    };
    let keys = keys_in(b);
    let what = || format!("{} {}", M::NAME, hex(b));
    let v = view_msg(&x, &keys);
    let (n, e) = enc_of(&x);
    if n != e.len() {
        return Err(format!("{}: re-encoding announces {} bytes and writes {}", what(), n, e.len()));
    }
    let (y, left) = dec::<M>(&e).map_err(|r| format!("{}: re-encoding {} is rejected: {}", what(), hex(&e), r))?;
    if left != 0 {
        return Err(format!("{}: bytes of the relayed message left", what()));
    }
    mv_same(&what(), &view_msg(&y, &keys), &v.on_wire())?;
    let (n2, e2) = enc_of(&y);
    if n2 != n || e2.len() != e.len() {
        return Err(format!("{}: encoded again in {} bytes instead of {}", what(), n2, n));
    }
    // annotations and footer have no getters: compare what the two encodings say
    match (parse_message(&e), parse_message(&e2)) {
        (Ok(a), Ok(b)) => mv_same(&format!("{} relayed twice", what()), &b, &a)?,
        (Err(_), Err(_)) => {}
        (a, b) => return Err(format!("{}: only one of two relays is well-formed: {:?} {:?}", what(), a.err(), b.err())),
    }
    // and against the bytes received, where those are well-formed
    if let (Ok(a), Ok(b)) = (parse_message(b), parse_message(&e)) {
        mv_same(&format!("{} relayed", what()), &b, &a.on_wire())?;
    }
    Ok(true)
}
