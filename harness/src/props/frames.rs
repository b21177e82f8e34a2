//! C02 C03 C09 C10 C11 C16 C17: frames, streams, composites, descriptors.
use super::values::{hex, strict_frame};
use crate::conv::*;
use crate::engine::{Ctx, Res};
use crate::gen as g;
use crate::kinds;
use crate::refm::V::{self, *};
use crate::refm::{enc, enc_compact, same, show};
use crate::schema::{self as sc, T};
use crate::src::Src;
use amqp_codec::protocol as p;
use amqp_codec::types as t;
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, ProtocolIdCodec, ProtocolIdError, SaslFrame};
use bytes::BytesMut;
use futures::{Async, Stream};
use std::io::{self, Read};
use tokio_io::codec::{Decoder, Encoder, FramedRead};
use tokio_io::AsyncRead;

// ---------- C02 ----------
pub fn c02(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mode = s.weighted(&[3, 1, 2]) as u8;
    set_static_mode(mode);
    let f = g::frame(s);
    ctx.nontrivial = f.perf.is_some();
    ctx.desc(|| format!("ch {} {} +{}", f.channel, f.perf.as_ref().map(show).unwrap_or_default(), f.payload.len()));
    one_frame(&f, mode, ctx)
}
fn one_frame(f: &FrameV, mode: u8, ctx: &mut Ctx) -> Res {
    let x = make_frame(f);
    let name = f.perf.as_ref().map(|p| sc::by_code(code_of(p)).unwrap().name).unwrap_or("empty");
    ctx.label(name);
    frames_same("built frame", &view_frame(&x), f)?;
    if x.performative().name().to_lowercase() != name {
        return Err(format!("{} is named {}", name, x.performative().name()));
    }
    x.performative().acc()?;
    if let Some(v) = &f.perf {
        super::access::acc_tree(v)?;
    }
    if let p::Frame::Transfer(tr) = x.performative() {
        if tr.body().map(body_bytes).unwrap_or_default() != f.payload {
            return Err("Transfer::body()".into());
        }
    }
    let (_, b) = enc_of(&x);
    let (y, left) = dec::<AmqpFrame>(&b[4..]).map_err(|e| format!("own frame {} rejected: {}; {}", hex(&b), e, f.perf.as_ref().map(show).unwrap_or_default()))?;
    if left != 0 {
        return Err(format!("{} bytes of the frame left", left));
    }
    frames_same("frame", &view_frame(&y), f)?;
    y.performative().acc()?;
    if y.performative().name() != x.performative().name() || y.channel_id() != f.channel {
        return Err("accessors of the decoded frame".into());
    }
    if mode != 2 && !(y == x) {
        return Err(format!("decoded frame is unequal to the one sent: {}", f.perf.as_ref().map(show).unwrap_or_default()));
    }
    // the performative on its own
    let (pn, pb) = enc_of(x.performative());
    if pn != pb.len() {
        return Err("performative size".into());
    }
    let (q, left) = dec::<p::Frame>(&pb).map_err(|e| format!("own performative rejected: {}", e))?;
    if left != 0 || (mode != 2 && !(q == *x.performative())) {
        return Err("performative alone differs".into());
    }
    // the stream codec
    let mut buf = BytesMut::new();
    AmqpCodec::<AmqpFrame>::new().encode(make_frame(f), &mut buf).map_err(|e| format!("{:?}", e))?;
    match AmqpCodec::<AmqpFrame>::default().decode(&mut buf) {
        Ok(Some(z)) => frames_same("frame through the stream codec", &view_frame(&z), f)?,
        r => return Err(format!("stream codec: {:?}", r.map(|x| x.is_some()))),
    }
    let (ch, perf) = y.into_parts();
    let again = AmqpFrame::new(ch, perf);
    frames_same("into_parts", &view_frame(&again), f)
}
/// every performative with no optional field, and with each optional field alone
pub fn c02_fixed(ctx: &mut Ctx) -> Res {
    for n in sc::PERFORMATIVES {
        for v in singles(n) {
            one_frame(&FrameV { channel: 7, perf: Some(v), payload: vec![] }, 0, ctx)?;
        }
    }
    one_frame(&FrameV { channel: 65535, perf: None, payload: vec![] }, 0, ctx)
}
fn sample(t: T) -> V {
    match t {
        T::Bool => Bool(true),
        T::U8 => U8(7),
        T::U16 => U16(300),
        T::U32 => U32(70_000),
        T::U64 => U64(1 << 40),
        T::Bin => Bin(vec![1, 2, 3]),
        T::Str => V::s("text"),
        T::Sym => V::sym("amqp:symbol"),
        T::Ts => Ts(1_600_000_000_001),
        T::Multi => Arr(0xb3, vec![V::sym("one"), V::sym("two")]),
        T::Fields => Map(vec![(V::sym("k"), U32(1))]),
        T::Filter => Map(vec![(V::sym("k"), V::s("x"))]),
        T::Map => Map(vec![(Bin(vec![1]), Null)]),
        T::MsgId => V::s("id"),
        T::EnumU8(a) => U8(a[a.len() - 1]),
        T::EnumU16(a) => U16(a[a.len() - 1]),
        T::EnumU32(a) => U32(a[a.len() - 1]),
        T::EnumU64(a) => U64(a[a.len() - 1]),
        T::Uuid => Uuid([9; 16]),
        T::EnumSym(a) => V::sym(a[a.len() - 1]),
        T::Comp(n) => minimal(n),
        T::State => minimal("accepted"),
        T::Outcome => minimal("released"),
    }
}
pub fn minimal(n: &str) -> V {
    let c = sc::comp(n);
    V::desc(c.code, List(c.fields.iter().map(|f| if f.mandatory { sample(f.ty) } else { f.default.clone().unwrap_or(Null) }).collect()))
}
fn set(v: &V, i: usize, x: V) -> V {
    match v {
        Desc(d, l) => match &**l {
            List(l) => {
                let mut l = l.clone();
                l[i] = x;
                Desc(d.clone(), Box::new(List(l)))
            }
            _ => panic!("harness"),
        },
        _ => panic!("harness"),
    }
}
pub fn all_singles() -> Vec<V> {
    sc::all().iter().flat_map(|c| singles(c.name)).collect()
}
fn singles(n: &str) -> Vec<V> {
    let c = sc::comp(n);
    let m = minimal(n);
    let mut o = vec![m.clone()];
    for (i, f) in c.fields.iter().enumerate() {
        o.push(set(&m, i, sample(f.ty)));
    }
    o
}

// ---------- C03 ----------
pub fn c03(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mode = s.weighted(&[3, 1]) as u8;
    set_static_mode(mode);
    if s.chance(15) {
        let (a, b, c) = (g::text(s, 3000), g::text(s, 3000), g::text(s, 3000));
        ctx.label("PLAIN response");
        ctx.nontrivial = !a.is_empty() || !b.is_empty() || !c.is_empty();
        ctx.desc(|| format!("{:?} {:?} {:?}", a, b, c));
        let r = p::SaslInit::prepare_response(&a, &b, &c);
        let mut want = a.into_bytes();
        want.push(0);
        want.extend(b.into_bytes());
        want.push(0);
        want.extend(c.into_bytes());
        if r[..] != want[..] {
            return Err(format!("PLAIN response {}", hex(&r)));
        }
        let v = V::desc(0x41, List(vec![V::sym("PLAIN"), Bin(want), Null]));
        return sasl(&v, 0);
    }
    let name = *s.pick(sc::SASL);
    let v = g::comp(s, name);
    ctx.label(name);
    ctx.nontrivial = true;
    ctx.desc(|| show(&v));
    let ch = s.int(16) as u16;
    sasl(&v, ch)
}
fn sasl(v: &V, channel: u16) -> Res {
    let x = make_sasl(v);
    same("built sasl frame", &x.body.v(), v)?;
    x.body.acc()?;
    // the conversions from each body
    let y = match &x.body {
        p::SaslFrameBody::SaslMechanisms(b) => SaslFrame::from(b.clone()),
        p::SaslFrameBody::SaslInit(b) => SaslFrame::from(b.clone()),
        p::SaslFrameBody::SaslChallenge(b) => SaslFrame::from(b.clone()),
        p::SaslFrameBody::SaslResponse(b) => SaslFrame::from(b.clone()),
        p::SaslFrameBody::SaslOutcome(b) => SaslFrame::from(b.clone()),
    };
    if !(x == y) {
        return Err("conversion into a sasl frame differs".into());
    }
    let (n, b) = enc_of(&x);
    if n != b.len() {
        return Err(format!("sasl frame: announced {} wrote {}", n, b.len()));
    }
    let (_, perf, rest) = strict_frame(&b, 1)?;
    if !rest.is_empty() {
        return Err("bytes after the sasl body".into());
    }
    same("sasl frame on the wire", &perf.ok_or("empty")?, v)?;
    let mut i = b.clone();
    i[6..8].copy_from_slice(&channel.to_be_bytes()); // ignored on receipt
    let (z, left) = dec::<SaslFrame>(&i[4..]).map_err(|e| format!("own sasl frame {} rejected: {}", hex(&b), e))?;
    if left != 0 {
        return Err("bytes of the sasl frame left".into());
    }
    same("sasl frame", &z.body.v(), v)?;
    if !(z == x) {
        return Err(format!("decoded sasl frame is unequal to the one sent: {}", show(v)));
    }
    z.body.acc()?;
    let mut buf = BytesMut::new();
    AmqpCodec::<SaslFrame>::new().encode(x.clone(), &mut buf).map_err(|e| format!("{:?}", e))?;
    match AmqpCodec::<SaslFrame>::default().decode(&mut buf) {
        Ok(Some(z)) => same("sasl frame through the stream codec", &z.body.v(), v),
        r => Err(format!("stream codec: {:?}", r.map(|x| x.is_some()))),
    }
}
pub fn c03_fixed(_: &mut Ctx) -> Res {
    for n in sc::SASL {
        for v in singles(n) {
            sasl(&v, 0)?;
        }
    }
    for c in 0..5 {
        sasl(&V::desc(0x44, List(vec![U8(c), Null])), 0)?;
    }
    for l in vec![vec![], vec!["PLAIN"], vec!["PLAIN", "ANONYMOUS", "EXTERNAL"]] {
        sasl(&V::desc(0x40, List(vec![Arr(0xb3, l.into_iter().map(V::sym).collect())])), 0)?;
    }
    Ok(())
}

// ---------- C09, C10 ----------
/// What one piece of a stream must decode to.
#[derive(Clone)]
pub enum Piece {
    Good(FrameV),
    Bad(&'static str),
}
pub fn amqp_piece(s: &mut Src, small: bool) -> (Piece, Vec<u8>) {
    let f = if small && s.chance(30) {
        FrameV { channel: s.int(16) as u16, perf: None, payload: vec![] }
    } else {
        g::frame(s)
    };
    let b = if s.bool() {
        enc_of(&make_frame(&f)).1
    } else {
        let mut body = vec![];
        if let Some(p) = &f.perf {
            let w = g::peer(s, p);
            g::enc_free(s, &w, &mut body);
        }
        body.extend_from_slice(&f.payload);
        let e = g::ext(s);
        g::frame_bytes(0, f.channel, &e, &body)
    };
    (Piece::Good(f), b)
}
pub fn sasl_piece(s: &mut Src) -> (Piece, Vec<u8>) {
    let n = *s.pick(sc::SASL);
    let v = g::comp(s, n);
    let b = if s.bool() {
        enc_of(&make_sasl(&v)).1
    } else {
        let mut body = vec![];
        let w = g::peer(s, &v);
        g::enc_free(s, &w, &mut body);
        let e = g::ext(s);
        g::frame_bytes(1, 0, &e, &body)
    };
    (Piece::Good(FrameV { channel: 0, perf: Some(v), payload: vec![] }), b)
}
trait Streamed: Decode + Encode {
    const TYPE: u8;
    fn view(&self) -> FrameV;
}
impl Streamed for AmqpFrame {
    const TYPE: u8 = 0;
    fn view(&self) -> FrameV {
        view_frame(self)
    }
}
impl Streamed for SaslFrame {
    const TYPE: u8 = 1;
    fn view(&self) -> FrameV {
        FrameV { channel: 0, perf: Some(self.body.v()), payload: vec![] }
    }
}
/// Sizes of the reads.
pub fn chunks(s: &mut Src, total: usize, ends: &[usize]) -> Vec<usize> {
    let mut o = vec![];
    let mut at = 0;
    match s.weighted(&[3, 2, 3, 3]) {
        0 => {
            // near frame boundaries
            let mut cuts: Vec<usize> = vec![];
            for &e in ends {
                for d in [-9i64, -8, -7, -5, -4, -3, -1, 0, 1, 3, 4, 5, 7, 8, 9] {
                    if s.chance(25) {
                        let c = e as i64 + d;
                        if c > 0 && (c as usize) < total {
                            cuts.push(c as usize);
                        }
                    }
                }
            }
            for d in [1usize, 3, 4, 5, 7, 8, 9] {
                if d < total && s.chance(25) {
                    cuts.push(d);
                }
            }
            cuts.sort();
            cuts.dedup();
            for c in cuts {
                o.push(c - at);
                at = c;
            }
        }
        1 => {}
        2 => {
            let k = 1 + s.below(12) as usize;
            let k = k.max(total / 600);
            while at + k < total {
                o.push(k);
                at += k;
            }
        }
        _ => {
            while at < total && o.len() < 400 {
                let n = match s.below(4) {
                    0 => 1,
                    1 => 1 + s.below(16) as usize,
                    2 => 1 + s.below(300) as usize,
                    _ => 1 + s.below(5000) as usize,
                }
                .min(total - at);
                o.push(n);
                at += n;
            }
        }
    }
    if at < total {
        o.push(total - at);
    }
    o
}
fn feed<X: Streamed>(s: &mut Src, pieces: &[(Piece, Vec<u8>)], ctx: &mut Ctx) -> Res {
    let all: Vec<u8> = pieces.iter().flat_map(|p| p.1.clone()).collect();
    let mut ends = vec![];
    let mut at = 0;
    for p in pieces {
        at += p.1.len();
        ends.push(at);
    }
    let cs = chunks(s, all.len(), &ends);
    ctx.sub += cs.len() as u64;
    let cap = match s.weighted(&[2, 2, 1]) {
        0 => 0,
        1 => s.below(64) as usize,
        _ => 8192,
    };
    let twice = s.chance(20);
    feed_in::<X>(pieces, &all, &ends, &cs, cap, twice)
}
fn feed_in<X: Streamed>(pieces: &[(Piece, Vec<u8>)], all: &[u8], ends: &[usize], cs: &[usize], cap: usize, twice: bool) -> Res {
    let mut buf = BytesMut::with_capacity(cap);
    let mut codec = AmqpCodec::<X>::new();
    let mut next = 0; // next piece expected
    let mut fed = 0;
    let where_ = |fed: usize, next: usize| format!("after {} of {} bytes (frames end at {:?}, chunks {:?}), frame {}", fed, all.len(), &ends[..ends.len().min(12)], &cs[..cs.len().min(16)], next);
    for &c in cs {
        buf.extend_from_slice(&all[fed..fed + c]);
        fed += c;
        let mut idle = 0;
        loop {
            match codec.decode(&mut buf) {
                Ok(Some(x)) => {
                    if next >= pieces.len() {
                        return Err(format!("{}: a frame too many", where_(fed, next)));
                    }
                    if ends[next] > fed {
                        return Err(format!("{}: delivered before its last byte arrived", where_(fed, next)));
                    }
                    match &pieces[next].0 {
                        Piece::Good(f) => frames_same(&where_(fed, next), &x.view(), f)?,
                        Piece::Bad(k) => return Err(format!("{}: malformed ({}) frame {} is delivered as {:?}", where_(fed, next), k, hex(&pieces[next].1), x.view().perf.as_ref().map(show))),
                    }
                    if buf[..] != all[ends[next]..fed] {
                        return Err(format!("{}: {} bytes remain in the buffer after the frame, {} belong there", where_(fed, next), buf.len(), fed - ends[next]));
                    }
                    next += 1;
                }
                Ok(None) => {
                    idle += 1;
                    if idle > twice as u32 {
                        break;
                    }
                }
                Err(e) => {
                    if next >= pieces.len() {
                        return Err(format!("{}: {:?}", where_(fed, next), e));
                    }
                    match &pieces[next].0 {
                        Piece::Bad("short length") => return Ok(()),
                        Piece::Bad(_) => next += 1,
                        Piece::Good(f) => return Err(format!("{}: error {:?} for a valid frame {:?} {}", where_(fed, next), e, f.perf.as_ref().map(show), hex(&pieces[next].1))),
                    }
                }
            }
        }
        // everything complete so far has been delivered
        if next < pieces.len() && ends[next] <= fed {
            return Err(format!("{}: complete but not delivered", where_(fed, next)));
        }
    }
    if next != pieces.len() {
        return Err(format!("{} of {} frames delivered", next, pieces.len()));
    }
    if !buf.is_empty() {
        return Err(format!("{} bytes left over", buf.len()));
    }
    match codec.decode_eof(&mut buf) {
        Ok(None) => Ok(()),
        Ok(Some(_)) => Err("a frame too many at the end".into()),
        Err(e) => Err(format!("error at the end of the stream: {:?}", e)),
    }
}
struct Chunked<'a> {
    data: &'a [u8],
    cs: Vec<usize>,
    i: usize,
    block: bool,
    blocked: bool,
}
impl<'a> Read for Chunked<'a> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        if self.block && !self.blocked {
            self.blocked = true;
            return Err(io::ErrorKind::WouldBlock.into());
        }
        self.blocked = false;
        if self.data.is_empty() {
            return Ok(0);
        }
        let n = if self.i < self.cs.len() { self.cs[self.i] } else { self.data.len() };
        let k = n.min(out.len()).min(self.data.len());
        out[..k].copy_from_slice(&self.data[..k]);
        self.data = &self.data[k..];
        if self.i < self.cs.len() {
            self.cs[self.i] -= k;
            if self.cs[self.i] == 0 {
                self.i += 1;
            }
        }
        Ok(k)
    }
}
impl<'a> AsyncRead for Chunked<'a> {}
/// The same through tokio's FramedRead.
fn framed<X: Streamed>(s: &mut Src, pieces: &[(Piece, Vec<u8>)]) -> Res {
    let all: Vec<u8> = pieces.iter().flat_map(|p| p.1.clone()).collect();
    let mut ends = vec![];
    let mut at = 0;
    for p in pieces {
        at += p.1.len();
        ends.push(at);
    }
    let cs = chunks(s, all.len(), &ends);
    let block = s.bool();
    let mut r = FramedRead::new(Chunked { data: &all, cs, i: 0, block, blocked: false }, AmqpCodec::<X>::new());
    let mut next = 0;
    let mut stuck = 0;
    loop {
        match r.poll() {
            Ok(Async::Ready(Some(x))) => {
                match pieces.get(next).map(|p| &p.0) {
                    Some(Piece::Good(f)) => frames_same("framed stream", &x.view(), f)?,
                    _ => return Err(format!("framed stream: unexpected frame {}", next)),
                }
                next += 1;
            }
            Ok(Async::Ready(None)) => break,
            Ok(Async::NotReady) => {
                stuck += 1;
                if stuck > all.len() + 1000 {
                    return Err("framed stream makes no progress".into());
                }
            }
            Err(e) => return Err(format!("framed stream: error at frame {}: {:?}", next, e)),
        }
    }
    if next != pieces.len() {
        return Err(format!("framed stream: {} of {} frames", next, pieces.len()));
    }
    Ok(())
}
pub fn c09(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.budget = 120_000;
    let n = 1 + s.below(7) as usize;
    let is_sasl = s.chance(25);
    let mut ps = vec![];
    for _ in 0..n {
        ps.push(if is_sasl { sasl_piece(s) } else { amqp_piece(s, true) });
    }
    let total: usize = ps.iter().map(|p| p.1.len()).sum();
    ctx.label(if is_sasl { "SASL stream" } else { "AMQP stream" });
    if ps.iter().any(|p| p.1.len() > 4096) {
        ctx.label("frame over 4096 bytes");
    }
    if ps.iter().any(|p| p.1.len() > 32768) {
        ctx.label("frame over 32768 bytes");
    }
    ctx.nontrivial = n > 1;
    ctx.desc(|| format!("{} frames of {:?} bytes, {} in all", n, ps.iter().map(|p| p.1.len()).collect::<Vec<_>>(), total));
    if is_sasl {
        feed::<SaslFrame>(s, &ps, ctx)?;
        framed::<SaslFrame>(s, &ps)
    } else {
        feed::<AmqpFrame>(s, &ps, ctx)?;
        framed::<AmqpFrame>(s, &ps)
    }
}
/// every single and double cut of a short stream
pub fn c09_cuts(_: &mut Ctx) -> Res {
    let fs = vec![
        FrameV { channel: 1, perf: None, payload: vec![] },
        FrameV { channel: 2, perf: Some(minimal("end")), payload: vec![] },
        FrameV { channel: 3, perf: Some(minimal("transfer")), payload: vec![9, 8, 7] },
        FrameV { channel: 4, perf: None, payload: vec![] },
    ];
    let all: Vec<u8> = fs.iter().flat_map(|f| enc_of(&make_frame(f)).1).collect();
    let n = all.len();
    for i in 0..=n {
        for j in i..=n {
            let mut c = AmqpCodec::<AmqpFrame>::new();
            let mut b = BytesMut::new();
            let mut got = vec![];
            for part in [&all[..i], &all[i..j], &all[j..]] {
                b.extend_from_slice(part);
                while let Some(f) = c.decode(&mut b).map_err(|e| format!("cut at {} and {}: {:?}", i, j, e))? {
                    got.push(view_frame(&f));
                }
            }
            if got != fs || !b.is_empty() {
                return Err(format!("cut at {} and {} gives {} frames", i, j, got.len()));
            }
        }
    }
    Ok(())
}

/// Frames whose size does not fit 16, 20 or 24 bits, each followed by another frame.
pub fn c09_large(ctx: &mut Ctx) -> Res {
    let small = FrameV { channel: 7, perf: Some(minimal("transfer")), payload: vec![1, 2] };
    for n in [65_536usize, (1 << 20) + 1, (1 << 24) + 9] {
        let fs = vec![small.clone(), FrameV { channel: 3, perf: Some(minimal("transfer")), payload: vec![0x5a; n] }, small.clone()];
        let mut all = vec![];
        for f in &fs {
            let (m, b) = enc_of(&make_frame(f));
            if m != b.len() || b[..4] != (m as u32).to_be_bytes() {
                return Err(format!("a frame of {} payload bytes announces {}, is {} bytes long and carries the size {:?}", f.payload.len(), m, b.len(), &b[..4]));
            }
            all.extend_from_slice(&b);
        }
        for step in [all.len(), 60_000, n / 2 + 3] {
            let mut c = AmqpCodec::<AmqpFrame>::new();
            let mut b = BytesMut::new();
            let mut got = vec![];
            for part in all.chunks(step) {
                b.extend_from_slice(part);
                while let Some(f) = c.decode(&mut b).map_err(|e| format!("frame of {} payload bytes in steps of {}: {:?}", n, step, e))? {
                    got.push(view_frame(&f));
                }
            }
            if got != fs || !b.is_empty() {
                return Err(format!("a frame of {} payload bytes in steps of {} gives {} frames, {} bytes left", n, step, got.len(), b.len()));
            }
            ctx.sub += 1;
        }
    }
    Ok(())
}
/// Frames whose size is at or next to a power of two, arriving in parts, between other frames.
pub fn c09_exact(ctx: &mut Ctx) -> Res {
    let small = FrameV { channel: 7, perf: Some(minimal("transfer")), payload: vec![1, 2] };
    let sb = enc_of(&make_frame(&small)).1;
    let base = {
        let f = FrameV { channel: 3, perf: Some(minimal("transfer")), payload: vec![] };
        enc_of(&make_frame(&f)).1.len()
    };
    let mut sizes: Vec<usize> = vec![];
    for p in 6..=18 {
        for d in [-9i64, -8, -4, -2, -1, 0, 1, 2, 4, 8, 9] {
            sizes.push(((1i64 << p) + d) as usize);
        }
    }
    sizes.extend([1000, 1500, 4000, 10_000, 24_576, 40_960, 49_152, 98_304, 100_000]);
    for n in sizes {
        if n < base {
            continue;
        }
        let f = FrameV { channel: 3, perf: Some(minimal("transfer")), payload: vec![0xa5; n - base] };
        let b = enc_of(&make_frame(&f)).1;
        if b.len() != n {
            return Err(format!("a frame meant to take {} bytes takes {}", n, b.len()));
        }
        let fs = vec![small.clone(), f.clone(), f.clone(), small.clone()];
        let all: Vec<u8> = [&sb[..], &b[..], &b[..], &sb[..]].concat();
        let o = sb.len();
        for cuts in [vec![], vec![o], vec![o + 4], vec![o + 8], vec![o + 9], vec![o + n / 2], vec![o + n - 1], vec![o + n], vec![o + n + 1], vec![o + n + 8], vec![o, o + n], vec![o + 3, o + n / 3, o + n - 1, o + n + n / 2], vec![n.min(o + n)], vec![n - 1, 2 * n], vec![8192, 16384], vec![32768, 65536]] {
            for cap in [0usize, 8192] {
                let mut c = AmqpCodec::<AmqpFrame>::new();
                let mut buf = BytesMut::with_capacity(cap);
                let mut got = vec![];
                let mut at = 0;
                let ends = [o, o + n, o + 2 * n, 2 * o + 2 * n];
                for cut in cuts.iter().cloned().chain(Some(all.len())) {
                    let cut = cut.max(at).min(all.len());
                    buf.extend_from_slice(&all[at..cut]);
                    at = cut;
                    let tag = |e: String| format!("frames of {} bytes, cut at {:?}: {}", n, cuts, e);
                    while let Some(f) = c.decode(&mut buf).map_err(|e| tag(format!("{:?}", e)))? {
                        got.push(view_frame(&f));
                        if got.len() > 4 || buf[..] != all[ends[got.len() - 1]..at] {
                            return Err(tag(format!("the wrong {} bytes remain after {} frames", buf.len(), got.len())));
                        }
                    }
                    if got.len() != ends.iter().filter(|e| **e <= at).count() {
                        return Err(tag(format!("{} frames delivered after {} bytes", got.len(), at)));
                    }
                }
                if got != fs {
                    return Err(format!("frames of {} bytes, cut at {:?}, come out different", n, cuts));
                }
                ctx.sub += 1;
            }
        }
    }
    Ok(())
}
/// A choice source with a fixed seed, for the deterministic long runs.
pub fn fixed_src(seed: u64) -> Src {
    Src::new(vec![], true, seed, std::rc::Rc::new(crate::src::Dict::default()), std::ptr::null_mut())
}
/// Thousands of frames through one codec: nothing may depend on how many came before.
fn long_stream(ctx: &mut Ctx, mixed: bool) -> Res {
    for round in 0..10u64 {
        for is_sasl in [false, true] {
            let count = [300, 1500, 5000][(round % 3) as usize];
            let mut ps = vec![];
            for i in 0..count {
                let mut s = fixed_src(round << 32 | (is_sasl as u64) << 31 | i);
                s.budget = if i % 50 == 0 { 3000 } else { 60 };
                ps.push(if mixed && (i % 7 == round % 7 || s.chance(10)) {
                    bad_piece(&mut s, is_sasl as u8)
                } else if is_sasl {
                    sasl_piece(&mut s)
                } else {
                    amqp_piece(&mut s, true)
                });
            }
            let mut s = fixed_src(1000 + round);
            let tag = |e: String| format!("stream of {} pieces: {}", count, e);
            if is_sasl {
                feed::<SaslFrame>(&mut s, &ps, ctx).map_err(tag)?;
                if !mixed {
                    framed::<SaslFrame>(&mut s, &ps).map_err(tag)?;
                }
            } else {
                feed::<AmqpFrame>(&mut s, &ps, ctx).map_err(tag)?;
                if !mixed {
                    framed::<AmqpFrame>(&mut s, &ps).map_err(tag)?;
                }
            }
        }
    }
    Ok(())
}
pub fn c09_long(ctx: &mut Ctx) -> Res {
    long_stream(ctx, false)
}
pub fn c10_long(ctx: &mut Ctx) -> Res {
    long_stream(ctx, true)
}
/// The same in the other direction: one encoder, thousands of frames.
pub fn c23_long(ctx: &mut Ctx) -> Res {
    for flush in [0usize, 1, 100] {
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut d = AmqpCodec::<SaslFrame>::new();
        let (mut x, mut y) = (BytesMut::new(), BytesMut::new());
        let (mut wx, mut wy) = (vec![], vec![]);
        for i in 0..4000usize {
            let mut s = fixed_src(77_000 + i as u64);
            s.budget = if i % 50 == 0 { 3000 } else { 60 };
            let f = if s.chance(20) { FrameV { channel: s.int(16) as u16, perf: None, payload: vec![] } } else { g::frame(&mut s) };
            wx.extend(enc_of(&make_frame(&f)).1);
            c.encode(make_frame(&f), &mut x).map_err(|e| format!("frame {} of one encoder: {:?}", i, e))?;
            let n = *s.pick(sc::SASL);
            let v = g::comp(&mut s, n);
            wy.extend(enc_of(&make_sasl(&v)).1);
            d.encode(make_sasl(&v), &mut y).map_err(|e| format!("SASL frame {} of one encoder: {:?}", i, e))?;
            if x.len() != wx.len() || y.len() != wy.len() || (flush > 0 && i % flush == 0) {
                if x[..] != wx[..] || y[..] != wy[..] {
                    return Err(format!("frame {} of one encoder is written differently: {:?} or {}", i, f.perf.as_ref().map(show), show(&v)));
                }
                if flush > 0 {
                    x.clear();
                    y.clear();
                    wx.clear();
                    wy.clear();
                }
            }
            ctx.sub += 2;
        }
        if x[..] != wx[..] || y[..] != wy[..] {
            return Err("a long run of one encoder is written differently".into());
        }
    }
    Ok(())
}
pub fn wrong_field(t: T) -> V {
    match t {
        T::Bool => V::s("true"),
        T::Str | T::Sym | T::Multi | T::EnumSym(_) | T::MsgId => Bool(true),
        _ => V::s("wrong"),
    }
}
/// A frame that must be rejected although its declared length is right.
fn bad_piece(s: &mut Src, ftype: u8) -> (Piece, Vec<u8>) {
    let names: &[&'static str] = if ftype == 0 { sc::PERFORMATIVES } else { sc::SASL };
    let name = *s.pick(names);
    let v = g::comp(s, name);
    let mut body = vec![];
    let w = g::peer(s, &v);
    g::enc_free(s, &w, &mut body);
    let ch = if ftype == 0 { s.int(16) as u16 } else { 0 };
    let ext = g::ext(s);
    let whole = |body: &[u8], ty: u8| g::frame_bytes(ty, ch, &ext, body);
    match s.below(13) {
        // one fault anywhere inside the performative: every kind of error there is
        9..=12 => (Piece::Bad("fault in the performative"), whole(&super::errs::bad_one(s, names, 4).0, ftype)),
        0 => {
            let mut ty = s.int(8) as u8;
            if ty == ftype {
                ty ^= 1;
            }
            (Piece::Bad("frame type"), whole(&body, ty))
        }
        1 => {
            let mut b = whole(&body, ftype);
            b[4] = s.below(2) as u8;
            (Piece::Bad("data offset below 2"), b)
        }
        2 => {
            let mut body = body;
            body.truncate(600);
            let mut b = g::frame_bytes(ftype, ch, &[], &body);
            let least = b.len() / 4 + 1;
            if least <= 255 {
                b[4] = (least as u64 + s.below(256 - least as u64)) as u8;
            } else {
                b[4] = 0;
            }
            (Piece::Bad("data offset beyond the frame"), b)
        }
        3 => {
            // some other composite, or an unknown descriptor
            let d = match s.below(3) {
                0 => {
                    let o: Vec<&sc::C> = sc::all().iter().filter(|c| !names.contains(&c.name)).collect();
                    let c = o[s.idx(o.len())];
                    if s.bool() {
                        U64(c.code)
                    } else {
                        V::sym(c.sym)
                    }
                }
                1 => {
                    let mut c = s.int(64);
                    while sc::by_code(c).map_or(false, |c| names.contains(&c.name)) {
                        c = c.wrapping_add(0x100);
                    }
                    U64(c)
                }
                _ => V::sym(&format!("{}x", sc::comp(name).sym)),
            };
            let l = match &w {
                Desc(_, l) => l.clone(),
                _ => unreachable!(),
            };
            (Piece::Bad("unknown performative"), whole(&enc_compact(&Desc(Box::new(d), l)), ftype))
        }
        4 => {
            let x = [Null, List(vec![U32(1)]), V::s("open"), Map(vec![]), U64(0x10)][s.idx(5)].clone();
            (Piece::Bad("not a described type"), whole(&enc_compact(&x), ftype))
        }
        5 => {
            let k = 1 + s.below(body.len() as u64 - 1) as usize;
            (Piece::Bad("truncated performative"), whole(&body[..k], ftype))
        }
        6 if name != "transfer" => {
            let n = 1 + s.below(12) as usize;
            let junk = s.fill(n);
            body.extend(junk);
            (Piece::Bad("bytes after the performative"), whole(&body, ftype))
        }
        7 => {
            let c = sc::comp(name);
            let m: Vec<usize> = (0..c.fields.len()).filter(|&i| c.fields[i].mandatory).collect();
            if m.is_empty() {
                return (Piece::Bad("frame type"), whole(&body, 2));
            }
            let i = m[s.idx(m.len())];
            let x = set(&v, i, Null);
            (Piece::Bad("mandatory field missing"), whole(&enc_compact(&x), ftype))
        }
        _ => {
            let c = sc::comp(name);
            if c.fields.is_empty() {
                return (Piece::Bad("frame type"), whole(&body, 2));
            }
            let i = s.idx(c.fields.len());
            let x = set(&v, i, wrong_field(c.fields[i].ty));
            (Piece::Bad("field of the wrong type"), whole(&enc_compact(&x), ftype))
        }
    }
}
pub fn c10(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.budget = 60_000;
    let n = 1 + s.below(8) as usize;
    let is_sasl = s.chance(25);
    let mut ps = vec![];
    for _ in 0..n {
        ps.push(if s.chance(50) {
            bad_piece(s, is_sasl as u8)
        } else if is_sasl {
            sasl_piece(s)
        } else {
            amqp_piece(s, true)
        });
    }
    if s.chance(15) {
        // a length that does not cover the frame header, then enough bytes to read it
        let len = s.below(8) as u32;
        let mut b = len.to_be_bytes().to_vec();
        let n = 4 + s.below(30) as usize;
        b.extend(s.fill(n));
        ps.push((Piece::Bad("short length"), b));
    }
    let mut bad = 0;
    for p in &ps {
        if let Piece::Bad(k) = p.0 {
            bad += 1;
            ctx.label(k);
        }
    }
    ctx.nontrivial = bad > 0 && ps.len() > bad;
    ctx.desc(|| format!("{:?}", ps.iter().map(|p| match &p.0 {
        Piece::Good(_) => format!("ok({})", p.1.len()),
        Piece::Bad(k) => format!("{}({})", k, p.1.len()),
    }).collect::<Vec<_>>()));
    if is_sasl {
        feed::<SaslFrame>(s, &ps, ctx)
    } else {
        feed::<AmqpFrame>(s, &ps, ctx)
    }
}
/// Malformed frames of a few bytes in every combination with small valid ones, cut everywhere.
pub fn c10_small(ctx: &mut Ctx) -> Res {
    small_streams::<AmqpFrame>(ctx)?;
    small_streams::<SaslFrame>(ctx)
}
fn small_streams<X: Streamed>(ctx: &mut Ctx) -> Res {
    let mut bads: Vec<Vec<u8>> = vec![];
    let frame = |doff: u8, ftype: u8, body: &[u8]| {
        let mut o = ((8 + body.len()) as u32).to_be_bytes().to_vec();
        o.extend([doff, ftype, 0, 0]);
        o.extend_from_slice(body);
        o
    };
    // no content
    for doff in [0u8, 1, 2, 3, 4, 255] {
        for ftype in [0u8, 1, 2, 3, 8, 128, 255] {
            if doff != 2 || ftype != X::TYPE || X::TYPE == 1 {
                bads.push(frame(doff, ftype, &[]));
            }
        }
    }
    // some content
    let end: &[u8] = &[0, 0x53, 0x17, 0x45];
    let begin: &[u8] = &[0, 0x53, 0x11, 0x45];
    for body in [&[0u8][..], &[0x40], &[0, 0], &[0, 0x53], &[0, 0x53, 0x17], &[0, 0x53, 0x45, 0x45], &[0, 0x53, 0x10], begin, &[0, 0x53, 0x41, 0x45], &[0, 0x53, 0x10, 0xc0, 0], &[0, 0x53, 0x18, 0xc0, 5, 0], &[0, 0, 0, 8], &[0, 0, 0, 8, 2, 0, 0, 0], &[0, 0, 0, 7], &[0xff; 12], b"AMQP\0\x01\0\0"] {
        bads.push(frame(2, X::TYPE, body));
    }
    for ftype in [1 - X::TYPE, 2, 255] {
        bads.push(frame(2, ftype, end));
        bads.push(frame(2, ftype, &[0, 0x53, 0x44, 0xc0, 3, 1, 0x50, 0]));
    }
    for doff in [0u8, 1, 4, 9] {
        bads.push(frame(doff, X::TYPE, end));
    }
    if X::TYPE == 0 {
        bads.push(frame(2, 0, &[0, 0x53, 0x17, 0x45, 0]));
        bads.push(frame(2, 0, &[0, 0x53, 0x17, 0x45, 0, 0, 0, 8, 2, 0, 0, 0]));
        bads.push(frame(2, 0, &[0, 0x53, 0x18, 0x45, 0x40]));
    } else {
        bads.push(frame(2, 1, &[0, 0x53, 0x44, 0xc0, 3, 1, 0x50, 0, 0x40]));
        bads.push(frame(2, 1, &[0, 0x53, 0x44, 0xc0, 3, 1, 0x50, 9]));
    }
    let goods: Vec<(FrameV, Vec<u8>)> = if X::TYPE == 0 {
        let mut o = vec![];
        for perf in [None, Some(minimal("end")), Some(minimal("disposition"))] {
            let f = FrameV { channel: 0x0102, perf, payload: vec![] };
            let b = enc_of(&make_frame(&f)).1;
            o.push((f, b));
        }
        o
    } else {
        ["sasl-outcome", "sasl-response"].iter().map(|n| {
            let v = minimal(n);
            let b = enc_of(&make_sasl(&v)).1;
            (FrameV { channel: 0, perf: Some(v), payload: vec![] }, b)
        }).collect()
    };
    let good = |i: usize| (Piece::Good(goods[i % goods.len()].0.clone()), goods[i % goods.len()].1.clone());
    let bad = |i: usize| (Piece::Bad("small"), bads[i].clone());
    let mut run = |ps: Vec<(Piece, Vec<u8>)>, cuts: bool| -> Res {
        let all: Vec<u8> = ps.iter().flat_map(|p| p.1.clone()).collect();
        let ends: Vec<usize> = ps.iter().scan(0, |a, p| { *a += p.1.len(); Some(*a) }).collect();
        let n = all.len();
        feed_in::<X>(&ps, &all, &ends, &[n], 0, true)?;
        if cuts {
            for k in 1..n {
                feed_in::<X>(&ps, &all, &ends, &[k, n - k], if k % 2 == 0 { 0 } else { 100 }, false)?;
                ctx.sub += 1;
            }
            feed_in::<X>(&ps, &all, &ends, &vec![1; n], 0, true)?;
        }
        // frame by frame
        let by: Vec<usize> = ps.iter().map(|p| p.1.len()).collect();
        feed_in::<X>(&ps, &all, &ends, &by, 0, false)?;
        ctx.sub += 2;
        Ok(())
    };
    for i in 0..bads.len() {
        run(vec![bad(i)], true)?;
        for j in 0..goods.len() {
            run(vec![bad(i), good(j)], true)?;
            run(vec![good(j), bad(i)], true)?;
            run(vec![bad(i), good(j), good(j + 1)], true)?;
            run(vec![good(j), good(j + 1), bad(i), good(j), bad(i), good(j + 2)], false)?;
        }
        for k in 0..bads.len() {
            for j in 0..goods.len() {
                run(vec![bad(i), bad(k), good(j)], false)?;
                run(vec![bad(i), good(j), bad(k), good(j + 1)], false)?;
            }
        }
    }
    Ok(())
}
/// each short length, in every chunking of its first twelve bytes, after and before nothing else
pub fn c10_short(_: &mut Ctx) -> Res {
    for len in 0..8u32 {
        for cut in 0..12 {
            for after in [false, true] {
                let mut b = vec![];
                if after {
                    b.extend(enc_of(&make_frame(&FrameV { channel: 1, perf: None, payload: vec![] })).1);
                }
                let at = b.len();
                b.extend_from_slice(&len.to_be_bytes());
                b.extend_from_slice(&[2, 0, 0, 0, 0, 0, 0, 0]);
                let mut c = AmqpCodec::<AmqpFrame>::new();
                let mut buf = BytesMut::new();
                buf.extend_from_slice(&b[..at + cut]);
                let mut res = vec![];
                for k in 0..2 {
                    if k == 1 {
                        buf.extend_from_slice(&b[at + cut..]);
                    }
                    loop {
                        match c.decode(&mut buf) {
                            Ok(None) => break,
                            Ok(Some(f)) => res.push(Ok(view_frame(&f))),
                            Err(_) => {
                                res.push(Err(()));
                                break;
                            }
                        }
                        if res.len() > 5 {
                            break;
                        }
                    }
                    if res.iter().any(|r| r.is_err()) {
                        break;
                    }
                }
                let good = if after { 1 } else { 0 };
                if res.len() <= good || res[..good].iter().any(|r| r.is_err()) || res[good].is_ok() {
                    return Err(format!("a frame declaring {} bytes gives {:?}", len, res));
                }
            }
        }
    }
    Ok(())
}

// ---------- C11 ----------
const IDS: [(p::ProtocolId, u8); 3] = [(p::ProtocolId::Amqp, 0), (p::ProtocolId::AmqpTls, 2), (p::ProtocolId::AmqpSasl, 3)];
fn header_check(h: &[u8; 8], extra: &[u8], cap: usize) -> Res {
    let mut c = ProtocolIdCodec;
    let mut buf = BytesMut::with_capacity(cap);
    for i in 0..8 {
        match c.decode(&mut buf) {
            Ok(None) => {}
            r => return Err(format!("{} bytes of a protocol header give {:?}", i, r)),
        }
        if buf[..] != h[..i] {
            return Err(format!("{} bytes of a protocol header are consumed", i));
        }
        buf.extend_from_slice(&h[i..i + 1]);
    }
    buf.extend_from_slice(extra);
    let r = c.decode(&mut buf);
    let name = &h[..4] == b"AMQP";
    let version = h[5..] == [1, 0, 0];
    let id = IDS.iter().find(|x| x.1 == h[4]);
    match (name, version, id, r) {
        (true, true, Some(id), Ok(Some(x))) if x == id.0 => {
            if buf[..] != *extra {
                return Err(format!("{} of {} following bytes left after the header", buf.len(), extra.len()));
            }
            Ok(())
        }
        (false, _, _, Err(ProtocolIdError::InvalidHeader)) => Ok(()),
        (true, false, _, Err(ProtocolIdError::Incompatible)) => Ok(()),
        (true, _, None, Err(ProtocolIdError::Unknown)) => Ok(()),
        (_, _, _, r) => Err(format!("protocol header {:02x?} gives {:?}", h, r)),
    }
}
pub fn c11(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut h = *b"AMQP\0\x01\0\0";
    h[4] = *s.pick(&[0u8, 2, 3, 1, 4]);
    for _ in 0..s.below(3) {
        let i = s.idx(8);
        h[i] = s.int(8) as u8;
    }
    if s.chance(10) {
        h.copy_from_slice(&s.fill(8));
    }
    let n = s.len(60);
    let extra = s.fill(n);
    let cap = s.below(40) as usize;
    ctx.label(if &h[..4] == b"AMQP" { "AMQP" } else { "other" });
    ctx.nontrivial = true;
    ctx.desc(|| format!("{:02x?} +{}", h, extra.len()));
    header_check(&h, &extra, cap)?;
    let (id, n) = IDS[s.idx(3)].clone();
    let mut dst = BytesMut::with_capacity(s.below(20) as usize);
    let k = s.below(20) as usize;
    let pre = s.fill(k);
    dst.extend_from_slice(&pre);
    let mut c = ProtocolIdCodec::default();
    c.encode(id, &mut dst).map_err(|e| format!("{:?}", e))?;
    c.encode(id, &mut dst).map_err(|e| format!("{:?}", e))?;
    let mut want = pre.clone();
    for _ in 0..2 {
        want.extend_from_slice(&[b'A', b'M', b'Q', b'P', n, 1, 0, 0]);
    }
    if dst[..] != want[..] {
        return Err(format!("protocol id {:?} is written as {}", id, hex(&dst[pre.len()..])));
    }
    dst.split_to(pre.len());
    for left in [8, 0] {
        match c.decode(&mut dst) {
            Ok(Some(x)) if x == id && dst.len() == left => {}
            r => return Err(format!("own protocol header read as {:?}", r)),
        }
    }
    Ok(())
}
/// every value of every byte of the three headers
pub fn c11_bytes(ctx: &mut Ctx) -> Res {
    for (_, id) in IDS.iter() {
        for i in 0..8 {
            for x in 0..256u32 {
                let mut h = *b"AMQP\0\x01\0\0";
                h[4] = *id;
                h[i] = x as u8;
                header_check(&h, &[1, 2], 0)?;
                ctx.sub += 1;
            }
        }
    }
    Ok(())
}

// ---------- C16 ----------
/// Decode a composite, as itself or as the performative of a frame.
fn dec_comp(name: &str, b: &[u8]) -> Result<(V, usize), String> {
    if name == "transfer" {
        let (f, left) = dec::<p::Frame>(b)?;
        return match &f {
            p::Frame::Transfer(t) if t.body.is_none() => Ok((t.v(), left)),
            f => Err(format!("decoded as {} with a body", f.name())),
        };
    }
    (by_comp(name).dec)(b)
}
fn by_comp(name: &str) -> &'static kinds::Kind {
    let camel: String = name.split('-').map(|w| w[..1].to_uppercase() + &w[1..]).collect();
    kinds::by_name(&camel)
}
/// Through every decoder that reads this composite: none may disagree.
fn all_decoders(name: &str, b: &[u8]) -> Vec<(String, Result<(V, usize), String>)> {
    let mut o = vec![(name.to_string(), dec_comp(name, b))];
    if sc::PERFORMATIVES.contains(&name) {
        let f = g::frame_bytes(0, 3, &[], b);
        o.push(("frame".into(), dec::<AmqpFrame>(&f[4..]).map(|(f, l)| {
            let v = view_frame(&f);
            (v.perf.unwrap_or(Null), l + v.payload.len())
        })));
    }
    if sc::SASL.contains(&name) {
        let f = g::frame_bytes(1, 0, &[], b);
        o.push(("sasl frame".into(), dec::<SaslFrame>(&f[4..]).map(|(f, l)| (f.body.v(), l))));
    }
    if sc::STATES.contains(&name) {
        o.push(("DeliveryState".into(), (kinds::by_name("DeliveryState").dec)(b)));
    }
    if sc::OUTCOMES.contains(&name) {
        o.push(("Outcome".into(), (kinds::by_name("Outcome").dec)(b)));
    }
    if name == "header" || name == "properties" {
        o.push(("Section".into(), (kinds::by_name("Section").dec)(b)));
    }
    o
}
fn check_list(name: &str, l: &[V], b: &[u8], want: &Result<V, String>) -> Res {
    for (n, r) in all_decoders(name, b) {
        let what = || format!("{} as {}: list {}", name, n, show(&List(l.to_vec())));
        match (r, want) {
            (Ok((v, left)), Ok(w)) => {
                if left != 0 {
                    return Err(format!("{}: {} bytes left", what(), left));
                }
                same(&what(), &v, w)?;
            }
            (Err(_), Err(_)) => {}
            (Ok((v, _)), Err(e)) => return Err(format!("{} accepted as {} although {}", what(), show(&v), e)),
            (Err(e), Ok(w)) => return Err(format!("{} rejected ({}), means {}", what(), e, show(w))),
        }
    }
    Ok(())
}
/// What the specification says the list means (surplus entries dropped).
fn meaning(name: &str, l: &[V]) -> Result<V, String> {
    let c = sc::comp(name);
    let n = l.len().min(c.fields.len());
    sc::full(&V::desc(c.code, List(l[..n].to_vec())), &[name])
}
fn comp_names() -> Vec<&'static str> {
    sc::all().iter().map(|c| c.name).collect()
}
pub fn c16(s: &mut Src, ctx: &mut Ctx) -> Res {
    set_static_mode(0);
    let names = comp_names();
    let name = names[s.idx(names.len())];
    c16_of(s, ctx, name)
}
pub fn c16_of(s: &mut Src, ctx: &mut Ctx, name: &str) -> Res {
    let c = sc::comp(name);
    let v = g::comp(s, name);
    let w = g::peer(s, &v);
    let (d, mut l) = match w {
        Desc(d, l) => match *l {
            List(l) => (d, l),
            _ => unreachable!(),
        },
        _ => unreachable!(),
    };
    ctx.label(name);
    let how = s.weighted(&[3, 3, 3, 2]);
    let n = c.fields.len();
    match how {
        0 => {
            // null some fields
            for i in 0..l.len() {
                if s.chance(25) {
                    l[i] = Null;
                }
            }
            ctx.label("nulls");
        }
        1 => {
            let k = s.below(l.len() as u64 + 1) as usize;
            l.truncate(k);
            ctx.label("omitted tail");
        }
        2 => {
            while l.len() < n {
                l.push(Null);
            }
            let k = match s.weighted(&[6, 3, 1]) {
                0 => 1 + s.below(4),
                1 => 1 + s.below(30),
                _ => 1 + s.below(300),
            };
            for _ in 0..k {
                let x = match s.below(4) {
                    0 => Null,
                    1 => Arr(0xb3, vec![V::sym("x")]),
                    _ => g::value(s, 3),
                };
                l.push(x);
            }
            ctx.label("surplus entries");
        }
        _ => {
            let m: Vec<usize> = (0..n.min(l.len())).filter(|&i| c.fields[i].mandatory).collect();
            if !m.is_empty() {
                let i = m[s.idx(m.len())];
                if s.bool() {
                    l[i] = Null
                } else {
                    l.truncate(i)
                }
                ctx.label("mandatory field left out");
            }
        }
    }
    let want = meaning(name, &l);
    ctx.nontrivial = !l.is_empty() || want.is_err();
    ctx.desc(|| format!("{} {}", name, show(&List(l.clone()))));
    let mut b = vec![];
    g::enc_free(s, &Desc(d, Box::new(List(l.clone()))), &mut b);
    check_list(name, &l, &b, &want)
}
/// every list length up to three beyond the fields, every single null, default and wrong type
pub fn lists_of(c: &sc::C) -> Vec<Vec<V>> {
    let n = c.fields.len();
    let full: Vec<V> = c.fields.iter().map(|f| sample(f.ty)).collect();
    let min: Vec<V> = c.fields.iter().map(|f| if f.mandatory { sample(f.ty) } else { Null }).collect();
    let mut lists: Vec<Vec<V>> = vec![];
    for base in [&full, &min] {
        for k in 0..=n {
            lists.push(base[..k].to_vec());
        }
        for x in [Null, U32(7), List(vec![V::s("x")]), Map(vec![(Null, Null)]), Arr(0x70, vec![U32(1)]), Desc(Box::new(U64(1)), Box::new(Null)), Bin(vec![0; 300])] {
            for k in [1usize, 2, 3, 4, 5, 6, 7, 9, 12, 16, 26, 128, 239, 256, 300] {
                let mut l = base.to_vec();
                for _ in 0..k {
                    l.push(x.clone());
                }
                lists.push(l);
            }
        }
        for i in 0..n {
            let mut l = base.to_vec();
            l[i] = Null;
            lists.push(l.clone());
            let mut l = base.to_vec();
            l[i] = wrong_field(c.fields[i].ty);
            lists.push(l);
            if let Some(d) = &c.fields[i].default {
                let mut l = base.to_vec();
                l[i] = d.clone();
                lists.push(l);
            }
        }
    }
    lists
}
/// every composite, every list length up to three beyond the fields, every single null
pub fn c16_lists(ctx: &mut Ctx) -> Res {
    c16_lists_of(ctx, &comp_names())
}
pub fn c16_lists_of(ctx: &mut Ctx, names: &[&str]) -> Res {
    for &name in names {
        let c = sc::comp(name);
        let lists = lists_of(c);
        for l in lists {
            let want = meaning(name, &l);
            for d in [U64(c.code), V::sym(c.sym)] {
                for f in 0..3u64 {
                    let mut b = vec![];
                    let mut first = true;
                    // compact, list8 and list32 forms of the field list
                    enc(&Desc(Box::new(d.clone()), Box::new(List(l.clone()))), &mut b, &mut |n| {
                        if first {
                            first = false;
                            return 0;
                        }
                        f % n
                    });
                    check_list(name, &l, &b, &want)?;
                    ctx.sub += 1;
                }
            }
        }
    }
    Ok(())
}

// ---------- C17 ----------
/// (decoder, composites it recognises)
fn readers() -> Vec<(&'static str, Vec<&'static str>)> {
    let mut o: Vec<(&'static str, Vec<&'static str>)> = vec![];
    for n in comp_names() {
        if n != "transfer" {
            o.push((n, vec![n]));
        }
    }
    o.push(("DeliveryState", sc::STATES.to_vec()));
    o.push(("Outcome", sc::OUTCOMES.to_vec()));
    o.push(("SaslFrameBody", sc::SASL.to_vec()));
    o.push(("Frame", sc::PERFORMATIVES.to_vec()));
    o.push(("Section", sc::SECTIONS.iter().map(|x| x.2).collect()));
    o
}
fn read(r: &str, b: &[u8]) -> Result<V, String> {
    match r {
        "Frame" => dec::<p::Frame>(b).map(|(f, _)| match &f {
            p::Frame::Transfer(t) => t.v(),
            f => f.v(),
        }),
        "DeliveryState" | "Outcome" | "SaslFrameBody" | "Section" => (kinds::by_name(r).dec)(b).map(|x| x.0),
        n => (by_comp(n).dec)(b).map(|x| x.0),
    }
}
/// code, symbol and a valid described content of a composite or section
fn target(name: &str) -> (u64, &'static str, V) {
    if let Some(x) = sc::SECTIONS.iter().find(|x| x.2 == name) {
        let v = match x.0 {
            0x75 => Bin(vec![1]),
            0x76 => List(vec![U32(1)]),
            0x77 => V::s("v"),
            0x74 => Map(vec![(V::s("k"), U32(1))]),
            0x70 | 0x73 => match minimal(name) {
                Desc(_, l) => *l,
                _ => unreachable!(),
            },
            _ => Map(vec![(V::sym("k"), U32(1))]),
        };
        return (x.0, x.1, v);
    }
    let c = sc::comp(name);
    match minimal(name) {
        Desc(_, l) => (c.code, c.sym, *l),
        _ => unreachable!(),
    }
}
fn descriptor_check(reader: &str, allowed: &[&'static str], d: &V, body_of: &str) -> Res {
    let named = allowed.iter().find(|n| {
        let (c, y, _) = target(n);
        *d == U64(c) || *d == V::sym(y)
    });
    let (code, _, body) = target(named.unwrap_or(&body_of));
    let mut forms = vec![enc_compact(&Desc(Box::new(d.clone()), Box::new(body.clone())))];
    let mut b = vec![];
    enc(&Desc(Box::new(d.clone()), Box::new(body.clone())), &mut b, &mut |n| n - 1);
    forms.push(b);
    for b in forms {
        let r = read(reader, &b);
        match (named, r) {
            (Some(n), Ok(v)) => {
                if code_of(&v) != code {
                    return Err(format!("{}: {} described as {} reads as {}", reader, n, show(d), show(&v)));
                }
            }
            (None, Err(_)) => {}
            (Some(n), Err(e)) => return Err(format!("{}: {} described as {} is rejected: {}", reader, n, show(d), e)),
            (None, Ok(v)) => return Err(format!("{}: descriptor {} is accepted as {}", reader, show(d), show(&v))),
        }
    }
    Ok(())
}
pub fn c17(s: &mut Src, ctx: &mut Ctx) -> Res {
    ctx.nontrivial = true;
    match s.weighted(&[5, 2, 4, 2]) {
        0 => {
            let rs = readers();
            let (r, allowed) = &rs[s.idx(rs.len())];
            let near = target(allowed[s.idx(allowed.len())]);
            let d = match s.below(7) {
                // a vendor's domain
                6 => {
                    let hi = s.int(32) << *s.pick(&[32u64, 8, 16, 24, 40, 48]);
                    U64(near.0 ^ hi)
                }
                0 => U64(s.int(64)),
                1 => U64(near.0 ^ (1u64 << s.below(64))),
                2 => Sym(g::near(s, &[near.1])),
                3 => Sym(g::symbol(s, 300)),
                4 => {
                    let all: Vec<&'static str> = comp_names().into_iter().chain(sc::SECTIONS.iter().map(|x| x.2)).collect();
                    let t = target(all[s.idx(all.len())]);
                    if s.bool() {
                        U64(t.0)
                    } else {
                        V::sym(t.1)
                    }
                }
                _ => U64(near.0 + 256 * s.below(300)),
            };
            let body = allowed[s.idx(allowed.len())];
            ctx.label(r);
            ctx.desc(|| format!("{} given {}", r, show(&d)));
            descriptor_check(r, allowed, &d, body)
        }
        1 => {
            let ftype = s.int(8) as u8;
            ctx.label("frame type");
            ctx.desc(|| format!("frame type {}", ftype));
            let p = *s.pick(sc::PERFORMATIVES);
            let q = *s.pick(sc::SASL);
            let (v, w) = (g::comp(s, p), g::comp(s, q));
            frame_type(ftype, &enc_compact(&v), &enc_compact(&w))
        }
        2 => {
            // conditions and modes outside the known names are kept
            let t = if s.bool() { g::symbol(s, 400) } else { g::near(s, &["move", "copy", "amqp:not-found", "amqp:connection:redirect", "amqp:link:redirect"]) };
            ctx.label("open symbol");
            ctx.desc(|| t.clone());
            open_symbol(&t)
        }
        _ => {
            let u32s = U32(s.int(32) as u32);
            let names = [sc::EXPIRY, sc::AMQP_ERRORS, sc::CONN_ERRORS, sc::SESSION_ERRORS, sc::LINK_ERRORS][s.idx(5)];
            let sym = Sym(if s.bool() { g::symbol(s, 300) } else { g::near(s, names) });
            ctx.label("enumeration");
            ctx.desc(|| format!("{} {}", show(&u32s), show(&sym)));
            enum_value(&u32s)?;
            enum_value(&sym)?;
            // wrong types
            let k = s.below(g::SCALARS);
            let v = g::scalar_of(s, k, 60);
            enum_value(&v)
        }
    }
}
fn frame_type(ftype: u8, amqp: &[u8], sasl: &[u8]) -> Res {
    for body in [amqp, sasl] {
        let f = g::frame_bytes(ftype, 0, &[], body);
        let a = dec::<AmqpFrame>(&f[4..]).is_ok();
        let s = dec::<SaslFrame>(&f[4..]).is_ok();
        let want = (ftype == 0 && body == amqp, ftype == 1 && body == sasl);
        if (a, s) != want {
            return Err(format!("frame of type {} holding {}: accepted as AMQP {}, as SASL {}", ftype, hex(body), a, s));
        }
    }
    Ok(())
}
fn open_symbol(t: &str) -> Res {
    for n in ["ErrorCondition", "DistributionMode"] {
        let k = kinds::by_name(n);
        let v = V::sym(t);
        for wide in 0..2u64 {
            let mut b = vec![];
            enc(&v, &mut b, &mut |n| wide % n);
            let (w, left) = (k.dec)(&b).map_err(|e| format!("{} {:?} rejected: {}", n, t, e))?;
            if left != 0 {
                return Err(format!("{} {:?}: {} bytes left", n, t, left));
            }
            same(n, &w, &v)?;
        }
        let (_, b) = (k.enc)(&v);
        if crate::refm::parse_all(&b).as_ref() != Ok(&v) {
            return Err(format!("{} {:?} is written as {}", n, t, hex(&b)));
        }
    }
    let b = enc_compact(&V::sym(t));
    let (c, _) = dec::<p::ErrorCondition>(&b)?;
    let want = sc::AMQP_ERRORS.contains(&t) as u8 * 1 + sc::CONN_ERRORS.contains(&t) as u8 * 2 + sc::SESSION_ERRORS.contains(&t) as u8 * 3 + sc::LINK_ERRORS.contains(&t) as u8 * 4;
    let got = match &c {
        p::ErrorCondition::AmqpError(_) => 1,
        p::ErrorCondition::ConnectionError(_) => 2,
        p::ErrorCondition::SessionError(_) => 3,
        p::ErrorCondition::LinkError(_) => 4,
        p::ErrorCondition::Custom(_) => 0,
    };
    if got != want {
        return Err(format!("error condition {:?} is classified {:?}", t, c));
    }
    let (m, _) = dec::<p::DistributionMode>(&b)?;
    let ok = match &m {
        p::DistributionMode::Move => t == "move",
        p::DistributionMode::Copy => t == "copy",
        p::DistributionMode::Custom(_) => t != "move" && t != "copy",
    };
    if !ok {
        return Err(format!("distribution mode {:?} is {:?}", t, m));
    }
    Ok(())
}
macro_rules! each_enum {
    ($f:ident $a:expr; $($t:ident),*) => { $( $f::<p::$t>(stringify!($t), $a)?; )* };
}
fn enum_one<E: Items + View + FromV + Decode + Encode + PartialEq + std::fmt::Debug>(name: &str, v: &V) -> Res {
    let mut b = vec![];
    enc(v, &mut b, &mut |_| 0);
    let mut c = vec![];
    enc(v, &mut c, &mut |n| n - 1);
    let item = E::items().into_iter().find(|x| x.1 == *v);
    for b in [b, c] {
        match (dec::<E>(&b), &item) {
            (Ok((x, 0)), Some(i)) if x == i.0 => {}
            (Err(_), None) => {}
            (Ok((x, l)), _) => return Err(format!("{}: {} reads as {:?} ({} left)", name, show(v), x, l)),
            (Err(e), Some(i)) => return Err(format!("{}: {} is rejected ({}), means {:?}", name, show(v), e, i.0)),
        }
    }
    Ok(())
}
fn enum_value(v: &V) -> Res {
    each_enum!(enum_one v; Role, SenderSettleMode, ReceiverSettleMode, TerminusDurability, SaslCode, TerminusExpiryPolicy, AmqpError, ConnectionError, SessionError, LinkError);
    Ok(())
}
fn enum_items<E: Items + View + FromV + Decode + Encode + PartialEq + std::fmt::Debug>(name: &str, _: ()) -> Res {
    let items = E::items();
    for (i, (x, v)) in items.iter().enumerate() {
        let (n, b) = enc_of(x);
        if n != b.len() || crate::refm::parse_all(&b).as_ref() != Ok(v) {
            return Err(format!("{}: {:?} is written as {}, its value is {}", name, x, hex(&b), show(v)));
        }
        enum_one::<E>(name, v)?;
        for (j, (y, _)) in items.iter().enumerate() {
            if (x == y) != (i == j) {
                return Err(format!("{}: {:?} and {:?}", name, x, y));
            }
        }
    }
    Ok(())
}
pub fn c17_all(ctx: &mut Ctx) -> Res {
    each_enum!(enum_items (); Role, SenderSettleMode, ReceiverSettleMode, TerminusDurability, SaslCode, TerminusExpiryPolicy, AmqpError, ConnectionError, SessionError, LinkError);
    for x in 0..256u32 {
        enum_value(&U8(x as u8))?;
        enum_value(&U32(x))?;
        enum_value(&I8(x as u8 as i8))?;
        frame_type(x as u8, &enc_compact(&minimal("open")), &enc_compact(&minimal("sasl-outcome")))?;
        ctx.sub += 4;
    }
    for x in [256u32, 257, 258, 65536, 1 << 24, (1 << 24) + 1, u32::MAX, u32::MAX - 1] {
        enum_value(&U32(x))?;
    }
    for v in [Null, Bool(true), Bool(false), U16(0), U16(1), U64(0), U64(1), I32(0), V::s("never"), V::s("amqp:not-found"), Bin(vec![0])] {
        enum_value(&v)?;
    }
    let mut words: Vec<String> = vec![];
    for l in [sc::EXPIRY, sc::AMQP_ERRORS, sc::CONN_ERRORS, sc::SESSION_ERRORS, sc::LINK_ERRORS, &["move", "copy", ""]] {
        for w in l {
            words.push(w.to_string());
            words.push(format!("{}x", w));
            words.push(w.to_uppercase());
            words.push(w.replace(':', "-"));
            words.extend(g::slips(w));
            words.extend([":list", ":symbol", "\0\0", "  "].iter().map(|x| format!("{}{}", w, x)));
            if let Some(x) = w.rsplit(':').next() {
                words.push(x.to_string());
                for y in ["amqp:", "amqp:connection:", "amqp:session:", "amqp:link:"] {
                    words.push(format!("{}{}", y, x));
                }
            }
            if !w.is_empty() {
                words.push(w[1..].to_string());
                words.push(w[..w.len() - 1].to_string());
            }
        }
    }
    words.sort();
    words.dedup();
    for w in &words {
        enum_value(&V::sym(w))?;
        open_symbol(w)?;
    }
    // the public conversions agree
    for x in 0..=255u8 {
        let a = p::SenderSettleMode::try_from(x).ok().map(|m| m.v());
        let b = p::ReceiverSettleMode::try_from(x).ok().map(|m| m.v());
        let c = p::SaslCode::try_from(x).ok().map(|m| m.v());
        let d = p::TerminusDurability::try_from(x as u32).ok().map(|m| m.v());
        let w = |n: u8| if x <= n { Some(U8(x)) } else { None };
        if a != w(2) || b != w(1) || c != w(4) || d != (if x <= 2 { Some(U32(x as u32)) } else { None }) {
            return Err(format!("try_from({})", x));
        }
    }
    if p::Role::try_from(false).ok() != Some(p::Role::Sender) || p::Role::try_from(true).ok() != Some(p::Role::Receiver) {
        return Err("Role::try_from".into());
    }
    for w in &words {
        let s = t::Symbol::from_slice(w);
        let v = Some(V::sym(w));
        let have = [
            p::TerminusExpiryPolicy::try_from(&s).ok().map(|x| x.v()),
            p::AmqpError::try_from(&s).ok().map(|x| x.v()),
            p::ConnectionError::try_from(&s).ok().map(|x| x.v()),
            p::SessionError::try_from(&s).ok().map(|x| x.v()),
            p::LinkError::try_from(&s).ok().map(|x| x.v()),
        ];
        for (h, l) in have.iter().zip([sc::EXPIRY, sc::AMQP_ERRORS, sc::CONN_ERRORS, sc::SESSION_ERRORS, sc::LINK_ERRORS]) {
            let want = if l.contains(&&w[..]) { v.clone() } else { None };
            if *h != want {
                return Err(format!("try_from({:?}) gives {:?}", w, h));
            }
        }
    }
    Ok(())
}
/// every reader against every code up to 0x400 and every known symbol, and against other descriptor types
pub fn c17_descriptors(ctx: &mut Ctx) -> Res {
    let mut syms: Vec<String> = vec!["".into(), "amqp".into()];
    for n in comp_names().into_iter().chain(sc::SECTIONS.iter().map(|x| x.2)) {
        let y = target(n).1;
        syms.extend([y.to_string(), format!("{} ", y), y.to_uppercase(), y[..y.len() - 1].to_string(), y.replace(":list", ""), y.replace("amqp:", "")]);
        syms.extend(g::slips(y));
    }
    syms.sort();
    syms.dedup();
    for (r, allowed) in readers() {
        for c in (0..0x400u64).chain((0..64).map(|b| 1u64 << b)).chain(allowed.iter().map(|n| target(n).0 << 32)).chain(allowed.iter().map(|n| target(n).0 | 1 << 63)) {
            descriptor_check(r, &allowed, &U64(c), allowed[0])?;
            ctx.sub += 1;
        }
        for y in &syms {
            descriptor_check(r, &allowed, &V::sym(y), allowed[0])?;
        }
        // the right number or name in another type is not a descriptor of it
        for n in &allowed {
            let (c, y, body) = target(n);
            for d in [U32(c as u32), U8(c as u8), I64(c as i64), V::s(y), Bin(y.as_bytes().to_vec()), Null] {
                let b = enc_compact(&Desc(Box::new(d.clone()), Box::new(body.clone())));
                if let Ok(v) = read(r, &b) {
                    return Err(format!("{}: descriptor {} is accepted as {}", r, show(&d), show(&v)));
                }
            }
        }
    }
    Ok(())
}

