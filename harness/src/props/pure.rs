//! C28 decoding depends on the bytes alone; C29 whole connections; C30 equality, cloning, formatting.
use super::bytes::{deep, input, mutate, valid, For};
use super::frames::{amqp_piece, chunks, fixed_src, sasl_piece, Piece};
use super::values::hex;
use crate::conv::*;
use crate::engine::{Ctx, Res};
use crate::gen as g;
use crate::kinds;
use crate::refm::V::{self, *};
use crate::refm::{canon, enc_compact, show};
use crate::schema as sc;
use crate::src::Src;
use amqp_codec::protocol as p;
use amqp_codec::types as t;
use amqp_codec::protocol::TransferBody;
use amqp_codec::{AmqpCodec, AmqpFrame, Encode, InMessage, MessageBody, OutMessage, ProtocolIdCodec, SaslFrame};
use bytes::{Bytes, BytesMut};
use futures::{Async, AsyncSink, Sink, Stream};
use std::io::{self, Read, Write};
use std::sync::Arc;
use tokio_io::codec::{Decoder, Encoder};
use tokio_io::_tokio_codec::{Framed, FramedParts};
use tokio_io::{AsyncRead, AsyncWrite};

// ---------- C28 ----------
#[derive(Clone, Copy, Debug)]
pub enum What {
    Kind(usize),
    Frame,
    Sasl,
    Perf,
    In,
    Out,
}
/// The whole outcome of one decoding: content, bytes left, size of its re-encoding, or the error.
pub type Outcome = Result<(Vec<u8>, usize, usize), String>;
pub fn frame_bytes_of(f: &FrameV) -> Vec<u8> {
    let mut b = f.channel.to_be_bytes().to_vec();
    if let Some(v) = &f.perf {
        b.push(1);
        b.extend(canon(v));
    }
    b.push(2);
    b.extend(&f.payload);
    b
}
fn msg_outcome<M: Msg>(b: &[u8]) -> Outcome {
    let (m, left) = dec::<M>(b)?;
    let (n, e) = enc_of(&m);
    let mv = parse_message(&e).map_err(|e| format!("unreadable re-encoding: {}", e))?;
    let mut o = vec![];
    for x in mv.sections() {
        o.extend(canon(&x));
    }
    Ok((o, left, n))
}
pub fn outcome(w: What, b: &[u8]) -> Outcome {
    match w {
        What::Kind(i) => {
            let k = &kinds::kinds()[i];
            let (v, left) = (k.dec)(b)?;
            let (_, _, n, _) = (k.relay)(b).ok_or("decodes once and not twice")?;
            Ok((canon(&v), left, n))
        }
        What::Frame => {
            let (f, left) = dec::<AmqpFrame>(b)?;
            Ok((frame_bytes_of(&view_frame(&f)), left, f.encoded_size()))
        }
        What::Sasl => {
            let (f, left) = dec::<SaslFrame>(b)?;
            Ok((canon(&f.body.v()), left, f.encoded_size()))
        }
        What::Perf => {
            let (f, left) = dec::<p::Frame>(b)?;
            let f = AmqpFrame::new(0, f);
            Ok((frame_bytes_of(&view_frame(&f)), left, f.encoded_size()))
        }
        What::In => msg_outcome::<InMessage>(b),
        What::Out => msg_outcome::<OutMessage>(b),
    }
}
fn in_thread<R: Send + 'static, F: FnOnce() -> R + Send + 'static>(f: F) -> std::thread::JoinHandle<R> {
    std::thread::Builder::new().stack_size(8 << 20).spawn(f).expect("harness: thread")
}
fn joined<R>(h: std::thread::JoinHandle<R>) -> Result<R, String> {
    h.join().map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
        format!("a decoder panicked in a thread: {}", m.unwrap_or_default())
    })
}
pub fn show_outcome(o: &Outcome) -> String {
    match o {
        Ok((v, left, n)) => format!("{} ({} bytes left, size {})", hex(v), left, n),
        Err(e) => format!("error {}", e),
    }
}
/// values nested around the depth limit, of every compound kind, then a chance of damage
fn near_limit(s: &mut Src) -> Vec<u8> {
    let n = match s.below(3) {
        0 => 100 + s.below(60) as usize,
        1 => 124 + s.below(10) as usize,
        _ => 1 + s.below(300) as usize,
    };
    deep(n, s.below(6), s.chance(80))
}
fn tasks(s: &mut Src, ctx: &mut Ctx) -> Vec<(What, Vec<u8>)> {
    let n = 2 + s.below(5);
    let mut o = vec![];
    for _ in 0..n {
        s.budget = 3000;
        let (f, b) = match s.weighted(&[4, 3, 2]) {
            0 => {
                ctx.label("valid input");
                let (f, mut b) = valid(s);
                if s.chance(20) {
                    let k = s.below(20) as usize;
                    b.extend(s.fill(k));
                }
                (f, b)
            }
            1 => {
                ctx.label("doubtful input");
                let (f, mut b) = input(s, &mut Ctx { labels: Default::default(), nontrivial: false, want_desc: false, desc: None, sub: 0 });
                if s.chance(10) {
                    mutate(s, &mut b);
                }
                (f, b)
            }
            _ => {
                ctx.label("near the nesting limit");
                (For::Any, near_limit(s))
            }
        };
        let ks = kinds::kinds();
        let body = if b.len() >= 4 { b[4..].to_vec() } else { vec![] };
        match f {
            For::Kind(i) => o.push((What::Kind(i), b.clone())),
            For::Frame => o.push((What::Frame, body)),
            For::Sasl => o.push((What::Sasl, body)),
            For::Message => {
                o.push((What::In, b.clone()));
                o.push((What::Out, b.clone()));
            }
            For::Any => {}
        }
        match s.below(4) {
            0 => o.push((What::Kind(ks.iter().position(|k| k.name == "Variant").unwrap()), b)),
            1 => {
                let n = *s.pick(&["List", "Map", "Fields", "VecVariantMap"]);
                o.push((What::Kind(ks.iter().position(|k| k.name == n).unwrap()), b))
            }
            2 => o.push((What::Perf, b)),
            _ => o.push((What::Out, [&[0u8, 0x53, 0x77][..], &b].concat())),
        }
    }
    // bare arrays of zero-width elements are a recorded finding of C08
    o.retain(|(w, b)| !matches!(w, What::Kind(i) if kinds::kinds()[*i].vec && super::bytes::zero_width_bomb(b)));
    o
}
pub fn c28(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.chance(25) {
        return shared(s, ctx);
    }
    let ts = Arc::new(tasks(s, ctx));
    if ts.is_empty() {
        return Ok(());
    }
    ctx.desc(|| format!("{:?}", ts.iter().map(|(w, b)| format!("{:?} {}", w, hex(&b[..b.len().min(40)]))).collect::<Vec<_>>()));
    // what each gives on its own, in a thread that has decoded nothing before
    let mut alone: Vec<Outcome> = vec![];
    for i in 0..ts.len() {
        let t = ts.clone();
        alone.push(joined(in_thread(move || outcome(t[i].0, &t[i].1)))?);
    }
    ctx.nontrivial = alone.iter().any(|o| o.is_ok()) && alone.iter().any(|o| o.is_err());
    let differs = |i: usize, how: &str, o: &Outcome| -> Res {
        if *o == alone[i] {
            return Ok(());
        }
        Err(format!("{:?} of {} gives {} {}, but {} on its own", ts[i].0, hex(&ts[i].1), show_outcome(o), how, show_outcome(&alone[i])))
    };
    // here, after everything decoded so far, in some order
    for _ in 0..ts.len() * 2 {
        let i = s.idx(ts.len());
        // from a buffer that is gone, and overwritten, afterwards
        let mut b = ts[i].1.clone();
        let o = outcome(ts[i].0, &b);
        b.iter_mut().for_each(|x| *x = !*x);
        differs(i, "after other decodings", &o)?;
        ctx.sub += 1;
    }
    // everywhere at once
    if s.chance(40) {
        ctx.label("concurrent");
        let hs: Vec<_> = (0..4usize)
            .map(|k| {
                let t = ts.clone();
                in_thread(move || (0..t.len() * 3).map(|j| (j * (k * 2 + 1) + k) % t.len()).map(|i| (i, outcome(t[i].0, &t[i].1))).collect::<Vec<_>>())
            })
            .collect();
        for h in hs {
            for (i, o) in joined(h)? {
                differs(i, "while other threads decode", &o)?;
                ctx.sub += 1;
            }
        }
    }
    Ok(())
}
/// One item encoded and measured by several threads at once, beside decodings and other encodings.
fn shared(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.budget = 4000;
    let v = g::value(s, 30);
    let n = *s.pick(sc::PERFORMATIVES);
    let f = g::comp(s, n);
    ctx.label("shared value");
    ctx.nontrivial = true;
    ctx.desc(|| format!("{} / {}", show(&v), show(&f)));
    let x: Arc<t::Variant> = Arc::new(fv(&v));
    let want = enc_of(&*x);
    let frame = FrameV { channel: 1, perf: Some(f), payload: vec![] };
    let fwant = enc_of(&make_frame(&frame)).0;
    let frame = Arc::new(frame);
    let hs: Vec<_> = (0..4)
        .map(|_| {
            let (x, frame) = (x.clone(), frame.clone());
            in_thread(move || {
                let mut o = vec![];
                for _ in 0..4 {
                    let a = enc_of(&*x);
                    let y = make_frame(&frame);
                    let b = enc_of(&y);
                    let back = dec::<AmqpFrame>(&b.1[4..]).map(|r| frame_bytes_of(&view_frame(&r.0)));
                    let val = dec::<t::Variant>(&a.1).map(|r| r.0 == *x);
                    o.push((a, b.0, back, val));
                }
                o
            })
        })
        .collect();
    for h in hs {
        for (a, n, back, val) in joined(h)? {
            if a != want {
                return Err(format!("encoding a shared value from several threads gives {} ({} announced) instead of {}", hex(&a.1), a.0, hex(&want.1)));
            }
            if n != fwant || back != Ok(frame_bytes_of(&frame)) {
                return Err("a frame encoded in a thread has another size or content".into());
            }
            if val != Ok(true) {
                return Err(format!("a value does not survive encoding in one of several threads: {:?}", val));
            }
            ctx.sub += 1;
        }
    }
    // an item moved to another thread, and back
    let y = make_frame(&frame);
    let (z, n) = joined(in_thread(move || {
        let n = y.encoded_size();
        (y, n)
    }))?;
    if n != fwant || frame_bytes_of(&view_frame(&z)) != frame_bytes_of(&frame) {
        return Err("a frame moved to another thread and back is altered".into());
    }
    Ok(())
}
/// Thousands of failures of every sort leave no trace.
pub fn c28_failures(ctx: &mut Ctx) -> Res {
    let ks = kinds::kinds();
    let var = What::Kind(ks.iter().position(|k| k.name == "Variant").unwrap());
    let mut good: Vec<(What, Vec<u8>)> = (0..6).flat_map(|how| [120usize, 60, 30].into_iter().map(move |n| (var, deep(n, how, true)))).filter(|(_, b)| (kinds::by_name("Variant").touch)(b)).collect();
    for c in sc::all() {
        let v = super::frames::minimal(c.name);
        let b = enc_compact(&v);
        if sc::PERFORMATIVES.contains(&c.name) {
            good.push((What::Perf, b.clone()));
        } else if let Some(i) = ks.iter().position(|k| k.name == super::access::camel(c.name)) {
            good.push((What::Kind(i), b.clone()));
        }
    }
    // as deep as the decoder goes, wherever it draws the line
    for (w, code) in [(What::In, 0x77u8), (What::Out, 0x76)] {
        let at = |n: usize| [&[0, 0x53, code][..], &deep(n, 0, true)].concat();
        if let Some(n) = (30..400).rev().find(|&n| outcome(w, &at(n)).is_ok()) {
            good.push((w, at(n)));
        }
    }
    let bad: Vec<(What, Vec<u8>)> = {
        let mut o = vec![];
        for how in 0..6 {
            for n in [130usize, 200, 127, 100, 50, 3] {
                for honest in [true, false] {
                    let b = deep(n, how, honest);
                    o.push((var, b.clone()));
                    // cut short, and with a wrong innermost value
                    o.push((var, b[..b.len() - 1].to_vec()));
                    let mut c = b.clone();
                    let at = c.iter().rposition(|&x| x != 0).unwrap_or(0);
                    c[at] = 0xff;
                    o.push((var, c.clone()));
                    for code in [0x70u8, 0x71, 0x72, 0x74, 0x75, 0x76, 0x77, 0x78, 0x10, 0x12, 0x24, 0x28] {
                        o.push((What::In, [&[0, 0x53, code][..], &b].concat()));
                        o.push((What::Out, [&[0, 0x53, code][..], &c].concat()));
                        o.push((What::Perf, [&[0, 0x53, code][..], &c].concat()));
                    }
                }
            }
        }
        for b in [&[][..], &[0x73, 0, 0, 0xd8, 0], &[0x83, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[0xa1, 1, 0xff], &[0xa3, 1, 0xff], &[0x98, 0], &[0xff], &[0xc0, 0], &[0xd0, 0, 0, 0, 1, 0, 0, 0, 0], &[0, 0xa3, 1, b'x', 0xff], &[0, 0x53], &[0, 0x40, 0x40]] {
            o.push((var, b.to_vec()));
            o.push((What::Perf, b.to_vec()));
            o.push((What::Frame, b.to_vec()));
            o.push((What::Sasl, b.to_vec()));
            o.push((What::In, b.to_vec()));
        }
        o
    };
    let bad = Arc::new(bad);
    let good = Arc::new(good);
    let r = {
        let (bad, good) = (bad.clone(), good.clone());
        joined(in_thread(move || -> Result<u64, String> {
            let first: Vec<Outcome> = good.iter().map(|(w, b)| outcome(*w, b)).collect();
            for (o, (w, b)) in first.iter().zip(good.iter()) {
                if let Err(e) = o {
                    return Err(format!("harness: {:?} {}: {}", w, hex(b), e));
                }
            }
            let firstbad: Vec<Outcome> = bad.iter().map(|(w, b)| outcome(*w, b)).collect();
            let mut n = 0;
            for round in 0..30 {
                for (i, (w, b)) in bad.iter().enumerate() {
                    // one alone many times over, or all in turn
                    let times = if round == i % 30 { 150 } else { 1 };
                    for _ in 0..times {
                        let o = outcome(*w, b);
                        n += 1;
                        if o != firstbad[i] {
                            return Err(format!("{:?} of {} gives {} in round {}, {} at first", w, hex(b), show_outcome(&o), round, show_outcome(&firstbad[i])));
                        }
                    }
                    let j = (i + round) % good.len();
                    let o = outcome(good[j].0, &good[j].1);
                    if o != first[j] {
                        return Err(format!("{:?} of {} gives {} after {} other decodings, {} at first", good[j].0, hex(&good[j].1), show_outcome(&o), n, show_outcome(&first[j])));
                    }
                }
            }
            Ok(n)
        }))?
    };
    ctx.sub += r?;
    Ok(())
}

// ---------- C29 ----------
#[derive(Clone)]
enum Item {
    Proto(p::ProtocolId),
    Sasl(FrameV),
    Amqp(FrameV),
}
fn item_show(i: &Item) -> String {
    match i {
        Item::Proto(x) => format!("{:?}", x),
        Item::Sasl(f) => format!("sasl {}", show(f.perf.as_ref().unwrap())),
        Item::Amqp(f) => format!("amqp {:?}", f.perf.as_ref().map(show)),
    }
}
/// the reading end: whichever codec is in use
#[derive(Default)]
struct Codecs {
    proto: ProtocolIdCodec,
    sasl: AmqpCodec<SaslFrame>,
    amqp: AmqpCodec<AmqpFrame>,
}
fn amqp_v(x: &AmqpFrame) -> FrameV {
    view_frame(x)
}
fn sasl_v(x: &SaslFrame) -> FrameV {
    FrameV { channel: 0, perf: Some(x.body.v()), payload: vec![] }
}
fn check_item(what: &str, got: &Item, want: &Item) -> Res {
    match (got, want) {
        (Item::Proto(a), Item::Proto(b)) if a == b => Ok(()),
        (Item::Sasl(a), Item::Sasl(b)) | (Item::Amqp(a), Item::Amqp(b)) => frames_same(what, a, b),
        _ => Err(format!("{}: got {} expected {}", what, item_show(got), item_show(want))),
    }
}
/// Decode with the codec for `want`.
fn take(c: &mut Codecs, want: &Item, buf: &mut BytesMut) -> Result<Option<Item>, String> {
    Ok(match want {
        Item::Proto(_) => c.proto.decode(buf).map_err(|e| format!("{:?}", e))?.map(Item::Proto),
        Item::Sasl(_) => c.sasl.decode(buf).map_err(|e| format!("{:?}", e))?.map(|x| Item::Sasl(sasl_v(&x))),
        Item::Amqp(_) => c.amqp.decode(buf).map_err(|e| format!("{:?}", e))?.map(|x| Item::Amqp(amqp_v(&x))),
    })
}
fn put(c: &mut Codecs, i: &Item, buf: &mut BytesMut) -> Res {
    match i {
        Item::Proto(x) => c.proto.encode(*x, buf).map_err(|e| format!("{:?}", e)),
        Item::Sasl(f) => c.sasl.encode(make_sasl(f.perf.as_ref().unwrap()), buf).map_err(|e| format!("{:?}", e)),
        Item::Amqp(f) => c.amqp.encode(make_frame(f), buf).map_err(|e| format!("{:?}", e)),
    }
}
fn proto_bytes(x: p::ProtocolId) -> Vec<u8> {
    let id = match x {
        p::ProtocolId::Amqp => 0,
        p::ProtocolId::AmqpTls => 2,
        p::ProtocolId::AmqpSasl => 3,
    };
    vec![b'A', b'M', b'Q', b'P', id, 1, 0, 0]
}
/// One side's half of a connection: items and the bytes of each.
fn transcript(s: &mut Src) -> Vec<(Item, Vec<u8>)> {
    let mut o = vec![];
    let ids = [p::ProtocolId::Amqp, p::ProtocolId::AmqpTls, p::ProtocolId::AmqpSasl];
    let good = |p: (Piece, Vec<u8>)| match p {
        (Piece::Good(f), b) => (f, b),
        _ => unreachable!(),
    };
    let usual = s.chance(50);
    let phases = if usual { 4 } else { 1 + s.below(6) };
    for i in 0..phases {
        let k = if usual { [0, 1, 0, 2][i as usize] } else { s.below(3) };
        match k {
            0 => {
                let x = if usual { [p::ProtocolId::AmqpSasl, p::ProtocolId::Amqp][i as usize / 2] } else { ids[s.idx(3)] };
                o.push((Item::Proto(x), proto_bytes(x)));
            }
            1 => {
                for _ in 0..1 + s.below(4) {
                    s.budget = 800;
                    let (f, b) = good(sasl_piece(s));
                    o.push((Item::Sasl(f), b));
                }
            }
            _ => {
                for _ in 0..1 + s.below(5) {
                    s.budget = if s.chance(5) { 20_000 } else { 1500 };
                    let (f, b) = good(amqp_piece(s, true));
                    o.push((Item::Amqp(f), b));
                }
            }
        }
    }
    o
}
struct Conn {
    items: Vec<(Item, Vec<u8>)>,
    all: Vec<u8>,
    ends: Vec<usize>,
    cs: Vec<usize>,
    at: usize,
    chunk: usize,
    next: usize,
    buf: BytesMut,
}
pub fn c29(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.chance(35) {
        return framed_connection(s, ctx);
    }
    let one_codec_each = s.bool(); // or fresh ones for each phase
    let n = 1 + s.below(3);
    let mut conns = vec![];
    for _ in 0..n {
        let items = transcript(s);
        // the writing end: everything into one buffer
        let mut w = Codecs::default();
        let mut out = BytesMut::new();
        let mut want = vec![];
        let mut written = vec![];
        for (i, _) in &items {
            if !one_codec_each {
                w = Codecs::default();
            }
            let was = out.len();
            put(&mut w, i, &mut out)?;
            let b = match i {
                Item::Proto(x) => proto_bytes(*x),
                Item::Sasl(f) => enc_of(&make_sasl(f.perf.as_ref().unwrap())).1,
                Item::Amqp(f) => enc_of(&make_frame(f)).1,
            };
            if out[was..] != b[..] || out[..was] != want[..] {
                return Err(format!("connection output: {} is written as {} after {} bytes, {} on its own", item_show(i), hex(&out[was..]), was, hex(&b)));
            }
            want.extend_from_slice(&b);
            written.push(b);
            if s.chance(10) {
                // what is flushed leaves the buffer
                let k = s.below(out.len() as u64 + 1) as usize;
                out.split_to(k);
                want.drain(..k);
            }
        }
        // what arrives: our own bytes, or a peer's equivalent ones
        let mut items = items;
        if s.bool() {
            for (i, b) in items.iter_mut().zip(written) {
                i.1 = b;
            }
        }
        let mut ends = vec![];
        let mut all = vec![];
        for (_, b) in &items {
            all.extend_from_slice(b);
            ends.push(all.len());
        }
        let cs = chunks(s, all.len(), &ends);
        conns.push(Conn { items, all, ends, cs, at: 0, chunk: 0, next: 0, buf: BytesMut::with_capacity(*s.pick(&[0usize, 3, 8, 64, 8192])) });
    }
    ctx.label("direct");
    ctx.nontrivial = conns.iter().any(|c| c.items.len() > 2);
    ctx.desc(|| format!("{:?}", conns.iter().map(|c| c.items.iter().map(|i| item_show(&i.0)).collect::<Vec<_>>()).collect::<Vec<_>>()));
    // the reading end of every connection, their reads interleaved
    let mut codecs: Vec<Codecs> = (0..n).map(|_| Codecs::default()).collect();
    loop {
        let open: Vec<usize> = (0..conns.len()).filter(|&i| conns[i].chunk < conns[i].cs.len()).collect();
        if open.is_empty() {
            break;
        }
        let k = open[s.idx(open.len())];
        let c = &mut conns[k];
        let m = c.cs[c.chunk];
        c.chunk += 1;
        c.buf.extend_from_slice(&c.all[c.at..c.at + m]);
        c.at += m;
        ctx.sub += 1;
        while c.next < c.items.len() {
            let want = &c.items[c.next].0;
            let tag = format!("connection {} item {} ({}) after {} of {} bytes", k, c.next, item_show(want), c.at, c.all.len());
            match take(&mut codecs[k], want, &mut c.buf).map_err(|e| format!("{}: {}", tag, e))? {
                Some(got) => {
                    if c.ends[c.next] > c.at {
                        return Err(format!("{}: delivered before its last byte", tag));
                    }
                    check_item(&tag, &got, want)?;
                    if c.buf[..] != c.all[c.ends[c.next]..c.at] {
                        return Err(format!("{}: leaves {} bytes for the next codec, {} belong to it", tag, c.buf.len(), c.at - c.ends[c.next]));
                    }
                    c.next += 1;
                    if !one_codec_each {
                        codecs[k] = Codecs::default();
                    }
                }
                None => {
                    if c.ends[c.next] <= c.at {
                        return Err(format!("{}: complete and not delivered", tag));
                    }
                    break;
                }
            }
        }
    }
    for c in &conns {
        if c.next != c.items.len() || !c.buf.is_empty() {
            return Err(format!("{} of {} items delivered, {} bytes left", c.next, c.items.len(), c.buf.len()));
        }
    }
    Ok(())
}
/// A connection with frames far larger than any buffer, and thousands of items.
pub fn c29_large(ctx: &mut Ctx) -> Res {
    let min = |n: &str| super::frames::minimal(n);
    let tr = |n: usize| FrameV { channel: 5, perf: Some(min("transfer")), payload: (0..n).map(|i| (i * 7 + (i >> 8)) as u8).collect() };
    let empty = FrameV { channel: 0, perf: None, payload: vec![] };
    let sasl = |n: &str| Item::Sasl(FrameV { channel: 0, perf: Some(min(n)), payload: vec![] });
    let open = [Item::Proto(p::ProtocolId::AmqpSasl), sasl("sasl-mechanisms"), sasl("sasl-init"), sasl("sasl-challenge"), sasl("sasl-outcome"), Item::Proto(p::ProtocolId::Amqp)];
    let mut runs: Vec<Vec<Item>> = vec![];
    for n in [200usize, 4_000, 4_090, 8_180, 16_384, 32_700, 33_000, 40_000, 65_500, 70_000, 300_000, 1_100_000] {
        let mut v = open.to_vec();
        for f in [empty.clone(), tr(1), tr(n), empty.clone(), tr(n), tr(n + 1), tr(2)] {
            v.push(Item::Amqp(f));
        }
        v.extend(open.to_vec());
        v.push(Item::Amqp(tr(n)));
        runs.push(v);
    }
    // headers and frames by the thousand
    let mut v = vec![];
    for i in 0..3000usize {
        v.push(match i % 5 {
            0 => Item::Proto([p::ProtocolId::Amqp, p::ProtocolId::AmqpTls, p::ProtocolId::AmqpSasl][i / 5 % 3]),
            1 => open[1 + i / 5 % 4].clone(),
            2 => Item::Amqp(empty.clone()),
            _ => Item::Amqp(tr(i % 300)),
        });
    }
    runs.push(v);
    for items in &runs {
        for flush in [false, true] {
            let mut w = Codecs::default();
            let mut out = BytesMut::new();
            let mut all = vec![];
            let mut ends = vec![];
            for i in items {
                let was = all.len();
                put(&mut w, i, &mut out)?;
                all.extend_from_slice(&match i {
                    Item::Proto(x) => proto_bytes(*x),
                    Item::Sasl(f) => enc_of(&make_sasl(f.perf.as_ref().unwrap())).1,
                    Item::Amqp(f) => enc_of(&make_frame(f)).1,
                });
                ends.push(all.len());
                if flush {
                    let b = out.take();
                    if b[..] != all[was..] {
                        return Err(format!("large connection: {} of {} bytes is written wrongly", item_show(i), all.len() - was));
                    }
                }
            }
            if !flush && out[..] != all[..] {
                return Err(format!("large connection: {} bytes written, {} expected, or others", out.len(), all.len()));
            }
            for step in [all.len(), 8192, 1460, 100_003] {
                let mut c = Codecs::default();
                let mut buf = BytesMut::new();
                let (mut next, mut at) = (0, 0);
                for part in all.chunks(step) {
                    buf.extend_from_slice(part);
                    at += part.len();
                    while next < items.len() {
                        let tag = format!("large connection: item {} ending at byte {}, in steps of {}", next, ends[next], step);
                        match take(&mut c, &items[next], &mut buf).map_err(|e| format!("{}: {}", tag, e))? {
                            Some(x) => {
                                check_item(&tag, &x, &items[next])?;
                                if buf.len() != at - ends[next] {
                                    return Err(format!("{}: leaves {} bytes of {}", tag, buf.len(), at - ends[next]));
                                }
                                next += 1;
                            }
                            None if ends[next] <= at => return Err(format!("{}: complete and not delivered", tag)),
                            None => break,
                        }
                    }
                }
                ctx.sub += next as u64;
                if next < items.len() {
                    return Err(format!("large connection: {} of {} items", next, items.len()));
                }
            }
        }
    }
    Ok(())
}
/// A transport that reads and writes a little at a time.
struct Wire {
    input: Vec<u8>,
    at: usize,
    cs: Vec<usize>,
    i: usize,
    block: bool,
    blocked: bool,
    out: Vec<u8>,
    room: usize,
}
impl Read for Wire {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        self.blocked = !self.blocked && self.block;
        if self.blocked {
            return Err(io::ErrorKind::WouldBlock.into());
        }
        while self.i < self.cs.len() && self.cs[self.i] == 0 {
            self.i += 1;
        }
        let n = if self.i < self.cs.len() { self.cs[self.i] } else { self.input.len() - self.at };
        let k = n.min(o.len()).min(self.input.len() - self.at);
        o[..k].copy_from_slice(&self.input[self.at..self.at + k]);
        self.at += k;
        if self.i < self.cs.len() {
            self.cs[self.i] -= k;
        }
        Ok(k)
    }
}
impl Write for Wire {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.blocked = !self.blocked && self.block;
        if self.blocked {
            return Err(io::ErrorKind::WouldBlock.into());
        }
        let k = b.len().min(self.room);
        self.out.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for Wire {}
impl AsyncWrite for Wire {
    fn shutdown(&mut self) -> futures::Poll<(), io::Error> {
        Ok(Async::Ready(()))
    }
}
fn swap<A, B>(f: Framed<Wire, A>, codec: B) -> Framed<Wire, B>
where
    A: Decoder + Encoder,
    B: Decoder + Encoder,
{
    let a = f.into_parts();
    let mut b = FramedParts::new(a.io, codec);
    b.read_buf = a.read_buf;
    b.write_buf = a.write_buf;
    Framed::from_parts(b)
}
/// Read one item and, from time to time, write one, until `n` items have been read and `out` written.
fn exchange<C>(f: &mut Framed<Wire, C>, n: usize, out: Vec<<C as Encoder>::Item>, mut got: impl FnMut(<C as Decoder>::Item) -> Res, idle: usize) -> Res
where
    C: Decoder + Encoder,
    <C as Decoder>::Error: std::fmt::Debug,
    <C as Encoder>::Error: std::fmt::Debug + From<io::Error>,
{
    let mut out = out.into_iter();
    let mut pending = out.next();
    let mut seen = 0;
    let mut turns = 0;
    loop {
        if let Some(x) = pending.take() {
            match f.start_send(x).map_err(|e| format!("send: {:?}", e))? {
                AsyncSink::Ready => pending = out.next(),
                AsyncSink::NotReady(x) => pending = Some(x),
            }
        }
        let flushed = f.poll_complete().map_err(|e| format!("flush: {:?}", e))?.is_ready();
        if seen < n {
            match f.poll().map_err(|e| format!("read: {:?}", e))? {
                Async::Ready(Some(x)) => {
                    got(x)?;
                    seen += 1;
                }
                Async::Ready(None) => return Err(format!("the stream ends after {} of {} items", seen, n)),
                Async::NotReady => {}
            }
        } else if pending.is_none() && flushed {
            return Ok(());
        }
        turns += 1;
        if turns > idle {
            return Err("the connection makes no progress".into());
        }
    }
}
/// Both directions through tokio's `Framed`, changing codecs as the connection goes on.
fn framed_connection(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (ours, theirs) = (transcript(s), transcript(s));
    ctx.label("framed");
    ctx.nontrivial = true;
    ctx.desc(|| format!("in {:?} out {:?}", theirs.iter().map(|i| item_show(&i.0)).collect::<Vec<_>>(), ours.iter().map(|i| item_show(&i.0)).collect::<Vec<_>>()));
    let kind = |i: &Item| match i {
        Item::Proto(_) => 0,
        Item::Sasl(_) => 1,
        Item::Amqp(_) => 2,
    };
    // group by codec: what is written in the same phase
    let groups = |v: &[(Item, Vec<u8>)]| -> Vec<(u8, Vec<Item>)> {
        let mut o: Vec<(u8, Vec<Item>)> = vec![];
        for (i, _) in v {
            match o.last_mut() {
                Some(l) if l.0 == kind(i) => l.1.push(i.clone()),
                _ => o.push((kind(i), vec![i.clone()])),
            }
        }
        o
    };
    let (gi, go) = (groups(&theirs), groups(&ours));
    let input: Vec<u8> = theirs.iter().flat_map(|x| x.1.clone()).collect();
    let mut ends = vec![];
    let mut at = 0;
    for (_, b) in &theirs {
        at += b.len();
        ends.push(at);
    }
    let cs = chunks(s, input.len(), &ends);
    let total = input.len();
    let wire = Wire { input, at: 0, cs, i: 0, block: s.chance(40), blocked: false, out: vec![], room: *s.pick(&[1usize << 20, 7, 100]) };
    let mut want = vec![];
    // phases of both directions merged: in order, whichever codec they need
    let mut plan: Vec<(u8, Vec<Item>, Vec<Item>)> = vec![];
    let (mut a, mut b) = (gi.into_iter().peekable(), go.into_iter().peekable());
    loop {
        match (a.peek().map(|x| x.0), b.peek().map(|x| x.0)) {
            (None, None) => break,
            (Some(x), Some(y)) if x == y => {
                let (p, q) = (a.next().unwrap(), b.next().unwrap());
                plan.push((x, p.1, q.1));
            }
            (Some(x), _) if b.peek().is_none() || s.bool() => plan.push((x, a.next().unwrap().1, vec![])),
            (_, Some(y)) => plan.push((y, vec![], b.next().unwrap().1)),
            (Some(x), None) => plan.push((x, a.next().unwrap().1, vec![])),
        }
    }
    for (_, _, o) in &plan {
        for i in o {
            want.extend(match i {
                Item::Proto(x) => proto_bytes(*x),
                Item::Sasl(f) => enc_of(&make_sasl(f.perf.as_ref().unwrap())).1,
                Item::Amqp(f) => enc_of(&make_frame(f)).1,
            });
        }
    }
    let idle = 400 + 4 * total + 4 * want.len();
    let mut f = Framed::new(wire, ProtocolIdCodec);
    for (k, ins, outs) in plan {
        let mut j = 0;
        let n = ins.len();
        match k {
            0 => {
                let o = outs.into_iter().map(|i| if let Item::Proto(x) = i { x } else { unreachable!() }).collect();
                exchange(&mut f, n, o, |x| { j += 1; check_item("framed connection", &Item::Proto(x), &ins[j - 1]) }, idle)?;
            }
            1 => {
                let o = outs.into_iter().map(|i| if let Item::Sasl(x) = i { make_sasl(x.perf.as_ref().unwrap()) } else { unreachable!() }).collect();
                let mut h = swap(f, AmqpCodec::<SaslFrame>::new());
                exchange(&mut h, n, o, |x| { j += 1; check_item("framed connection", &Item::Sasl(sasl_v(&x)), &ins[j - 1]) }, idle)?;
                f = swap(h, ProtocolIdCodec);
            }
            _ => {
                let o = outs.into_iter().map(|i| if let Item::Amqp(x) = i { make_frame(&x) } else { unreachable!() }).collect();
                let mut h = swap(f, AmqpCodec::<AmqpFrame>::new());
                exchange(&mut h, n, o, |x| { j += 1; check_item("framed connection", &Item::Amqp(amqp_v(&x)), &ins[j - 1]) }, idle)?;
                f = swap(h, ProtocolIdCodec);
            }
        }
    }
    let p = f.into_parts();
    if p.io.out != want || !p.write_buf.is_empty() {
        return Err(format!("framed connection: {} bytes written, {} expected, {} unsent", p.io.out.len(), want.len(), p.write_buf.len()));
    }
    if !p.read_buf.is_empty() || p.io.at != total {
        return Err(format!("framed connection: {} bytes left over", p.read_buf.len() + total - p.io.at));
    }
    Ok(())
}

// ---------- C30 ----------
/// The value as its own type's equality sees it: the crate's ordered floats know one NaN and one zero.
fn eq_norm(v: &V) -> V {
    match v {
        F32(x) => F32(match f32::from_bits(*x) {
            f if f.is_nan() => f32::NAN.to_bits(),
            f if f == 0.0 => 0,
            _ => *x,
        }),
        F64(x) => F64(match f64::from_bits(*x) {
            f if f.is_nan() => f64::NAN.to_bits(),
            f if f == 0.0 => 0,
            _ => *x,
        }),
        List(l) => List(l.iter().map(eq_norm).collect()),
        Arr(c, l) => Arr(*c, l.iter().map(eq_norm).collect()),
        Map(m) => Map(m.iter().map(|(k, x)| (eq_norm(k), eq_norm(x))).collect()),
        Desc(d, x) => Desc(Box::new(eq_norm(d)), Box::new(eq_norm(x))),
        x => x.clone(),
    }
}
fn has_nan(v: &V) -> bool {
    match v {
        F32(x) => f32::from_bits(*x).is_nan(),
        F64(x) => f64::from_bits(*x).is_nan(),
        Arr(_, l) => l.iter().any(has_nan),
        _ => false,
    }
}
/// The same with the order of entries kept.
fn in_order(v: &V) -> V {
    match v {
        Map(m) => List(m.iter().map(|(k, x)| List(vec![k.clone(), x.clone()])).collect()),
        x => x.clone(),
    }
}
/// Exchange two elements, repeat one or drop one, somewhere inside.
fn rearrange(s: &mut Src, v: &mut V, lists: bool) {
    fn edit<X: Clone>(s: &mut Src, l: &mut Vec<X>, keys: bool) {
        let (i, j) = (s.idx(l.len()), s.idx(l.len()));
        match s.below(4) {
            0 | 1 => l.swap(i, j),
            2 if !keys => {
                let x = l[i].clone();
                l.insert(j, x);
            }
            _ => {
                l.remove(i);
            }
        }
    }
    let down = s.bool();
    match v {
        List(l) if !l.is_empty() => {
            if !lists || down {
                let i = s.idx(l.len());
                rearrange(s, &mut l[i], lists)
            } else {
                edit(s, l, false)
            }
        }
        Arr(_, l) if !l.is_empty() => edit(s, l, false),
        Map(m) if !m.is_empty() => {
            if down && s.bool() {
                let i = s.idx(m.len());
                rearrange(s, &mut m[i].1, lists)
            } else if down {
                // the values change places
                let (i, j) = (s.idx(m.len()), s.idx(m.len()));
                let x = m[i].1.clone();
                m[i].1 = std::mem::replace(&mut m[j].1, x);
            } else {
                edit(s, m, true)
            }
        }
        Desc(_, x) => rearrange(s, x, lists),
        _ => {}
    }
}
/// Generate once more from almost the same choices.
fn again<R>(s: &mut Src, from: usize, budget: usize, f: impl Fn(&mut Src) -> R) -> R {
    let mut rec = s.rec[from..].to_vec();
    match s.below(5) {
        0 => {}
        k => {
            for _ in 0..if k == 4 { 3 } else { 1 } {
                if rec.is_empty() {
                    break;
                }
                let i = s.idx(rec.len());
                rec[i] = match s.below(4) {
                    0 => rec[i].wrapping_add(1),
                    1 => rec[i].wrapping_sub(1),
                    2 => 0,
                    _ => s.below(0),
                };
            }
        }
    }
    let mut q = Src::new(rec, false, 0, s.dict(), std::ptr::null_mut());
    q.budget = budget;
    f(&mut q)
}
fn verdict(what: &str, eq: bool, want: bool, show2: impl Fn() -> String) -> Res {
    if eq != want {
        return Err(format!("{}: {} compare {}: {}", what, if want { "items with the same content" } else { "items with different content" }, if eq { "equal" } else { "unequal" }, show2()));
    }
    Ok(())
}
/// What a transfer carries, as it is made.
#[derive(Clone)]
enum Load {
    Raw(Vec<u8>),
    Msg { sent: bool, m: MV, format: Option<u32>, inside: Vec<Load> },
}
impl Load {
    fn gen(s: &mut Src, depth: usize) -> Load {
        if s.chance(20) {
            return Load::Raw(g::bin(s, 600));
        }
        let sent = s.bool();
        let recv = s.chance(40);
        let mut m = g::message(s, recv);
        if recv && m.sections().is_empty() {
            m.data.push(vec![]);
        }
        let format = if s.chance(30) { Some(s.below(3) as u32) } else { None };
        let n = if depth > 0 && s.chance(35) { 1 + s.below(3) } else { 0 };
        let inside = (0..n).map(|_| Load::gen(s, depth - 1)).collect();
        let mut x = Load::Msg { sent, m, format, inside };
        x.settle();
        x
    }
    fn settle(&mut self) {
        if let Load::Msg { sent, m, .. } = self {
            if m.sections().is_empty() {
                m.data.push(vec![]);
            }
            let received = super::messages::only_received(m);
            if let (true, true, Some(Map(l))) = (*sent, received, &mut m.ap) {
                // received properties come in an order of their own
                l.truncate(1);
            }
        }
    }
    fn edit(&mut self, s: &mut Src) {
        let flip = s.chance(15);
        match self {
            Load::Raw(b) => match s.below(3) {
                0 => b.push(0),
                1 => {
                    b.pop();
                }
                _ => {
                    if let Some(x) = b.first_mut() {
                        *x ^= 1;
                    }
                }
            },
            Load::Msg { sent, .. } if flip => *sent = !*sent,
            Load::Msg { inside, .. } if !inside.is_empty() && s.bool() => {
                let i = s.idx(inside.len());
                match s.below(4) {
                    0 => inside.rotate_left(1),
                    1 => {
                        let x = inside[i].clone();
                        inside.push(x);
                    }
                    2 => {
                        inside.remove(i);
                    }
                    _ => inside[i].edit(s),
                }
            }
            Load::Msg { m, format, .. } => match s.below(12) {
                0 => m.header = None,
                1 => m.props = None,
                2 => m.da = None,
                3 => m.ma = None,
                4 => m.footer = None,
                5 => std::mem::swap(&mut m.da, &mut m.ma),
                6 => std::mem::swap(&mut m.ma, &mut m.footer),
                7 => {
                    if m.data.len() > 1 {
                        m.data.rotate_left(1)
                    } else if m.data.len() == 1 {
                        m.data[0].push(7)
                    }
                }
                8 => {
                    if m.seq.len() > 1 {
                        m.seq.rotate_left(1)
                    } else if m.seq.len() == 1 && !m.data.is_empty() {
                        m.seq.clear()
                    }
                }
                9 => {
                    if let Some(Map(l)) = &mut m.ap {
                        if l.len() > 1 {
                            l.rotate_left(1)
                        } else {
                            l.clear()
                        }
                    }
                }
                10 => {
                    if m.value.is_some() && !m.data.is_empty() {
                        m.value = None
                    }
                }
                _ => *format = if format.is_some() { None } else { Some(0) },
            },
        }
        self.settle();
    }
    fn make(&self) -> TransferBody {
        fn msg<M: Msg>(m: &MV, format: Option<u32>, inside: &[Load]) -> M {
            let l: Vec<TransferBody> = inside.iter().map(|x| x.make()).collect();
            let mut x = super::messages::make_msg::<M>(m).expect("harness: message");
            if !l.is_empty() {
                x = x.set_body(|b| b.messages = l.clone());
            }
            x.set_format(format);
            x
        }
        match self {
            Load::Raw(b) => TransferBody::Data(Bytes::from(&b[..])),
            Load::Msg { sent: true, m, format, inside } => TransferBody::MessageOut(msg(m, *format, inside)),
            Load::Msg { m, format, inside, .. } => TransferBody::MessageIn(msg(m, *format, inside)),
        }
    }
    /// Everything that tells one from another.
    fn key(&self) -> V {
        match self {
            Load::Raw(b) => Bin(b.clone()),
            Load::Msg { sent, m, format, inside } => {
                let o = |x: &Option<V>| x.as_ref().map_or(Null, |x| V::desc(1, x.clone()));
                let ap = if *sent { m.ap.as_ref().map(in_order) } else { m.ap.clone() };
                List(vec![
                    Bool(*sent),
                    format.map_or(Null, U32),
                    o(&m.header.as_ref().map(|x| fv::<p::Header>(x).v())),
                    o(&m.da),
                    o(&m.ma),
                    o(&m.props.as_ref().map(|x| fv::<p::Properties>(x).v())),
                    o(&ap),
                    List(m.data.iter().cloned().map(Bin).collect()),
                    List(m.seq.clone()),
                    o(&m.value),
                    o(&m.footer),
                    List(inside.iter().map(|x| x.key()).collect()),
                ])
            }
        }
    }
    fn show(&self) -> String {
        match self {
            Load::Raw(b) => format!("data {}", hex(b)),
            Load::Msg { sent, m, format, inside } => format!("{} {:?} {} with [{}]", if *sent { "out" } else { "in" }, format, m.show(), inside.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
        }
    }
}
/// Two messages, two bodies, two transfers.
fn c30_loads(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.budget = 1500;
    let from = s.rec.len();
    let budget = s.budget;
    let u = Load::gen(s, 2);
    let mut w = match s.weighted(&[4, 4, 1]) {
        0 => u.clone(),
        1 => again(s, from, budget, |q| Load::gen(q, 2)),
        _ => Load::gen(s, 2),
    };
    for _ in 0..s.below(3) {
        w.edit(s);
    }
    ctx.desc(|| format!("{} / {}", u.show(), w.show()));
    let key = |x: &Load| canon(&eq_norm(&x.key()));
    let want = key(&u) == key(&w);
    ctx.label(if want { "same" } else { "different" });
    ctx.nontrivial = !want;
    let what = || format!("{} and {}", u.show(), w.show());
    let (a, b) = (u.make(), w.make());
    if s.bool() {
        // sizes are remembered: that is no part of a message
        a.encoded_size();
    }
    fn bytes<X: Encode>(x: &X) -> Vec<u8> {
        enc_of(x).1
    }
    match (&a, &b) {
        (TransferBody::MessageIn(a), TransferBody::MessageIn(b)) => {
            ctx.label("two received messages");
            verdict("InMessage", kinds::eq_of(a, b, bytes)?, want, what)?
        }
        (TransferBody::MessageOut(a), TransferBody::MessageOut(b)) => {
            ctx.label("two sent messages");
            verdict("OutMessage", kinds::eq_of(a, b, bytes)?, want, what)?
        }
        _ => ctx.label("two bodies"),
    }
    verdict("TransferBody", kinds::eq_of(&a, &b, bytes)?, want, what)?;
    let t = |x: &TransferBody| p::Transfer { body: Some(x.clone()), ..fv(&super::frames::minimal("transfer")) };
    verdict("Transfer", t(&a) == t(&b), want, what)?;
    let body = |x: TransferBody| MessageBody { messages: vec![x], ..MessageBody::default() };
    verdict("MessageBody", kinds::eq_of(&body(a), &body(b), bytes)?, want, what)
}
pub fn c30(s: &mut Src, ctx: &mut Ctx) -> Res {
    set_static_mode(0);
    s.budget = 4000;
    match s.weighted(&[6, 3, 1, 3]) {
        3 => c30_loads(s, ctx),
        0 => {
            let k = kinds::pick(s);
            let from = s.rec.len();
            let budget = s.budget;
            let u = (k.gen)(s);
            let mut w = if s.chance(85) { again(s, from, budget, |q| (k.gen)(q)) } else { (k.gen)(s) };
            if s.chance(25) {
                ctx.label("rearranged");
                w = u.clone();
                rearrange(s, &mut w, ["Variant", "Variant(compound)", "List"].contains(&k.name));
            }
            ctx.label(k.name);
            ctx.desc(|| format!("{} {} / {}", k.name, show(&u), show(&w)));
            if s.chance(50) {
                set_static_mode(1);
            }
            let r = (k.eq)(&u, &w).map_err(|e| format!("{}: {}", k.name, e));
            set_static_mode(0);
            let (eq, a, b) = r?;
            let raw = k.name.contains("f32") || k.name.contains("f64");
            let ordered = k.name == "VecVariantMap";
            let n = |v: &V| canon(&if ordered { in_order(&eq_norm(v)) } else { eq_norm(v) });
            let want = n(&a) == n(&b) && !(raw && has_nan(&a));
            ctx.nontrivial = canon(&u) != canon(&w);
            ctx.label(if want { "same" } else { "different" });
            verdict(k.name, eq, want, || format!("{} and {}", show(&a), show(&b)))
        }
        1 => {
            let from = s.rec.len();
            let budget = s.budget;
            let u = g::frame(s);
            let w = if s.chance(85) { again(s, from, budget, g::frame) } else { g::frame(s) };
            ctx.label("AmqpFrame");
            let (a, b) = (make_frame(&u), make_frame(&w));
            let eq = kinds::eq_of(&a, &b, |x| frame_bytes_of(&view_frame(x))).map_err(|e| format!("AmqpFrame: {}", e))?;
            let n = |f: &FrameV| frame_bytes_of(&FrameV { channel: f.channel, perf: f.perf.as_ref().map(eq_norm), payload: f.payload.clone() });
            let want = n(&view_frame(&a)) == n(&view_frame(&b));
            ctx.nontrivial = !want;
            ctx.label(if want { "same" } else { "different" });
            ctx.desc(|| format!("{:?} / {:?}", u.perf.as_ref().map(show), w.perf.as_ref().map(show)));
            verdict("AmqpFrame", eq, want, || format!("channel {} {:?} {} and channel {} {:?} {}", u.channel, u.perf.as_ref().map(show), hex(&u.payload), w.channel, w.perf.as_ref().map(show), hex(&w.payload)))?;
            // the parts of a frame compare like the frame does
            let (pa, pb) = (a.performative().clone(), b.performative().clone());
            let peq = kinds::eq_of(&pa, &pb, |x| frame_bytes_of(&view_frame(&AmqpFrame::new(0, x.clone())))).map_err(|e| format!("Frame: {}", e))?;
            let (mut nu, mut nw) = (view_frame(&a), view_frame(&b));
            nu.channel = 0;
            nw.channel = 0;
            verdict("Frame", peq, n(&nu) == n(&nw), || format!("{:?} and {:?}", pa, pb))
        }
        _ => {
            let gen = |s: &mut Src| {
                let n = *s.pick(sc::SASL);
                g::comp(s, n)
            };
            let from = s.rec.len();
            let budget = s.budget;
            let u = gen(s);
            let w = if s.chance(85) { again(s, from, budget, gen) } else { gen(s) };
            ctx.label("SaslFrame");
            ctx.desc(|| format!("{} / {}", show(&u), show(&w)));
            let (a, b) = (make_sasl(&u), make_sasl(&w));
            let eq = kinds::eq_of(&a, &b, |x| canon(&x.body.v())).map_err(|e| format!("SaslFrame: {}", e))?;
            let want = canon(&a.body.v()) == canon(&b.body.v());
            ctx.nontrivial = !want;
            verdict("SaslFrame", eq, want, || format!("{} and {}", show(&u), show(&w)))
        }
    }
}
/// Every field of every composite alone makes a difference.
pub fn c30_fields(ctx: &mut Ctx) -> Res {
    let singles = super::frames::all_singles();
    let ks = kinds::kinds();
    for c in sc::all() {
        let k = match ks.iter().find(|k| k.name == super::access::camel(c.name)) {
            Some(k) => k,
            None => continue,
        };
        let vs: Vec<&V> = singles.iter().filter(|v| code_of(v) == c.code).collect();
        for a in &vs {
            for b in &vs {
                let (eq, x, y) = (k.eq)(a, b).map_err(|e| format!("{}: {}", k.name, e))?;
                verdict(k.name, eq, canon(&eq_norm(&x)) == canon(&eq_norm(&y)), || format!("{} and {}", show(a), show(b)))?;
                ctx.sub += 1;
            }
        }
    }
    let mut s = fixed_src(30);
    for u in &singles {
        if !sc::PERFORMATIVES.iter().any(|n| sc::comp(n).code == code_of(u)) {
            continue;
        }
        for w in &singles {
            if code_of(u) != code_of(w) && s.chance(90) || !sc::PERFORMATIVES.iter().any(|n| sc::comp(n).code == code_of(w)) {
                continue;
            }
            let f = |v: &V, c: u16, p: &[u8]| make_frame(&FrameV { channel: c, perf: Some(v.clone()), payload: if code_of(v) == 0x14 { p.to_vec() } else { vec![] } });
            for (c, d, p, q) in [(0u16, 0u16, &[][..], &[][..]), (0, 256, &[1], &[1]), (7, 7, &[1], &[1, 0])] {
                let (a, b) = (f(u, c, p), f(w, d, q));
                let n = |x: &AmqpFrame| {
                    let v = view_frame(x);
                    frame_bytes_of(&FrameV { perf: v.perf.as_ref().map(eq_norm), ..v })
                };
                verdict("AmqpFrame", a == b, n(&a) == n(&b), || format!("{:?} and {:?}", a, b))?;
                ctx.sub += 1;
            }
        }
    }
    Ok(())
}
