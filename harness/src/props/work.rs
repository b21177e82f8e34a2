//! C32: work in proportion to the data.
use super::bytes::{input, mutate, valid, zero_width_bomb, For};
use super::values::hex;
use crate::conv::*;
use crate::engine::{Ctx, Res};
use crate::gen as g;
use crate::kinds;
use crate::refm::V::{self, *};
use crate::refm::{enc_compact, show};
use crate::schema as sc;
use crate::src::Src;
use amqp_codec::protocol::{self as p, TransferBody};
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, InMessage, OutMessage, SaslFrame};
use bytes::{Bytes, BytesMut};
use tokio_io::codec::{Decoder, Encoder};

/// Comparisons and branches in the crate, bytes allocated, processor time of this thread in ns.
#[derive(Clone, Copy, Default, Debug)]
pub struct Cost {
    pub steps: u64,
    pub alloc: u64,
    pub ns: u64,
}
pub type Costs = Vec<(&'static str, Cost)>;
fn now() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
    }
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
pub fn cost<R>(f: impl FnOnce() -> R) -> (R, Cost) {
    let (s, a, t) = (covrt::steps(), crate::alloc_total(), now());
    let r = f();
    (r, Cost { steps: covrt::steps() - s, alloc: crate::alloc_total() - a, ns: now() - t })
}
/// Read, then measure, write, copy and compare what was read.
pub fn work<X: Decode + Encode + Clone + PartialEq>(b: &[u8]) -> Costs {
    let (r, c) = cost(|| X::decode(b));
    let mut o = vec![("decode", c)];
    if let Ok((_, x)) = r {
        made(&x, &mut o);
        o.push(("drop", cost(move || drop(x)).1));
    }
    o
}
fn made<X: Encode + Clone + PartialEq>(x: &X, o: &mut Costs) {
    let (n, c) = cost(|| x.encoded_size());
    o.push(("encoded_size", c));
    let mut buf = BytesMut::with_capacity(n);
    o.push(("encode", cost(|| x.encode(&mut buf)).1));
    let (y, c) = cost(|| x.clone());
    o.push(("clone", c));
    o.push(("compare", cost(|| *x == y).1));
}

/// One decoder.
#[derive(Clone, Copy, Debug, PartialEq)]
enum To {
    Kind(&'static str),
    Frame,
    Sasl,
    In,
    Out,
}
impl To {
    fn work(self, b: &[u8]) -> Costs {
        match self {
            To::Kind(n) => (kinds::by_name(n).work)(b),
            To::Frame => work::<AmqpFrame>(&b[4..]),
            To::Sasl => work::<SaslFrame>(&b[4..]),
            To::In => work::<InMessage>(b),
            To::Out => work::<OutMessage>(b),
        }
    }
}
/// Numbered values: regular, as real ones are, all different.
#[derive(Clone, Debug)]
struct Count {
    kind: u64,
    step: u64,
    width: usize,
    pad: usize,
    /// texts that are not numbered but scattered: maps keyed by texts alone hash them poorly (a recorded finding)
    scattered: bool,
}
impl Count {
    fn draw(s: &mut Src) -> Count {
        Count { kind: s.below(12), step: *s.pick(&[1u64, 1, 2, 3, 10, 1000, 1 << 16, 1 << 32, 1 << 40]), width: 5 + s.below(12) as usize, pad: s.below(14) as usize, scattered: false }
    }
    fn text(&self, i: u64) -> String {
        if self.scattered {
            return format!("{}{:x}", "x".repeat(self.pad), i.wrapping_mul(0x9e37_79b9_7f4a_7c15));
        }
        if self.step & 1 == 1 {
            format!("{}{:0w$}", "x".repeat(self.pad), i, w = self.width)
        } else {
            format!("{:0w$}{}", i, "x".repeat(self.pad), w = self.width)
        }
    }
    fn at(&self, i: u64) -> V {
        let n = i.wrapping_mul(self.step);
        match self.kind {
            0 => U32(i as u32),
            1 => U64(n),
            2 => I64(n as i64),
            3 => F64((n as f64).to_bits()),
            4 => F32((i as f32).to_bits()),
            5 => Ts((n % (1 << 42)) as i64 + i as i64),
            6 => {
                let mut u = [0; 16];
                u[..8].copy_from_slice(&n.to_be_bytes());
                u[8..].copy_from_slice(&(if self.pad & 1 == 0 { 0 } else { i }).to_be_bytes());
                Uuid(u)
            }
            7 => Bin(n.wrapping_add(i).to_be_bytes().to_vec()),
            8 => Sym(self.text(i)),
            9 => List(vec![U64(n), U32(i as u32)]),
            10 => V::desc(i, Str(self.text(i))),
            _ => Str(self.text(i)),
        }
    }
}
const PRIMS: &[(&str, u64, u8)] = &[
    ("Vec<u8>", 8, 0x50), ("Vec<u32>", 2, 0x70), ("Vec<u64>", 5, 0x80), ("Vec<i16>", 11, 0x61), ("Vec<f64>", 13, 0x82), ("Vec<timestamp>", 15, 0x83), ("Vec<uuid>", 16, 0x98),
    ("Vec<binary>", 17, 0xb0), ("Vec<string>", 3, 0xb1), ("Vec<symbol>", 4, 0xb3), ("Multiple<Symbol>", 4, 0xb3),
];
/// Something of any size.
#[derive(Clone, Debug)]
enum Sized {
    List(To, Option<u64>, Vec<V>),
    Map(To, Option<u64>, Count, V),
    Array(&'static str, u8, V),
    Text(To, Option<u64>, u8),
    /// composite, field that grows
    Field(String, usize, Count, V),
    Surplus(String, V),
    /// message: this section so many times
    Sections(To, Vec<V>),
    Payload,
}
fn sections(s: &mut Src) -> (To, Option<u64>) {
    match s.below(4) {
        0 => (To::Kind("Variant"), None),
        1 => (To::In, Some(0x77)),
        2 => (To::Out, Some(0x77)),
        _ => (To::Kind("Section"), Some(0x77)),
    }
}
fn in_section(d: Option<u64>, v: V) -> Vec<u8> {
    enc_compact(&match d {
        Some(d) => V::desc(d, v),
        None => v,
    })
}
impl Sized {
    fn draw(s: &mut Src) -> Sized {
        let elem = |s: &mut Src| {
            s.budget = 6;
            g::value(s, 3)
        };
        match s.weighted(&[3, 5, 3, 2, 4, 1, 2, 1]) {
            0 => {
                let (t, d) = match s.below(5) {
                    0 => (To::Kind("List"), None),
                    1 => (To::In, Some(0x76)),
                    2 => (To::Out, Some(0x76)),
                    _ => sections(s),
                };
                let n = 1 + s.below(3);
                Sized::List(t, d, (0..n).map(|_| elem(s)).collect())
            }
            1 => {
                let mut c = Count::draw(s);
                let (t, d) = match s.below(9) {
                    0 => (To::Kind("Map"), None),
                    1 => {
                        c.kind = 8;
                        c.scattered = true;
                        (To::Kind("Fields"), None)
                    }
                    2 => {
                        c.kind = 11;
                        c.scattered = true;
                        (To::Kind("StringVariantMap"), None)
                    }
                    3 => {
                        c.kind = 11;
                        c.scattered = true;
                        (To::Kind("VecVariantMap"), None)
                    }
                    4 => {
                        c.kind = 8;
                        c.scattered = true;
                        (*s.pick(&[To::In, To::Out, To::Kind("Section")]), Some(*s.pick(&[0x71u64, 0x72, 0x78])))
                    }
                    5 => {
                        c.kind = 11;
                        c.scattered = true;
                        (*s.pick(&[To::In, To::Out, To::Kind("Section")]), Some(0x74))
                    }
                    _ => sections(s),
                };
                Sized::Map(t, d, c, elem(s))
            }
            2 => {
                let (n, k, f) = *s.pick(PRIMS);
                s.budget = 40;
                Sized::Array(n, f, g::scalar_of(s, k, 12))
            }
            3 => {
                let k = s.below(3) as u8;
                match s.below(3) {
                    0 => Sized::Text(To::Kind("Variant"), None, k),
                    1 => Sized::Text(*s.pick(&[To::In, To::Out]), Some(0x75), 0),
                    _ => {
                        let (t, d) = sections(s);
                        Sized::Text(t, d, k)
                    }
                }
            }
            4 => {
                let c = &sc::all()[s.idx(sc::all().len())];
                let grow: Vec<usize> = (0..c.fields.len()).filter(|i| grows(&c.fields[*i])).collect();
                if grow.is_empty() {
                    // a composite that can grow
                    return Sized::Field("open".into(), 9, Count { kind: 8, scattered: true, ..Count::draw(s) }, Null);
                }
                let i = grow[s.idx(grow.len())];
                return Sized::Field(c.name.to_string(), i, Count { kind: 8, scattered: true, ..Count::draw(s) }, elem(s));
            },
            5 => {
                let n = *s.pick(&["open", "begin", "attach", "flow", "detach", "source", "header", "properties", "error", "sasl-init", "accepted"]);
                Sized::Surplus(n.to_string(), elem(s))
            }
            6 => {
                let n = 1 + s.below(3);
                let l = (0..n)
                    .map(|_| match s.below(4) {
                        0 => V::desc(0x75, Bin(g::bin(s, 40))),
                        1 => V::desc(0x76, g::list(s, 2)),
                        2 => V::desc(0x77, elem(s)),
                        _ => g::comp(s, "header"),
                    })
                    .collect();
                Sized::Sections(*s.pick(&[To::In, To::Out]), l)
            }
            _ => Sized::Payload,
        }
    }
    fn make(&self, n: usize) -> (To, Vec<u8>) {
        match self {
            Sized::List(t, d, e) => (*t, in_section(*d, List((0..n).map(|i| e[i % e.len()].clone()).collect()))),
            Sized::Map(t, d, c, v) => (*t, in_section(*d, Map((0..n).map(|i| (c.at(i as u64), v.clone())).collect()))),
            Sized::Array(name, f, v) => (To::Kind(name), enc_compact(&Arr(*f, vec![v.clone(); n]))),
            Sized::Text(t, d, k) => {
                let v = match k {
                    0 => Bin((0..n * 16).map(|i| i as u8).collect()),
                    1 => Str((0..n * 8).map(|i| char::from_u32(0x20 + (i as u32 * 7) % 0x400).unwrap()).collect()),
                    _ => Sym((0..n * 16).map(|i| (0x21 + i % 90) as u8 as char).collect()),
                };
                (*t, in_section(*d, v))
            }
            Sized::Field(name, i, c, v) => {
                let x = match &super::frames::minimal(name) {
                    Desc(d, l) => {
                        let mut l = match &**l {
                            List(l) => l.clone(),
                            _ => vec![],
                        };
                        let v = if matches!(sc::comp(name).fields[*i].ty, sc::T::Filter) { &Null } else { v };
                        l[*i] = match sc::comp(name).fields[*i].ty {
                            sc::T::Fields | sc::T::Filter => Map((0..n).map(|i| (c.at(i as u64), v.clone())).collect()),
                            _ => Arr(0xb3, (0..n).map(|i| Sym(c.text(i as u64))).collect()),
                        };
                        Desc(d.clone(), Box::new(List(l)))
                    }
                    _ => unreachable!(),
                };
                whole(name, &x)
            }
            Sized::Surplus(name, v) => {
                let x = match &super::frames::minimal(name) {
                    Desc(d, l) => {
                        let mut l = match &**l {
                            List(l) => l.clone(),
                            _ => vec![],
                        };
                        l.extend((0..n).map(|_| v.clone()));
                        Desc(d.clone(), Box::new(List(l)))
                    }
                    _ => unreachable!(),
                };
                whole(name, &x)
            }
            Sized::Sections(t, l) => (*t, (0..n).flat_map(|i| enc_compact(&l[i % l.len()])).collect()),
            Sized::Payload => {
                let mut b = enc_compact(&super::frames::minimal("transfer"));
                b.extend((0..n * 16).map(|i| i as u8));
                (To::Frame, g::frame_bytes(0, 1, &[], &b))
            }
        }
    }
}
fn grows(f: &sc::F) -> bool {
    matches!(f.ty, sc::T::Fields | sc::T::Filter | sc::T::Multi)
}
fn whole(name: &str, x: &V) -> (To, Vec<u8>) {
    let b = enc_compact(x);
    let has = |l: &[&str]| l.contains(&name);
    if has(sc::PERFORMATIVES) {
        (To::Frame, g::frame_bytes(0, 1, &[], &b))
    } else if has(sc::SASL) {
        (To::Sasl, g::frame_bytes(1, 0, &[], &b))
    } else {
        (To::Kind(Box::leak(super::access::camel(name).into_boxed_str())), b)
    }
}
/// `big` holds four times as much as `small`.
fn scales(small: &Costs, big: &Costs, what: &dyn Fn() -> String) -> Res {
    for ((op, a), (oq, b)) in small.iter().zip(big) {
        if op != oq {
            return Err(format!("one is read and the other is not: {}", what()));
        }
        if b.steps > 8 * a.steps + 4000 {
            return Err(format!("{}: {} steps, and {} for four times as much: {}", op, a.steps, b.steps, what()));
        }
        if b.alloc > 10 * a.alloc + (1 << 18) {
            return Err(format!("{}: {} bytes allocated in all, and {} for four times as much: {}", op, a.alloc, b.alloc, what()));
        }
    }
    if small.len() != big.len() {
        return Err(format!("one is read and the other is not: {}", what()));
    }
    Ok(())
}
pub fn c32(s: &mut Src, ctx: &mut Ctx) -> Res {
    set_static_mode(0);
    match s.weighted(&[5, 4, 6, 1, 1]) {
        0 => {
            let sh = Sized::draw(s);
            let n = 100 + s.below(400) as usize;
            ctx.label("four times as much");
            ctx.nontrivial = true;
            ctx.desc(|| format!("{:?} {}", sh, n));
            let (t, small) = sh.make(n);
            let (_, mut big) = sh.make(4 * n);
            let (a, b) = (t.work(&small), t.work(&big));
            if a.len() == 1 {
                return Err(format!("{:?} of {} is not read: {}", t, n, hex(&small)));
            }
            ctx.sub += a.len() as u64;
            scales(&a, &b, &|| format!("{:?} {:?}", t, sh))?;
            // the same with a fault towards the end
            match s.below(3) {
                0 => {
                    let k = 1 + s.below(20) as usize;
                    big.truncate(big.len() - k.min(big.len() - 8));
                }
                1 => {
                    let k = big.len() - 1 - s.idx(big.len().min(9) - 1);
                    big[k] ^= 0xff;
                }
                _ => big.extend([0xff; 3]),
            }
            let c = t.work(&big)[0].1;
            let d = b[0].1;
            if c.steps > 4 * d.steps + 4000 || c.alloc > 4 * d.alloc + (1 << 18) {
                return Err(format!("{:?}: rejecting takes {:?}, accepting {:?}: {:?}", t, c, d, sh));
            }
            Ok(())
        }
        1 => deeper(s, ctx),
        2 => anything(s, ctx),
        3 => nested_messages(s, ctx),
        _ => streams(s, ctx),
    }
}
/// Twice as deep is at most four times the work: at each level something for all below it.
fn deeper(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 1 + s.below(3) as usize;
    let links: Vec<u64> = (0..n).map(|_| s.below(7)).collect();
    let width = s.below(12) as usize;
    s.budget = 6;
    let leaf = g::value(s, 2);
    let d = 8 + s.below(7) as usize;
    ctx.label("twice as deep");
    ctx.nontrivial = true;
    ctx.desc(|| format!("links {:?} width {} depth {} around {}", links, width, d, show(&leaf)));
    let build = |d: usize| {
        let mut v = leaf.clone();
        for i in 0..d {
            let side = || (0..width).map(|i| U32(i as u32 * 300));
            v = match links[i % links.len()] {
                0 => List(side().chain(Some(v)).collect()),
                1 => List(Some(v).into_iter().chain(side()).collect()),
                2 => Map(side().map(|x| (x, Null)).chain(Some((V::s("k"), v))).collect()),
                3 => Map(side().map(|x| (x, Null)).chain(Some((v, V::s("k")))).collect()),
                4 => V::desc(7, v),
                5 => V::desc(1 << 40, List(vec![v])),
                _ => List(vec![V::desc(9, Map(vec![(V::s("a"), v)]))]),
            };
        }
        enc_compact(&v)
    };
    let per = links.iter().map(|l| match l {
        6 => 3,
        5 => 2,
        _ => 1,
    }).max().unwrap();
    let (t, sec) = sections(s);
    let wrap = |b: Vec<u8>| match sec {
        Some(c) => [&[0, 0x53, c as u8][..], &b].concat(),
        None => b,
    };
    let mut last: Option<Costs> = None;
    let mut k = d;
    // nesting is only promised to 64
    while k * per + 4 <= 62 || last.is_none() {
        let b = wrap(build(k.min(58 / per)));
        let c = t.work(&b);
        if c.len() == 1 {
            return Err(format!("{:?} nested {} deep is not read: {}", t, k, hex(&b)));
        }
        if let Some(l) = &last {
            for ((op, a), (_, b)) in l.iter().zip(&c) {
                if b.steps > 9 * a.steps + 4000 || b.alloc > 9 * a.alloc + (1 << 18) {
                    return Err(format!("{}: {:?} at depth {}, {:?} at depth {}: {:?} links {:?} width {}", op, a, k / 2, b, k, t, links, width));
                }
            }
        }
        ctx.sub += c.len() as u64;
        last = Some(c);
        k *= 2;
    }
    Ok(())
}
/// Steps allowed for input of this size; compounds within compounds may each cost their content once.
fn allowed(b: &[u8]) -> u64 {
    let deep = b.iter().filter(|x| [0u8, 0x45, 0xc0, 0xc1, 0xd0, 0xd1, 0xe0, 0xf0].contains(x)).count().min(130) as u64;
    60 * (b.len() as u64 + 100) * (2 + deep)
}
fn anything(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.budget = 3000;
    let (f, b) = match s.weighted(&[2, 3, 3]) {
        0 => valid(s),
        1 => {
            let (f, mut b) = valid(s);
            mutate(s, &mut b);
            (f, b)
        }
        _ => input(s, ctx),
    };
    ctx.label("any input");
    ctx.nontrivial = b.len() > 8;
    ctx.desc(|| format!("{:?} {}", f, hex(&b)));
    let max = allowed(&b);
    let ks = kinds::kinds();
    let check = |what: &str, c: Costs| -> Res {
        for (op, c) in &c {
            if c.steps > max {
                return Err(format!("{} {}: {} steps for {} bytes: {}", what, op, c.steps, b.len(), hex(&b)));
            }
        }
        Ok(())
    };
    let mut picks: Vec<usize> = (0..3).map(|_| s.idx(ks.len())).collect();
    picks.push(ks.iter().position(|k| k.name == "Variant").unwrap());
    if let For::Kind(i) = f {
        picks.push(i);
    }
    for i in picks {
        if !(ks[i].vec && zero_width_bomb(&b)) {
            check(ks[i].name, (ks[i].work)(&b))?;
        }
    }
    if b.len() >= 4 {
        check("AmqpFrame", To::Frame.work(&b))?;
        check("SaslFrame", To::Sasl.work(&b))?;
    }
    check("InMessage", To::In.work(&b))?;
    check("OutMessage", To::Out.work(&b))
}
/// Messages within messages, and many of them in one.
fn nested_messages(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.budget = 60;
    let recv = s.bool();
    let mut m = g::message(s, false);
    m.data.truncate(3);
    let width = if s.bool() { 1 } else { 1 + s.below(3) as usize };
    let kinds: Vec<bool> = (0..3).map(|_| s.bool()).collect();
    ctx.label("nested messages");
    ctx.nontrivial = true;
    ctx.desc(|| format!("{} nested, {} wide, {:?}", m.show(), width, kinds));
    let wrap = |l: Vec<TransferBody>, out: bool| -> TransferBody {
        if out {
            let x: OutMessage = build_msg(&m);
            TransferBody::MessageOut(x.set_body(|b| b.messages = l.clone()))
        } else {
            let x: InMessage = build_msg(&m);
            TransferBody::MessageIn(x.set_body(|b| b.messages = l.clone()))
        }
    };
    let costs = |x: &TransferBody| {
        // nothing remembered
        let x = match x {
            TransferBody::MessageOut(x) => TransferBody::MessageOut(x.clone().set_body(|_| {})),
            TransferBody::MessageIn(x) => TransferBody::MessageIn(x.clone().set_body(|_| {})),
            x => x.clone(),
        };
        let mut o = vec![];
        made(&x, &mut o);
        o
    };
    let leaf = TransferBody::Data(Bytes::from(&[7u8; 20][..]));
    let deep = |d: usize| {
        let mut x = wrap(vec![leaf.clone(); width], recv);
        for i in 1..d {
            let mut l = vec![leaf.clone(); width - 1];
            l.push(x);
            x = wrap(l, kinds[i % kinds.len()]);
        }
        x
    };
    let mut last: Option<Costs> = None;
    for d in [4, 8, 16, 32] {
        let c = costs(&deep(d));
        if let Some(l) = &last {
            for ((op, a), (_, b)) in l.iter().zip(&c) {
                if b.steps > 9 * a.steps + 4000 || b.alloc > 9 * a.alloc + (1 << 18) {
                    return Err(format!("message {}: {:?} nested {} deep, {:?} nested {} deep", op, a, d / 2, b, d));
                }
            }
        }
        ctx.sub += c.len() as u64;
        last = Some(c);
    }
    let n = 40 + s.below(100) as usize;
    let many = |n: usize| costs(&wrap((0..n).map(|i| wrap(vec![leaf.clone()], kinds[i % kinds.len()])).collect(), recv));
    scales(&many(n), &many(4 * n), &|| format!("{} messages in one", n))
}
/// All the bytes of a stream, in pieces of this size.
fn feed<T: Decode + Encode>(b: &[u8], step: usize, limit: u64) -> Result<(usize, Cost), String> {
    let mut c = AmqpCodec::<T>::new();
    let mut buf = BytesMut::new();
    let t = now();
    let mut n = 0;
    let (r, c) = cost(|| {
        for (i, x) in b.chunks(step).enumerate() {
            buf.extend_from_slice(x);
            loop {
                match c.decode(&mut buf) {
                    Ok(Some(_)) => n += 1,
                    Ok(None) => break,
                    Err(e) => return Err(format!("{:?}", e)),
                }
            }
            if i % 64 == 0 && now() - t > limit {
                return Err(format!("{} ns of work after {} of {} bytes in pieces of {}", now() - t, (i + 1) * step, b.len(), step));
            }
        }
        Ok(())
    });
    r.map(|_| (n, c))
}
fn streams(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.budget = 200;
    let frames: Vec<AmqpFrame> = (0..3).map(|_| make_frame(&g::frame(s))).collect();
    let step = *s.pick(&[1usize, 2, 7, 100, 4096, 1 << 20]);
    let n = 20 + s.below(60) as usize;
    ctx.label("streams");
    ctx.nontrivial = true;
    ctx.desc(|| format!("{} times {:?} in pieces of {}", n, frames, step));
    let write = |n: usize| {
        let mut c = AmqpCodec::<AmqpFrame>::new();
        let mut buf = BytesMut::new();
        let (_, k) = cost(|| {
            for i in 0..n {
                c.encode(frames[i % 3].clone(), &mut buf).expect("encoder");
            }
        });
        (buf, k)
    };
    let ((a, ca), (b, cb)) = (write(n), write(4 * n));
    scales(&vec![("write", ca)], &vec![("write", cb)], &|| format!("{} frames {:?}", n, frames))?;
    let limit = 5_000_000_000;
    let ((m, ra), (_, rb)) = (feed::<AmqpFrame>(&a, step, limit)?, feed::<AmqpFrame>(&b, step, limit)?);
    if m != n {
        return Err(format!("{} frames of {} read", m, n));
    }
    scales(&vec![("read", ra)], &vec![("read", rb)], &|| format!("{} frames in pieces of {}: {:?}", n, step, frames))
}

const LIMIT: u64 = 2_500_000_000;
fn quick_enough(what: &str, b: usize, c: &Costs) -> Res {
    for (op, c) in c {
        if c.ns > LIMIT {
            return Err(format!("{}: {} takes {} ms of processor time for {} bytes", what, op, c.ns / 1_000_000, b));
        }
    }
    Ok(())
}
/// A megabyte or more of everything, against the clock of the processor.
pub fn c32_large(ctx: &mut Ctx) -> Res {
    set_static_mode(0);
    let mut shapes: Vec<Sized> = vec![];
    let targets = [(To::Kind("Variant"), None), (To::In, Some(0x77)), (To::Out, Some(0x77))];
    for (t, d) in targets {
        shapes.push(Sized::List(t, d, vec![Null]));
        shapes.push(Sized::List(t, d, vec![V::s("text"), U32(7), List(vec![]), Map(vec![(V::s("a"), Null)])]));
        for k in 0..3 {
            shapes.push(Sized::Text(t, d, k));
        }
        for kind in 0..12 {
            for step in [1, 1 << 16, 1 << 32, 1 << 40] {
                shapes.push(Sized::Map(t, d, Count { kind, step, width: 8, pad: 0, scattered: false }, Null));
                shapes.push(Sized::Map(t, d, Count { kind, step, width: 5, pad: 11, scattered: false }, Null));
            }
        }
    }
    for (pad, width, step) in [(0, 0, 1), (3, 0, 1), (8, 0, 1), (11, 0, 1)] {
        let c = |kind| Count { kind, step, width, pad, scattered: true };
        shapes.push(Sized::Map(To::Kind("Fields"), None, c(8), Null));
        shapes.push(Sized::Map(To::Kind("StringVariantMap"), None, c(11), Null));
        shapes.push(Sized::Map(To::Kind("VecVariantMap"), None, c(11), Null));
        for t in [To::In, To::Out] {
            shapes.push(Sized::Map(t, Some(0x74), c(11), U32(5)));
            shapes.push(Sized::Map(t, Some(0x72), c(8), U32(5)));
        }
    }
    for (n, k, f) in PRIMS {
        let mut s = super::frames::fixed_src(*k);
        shapes.push(Sized::Array(n, *f, g::scalar_of(&mut s, *k, 12)));
    }
    for c in sc::all() {
        for i in 0..c.fields.len() {
            if grows(&c.fields[i]) {
                shapes.push(Sized::Field(c.name.to_string(), i, Count { kind: 8, step: 1, width: 8, pad: 3, scattered: true }, Null));
            }
        }
        if kinds::kinds().iter().any(|k| k.name == super::access::camel(c.name)) {
            shapes.push(Sized::Surplus(c.name.to_string(), U32(1)));
        }
    }
    for t in [To::In, To::Out] {
        for x in [V::desc(0x75, Bin(vec![1, 2])), V::desc(0x76, List(vec![Null])), V::desc(0x77, Null), super::frames::minimal("header")] {
            shapes.push(Sized::Sections(t, vec![x]));
        }
    }
    shapes.push(Sized::Payload);
    for sh in &shapes {
        let (t, b) = sh.make(30_000);
        let c = t.work(&b);
        if c.len() == 1 {
            return Err(format!("{:?} is not read: {:?}", t, sh));
        }
        quick_enough(&format!("{:?} {:?}", t, sh), b.len(), &c)?;
        ctx.sub += 1;
    }
    Ok(())
}
/// Megabytes of stream in small pieces, one large frame in small pieces, many frames into one buffer.
pub fn c32_streams(ctx: &mut Ctx) -> Res {
    let t = |n: usize| make_frame(&FrameV { channel: 3, perf: Some(super::frames::minimal("transfer")), payload: vec![9; n] });
    let large = enc_of(&t(3_000_000)).1;
    let small: Vec<u8> = enc_of(&t(40)).1.iter().cloned().cycle().take(enc_of(&t(40)).1.len() * 40_000).collect();
    let beats: Vec<u8> = [0u8, 0, 0, 8, 2, 0, 0, 0].iter().cloned().cycle().take(8 * 100_000).collect();
    for (name, b, n) in [("one large frame", &large, 1), ("many small frames", &small, 40_000), ("many empty frames", &beats, 100_000)] {
        for step in [16, 61, 1000, 4096, 65_536, b.len()] {
            let (m, _) = feed::<AmqpFrame>(b, step, LIMIT).map_err(|e| format!("{}: {}", name, e))?;
            if m != n {
                return Err(format!("{}: {} read", name, m));
            }
            ctx.sub += 1;
        }
    }
    let mut c = AmqpCodec::<AmqpFrame>::new();
    let mut buf = BytesMut::new();
    let from = now();
    for n in [0usize, 40, 5000] {
        let x = t(n);
        for i in 0..if n > 1000 { 2000 } else { 60_000 } {
            c.encode(x.clone(), &mut buf).map_err(|e| format!("{:?}", e))?;
            if i % 64 == 0 && now() - from > LIMIT {
                return Err(format!("{} ns after writing {} bytes of frames of {}", now() - from, buf.len(), n));
            }
        }
        ctx.sub += 1;
    }
    Ok(())
}

/// Recorded finding: maps keyed by texts alone, under the maps' default hasher, with eight digits for keys.
pub fn c32_texts(_: &mut Ctx) -> Res {
    let sh = Sized::Map(To::Kind("Section"), Some(0x72), Count { kind: 8, step: 1, width: 8, pad: 0, scattered: false }, Null);
    let (t, a) = sh.make(40_000);
    let (_, b) = sh.make(160_000);
    scales(&t.work(&a), &t.work(&b), &|| "message annotations with 160000 keys of eight digits".into())
}
