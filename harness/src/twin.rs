//! What a build of the crate does with one generated case, as a digest: two builds that behave alike give the same digest.
//! Used to compare the checked-in protocol definitions with regenerated ones.
use crate::conv::*;
use crate::engine::{guarded, load_dict, Ctx, Prop, Res};
use crate::gen as g;
use crate::kinds::{self, Kind};
use crate::props::bytes as pb;
use crate::props::frames as pf;
use crate::refm::V::{self, *};
use crate::refm::{canon, enc, parse, parse_all, show};
use crate::schema as sc;
use crate::src::{Rng, Src};
use amqp_codec::protocol as p;
use amqp_codec::{AmqpFrame, InMessage, OutMessage, SaslFrame};
use std::io::{BufRead, Write};

/// Accumulates observations.
pub struct O {
    h: u64,
    text: Option<String>,
    /// inputs looked at, and how many of them some decoder accepted
    pub seen: u64,
    pub accepted: u64,
}
impl O {
    fn new(text: bool) -> O {
        O { h: 0xcbf2_9ce4_8422_2325, text: if text { Some(String::new()) } else { None }, seen: 0, accepted: 0 }
    }
    fn bytes(&mut self, b: &[u8]) {
        for &x in b {
            self.h = (self.h ^ x as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        self.h = (self.h ^ b.len() as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.h ^= self.h >> 31;
    }
    fn line<F: FnOnce() -> String>(&mut self, f: F) {
        if let Some(t) = &mut self.text {
            let mut s = f();
            if s.len() > 1500 {
                let mut k = 1500;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            t.push_str(&s);
            t.push('\n');
        }
    }
    fn note(&mut self, s: &str) {
        self.bytes(s.as_bytes());
        self.line(|| s.to_string());
    }
    fn val(&mut self, what: &str, v: &V) {
        self.bytes(&canon(v));
        self.line(|| format!("{}: {}", what, show(v)));
    }
    fn num(&mut self, what: &str, n: usize) {
        self.bytes(&(n as u64).to_le_bytes());
        self.line(|| format!("{}: {}", what, n));
    }
    /// something encoded: announced size and meaning of the bytes
    fn encoded(&mut self, n: usize, b: &[u8]) {
        self.num("announced size", n);
        self.num("bytes written", b.len());
        let mut rest = b;
        while !rest.is_empty() {
            match parse(rest) {
                Ok((v, r)) => {
                    self.val("written", &v);
                    rest = r;
                }
                Err(_) => {
                    // not parsable: only its amount, map order may differ
                    self.num("unparsable bytes", rest.len());
                    break;
                }
            }
        }
    }
}
fn input(o: &mut O, b: &[u8]) {
    o.line(|| format!("input {}", crate::props::values::hex(b)));
}
fn kind(o: &mut O, k: &Kind, b: &[u8]) {
    if k.vec && pb::zero_width_bomb(b) {
        return;
    }
    o.seen += 1;
    o.note(k.name);
    match guarded(|| (k.relay)(b)) {
        Err(_) => o.note("panic"),
        Ok(None) => o.note("rejected"),
        Ok(Some((v, left, n, e))) => {
            o.accepted += 1;
            o.val("value", &v);
            o.num("left", left);
            o.encoded(n, &e);
        }
    }
}
fn body(o: &mut O, b: &[u8]) {
    o.seen += 1;
    o.note("performative");
    let r = guarded(|| {
        dec::<p::Frame>(b).ok().map(|(f, left)| {
            let (n, e) = enc_of(&f);
            let v = match &f {
                p::Frame::Empty => Null,
                f => f.v(),
            };
            let pay = match &f {
                p::Frame::Transfer(t) => t.body.as_ref().map(body_bytes).unwrap_or_default(),
                _ => vec![],
            };
            (f.name(), v, left, pay, n, e)
        })
    });
    match r {
        Err(_) => o.note("panic"),
        Ok(None) => o.note("rejected"),
        Ok(Some((name, v, left, pay, n, e))) => {
            o.accepted += 1;
            o.note(name);
            o.val("value", &v);
            o.num("left", left);
            o.bytes(&pay);
            let k = e.len().saturating_sub(pay.len());
            o.encoded(n, &e[..k]);
            o.bytes(&e[k..]);
        }
    }
}
fn frame(o: &mut O, b: &[u8]) {
    o.seen += 1;
    o.note("frame");
    match guarded(|| dec::<AmqpFrame>(b).ok().map(|(f, left)| (view_frame(&f), left))) {
        Err(_) => o.note("panic"),
        Ok(None) => o.note("rejected"),
        Ok(Some((f, left))) => {
            o.accepted += 1;
            o.num("channel", f.channel as usize);
            if let Some(v) = &f.perf {
                o.val("performative", v);
            }
            o.bytes(&f.payload);
            o.num("left", left);
        }
    }
    o.note("sasl frame");
    match guarded(|| dec::<SaslFrame>(b).ok().map(|(f, left)| (f.body.v(), left))) {
        Err(_) => o.note("panic"),
        Ok(None) => o.note("rejected"),
        Ok(Some((v, left))) => {
            o.accepted += 1;
            o.val("body", &v);
            o.num("left", left);
        }
    }
}
fn message(o: &mut O, b: &[u8]) {
    o.seen += 1;
    fn one<M: Msg>(o: &mut O, b: &[u8]) {
        o.note(M::NAME);
        match guarded(|| dec::<M>(b).ok().map(|(m, left)| (view_msg(&m, &[]), left, enc_of(&m)))) {
            Err(_) => o.note("panic"),
            Ok(None) => o.note("rejected"),
            Ok(Some((m, left, (n, e)))) => {
                o.accepted += 1;
                for x in m.sections() {
                    // application properties come in map order
                    o.val("section", &x);
                }
                o.num("left", left);
                o.encoded(n, &e);
            }
        }
    }
    one::<InMessage>(o, b);
    one::<OutMessage>(o, b);
}
fn all_kinds_named<'a>(names: &[&str]) -> Vec<&'static Kind> {
    kinds::kinds().iter().filter(|k| names.contains(&k.name)).collect()
}
const ENUMS: &[&str] = &[
    "Role", "SenderSettleMode", "ReceiverSettleMode", "TerminusDurability", "SaslCode", "TerminusExpiryPolicy", "AmqpError", "ConnectionError", "SessionError", "LinkError",
    "ErrorCondition", "DistributionMode", "MessageId",
];
/// every reader of described things
fn readers(o: &mut O, b: &[u8]) {
    for k in kinds::kinds().iter().filter(|k| k.shape != kinds::Shape::Plain) {
        kind(o, k, b);
    }
    body(o, b);
    frame(o, &g::frame_bytes(0, 1, &[], b)[4..]);
    frame(o, &g::frame_bytes(1, 0, &[], b)[4..]);
    message(o, b);
}
fn readers_of(o: &mut O, name: &str, b: &[u8]) {
    let camel: String = name.split('-').map(|w| w[..1].to_uppercase() + &w[1..]).collect();
    let mut want = vec![&camel[..]];
    if sc::STATES.contains(&name) {
        want.push("DeliveryState");
        want.push("Outcome");
    }
    if sc::SASL.contains(&name) {
        want.push("SaslFrameBody");
        frame(o, &g::frame_bytes(1, 0, &[], b)[4..]);
    }
    if sc::SECTIONS.iter().any(|x| x.2 == name) {
        want.push("Section");
        message(o, b);
    }
    if sc::PERFORMATIVES.contains(&name) {
        body(o, b);
        frame(o, &g::frame_bytes(0, 1, &[], b)[4..]);
    }
    for k in all_kinds_named(&want) {
        kind(o, k, b);
    }
}
fn changed(s: &mut Src, name: &str) -> Vec<u8> {
    let c = sc::comp(name);
    let v = g::comp(s, name);
    let (mut d, mut l) = match g::peer(s, &v) {
        Desc(d, l) => match *l {
            List(l) => (d, l),
            _ => unreachable!(),
        },
        _ => unreachable!(),
    };
    for _ in 0..1 + s.below(3) {
        match s.below(8) {
            0 | 1 if !l.is_empty() => {
                let i = s.idx(l.len());
                l[i] = Null
            }
            2 => {
                let k = s.idx(l.len() + 1);
                l.truncate(k)
            }
            3 => l.push(Null),
            4 => l.push(g::value(s, 2)),
            5 if !l.is_empty() && !c.fields.is_empty() => {
                let i = s.idx(l.len());
                l[i] = pf::wrong_field(c.fields[i.min(c.fields.len() - 1)].ty)
            }
            6 if !l.is_empty() => {
                let i = s.idx(l.len());
                let t = sc::all()[s.idx(sc::all().len())].name;
                let n = sc::comp(t).fields.len();
                if n > 0 {
                    let ty = sc::comp(t).fields[s.idx(n)].ty;
                    l[i] = g::field(s, ty);
                }
            }
            _ => {
                d = Box::new(match s.below(4) {
                    0 => U64(c.code ^ (1 << s.below(64))),
                    1 => U64(s.int(8)),
                    2 => V::sym(&g::near(s, &[c.sym])),
                    _ => V::sym(sc::all()[s.idx(sc::all().len())].sym),
                })
            }
        }
    }
    let mut b = vec![];
    g::enc_free(s, &Desc(d, Box::new(List(l))), &mut b);
    b
}
fn case(s: &mut Src, o: &mut O) -> &'static str {
    set_static_mode(0);
    match s.weighted(&[5, 5, 3, 2, 3, 2, 3, 4]) {
        0 => {
            s.budget = 6000;
            let k = kinds::pick(s);
            let v = (k.gen)(s);
            o.note(k.name);
            o.val("built", &v);
            match guarded(|| ((k.enc)(&v), (k.acc)(&v))) {
                Err(_) => o.note("panic"),
                Ok(((n, b), a)) => {
                    o.encoded(n, &b);
                    o.note(if a.is_ok() { "accessors agree" } else { "accessors differ" });
                    o.line(|| format!("{:?}", a));
                }
            }
            let w = kinds::peer_form(s, k, &v);
            let mut b = vec![];
            g::enc_free(s, &w, &mut b);
            input(o, &b);
            kind(o, k, &b);
            "values"
        }
        1 => {
            s.budget = 3000;
            let name = sc::all()[s.idx(sc::all().len())].name;
            let b = changed(s, name);
            input(o, &b);
            readers_of(o, name, &b);
            "changed composites"
        }
        2 => {
            let mut c = Ctx::default();
            let (f, b) = pb::input(s, &mut c);
            input(o, &b);
            match f {
                pb::For::Kind(i) => kind(o, &kinds::kinds()[i], &b),
                pb::For::Message => message(o, &b),
                pb::For::Any => {
                    let n = s.idx(kinds::kinds().len());
                    kind(o, &kinds::kinds()[n], &b);
                    body(o, &b);
                }
                _ => frame(o, if b.len() >= 4 { &b[4..] } else { &b }),
            }
            "mutated bytes"
        }
        3 => {
            s.budget = 3000;
            let (_, b) = pb::valid(s);
            input(o, &b);
            for _ in 0..6 {
                let n = s.idx(kinds::kinds().len());
                kind(o, &kinds::kinds()[n], &b);
            }
            "other decoders"
        }
        4 => {
            s.budget = 6000;
            let f = g::frame(s);
            if let Some(v) = &f.perf {
                o.val("performative", v);
            }
            match guarded(|| {
                let x = make_frame(&f);
                (x.performative().name(), enc_of(&x))
            }) {
                Err(_) => o.note("panic"),
                Ok((n, (size, b))) => {
                    o.note(n);
                    o.bytes(&b[..8.min(b.len())]);
                    o.num("announced", size);
                    let k = b.len().saturating_sub(f.payload.len());
                    o.encoded(k, b.get(8..k).unwrap_or(&[]));
                    o.bytes(&b[k..]);
                    // not shown: map order differs from run to run
                    frame(o, b.get(4..).unwrap_or(&[]));
                }
            }
            "frames"
        }
        5 => {
            let n = *s.pick(sc::SASL);
            let v = g::comp(s, n);
            o.val("body", &v);
            match guarded(|| enc_of(&make_sasl(&v))) {
                Err(_) => o.note("panic"),
                Ok((size, b)) => {
                    o.num("announced", size);
                    o.bytes(&b[..8.min(b.len())]);
                    o.encoded(b.len(), b.get(8..).unwrap_or(&[]));
                    frame(o, b.get(4..).unwrap_or(&[]));
                }
            }
            "sasl frames"
        }
        6 => {
            s.budget = 6000;
            let m = g::message(s, true);
            let mut b = vec![];
            for x in m.on_wire().sections() {
                let w = g::peer_section(s, &x);
                g::enc_free(s, &w, &mut b);
            }
            input(o, &b);
            message(o, &b);
            "messages"
        }
        _ => {
            let v = match s.below(6) {
                0 => U8(s.int(8) as u8),
                1 => U32(s.int(32) as u32),
                2 => Bool(s.bool()),
                3 | 4 => {
                    let k = [sc::AMQP_ERRORS, sc::CONN_ERRORS, sc::SESSION_ERRORS, sc::LINK_ERRORS, sc::EXPIRY, &["move", "copy"]][s.idx(6)];
                    V::sym(&g::near(s, k))
                }
                _ => g::scalar(s),
            };
            let mut b = vec![];
            g::enc_free(s, &v, &mut b);
            input(o, &b);
            for k in all_kinds_named(ENUMS) {
                kind(o, k, &b);
            }
            "enumerations"
        }
    }
}

// ---------- fixed enumerations ----------
/// (label, bytes, which readers: 0 of the composite, 1 all, 2 enumerations)
fn fixed(f: &mut dyn FnMut(&str, &str, &[u8], u8)) {
    let e = |v: &V, how: u64| {
        let mut b = vec![];
        enc(v, &mut b, &mut |n| how % n);
        b
    };
    for c in sc::all() {
        for l in pf::lists_of(c) {
            for d in [U64(c.code), V::sym(c.sym)] {
                let b = e(&Desc(Box::new(d), Box::new(List(l.clone()))), 0);
                f("field lists", c.name, &b, 0);
            }
        }
    }
    let bodies: Vec<V> = vec![
        List(vec![]),
        Map(vec![]),
        Bin(vec![1]),
        Null,
        List(vec![V::s("x"), Null]),
        List(vec![U32(1), U32(2), U32(3), U32(4), U32(5)]),
        List(vec![V::sym("x")]),
        List(vec![U8(1)]),
        List(vec![Bin(vec![1])]),
        List(vec![Bool(true), U32(2), U32(3)]),
    ];
    for code in (0..0x140u64).chain([0x1_0000_0010, 0x4680_0000_0070, u64::MAX]) {
        for x in &bodies {
            f("descriptor codes", "", &e(&V::desc(code, x.clone()), 0), 1);
        }
    }
    let mut syms: Vec<String> = sc::all().iter().map(|c| c.sym.to_string()).chain(sc::SECTIONS.iter().map(|x| x.1.to_string())).collect();
    syms.extend(load_dict().texts.iter().filter(|t| t.is_ascii()).cloned());
    let near: Vec<String> = syms.iter().flat_map(|t| vec![t.clone(), format!("{}x", t), t.get(1..).unwrap_or("").to_string(), t.to_uppercase(), t.replace("list", "map")]).collect();
    for t in &near {
        for x in &bodies {
            f("descriptor names", "", &e(&Desc(Box::new(V::sym(t)), Box::new(x.clone())), 0), 1);
        }
        for v in [V::sym(t), V::s(t)] {
            f("enumeration symbols", "", &e(&v, 0), 2);
        }
    }
    for x in 0..=255u8 {
        f("enumeration numbers", "", &e(&U8(x), 0), 2);
        f("enumeration numbers", "", &e(&U16(x as u16), 0), 2);
        for how in 0..3 {
            f("enumeration numbers", "", &e(&U32(x as u32), how), 2);
            f("enumeration numbers", "", &e(&U64(x as u64), how), 2);
        }
    }
    for how in 0..2 {
        f("enumeration numbers", "", &e(&Bool(true), how), 2);
        f("enumeration numbers", "", &e(&Bool(false), how), 2);
        f("enumeration numbers", "", &e(&Null, how), 2);
    }
}
fn look(o: &mut O, name: &str, b: &[u8], who: u8) {
    match who {
        0 => readers_of(o, name, b),
        1 => readers(o, b),
        _ => {
            for k in all_kinds_named(ENUMS) {
                kind(o, k, b);
            }
        }
    }
}

/// In the guided search nothing is decided; it collects choice sequences for the comparison.
pub fn c24(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut o = O::new(false);
    let l = case(s, &mut o);
    ctx.label(l);
    ctx.nontrivial = o.seen > 0;
    Ok(())
}

/// twin sweep K N | twin seeds SEED FROM TO | twin choices (lines on stdin)
pub fn main(a: &[String], _: &[Prop]) -> i32 {
    unsafe {
        let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
    covrt::quiet();
    let a = a.to_vec();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || body_of_main(&a)).unwrap();
    h.join().unwrap_or(3)
}
fn body_of_main(a: &[String]) -> i32 {
    let out = std::io::stdout();
    let mut out = out.lock();
    let verbose = std::env::var("VH_TEXT").is_ok();
    match &a[0][..] {
        "sweep" => {
            let (k, n): (u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap());
            let only: Option<u64> = a.get(3).map(|x| x.parse().unwrap());
            let mut i = 0u64;
            fixed(&mut |label, name, b, who| {
                if i % n == k && only.map_or(true, |x| x == i) {
                    let mut o = O::new(verbose);
                    input(&mut o, b);
                    look(&mut o, name, b, who);
                    if let Some(t) = &o.text {
                        write!(out, "{}", t).unwrap();
                    }
                    writeln!(out, "{} {:016x} {} {} {}", i, o.h, o.seen, o.accepted, label).unwrap();
                }
                i += 1;
            });
        }
        "seeds" => {
            let (seed, from, to): (u64, u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
            let dict = load_dict();
            for i in from..to {
                let mut r = Rng::new(seed.wrapping_mul(0x1_0000_01b3) ^ i.wrapping_mul(0x9E37_79B9));
                let mut s = Src::new(vec![], true, r.next(), dict.clone(), std::ptr::null_mut());
                let mut o = O::new(verbose);
                let l = case(&mut s, &mut o);
                if let Some(t) = &o.text {
                    write!(out, "{}", t).unwrap();
                    writeln!(out, "choices {}", s.rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).unwrap();
                }
                writeln!(out, "{} {:016x} {} {} {}", i, o.h, o.seen, o.accepted, l).unwrap();
            }
        }
        "choices" => {
            let dict = load_dict();
            let stdin = std::io::stdin();
            for (i, line) in stdin.lock().lines().enumerate() {
                let c: Vec<u64> = line.unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
                let mut s = Src::new(c, false, 0, dict.clone(), std::ptr::null_mut());
                let mut o = O::new(verbose);
                let l = case(&mut s, &mut o);
                if let Some(t) = &o.text {
                    write!(out, "{}", t).unwrap();
                }
                writeln!(out, "{} {:016x} {} {} {}", i, o.h, o.seen, o.accepted, l).unwrap();
                out.flush().unwrap();
            }
        }
        _ => return 2,
    }
    out.flush().unwrap();
    let _ = parse_all;
    0
}
