//! C31: the same bytes and the same content mean the same through every type that can hold them.
use super::bytes::{input, mutate, For};
use super::errs;
use super::pure::{frame_bytes_of, outcome, show_outcome, Outcome, What};
use super::values::hex;
use crate::conv::*;
use crate::engine::{Ctx, Res};
use crate::gen as g;
use crate::kinds;
use crate::refm::V::{self, *};
use crate::refm::{canon, parse_all, show};
use crate::schema as sc;
use crate::src::Src;
use amqp_codec::protocol as p;
use amqp_codec::types as t;
use amqp_codec::{AmqpCodec, AmqpCodecError, AmqpFrame, Decode, Encode, InMessage, MessageBody, OutMessage, SaslFrame};
use bytes::{Bytes, BytesMut};
use tokio_io::codec::{Decoder, Encoder};

/// Content (canonical), bytes left; or the error (of a truncation only its kind).
type Read = Result<(Vec<u8>, usize), String>;
fn plain(e: String) -> String {
    if e.starts_with("Incomplete") {
        "Incomplete".into()
    } else {
        e
    }
}
fn norm(o: Outcome) -> Outcome {
    o.map_err(plain)
}
fn agree(what: &str, b: &[u8], a: &Outcome, c: &Outcome) -> Res {
    if a != c {
        return Err(format!("{}: {} gives {} one way and {} the other", what, hex(b), show_outcome(a), show_outcome(c)));
    }
    Ok(())
}
fn agree_read(what: &str, b: &[u8], a: &Read, c: &Read) -> Res {
    if a != c {
        let f = |r: &Read| match r {
            Ok((v, l)) => format!("{} with {} bytes left", hex(v), l),
            Err(e) => e.clone(),
        };
        return Err(format!("{}: {} gives {} one way and {} the other", what, hex(b), f(a), f(c)));
    }
    Ok(())
}
fn kind(n: &str, b: &[u8]) -> Read {
    (kinds::by_name(n).dec)(b).map(|(v, l)| (canon(&v), l)).map_err(plain)
}
/// the numeric code of the descriptor at the front, if there is a readable one
fn leading(b: &[u8]) -> Option<(u64, &[u8])> {
    if b.first() != Some(&0) {
        return None;
    }
    let (r, d) = t::Descriptor::decode(&b[1..]).ok()?;
    Some((
        match d {
            t::Descriptor::Ulong(c) => c,
            t::Descriptor::Symbol(ref y) => sc::all().iter().find(|c| c.sym == y.as_str()).map(|c| c.code).or(sc::SECTIONS.iter().find(|x| x.1 == y.as_str()).map(|x| x.0))?,
        },
        r,
    ))
}
/// `whole` reads a choice of types; `each` are the outcomes of those types by themselves.
fn choice(what: &str, b: &[u8], whole: &Outcome, each: &[(u64, Outcome)]) -> Res {
    match leading(b) {
        Some((c, _)) => {
            for (k, o) in each {
                if *k == c {
                    agree(&format!("{} {:#x}", what, c), b, whole, o)?;
                } else if o.is_ok() || !o.as_ref().unwrap_err().starts_with("InvalidDescriptor") {
                    return Err(format!("{}: {} read as {:#x} gives {}", what, hex(b), k, show_outcome(o)));
                }
            }
            if each.iter().all(|(k, _)| *k != c) && whole.is_ok() {
                return Err(format!("{}: {} is accepted as {}", what, hex(b), show_outcome(whole)));
            }
        }
        None => {
            // not described, an unknown or an unreadable descriptor: nobody takes it
            for (_, o) in each {
                agree(what, b, whole, o)?;
            }
            if whole.is_ok() {
                return Err(format!("{}: {} is accepted as {}", what, hex(b), show_outcome(whole)));
            }
        }
    }
    Ok(())
}
macro_rules! perfs {
    ($b:expr; $($t:ident $c:literal),*) => { vec![$({
        let o: Outcome = dec::<p::$t>($b).map(|(x, l)| {
            let n = x.encoded_size();
            // by conversion and by constructor
            let f: p::Frame = x.clone().into();
            let y = AmqpFrame::new(0, p::Frame::$t(x));
            let z = AmqpFrame::new(0, f);
            if y != z && y == y.clone() { (b"conversion".to_vec(), l, 0) } else { (frame_bytes_of(&view_frame(&z)), l, n + 8) }
        });
        ($c, norm(o))
    }),*] };
}
macro_rules! sasls {
    ($b:expr; $($t:ident $c:literal),*) => { vec![$({
        let o: Outcome = dec::<p::$t>($b).map(|(x, l)| {
            let n = x.encoded_size();
            let f: SaslFrame = x.into();
            (canon(&f.body.v()), l, n + 8)
        });
        ($c, norm(o))
    }),*] };
}
macro_rules! members {
    ($b:expr; $($t:ident $c:literal),*) => { vec![$(($c, norm(dec::<p::$t>($b).map(|(x, l)| (canon(&x.v()), l, x.encoded_size()))))),*] };
}
fn streamed<F: Decode + Encode>(what: &str, whole: &Outcome, frame: &[u8], look: fn(&F) -> Vec<u8>) -> Res {
    let mut w = ((frame.len() + 4) as u32).to_be_bytes().to_vec();
    w.extend_from_slice(frame);
    let mut buf = BytesMut::from(w);
    let r = AmqpCodec::<F>::new().decode(&mut buf);
    let ok = match (&r, whole) {
        (Ok(Some(f)), Ok((c, 0, n))) => look(f) == *c && f.encoded_size() == *n,
        (Err(AmqpCodecError::UnparsedBytesLeft), Ok((_, l, _))) => *l > 0,
        (Err(AmqpCodecError::ParseError(e)), Err(x)) => plain(format!("{:?}", e)) == *x,
        _ => false,
    };
    if !ok || !buf.is_empty() {
        return Err(format!("{}: {} from a stream gives {:?}, by itself {}", what, hex(frame), r.map(|f| f.map(|f| hex(&look(&f)))), show_outcome(whole)));
    }
    Ok(())
}
pub fn body_routes(b: &[u8]) -> Res {
    if !b.is_empty() {
        let f = norm(outcome(What::Perf, b));
        let mut x = vec![2, 0, 0, 0];
        x.extend_from_slice(b);
        let whole = norm(outcome(What::Frame, &x));
        agree("frame and performative", b, &whole, &f)?;
        streamed::<AmqpFrame>("frame", &whole, &x, |f| frame_bytes_of(&view_frame(f)))?;
        choice("performative", b, &f, &perfs!(b; Open 0x10, Begin 0x11, Attach 0x12, Flow 0x13, Transfer 0x14, Disposition 0x15, Detach 0x16, End 0x17, Close 0x18))?;
    }
    let f: Outcome = norm(dec::<p::SaslFrameBody>(b).map(|(x, l)| (canon(&x.v()), l, x.encoded_size() + 8)));
    let mut x = vec![2, 1, 0, 0];
    x.extend_from_slice(b);
    let whole = norm(outcome(What::Sasl, &x));
    agree("SASL frame and its body", b, &whole, &f)?;
    streamed::<SaslFrame>("SASL frame", &whole, &x, |f| canon(&f.body.v()))?;
    choice("SASL body", b, &f, &sasls!(b; SaslMechanisms 0x40, SaslInit 0x41, SaslChallenge 0x42, SaslResponse 0x43, SaslOutcome 0x44))
}
pub fn state_routes(b: &[u8]) -> Res {
    let st = norm(dec::<p::DeliveryState>(b).map(|(x, l)| (canon(&x.v()), l, x.encoded_size())));
    let out = norm(dec::<p::Outcome>(b).map(|(x, l)| (canon(&x.v()), l, x.encoded_size())));
    let mut e = members!(b; Accepted 0x24, Rejected 0x25, Released 0x26, Modified 0x27);
    choice("outcome", b, &out, &e)?;
    e.extend(members!(b; Received 0x23));
    choice("delivery state", b, &st, &e)
}
pub fn section_routes(b: &[u8]) -> Res {
    let whole = kind("Section", b);
    if let Some((c, r)) = leading(b) {
        let name = match c {
            0x71 | 0x72 | 0x78 => "Fields",
            0x74 => "StringVariantMap",
            0x75 => "binary",
            0x76 => "List",
            0x77 => "Variant",
            0x70 => return agree_read("header section", b, &whole, &kind("Header", b)),
            0x73 => return agree_read("properties section", b, &whole, &kind("Properties", b)),
            _ => {
                return match whole {
                    Err(_) => Ok(()),
                    Ok(_) => Err(format!("section {:#x} accepted: {}", c, hex(b))),
                }
            }
        };
        let inner = (kinds::by_name(name).dec)(r).map(|(v, l)| (canon(&V::desc(c, v)), l)).map_err(plain);
        return agree_read(&format!("section {:#x} and its content", c), b, &whole, &inner);
    }
    if whole.is_ok() {
        return Err(format!("accepted as a section: {}", hex(b)));
    }
    Ok(())
}
/// type, whether its errors are those of a free-form value
const VALUES: &[(&str, bool)] = &[
    ("bool", true), ("u8", true), ("u16", true), ("u32", true), ("u64", true), ("i8", true), ("i16", true), ("i32", true), ("i64", true), ("f32", true), ("f64", true), ("char", true),
    ("timestamp", true), ("uuid", true), ("binary", true), ("string", true), ("Str", true), ("symbol", true), ("List", true), ("Map", true),
    ("Fields", false), ("StringVariantMap", false), ("FilterSet", false), ("MessageId", true), ("ErrorCondition", true), ("DistributionMode", true),
    ("Role", false), ("SenderSettleMode", false), ("ReceiverSettleMode", false), ("TerminusDurability", false), ("SaslCode", false), ("TerminusExpiryPolicy", false),
    ("AmqpError", false), ("ConnectionError", false), ("SessionError", false), ("LinkError", false),
];
fn like(name: &str) -> Option<&'static str> {
    Some(match name {
        "Role" => "bool",
        "SenderSettleMode" | "ReceiverSettleMode" | "SaslCode" => "u8",
        "TerminusDurability" => "u32",
        "TerminusExpiryPolicy" | "AmqpError" | "ConnectionError" | "SessionError" | "LinkError" => "symbol",
        _ => return None,
    })
}
pub fn value_routes(b: &[u8]) -> Res {
    let v = kind("Variant", b);
    let code = b.first().cloned();
    let not_mine = |e: &str| code.map_or(e == "Incomplete", |c| e == format!("InvalidFormatCode({})", c));
    agree_read("value and optional value", b, &if code == Some(0x40) { Ok((canon(&Null), b.len() - 1)) } else { v.clone() }, &kind_opt_variant(b))?;
    let mut takers = 0;
    for &(n, exact) in VALUES {
        let r = kind(n, b);
        match (&r, &v) {
            (Ok(_), _) => {
                agree_read(&format!("{} and value", n), b, &r, &v)?;
                takers += 1;
            }
            (Err(e), Ok(_)) if exact && !not_mine(e) => return Err(format!("{}: {} is reported as {}, and is a readable value", n, hex(b), e)),
            (Err(e), Err(w)) if exact && !not_mine(e) && e != w => return Err(format!("{}: {} is reported as {}, as a value {}", n, hex(b), e, w)),
            _ => {}
        }
        if let Some(base) = like(n) {
            let o = kind(base, b);
            match (&r, &o) {
                (Ok(_), _) => agree_read(&format!("{} and {}", n, base), b, &r, &o)?,
                (Err(e), Ok(_)) if !e.starts_with("UnknownEnumOption") => return Err(format!("{}: {} is reported as {}", n, hex(b), e)),
                (Err(e), Err(w)) if e != w => return Err(format!("{}: {} is reported as {}, as {} {}", n, hex(b), e, base, w)),
                _ => {}
            }
        }
        if n.chars().next().unwrap().is_lowercase() {
            let o = kind(&format!("Option<{}>", n), b);
            let want = if code == Some(0x40) { Ok((canon(&Null), b.len() - 1)) } else { r };
            agree_read(&format!("{} and its option", n), b, &want, &o)?;
        }
    }
    // a readable value other than null or a described one belongs to some type
    if v.is_ok() && takers == 0 && code != Some(0x40) && code != Some(0) {
        return Err(format!("no type reads {}", hex(b)));
    }
    for (x, y) in [("string", "Str"), ("symbol", "DistributionMode"), ("symbol", "ErrorCondition"), ("Map", "VecVariantMap")] {
        if x == "Map" {
            // text keys only; a repeated key keeps the last value
            let a = kind("StringVariantMap", b);
            let c = (kinds::by_name(y).dec)(b).map(|(v, l)| (canon(&last_wins(&v)), l)).map_err(plain);
            agree_read("map of texts and ordered map", b, &a, &c)?;
        } else {
            agree_read(&format!("{} and {}", x, y), b, &kind(x, b), &kind(y, b))?;
        }
    }
    // one symbol or many
    let many = kind("Multiple<Symbol>", b);
    let by = match code {
        Some(0xe0) | Some(0xf0) => kind("Vec<symbol>", b),
        _ => (kinds::by_name("symbol").dec)(b).map(|(v, l)| (canon(&Arr(0xb3, vec![v])), l)).map_err(plain),
    };
    agree_read("one or many symbols", b, &many, &by)
}
fn kind_opt_variant(b: &[u8]) -> Read {
    dec::<Option<t::Variant>>(b).map(|(x, l)| (canon(&x.map_or(Null, |x| x.v())), l)).map_err(plain)
}
fn last_wins(v: &V) -> V {
    match v {
        Map(l) => {
            let mut o: Vec<(V, V)> = vec![];
            for (k, x) in l {
                if let Some(e) = o.iter_mut().find(|e| e.0 == *k) {
                    e.1 = x.clone();
                } else {
                    o.push((k.clone(), x.clone()));
                }
            }
            Map(o)
        }
        v => v.clone(),
    }
}
pub fn message_routes(b: &[u8]) -> Res {
    agree("received and outgoing message", b, &norm(outcome(What::In, b)), &norm(outcome(What::Out, b)))?;
    // as the payload of a transfer: the same bytes, whoever holds them
    let (i, o) = match (InMessage::decode(b), OutMessage::decode(b)) {
        (Ok((_, i)), Ok((_, o))) => (i, o),
        _ => return Ok(()),
    };
    let (ni, ei) = enc_of(&i);
    let (no, eo) = enc_of(&o);
    for (what, n, e, body) in [("received message", ni, ei, p::TransferBody::from(i)), ("outgoing message", no, eo, p::TransferBody::from(o))] {
        let data = p::TransferBody::from(Bytes::from(&e[..]));
        if (body.encoded_size(), body.len(), enc_of(&body).1 == e) != (n, n, true) || enc_of(&data) != (n, e.clone()) {
            return Err(format!("{}: as a transfer payload {} bytes {} differs from {} by itself", what, body.len(), hex(&enc_of(&body).1), hex(&e)));
        }
        let mut t: p::Transfer = fv(&super::frames::minimal("transfer"));
        t.body = Some(body.clone());
        let mut u = t.clone();
        u.body = Some(data.clone());
        let (x, y) = (AmqpFrame::new(9, t.into()), AmqpFrame::new(9, p::Frame::Transfer(u)));
        if enc_of(&x) != enc_of(&y) {
            return Err(format!("{}: a transfer of it differs from a transfer of its bytes", what));
        }
        // nested in a batch
        let m = OutMessage::with_messages(vec![body]);
        let d = OutMessage::with_body(Bytes::from(&e[..]));
        if enc_of(&m) != enc_of(&d) {
            return Err(format!("{}: a batch of it differs from its bytes as data", what));
        }
    }
    Ok(())
}
// ---------- writing ----------
fn many_keys(v: &V) -> bool {
    match v {
        Map(l) => l.len() > 1 || l.iter().any(|(k, x)| many_keys(k) || many_keys(x)),
        List(l) | Arr(_, l) => l.iter().any(many_keys),
        Desc(_, x) => many_keys(x),
        _ => false,
    }
}
/// Equal sizes, and equal bytes unless a map may be in another order.
fn written(what: &str, v: &V, a: (usize, Vec<u8>), b: (usize, Vec<u8>)) -> Res {
    let same = a.0 == b.0 && (a.1 == b.1 || many_keys(v) && parse_all(&a.1).map(|x| canon(&x)) == parse_all(&b.1).map(|x| canon(&x)));
    if !same {
        return Err(format!("{}: {} is written as {} ({}) one way and {} ({}) the other", what, show(v), hex(&a.1), a.0, hex(&b.1), b.0));
    }
    Ok(())
}
macro_rules! write_as {
    ($what:expr, $v:expr; $($t:ident $c:literal => $u:ident),*) => { match code_of($v) { $(
        $c => {
            let x: p::$t = fv($v);
            let own = enc_of(&x);
            written(concat!(stringify!($u), "::", stringify!($t)), $v, own.clone(), enc_of(&p::$u::$t(x.clone())))?;
            written(concat!("optional ", stringify!($t)), $v, own, enc_of(&Some(p::$u::$t(x.clone()))))?;
        }
    )* _ => {} } };
}
fn write_routes(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.below(5) {
        0 => {
            // a performative by itself, in `Frame`, in a frame, through the codec
            let mut f = g::frame(s);
            f.payload.clear();
            if f.perf.is_none() {
                return Ok(());
            }
            let v = f.perf.clone().unwrap();
            ctx.desc(|| format!("writing {}", show(&v)));
            ctx.nontrivial = true;
            ctx.label("written performative");
            write_as!("", &v; Open 0x10 => Frame, Begin 0x11 => Frame, Attach 0x12 => Frame, Flow 0x13 => Frame, Transfer 0x14 => Frame, Disposition 0x15 => Frame, Detach 0x16 => Frame, End 0x17 => Frame, Close 0x18 => Frame);
            let body = enc_of(&fv::<p::Frame>(&v));
            let fr = make_frame(&f);
            let (n, e) = enc_of(&fr);
            let mut h = ((body.0 + 8) as u32).to_be_bytes().to_vec();
            h.extend([2, 0]);
            h.extend(f.channel.to_be_bytes());
            if n != body.0 + 8 || e[..8.min(e.len())] != h[..] {
                return Err(format!("frame of {}: header {} and size {}", show(&v), hex(&e[..8.min(e.len())]), n));
            }
            written("frame", &v, body, (n - 8, e[8..].to_vec()))?;
            let mut out = BytesMut::new();
            AmqpCodec::<AmqpFrame>::new().encode(fr, &mut out).map_err(|e| format!("{:?}", e))?;
            written("frame through the codec", &v, (n, e[8..].to_vec()), (out.len(), out[8..].to_vec()))
        }
        1 => {
            let n = *s.pick(sc::SASL);
            let v = g::comp(s, n);
            ctx.desc(|| format!("writing {}", show(&v)));
            ctx.nontrivial = true;
            ctx.label("written SASL body");
            write_as!("", &v; SaslMechanisms 0x40 => SaslFrameBody, SaslInit 0x41 => SaslFrameBody, SaslChallenge 0x42 => SaslFrameBody, SaslResponse 0x43 => SaslFrameBody, SaslOutcome 0x44 => SaslFrameBody);
            let body = enc_of(&fv::<p::SaslFrameBody>(&v));
            let (n, e) = enc_of(&make_sasl(&v));
            if e.len() < 8 || e[4..8] != [2, 1, 0, 0] {
                return Err(format!("SASL frame of {}: {}", show(&v), hex(&e)));
            }
            written("SASL frame", &v, body, (n - 8, e[8..].to_vec()))
        }
        2 => {
            let v = g::field(s, sc::T::State);
            if let Desc(..) = v {
                ctx.desc(|| format!("writing {}", show(&v)));
                ctx.nontrivial = true;
                ctx.label("written state");
                write_as!("", &v; Received 0x23 => DeliveryState, Accepted 0x24 => DeliveryState, Rejected 0x25 => DeliveryState, Released 0x26 => DeliveryState, Modified 0x27 => DeliveryState);
                write_as!("", &v; Accepted 0x24 => Outcome, Rejected 0x25 => Outcome, Released 0x26 => Outcome, Modified 0x27 => Outcome);
            }
            Ok(())
        }
        3 => {
            // a section: by itself, by the type of its content, in a message
            let v = kinds::section(s);
            ctx.desc(|| format!("writing {}", show(&v)));
            ctx.nontrivial = true;
            ctx.label("written section");
            let own = enc_of(&fv::<p::Section>(&v));
            let c = code_of(&v);
            let inner = match &v {
                Desc(_, x) => (**x).clone(),
                _ => unreachable!(),
            };
            let by = |name: &str| (kinds::by_name(name).enc)(&inner);
            let pre = |(n, e): (usize, Vec<u8>)| {
                let mut o = vec![0, 0x53, c as u8];
                o.extend(e);
                (n + 3, o)
            };
            let alone = match c {
                0x70 => (kinds::by_name("Header").enc)(&v),
                0x73 => (kinds::by_name("Properties").enc)(&v),
                0x74 => pre(by("StringVariantMap")),
                0x75 => pre(by("binary")),
                0x76 => pre(by("List")),
                0x77 => pre(by("Variant")),
                _ => pre(by("Fields")),
            };
            written("section", &v, alone.clone(), own)?;
            if c == 0x74 {
                written("ordered application properties", &v, alone.clone(), pre(by("VecVariantMap")))?;
            }
            // in a body or a whole message
            let mut mv = MV::default();
            match c {
                0x70 => mv.header = Some(v.clone()),
                0x73 => mv.props = Some(v.clone()),
                0x74 => {
                    if let Map(l) = &inner {
                        if l.is_empty() {
                            return Ok(());
                        }
                    }
                    mv.ap = Some(inner.clone())
                }
                0x75 => mv.data = vec![if let Bin(b) = &inner { b.clone() } else { unreachable!() }],
                0x76 => mv.seq = vec![inner.clone()],
                0x77 => mv.value = Some(inner.clone()),
                _ => return Ok(()),
            }
            let (i, o) = (enc_of(&build_msg::<InMessage>(&mv)), enc_of(&build_msg::<OutMessage>(&mv)));
            let tail: &[u8] = if c < 0x75 { &[0, 0x53, 0x75, 0xa0, 0] } else { &[] };
            for (what, (n, e)) in [("received message", i), ("outgoing message", o)] {
                if n < tail.len() || e.len() < tail.len() || e[e.len() - tail.len()..] != *tail {
                    return Err(format!("{} of one section {} is {}", what, show(&v), hex(&e)));
                }
                written(what, &v, alone.clone(), (n - tail.len(), e[..e.len() - tail.len()].to_vec()))?;
            }
            if c >= 0x75 {
                let b: MessageBody = {
                    let m: OutMessage = build_msg(&mv);
                    m.body().clone()
                };
                written("message body", &v, alone, enc_of(&b))?;
            }
            Ok(())
        }
        _ => {
            // a value through its type, an option and the free-form value; texts in every storage
            let (n, _) = VALUES[s.idx(VALUES.len())];
            let k = kinds::by_name(n);
            let v = (k.gen)(s);
            ctx.desc(|| format!("writing {} {}", n, show(&v)));
            ctx.nontrivial = !matches!(v, Null);
            ctx.label("written value");
            let own = (k.enc)(&v);
            written(&format!("{} and value", n), &v, own.clone(), (kinds::by_name("Variant").enc)(&v))?;
            if n.chars().next().unwrap().is_lowercase() {
                written(&format!("{} and its option", n), &v, own.clone(), (kinds::by_name(&format!("Option<{}>", n)).enc)(&v))?;
            }
            match &v {
                Str(x) => {
                    written("text", &v, own.clone(), enc_of(&x[..]))?;
                    written("shared text", &v, own.clone(), enc_of(&t::Str::from_str(x)))?;
                    written("static text", &v, own.clone(), enc_of(&t::Str::from(intern(x))))?;
                    written("copied text", &v, own.clone(), enc_of(&t::Variant::from(t::ByteStr::from_str(x))))?;
                    written("static value", &v, own, enc_of(&t::Variant::from(intern(x))))
                }
                Sym(x) => {
                    written("symbol from a slice", &v, own.clone(), enc_of(&t::Symbol::from_slice(x)))?;
                    written("static symbol", &v, own.clone(), enc_of(&t::StaticSymbol(intern(x))))?;
                    written("value of a static symbol", &v, own, enc_of(&t::Variant::StaticSymbol(t::StaticSymbol(intern(x)))))
                }
                _ => Ok(()),
            }
        }
    }
}
pub fn c31(s: &mut Src, ctx: &mut Ctx) -> Res {
    set_static_mode(0);
    s.budget = if s.chance(5) { 70_000 } else { 3000 };
    let b = match s.weighted(&[6, 3, 3, 2, 2, 2, 3]) {
        0 => return write_routes(s, ctx),
        1 => {
            // any performative, SASL body, state or section with or without a fault
            let names: Vec<&'static str> = sc::all().iter().map(|c| c.name).collect();
            let n = *s.pick(&names);
            if s.bool() {
                let mut b = errs::bad_comp(s, n, 2).0;
                if s.chance(20) {
                    mutate(s, &mut b);
                }
                b
            } else {
                let v = g::comp(s, n);
                let w = g::peer(s, &v);
                let mut b = vec![];
                g::enc_free(s, &w, &mut b);
                match s.below(4) {
                    0 => mutate(s, &mut b),
                    1 => {
                        let k = s.below(20) as usize;
                        b.extend(s.fill(k))
                    }
                    _ => {}
                }
                b
            }
        }
        2 => {
            let v = g::value(s, 4);
            let mut b = vec![];
            g::enc_free(s, &v, &mut b);
            match s.below(4) {
                0 => mutate(s, &mut b),
                1 => {
                    let k = s.below(20) as usize;
                    b.extend(s.fill(k))
                }
                _ => {}
            }
            b
        }
        3 => errs::bad_value(s, 3).0,
        4 => {
            let v = kinds::section(s);
            let w = g::peer_section(s, &v);
            let mut b = vec![];
            g::enc_free(s, &w, &mut b);
            if s.bool() {
                mutate(s, &mut b);
            }
            b
        }
        5 => {
            // sections in any order, some of them more than once
            let mut b = vec![];
            let mut last = None;
            for _ in 0..1 + s.below(5) {
                let v = match last.take() {
                    Some(Desc(d, x)) if s.chance(50) => {
                        let mut y = Desc(d.clone(), x);
                        for _ in 0..20 {
                            let z = kinds::section(s);
                            if code_of(&z) == code_of(&y) {
                                y = z;
                                break;
                            }
                        }
                        y
                    }
                    _ => kinds::section(s),
                };
                let w = g::peer_section(s, &v);
                g::enc_free(s, &w, &mut b);
                last = Some(v);
            }
            if s.chance(10) {
                mutate(s, &mut b);
            }
            b
        }
        _ => {
            let (f, b) = input(s, ctx);
            match f {
                For::Frame | For::Sasl if b.len() > 8 => b[8..].to_vec(),
                _ => b,
            }
        }
    };
    ctx.nontrivial = b.len() > 2;
    ctx.label("read");
    ctx.desc(|| format!("reading {}", hex(&b)));
    all_routes(&b)
}
fn all_routes(b: &[u8]) -> Res {
    for f in [value_routes, body_routes, state_routes, section_routes, message_routes] {
        match f(b) {
            // one route may count a level of nesting more than another; both must refuse from 400 levels on (C07),
            // and neither may up to 64, which take 192 bytes at least
            Err(e) if b.len() >= 192 && e.contains("NestingTooDeep") => {}
            r => r?,
        }
    }
    Ok(())
}
/// Every input of up to two bytes, and every constructor and descriptor with a few fixed contents.
pub fn c31_short(ctx: &mut Ctx) -> Res {
    all_routes(&[])?;
    for i in 0..=255u8 {
        all_routes(&[i])?;
        for j in 0..=255u8 {
            all_routes(&[i, j])?;
            all_routes(&[0, 0x53, i, j])?;
            ctx.sub += 2;
        }
        for tail in [&[0u8; 20][..], &[0, 0, 0, 4, 0, 0, 0, 0], &[0, 0, 0, 2, 0xa3, 0, 0x40], &[1, 0], &[4, 2, 0xa3, 0, 0x41], &[5, 2, 0xa1, 0, 0xa1, 0, 0xff], &[2, 1, 0x41]] {
            let mut b = vec![i];
            b.extend_from_slice(tail);
            all_routes(&b)?;
            for c in 0x10..0x80u8 {
                let mut d = vec![0, 0x53, c];
                d.extend_from_slice(&b);
                all_routes(&d)?;
                ctx.sub += 1;
            }
        }
    }
    for y in sc::all().iter().map(|c| c.sym).chain(sc::SECTIONS.iter().map(|x| x.1)) {
        for tail in [&[0x45u8][..], &[0xc0, 1, 0], &[0xc1, 1, 0], &[0xa0, 1, 7], &[0x41], &[0xc0, 2, 1, 0x40], &[0xc1, 5, 2, 0xa3, 1, b'k', 0x41]] {
            for cut in 0..=3 {
                let mut b = vec![0, 0xa3, y.len() as u8];
                b.extend_from_slice(y.as_bytes());
                b.extend_from_slice(tail);
                b.truncate(b.len() - cut.min(tail.len()));
                all_routes(&b)?;
                ctx.sub += 1;
            }
        }
    }
    Ok(())
}
