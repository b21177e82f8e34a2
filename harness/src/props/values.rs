//! C01 C04 C05 C06 C15 C18 C20 C23: values and anything encodable.
use crate::conv::*;
use crate::engine::{guarded, Ctx, Res};
use crate::gen as g;
use crate::kinds::{self, Kind, Shape};
use crate::refm::V::{self, *};
use crate::refm::{enc, enc_compact, parse, parse_all, same, show};
use crate::schema as sc;
use crate::src::Src;
use amqp_codec::protocol as p;
use amqp_codec::{AmqpCodec, AmqpFrame, Encode, InMessage, OutMessage, SaslFrame};
use bytes::{BufMut, BytesMut};
use chrono::{DateTime, TimeZone, Utc};
use tokio_io::codec::Encoder;

fn statics(s: &mut Src) {
    let m = s.weighted(&[3, 1, 2]) as u8;
    set_static_mode(m);
}
fn note(ctx: &mut Ctx, k: &Kind, v: &V, len: usize) {
    ctx.label(k.name);
    if len > 255 {
        ctx.label("size>255");
    } else if len >= 248 {
        ctx.label("size 248..255");
    }
    let d = v.depth();
    if d >= 16 {
        ctx.label("depth>=16");
    } else if d >= 3 {
        ctx.label("depth>=3");
    }
    ctx.nontrivial = v.is_compound() || len > 3;
    ctx.desc(|| format!("{} {}", k.name, show(v)));
}

/// The symbol types take any text, so some free-form values carry symbols that are not ASCII.
fn any_symbols(s: &mut Src, k: &Kind, v: V) -> V {
    fn go(s: &mut Src, v: &mut V) {
        match v {
            Sym(x) if s.chance(50) => *x = g::text(s, 300),
            List(l) | Arr(_, l) => l.iter_mut().for_each(|y| go(s, y)),
            Desc(d, y) => {
                go(s, d);
                go(s, y)
            }
            Map(l) => l.iter_mut().for_each(|y| go(s, &mut y.1)),
            _ => (),
        }
    }
    let mut v = v;
    if (k.name == "Variant" || k.name == "List" || k.name.to_lowercase().contains("symbol")) && s.chance(15) {
        go(s, &mut v);
    }
    v
}
// ---------- C01 ----------
pub fn c01(s: &mut Src, ctx: &mut Ctx) -> Res {
    statics(s);
    let k = kinds::pick(s);
    let v = (k.gen)(s);
    let v = any_symbols(s, k, v);
    let (_, b) = (k.enc)(&v);
    note(ctx, k, &v, b.len());
    let junk = { let n = s.len(40); s.fill(n) };
    roundtrip(k, &v, &b, &junk)
}
fn roundtrip(k: &Kind, v: &V, b: &[u8], junk: &[u8]) -> Res {
    let mut i = b.to_vec();
    i.extend_from_slice(junk);
    match (k.dec)(&i) {
        Err(e) => Err(format!("{}: own encoding {} of {} rejected: {}", k.name, hex(b), show(v), e)),
        Ok((w, left)) => {
            if left != junk.len() {
                return Err(format!("{}: {} bytes left after the value, {} follow it", k.name, left, junk.len()));
            }
            same(k.name, &w, v)
        }
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut o: String = b.iter().take(40).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 40 {
        o.push_str(&format!("..({})", b.len()));
    }
    o
}
/// fixed values of every kind
pub fn c01_fixed(_: &mut Ctx) -> Res {
    let l = |v: Vec<V>| List(v);
    let fixed: Vec<(&str, V)> = vec![
        ("List", l(vec![])),
        ("List", l(vec![U32(1), V::s("x")])),
        ("List", l(vec![Bin(vec![0; 251]), Null])),
        ("List", l(vec![Bin(vec![0; 252]), Null])),
        ("Variant", l(vec![l(vec![]), Map(vec![(V::s("k"), l(vec![Null]))])])),
        ("Variant", Desc(Box::new(U64(0)), Box::new(Null))),
        ("Variant", Desc(Box::new(U64(300)), Box::new(U32(5)))),
        ("Variant", Desc(Box::new(V::sym("s")), Box::new(l(vec![])))),
        ("Variant", Map(vec![(Map(vec![(Null, Null)]), Null), (l(vec![Map(vec![])]), Bool(true))])),
        ("Vec<u8>", Arr(0x50, vec![U8(7); 253])),
        ("Vec<u8>", Arr(0x50, vec![U8(7); 254])),
        ("Vec<u8>", Arr(0x50, vec![U8(7); 255])),
        ("Vec<u8>", Arr(0x50, vec![])),
        ("Multiple<Symbol>", Arr(0xb3, vec![V::sym(&"m".repeat(246)), V::sym("")])),
        ("timestamp", Ts(-1)),
        ("timestamp", Ts(-1000)),
        ("timestamp", Ts(-999)),
        ("timestamp", Ts(0)),
    ];
    for (n, v) in fixed {
        let k = kinds::by_name(n);
        let (_, b) = (k.enc)(&v);
        roundtrip(k, &v, &b, &[1, 2, 3])?;
        strict(k, &v, &b)?;
    }
    Ok(())
}

// ---------- C04 ----------
pub fn c04(s: &mut Src, ctx: &mut Ctx) -> Res {
    statics(s);
    match s.weighted(&[5, 2, 1, 4]) {
        0 => {
            let k = kinds::pick(s);
            let v = (k.gen)(s);
            let v = any_symbols(s, k, v);
            let (n, b) = (k.enc)(&v);
            note(ctx, k, &v, b.len());
            if n != b.len() {
                return Err(format!("{}: announced {} bytes, wrote {} for {}", k.name, n, b.len(), show(&v)));
            }
            let mut room = BytesMut::with_capacity(n);
            let (x, y) = (k.append)(&v, &mut room);
            if x != n || y != n || room.len() != n {
                return Err(format!("{}: sizes {} {} {} {}", k.name, n, x, y, room.len()));
            }
        }
        1 => {
            let f = g::frame(s);
            ctx.label("frame");
            ctx.nontrivial = f.perf.is_some();
            ctx.desc(|| format!("frame {:?}", f.perf.as_ref().map(show)));
            let x = make_frame(&f);
            sized("frame", &x)?;
            prefix(&enc_of(&x).1)?;
            sized("performative", x.performative())?;
        }
        2 => {
            let n = *s.pick(sc::SASL);
            let v = g::comp(s, n);
            ctx.label("sasl frame");
            ctx.nontrivial = true;
            ctx.desc(|| format!("sasl {}", show(&v)));
            let x = make_sasl(&v);
            sized("sasl frame", &x)?;
            prefix(&enc_of(&x).1)?;
        }
        _ => return super::messages::sizes(s, ctx),
    }
    Ok(())
}
pub fn sized<X: Encode + ?Sized>(what: &str, x: &X) -> Res {
    let (n, b) = enc_of(x);
    let m = x.encoded_size();
    if n != b.len() || m != b.len() {
        return Err(format!("{}: announced {} (afterwards {}), wrote {}", what, n, m, b.len()));
    }
    let mut r = BytesMut::with_capacity(n);
    x.encode(&mut r);
    if r.len() != n {
        return Err(format!("{}: second encoding has {} bytes, first {}", what, r.len(), n));
    }
    Ok(())
}
fn prefix(b: &[u8]) -> Res {
    let n = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
    if n != b.len() {
        return Err(format!("frame length prefix {} for {} bytes", n, b.len()));
    }
    Ok(())
}

// ---------- C05 ----------
fn names_of(k: &Kind) -> Vec<&'static str> {
    match k.name {
        "DeliveryState" => sc::STATES.to_vec(),
        "Outcome" => sc::OUTCOMES.to_vec(),
        "SaslFrameBody" => sc::SASL.to_vec(),
        n => {
            // CamelCase to dashes
            let mut o = String::new();
            for (i, c) in n.chars().enumerate() {
                if c.is_uppercase() && i > 0 {
                    o.push('-');
                }
                o.push(c.to_ascii_lowercase());
            }
            vec![sc::comp(&o).name]
        }
    }
}
pub fn strict(k: &Kind, v: &V, b: &[u8]) -> Res {
    let fail = |e: String| format!("{}: {} for {}: {}", k.name, hex(b), show(v), e);
    let w = parse_all(b).map_err(fail)?;
    match k.shape {
        Shape::Comp => {
            let f = sc::full(&w, &names_of(k)).map_err(fail)?;
            same(k.name, &f, v)
        }
        Shape::Section => {
            let got = if let Desc(d, _) = &w {
                match **d {
                    U64(0x70) => sc::full(&w, &["header"]).map_err(fail)?,
                    U64(0x73) => sc::full(&w, &["properties"]).map_err(fail)?,
                    _ => w.clone(),
                }
            } else {
                w.clone()
            };
            same(k.name, &got, v)
        }
        Shape::Plain => {
            if k.name == "Multiple<Symbol>" {
                if let (Arr(_, l), Sym(_)) = (v, &w) {
                    if l.len() == 1 {
                        return same(k.name, &w, &l[0]);
                    }
                }
            }
            same(k.name, &w, v)
        }
    }
}
/// (performative in full form, rest) of an encoded frame, everything checked
pub fn strict_frame(b: &[u8], ftype: u8) -> Result<(u16, Option<V>, Vec<u8>), String> {
    if b.len() < 8 {
        return Err("short frame".into());
    }
    prefix(b)?;
    let doff = b[4] as usize * 4;
    if doff < 8 || doff > b.len() {
        return Err(format!("data offset {}", b[4]));
    }
    if b[5] != ftype {
        return Err(format!("frame type {}", b[5]));
    }
    let ch = u16::from_be_bytes([b[6], b[7]]);
    let body = &b[doff..];
    if body.is_empty() {
        return Ok((ch, None, vec![]));
    }
    let (v, r) = parse(body)?;
    let f = sc::full(&v, if ftype == 0 { sc::PERFORMATIVES } else { sc::SASL })?;
    Ok((ch, Some(f), r.to_vec()))
}
pub fn c05(s: &mut Src, ctx: &mut Ctx) -> Res {
    statics(s);
    match s.weighted(&[6, 3, 1, 3]) {
        0 => {
            let k = kinds::pick(s);
            let v = (k.gen)(s);
            let (_, b) = (k.enc)(&v);
            note(ctx, k, &v, b.len());
            strict(k, &v, &b)
        }
        1 => {
            let f = g::frame(s);
            ctx.label("frame");
            ctx.nontrivial = f.perf.is_some();
            ctx.desc(|| format!("frame ch {} {:?}", f.channel, f.perf.as_ref().map(show)));
            let (_, b) = enc_of(&make_frame(&f));
            let (channel, perf, payload) = strict_frame(&b, 0)?;
            frames_same("parsed frame", &FrameV { channel, perf, payload }, &f)
        }
        2 => {
            let n = *s.pick(sc::SASL);
            let v = g::comp(s, n);
            ctx.label("sasl frame");
            ctx.nontrivial = true;
            ctx.desc(|| format!("sasl {}", show(&v)));
            let (_, b) = enc_of(&make_sasl(&v));
            let (_, perf, rest) = strict_frame(&b, 1)?;
            if !rest.is_empty() {
                return Err(format!("{} bytes after the sasl body", rest.len()));
            }
            same("sasl frame", &perf.ok_or("empty sasl frame")?, &v)
        }
        _ => {
            let m = g::message(s, false);
            ctx.label("message");
            ctx.nontrivial = true;
            ctx.desc(|| m.show());
            if s.bool() {
                strict_msg::<InMessage>(&m)
            } else {
                strict_msg::<OutMessage>(&m)
            }
        }
    }
}
fn strict_msg<M: Msg>(m: &MV) -> Res {
    let x: M = build_msg(m);
    let (_, b) = enc_of(&x);
    let w = parse_message(&b).map_err(|e| format!("{} {}: {}", M::NAME, m.show(), e))?;
    mv_same(M::NAME, &w, &m.on_wire())
}
/// all one-byte-length boundaries, for each variable-width kind
/// Lengths and counts that do not fit 16, 20 or 24 bits.
fn large_cases(n: usize) -> Vec<(&'static str, V)> {
    {
        let t = "L".repeat(n);
        let mut cases: Vec<(&str, V)> = vec![
            ("binary", Bin(t.clone().into_bytes())),
            ("string", Str(t.clone())),
            ("Str", Str(t.clone())),
            ("symbol", Sym(t.clone())),
            ("List", List(vec![Bin(t.clone().into_bytes()), Null])),
            ("Map", Map(vec![(U8(1), Bin(t.clone().into_bytes()))])),
            ("VecVariantMap", Map(vec![(Str(t.clone()), Null)])),
            ("Vec<string>", Arr(0xb1, vec![Str(t.clone()), Str("x".into())])),
            ("Multiple<Symbol>", Arr(0xb3, vec![Sym(t.clone()), V::sym("")])),
            ("SaslChallenge", V::desc(0x42, List(vec![Bin(t.clone().into_bytes())]))),
            ("Error", V::desc(0x1d, List(vec![V::sym("c"), Str(t.clone()), Null]))),
        ];
        if n < 1 << 22 {
            cases.push(("Vec<u8>", Arr(0x50, vec![U8(1); n])));
            cases.push(("List", List(vec![Null; n])));
            cases.push(("Vec<u16>", Arr(0x60, vec![U16(1); n])));
        }
        cases
    }
}
/// Large values cut short at many places.
pub fn c15_large(ctx: &mut Ctx) -> Res {
    set_static_mode(0);
    for n in [4_096usize, 65_536, 70_000, (1 << 20) + 3] {
        for (name, v) in large_cases(n) {
            let k = kinds::by_name(name);
            let b = (k.enc)(&v).1;
            let mut cs: Vec<usize> = (0..12).chain((1..12).map(|i| b.len() / 12 * i)).chain(b.len() - 12..b.len()).collect();
            for m in [255usize, 256, 4096, 65_535, 65_536, 1 << 20] {
                for d in 0..12 {
                    cs.push(m + d);
                    cs.push(b.len().saturating_sub(m + d));
                }
            }
            cs.retain(|c| *c < b.len());
            cs.sort();
            cs.dedup();
            for c in cs {
                if (k.touch)(&b[..c]) {
                    return Err(format!("{}: the first {} of {} bytes are accepted", name, c, b.len()));
                }
                ctx.sub += 1;
            }
        }
    }
    Ok(())
}
pub fn large(ctx: &mut Ctx) -> Res {
    set_static_mode(0);
    for n in [65_536usize, (1 << 20) + 3, (1 << 24) + 5] {
        for (name, v) in large_cases(n) {
            let k = kinds::by_name(name);
            let (a, b) = (k.enc)(&v);
            if a != b.len() {
                return Err(format!("{}: announced {} wrote {} ({} bytes or items)", name, a, b.len(), n));
            }
            strict(k, &v, &b)?;
            roundtrip(k, &v, &b, &[9])?;
            ctx.sub += 1;
        }
    }
    Ok(())
}
pub fn boundaries(_: &mut Ctx) -> Res {
    for n in (0..=2).chain(120..=132).chain(240..=262).chain(65530..=65540) {
        let t = "b".repeat(n);
        let cases: Vec<(&str, V)> = vec![
            ("binary", Bin(t.clone().into_bytes())),
            ("string", Str(t.clone())),
            ("Str", Str(t.clone())),
            ("symbol", Sym(t.clone())),
            ("Variant", Bin(t.clone().into_bytes())),
            ("Variant", Str(t.clone())),
            ("Variant", Sym(t.clone())),
            ("List", List(vec![Null; n])),
            ("List", List(vec![Bin(t.clone().into_bytes())])),
            ("Map", Map(vec![(Bin(t.clone().into_bytes()), Null)])),
            ("Vec<u8>", Arr(0x50, vec![U8(1); n])),
            ("Vec<bool>", Arr(0x56, vec![Bool(true); n])),
            ("Vec<u16>", Arr(0x60, vec![U16(1); n / 2])),
            ("Vec<string>", Arr(0xb1, vec![Str(t.clone())])),
            ("Multiple<Symbol>", Arr(0xb3, vec![Sym(t.clone()), V::sym("")])),
            ("VecVariantMap", Map(vec![(Str(t.clone()), Null)])),
            ("Error", V::desc(0x1d, List(vec![V::sym("c"), Str(t.clone()), Null]))),
            ("SaslChallenge", V::desc(0x42, List(vec![Bin(t.clone().into_bytes())]))),
            ("MessageId", Bin(t.clone().into_bytes())),
        ];
        for (name, v) in cases {
            for mode in 0..3 {
                if mode > 0 && n > 70 {
                    continue;
                }
                set_static_mode(mode);
                let k = kinds::by_name(name);
                let (a, b) = (k.enc)(&v);
                if a != b.len() {
                    return Err(format!("{}: announced {} wrote {} ({} bytes of text)", name, a, b.len(), n));
                }
                strict(k, &v, &b)?;
                roundtrip(k, &v, &b, &[9])?;
            }
        }
    }
    // every value around the compact-integer limits
    for x in (0..=300u64).chain((8..64).flat_map(|b| vec![(1u64 << b) - 1, 1 << b, (1 << b) + 1])).chain(vec![u64::MAX]) {
        for neg in [false, true] {
            let y = if neg { (x as i64).wrapping_neg() } else { x as i64 };
            let cases: Vec<(&str, V)> = vec![
                ("u8", U8(x as u8)), ("u16", U16(x as u16)), ("u32", U32(x as u32)), ("u64", U64(x)), ("i8", I8(y as i8)), ("i16", I16(y as i16)),
                ("i32", I32(y as i32)), ("i64", I64(y)), ("Variant", U32(x as u32)), ("Variant", U64(x)), ("Variant", I32(y as i32)), ("Variant", I64(y)),
                ("Variant", U8(x as u8)), ("Variant", U16(x as u16)), ("Variant", I8(y as i8)), ("Variant", I16(y as i16)), ("MessageId", U64(x)),
                ("Vec<i64>", Arr(0x81, vec![I64(y)])), ("Vec<u32>", Arr(0x70, vec![U32(x as u32)])), ("Variant", Desc(Box::new(U64(x)), Box::new(Null))),
            ];
            for (name, v) in cases {
                let k = kinds::by_name(name);
                let (a, b) = (k.enc)(&v);
                if a != b.len() {
                    return Err(format!("{}: announced {} wrote {} for {}", name, a, b.len(), show(&v)));
                }
                strict(k, &v, &b)?;
                roundtrip(k, &v, &b, &[])?;
            }
        }
    }
    Ok(())
}

// ---------- C06 ----------
pub fn c06(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.weighted(&[6, 3, 1, 3]) {
        0 => {
            let k = kinds::pick(s);
            let v = (k.gen)(s);
            let w = kinds::peer_form(s, k, &v);
            let mut b = vec![];
            g::enc_free(s, &w, &mut b);
            note(ctx, k, &v, b.len());
            let compact = enc_compact(&w);
            if b != compact {
                ctx.label("differs from the crate's own form");
            }
            accepts(k, &b, &v)
        }
        1 => {
            let f = g::frame(s);
            ctx.label("frame");
            ctx.nontrivial = f.perf.is_some();
            ctx.desc(|| format!("frame ch {} {:?}", f.channel, f.perf.as_ref().map(show)));
            let mut body = vec![];
            if let Some(p) = &f.perf {
                let w = g::peer(s, p);
                g::enc_free(s, &w, &mut body);
            }
            body.extend_from_slice(&f.payload);
            let e = g::ext(s);
            if !e.is_empty() {
                ctx.label("extended header");
            }
            let b = g::frame_bytes(0, f.channel, &e, &body);
            let (x, left) = dec::<AmqpFrame>(&b[4..]).map_err(|e| format!("frame {} rejected: {}", hex(&b), e))?;
            if left != 0 {
                return Err(format!("{} bytes of the frame left", left));
            }
            frames_same("frame", &view_frame(&x), &f)
        }
        2 => {
            let n = *s.pick(sc::SASL);
            let v = g::comp(s, n);
            ctx.label("sasl frame");
            ctx.nontrivial = true;
            ctx.desc(|| format!("sasl {}", show(&v)));
            let mut body = vec![];
            let w = g::peer(s, &v);
            g::enc_free(s, &w, &mut body);
            let e = g::ext(s);
            let b = g::frame_bytes(1, s.int(16) as u16, &e, &body);
            let (x, left) = dec::<SaslFrame>(&b[4..]).map_err(|e| format!("sasl frame {} rejected: {}", hex(&b), e))?;
            if left != 0 {
                return Err(format!("{} bytes of the frame left", left));
            }
            same("sasl frame", &x.body.v(), &v)
        }
        _ => {
            let m = g::message(s, true);
            ctx.label("message");
            ctx.nontrivial = true;
            ctx.desc(|| m.show());
            let mut b = vec![];
            for x in m.on_wire().sections() {
                let w = g::peer_section(s, &x);
                g::enc_free(s, &w, &mut b);
            }
            let keys = super::messages::keys_of(&m);
            let seen = MV { da: None, ma: None, footer: None, ap: m.ap.clone().filter(|x| *x != Map(vec![])), ..m.on_wire() };
            let (x, _) = dec::<InMessage>(&b).map_err(|e| format!("message {} rejected: {}", hex(&b), e))?;
            mv_same("InMessage", &view_msg(&x, &keys), &seen)?;
            let (x, _) = dec::<OutMessage>(&b).map_err(|e| format!("message {} rejected: {}", hex(&b), e))?;
            mv_same("OutMessage", &view_msg(&x, &keys), &seen)
        }
    }
}
fn accepts(k: &Kind, b: &[u8], v: &V) -> Res {
    match (k.dec)(b) {
        Err(e) => Err(format!("{}: valid encoding {} of {} rejected: {}", k.name, hex(b), show(v), e)),
        Ok((_, n)) if n != 0 => Err(format!("{}: {} bytes of {} left over", k.name, n, hex(b))),
        Ok((w, _)) => same(k.name, &w, v),
    }
}
/// every constructor of every scalar, directly and as a Variant
pub fn c06_scalars(_: &mut Ctx) -> Res {
    let t256 = "s".repeat(256);
    let vals: Vec<(&str, V)> = vec![
        ("bool", Bool(true)), ("bool", Bool(false)), ("u8", U8(200)), ("u16", U16(0xfffe)), ("u32", U32(0)), ("u32", U32(255)), ("u32", U32(256)),
        ("u64", U64(0)), ("u64", U64(255)), ("u64", U64(256)), ("i8", I8(-128)), ("i16", I16(-2)), ("i32", I32(-128)), ("i32", I32(127)), ("i32", I32(128)),
        ("i64", I64(-128)), ("i64", I64(127)), ("i64", I64(-129)), ("f32", F32(0x3fc0_0000)), ("f64", F64(0xbff8_0000_0000_0000)), ("char", Char(0x1f4af)),
        ("timestamp", Ts(1_311_704_463_521)), ("timestamp", Ts(-1)), ("uuid", Uuid([3; 16])), ("binary", Bin(vec![])), ("binary", Bin(vec![1; 255])), ("binary", Bin(vec![1; 256])),
        ("string", V::s("")), ("string", V::s("é")), ("string", Str(t256.clone())), ("symbol", V::sym("x")), ("symbol", Sym(t256.clone())),
        ("MessageId", U64(0)), ("MessageId", U64(9)), ("MessageId", U64(900)), ("MessageId", Uuid([9; 16])), ("MessageId", Bin(vec![5])), ("MessageId", V::s("q")),
        ("List", List(vec![])), ("List", List(vec![U32(0)])), ("Map", Map(vec![])), ("Map", Map(vec![(Null, Bool(true))])),
        ("Multiple<Symbol>", Arr(0xb3, vec![V::sym("a"), V::sym("b")])), ("Vec<u32>", Arr(0x70, vec![U32(0), U32(0)])), ("Vec<bool>", Arr(0x56, vec![Bool(true), Bool(true)])),
        ("Vec<i32>", Arr(0x71, vec![I32(-1)])),
    ];
    for (name, v) in vals {
        let opt = format!("Option<{}>", name);
        for k in kinds::kinds().iter().filter(|k| k.name == name || k.name == opt || (k.name == "Variant" && !matches!(v, Arr(..)))) {
            // all combinations of the first few choices
            for c in 0..81u64 {
                let mut b = vec![];
                let mut d = c;
                enc(&v, &mut b, &mut |n| {
                    let r = d % 3;
                    d /= 3;
                    r % n
                });
                accepts(k, &b, &v)?;
            }
        }
    }
    Ok(())
}

// ---------- C15 ----------
fn cuts(s: &mut Src, n: usize) -> Vec<usize> {
    if n <= 300 {
        (0..n).collect()
    } else {
        let mut c: Vec<usize> = (0..60).chain(n - 60..n).collect();
        for _ in 0..40 {
            c.push(s.below(n as u64) as usize);
        }
        c
    }
}
pub fn c15(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.budget = 4000;
    match s.weighted(&[6, 3, 1]) {
        0 => {
            let k = kinds::pick(s);
            let v = (k.gen)(s);
            let mut b = vec![];
            if s.bool() {
                b = (k.enc)(&v).1;
            } else {
                let w = kinds::peer_form(s, k, &v);
                g::enc_free(s, &w, &mut b);
            }
            note(ctx, k, &v, b.len());
            for c in cuts(s, b.len()) {
                ctx.sub += 1;
                if let Ok((w, left)) = (k.dec)(&b[..c]) {
                    return Err(format!("{}: the first {} of {} bytes {} are accepted as {} ({} left)", k.name, c, b.len(), hex(&b), show(&w), left));
                }
            }
        }
        1 => {
            let mut f = g::frame(s);
            f.payload.clear();
            let p = match &f.perf {
                Some(p) => p.clone(),
                None => return Ok(()),
            };
            ctx.label("frame");
            ctx.nontrivial = true;
            ctx.desc(|| show(&p));
            let mut body = vec![];
            let w = g::peer(s, &p);
            g::enc_free(s, &w, &mut body);
            let e = g::ext(s);
            let b = g::frame_bytes(0, f.channel, &e, &body);
            let empty = 4 + e.len(); // of the part after the length prefix: an empty frame
            for c in cuts(s, b.len() - 4) {
                ctx.sub += 1;
                if c == empty {
                    continue;
                }
                if dec::<AmqpFrame>(&b[4..4 + c]).is_ok() {
                    return Err(format!("frame cut to {} of {} bytes is accepted: {}", c + 4, b.len(), hex(&b)));
                }
            }
        }
        _ => {
            let n = *s.pick(sc::SASL);
            let v = g::comp(s, n);
            ctx.label("sasl frame");
            ctx.nontrivial = true;
            ctx.desc(|| show(&v));
            let mut body = vec![];
            let w = g::peer(s, &v);
            g::enc_free(s, &w, &mut body);
            let e = g::ext(s);
            let b = g::frame_bytes(1, 0, &e, &body);
            for c in cuts(s, b.len() - 4) {
                ctx.sub += 1;
                if dec::<SaslFrame>(&b[4..4 + c]).is_ok() {
                    return Err(format!("sasl frame cut to {} of {} bytes is accepted: {}", c + 4, b.len(), hex(&b)));
                }
            }
        }
    }
    Ok(())
}

// ---------- C18 ----------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    /// bytes inside the declared size that no element uses
    Slack,
    /// declared size too small for the elements
    Short,
    /// more elements declared than fit the size
    More,
    /// declared size beyond what follows
    Over,
}
struct Em<'a> {
    s: &'a mut Src,
    at: usize,
    target: usize,
    bad: Bad,
    k: usize,
    junk: Vec<u8>,
    hit: String,
    tolerant: bool,
    wide: bool,
}
impl<'a> Em<'a> {
    fn emit(&mut self, v: &V, out: &mut Vec<u8>, parent_desc: bool) {
        match v {
            List(l) => {
                let mut body = vec![];
                let me = self.enter();
                for x in l {
                    self.emit(x, &mut body, false);
                }
                self.close(me, 0xc0, l.len(), body, out, parent_desc, 1)
            }
            Map(m) => {
                let mut body = vec![];
                let me = self.enter();
                for (k, x) in m {
                    self.emit(k, &mut body, false);
                    self.emit(x, &mut body, false);
                }
                self.close(me, 0xc1, m.len() * 2, body, out, parent_desc, 2)
            }
            Arr(f, l) => {
                let mut body = vec![*f];
                let me = self.enter();
                for x in l {
                    if let Map(_) = x {
                        // element payload without constructor: always the wide form
                        crate::refm::enc_payload(x, *f, &mut body, &mut |_| 0);
                    } else {
                        crate::refm::enc_payload(x, *f, &mut body, &mut |_| 0);
                    }
                }
                self.close(me, 0xe0, l.len(), body, out, parent_desc, 1)
            }
            Desc(d, x) => {
                out.push(0);
                let s = &mut *self.s;
                enc(d, out, &mut |n| s.below(n));
                self.emit(x, out, true)
            }
            x => enc(x, out, &mut |_| 0),
        }
    }
    fn enter(&mut self) -> usize {
        self.at += 1;
        self.at - 1
    }
    fn close(&mut self, me: usize, code: u8, count: usize, mut body: Vec<u8>, out: &mut Vec<u8>, parent_desc: bool, step: usize) {
        let mut size = body.len() as i64;
        let mut count = count as i64;
        let mut wide = self.wide;
        if me == self.target {
            match self.bad {
                Bad::Slack => {
                    body.extend_from_slice(&self.junk);
                    size += self.junk.len() as i64;
                    self.tolerant = true;
                    if step == 2 && self.k % 3 == 1 {
                        // the spare bytes count as a key without a value
                        count += 1;
                    }
                }
                Bad::Short => {
                    let d = 1 + self.k as i64 % (size + 1);
                    if count == 0 {
                        // an empty compound has nothing to lose but its count
                        size = -1;
                    } else {
                        size -= d;
                    }
                }
                Bad::More => {
                    count += (step * (1 + self.k % 3)) as i64;
                    self.tolerant = parent_desc;
                }
                Bad::Over => size += 1_000_000 + self.k as i64,
            }
            self.hit = format!("{:?} at {:#x} size {} count {}", self.bad, code, size, count);
        }
        wide |= size + 1 > 255 || count > 255;
        out.push(code + if wide { 0x10 } else { 0 });
        if wide {
            out.extend_from_slice(&((size + 4) as u32).to_be_bytes());
            out.extend_from_slice(&(count as u32).to_be_bytes());
        } else {
            out.push((size + 1) as u8);
            out.push(count as u8);
        }
        out.extend_from_slice(&body);
    }
}
fn compounds(v: &V) -> usize {
    match v {
        List(l) => 1 + l.iter().map(compounds).sum::<usize>(),
        Map(m) => 1 + m.iter().map(|(k, x)| compounds(k) + compounds(x)).sum::<usize>(),
        Arr(_, _) => 1,
        Desc(_, x) => compounds(x),
        _ => 0,
    }
}
pub fn c18(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.budget = 6000;
    let k = kinds::pick(s);
    let v = (k.gen)(s);
    let w = kinds::peer_form(s, k, &v);
    let n = compounds(&w);
    if n == 0 {
        return Ok(());
    }
    let bad = [Bad::Slack, Bad::Short, Bad::More, Bad::Over][s.idx(4)];
    let target = if s.bool() { s.idx(n) } else { 0 };
    let kk = s.int(10) as usize;
    let wide = s.chance(30);
    let junk = if s.bool() {
        enc_compact(&g::value(s, 2))
    } else {
        let n = 1 + s.below(30) as usize;
        s.fill(n)
    };
    let tail = { let n = s.len(40); s.fill(n) };
    let mut e = Em { s, at: 0, target, bad, k: kk, junk, hit: String::new(), tolerant: false, wide };
    let mut b = vec![];
    e.emit(&w, &mut b, false);
    let (hit, tolerant) = (e.hit.clone(), e.tolerant);
    b.extend_from_slice(&tail);
    ctx.nontrivial = true;
    ctx.label(&format!("{:?}", bad));
    ctx.label(k.name);
    ctx.desc(|| format!("{} {} {}", k.name, hit, show(&w)));
    match (k.dec)(&b) {
        Err(e) => {
            if tolerant {
                ctx.label("tolerated rejection");
                if bad == Bad::Slack && !e.contains("nvalid") && !e.contains("ncomplete") && !e.contains("nparsed") {
                    ctx.label("other rejection");
                }
            }
            Ok(())
        }
        Ok((x, left)) => {
            if !tolerant {
                return Err(format!("{}: accepted {} as {} although {}", k.name, hex(&b), show(&x), hit));
            }
            if left != tail.len() {
                return Err(format!("{}: {} bytes left, the compound ends {} before the end ({})", k.name, left, tail.len(), hit));
            }
            same(&format!("{} with {}", k.name, hit), &x, &v)
        }
    }
}
/// Whatever follows an encoding is left alone: every next byte, another encoding, a repetition.
pub fn c18_tails(ctx: &mut Ctx) -> Res {
    for (i, k) in kinds::kinds().iter().enumerate() {
        for seed in 0..14u64 {
            let mut s = super::frames::fixed_src(0xc18 << 32 | (i as u64) << 8 | seed);
            s.budget = if seed < 7 { 20 } else { 300 };
            let v = (k.gen)(&mut s);
            let w = kinds::peer_form(&mut s, k, &v);
            let mut b = vec![];
            g::enc_free(&mut s, &w, &mut b);
            let own = (k.enc)(&v).1;
            for b in [b, own] {
                let n = b.len();
                let mut tails: Vec<Vec<u8>> = (0..=255u8).map(|x| vec![x]).collect();
                tails.extend([vec![], b.clone(), vec![0x40; 5], vec![0x45; 2], vec![0; 9], vec![0x00, 0x53, 0x75, 0xa0, 0x00], vec![0xff; 4]]);
                for t in tails {
                    let mut x = b.clone();
                    x.extend_from_slice(&t);
                    match (k.dec)(&x) {
                        Err(e) => return Err(format!("{}: {} followed by {}: {}", k.name, hex(&b), hex(&t), e)),
                        Ok((got, left)) => {
                            if left != t.len() {
                                return Err(format!("{}: {} bytes left after {} of {} bytes followed by {}", k.name, left, hex(&b), n, hex(&t)));
                            }
                            same(k.name, &got, &v)?;
                        }
                    }
                    ctx.sub += 1;
                }
            }
        }
    }
    Ok(())
}
/// slack inside a compound must not shift what follows it; several concrete shapes
pub fn c18_fixed(_: &mut Ctx) -> Res {
    let t: Vec<(&str, Vec<u8>, bool)> = vec![
        // list of one element, one spare byte, then a sentinel in the outer list
        ("Variant", vec![0xc0, 0x08, 2, 0xc0, 0x03, 1, 0x41, 0x42, 0x52, 7], true),
        ("List", vec![0xc0, 0x02, 2, 0x41, 0x42], false),
        ("List", vec![0xc0, 0x00, 0], false),
        ("List", vec![0xd0, 0, 0, 0, 3, 0, 0, 0, 0], false),
        ("Map", vec![0xc1, 0x00, 0], false),
        ("Map", vec![0xc1, 0x05, 2, 0x41, 0x42], false),
        ("Map", vec![0xd1, 0, 0, 0, 0, 0, 0, 0, 0], false),
        ("Vec<u8>", vec![0xe0, 0x01, 0], false),
        ("Vec<u8>", vec![0xe0, 0x03, 2, 0x50, 1, 2], false),
        ("Multiple<Symbol>", vec![0xe0, 0x04, 1, 0xa3, 2, b'a', b'b'], false),
        ("Error", vec![0, 0x53, 0x1d, 0xc0, 0x03, 1, 0xa3, 1, b'a'], false),
        ("Error", vec![0, 0x53, 0x1d, 0xc0, 0x00, 1, 0xa3, 1, b'a'], false),
    ];
    for (n, b, ok) in t {
        let k = kinds::by_name(n);
        let r = guarded(|| (k.dec)(&b)).map_err(|m| format!("{} on {}: {}", n, hex(&b), m))?;
        match (r, ok) {
            (Ok((v, _)), false) => return Err(format!("{}: {} accepted as {}", n, hex(&b), show(&v))),
            (Ok((v, left)), true) => {
                if left != 0 {
                    return Err(format!("{}: {} bytes left of {}", n, left, hex(&b)));
                }
                same(n, &v, &List(vec![List(vec![Bool(true)]), U32(7)]))?;
            }
            _ => {}
        }
    }
    Ok(())
}

// ---------- C20 ----------
fn ts_decode(ms: i64) -> Res {
    let mut b = vec![0x83];
    b.extend_from_slice(&ms.to_be_bytes());
    let want = Utc.timestamp_millis_opt(ms).single();
    let check = |what: &str, r: Result<DateTime<Utc>, String>| -> Res {
        match (r, want) {
            (Err(_), None) => Ok(()),
            (Err(e), Some(w)) => Err(format!("{}: {} ms ({}) rejected: {}", what, ms, w, e)),
            (Ok(x), _) => {
                // exact, by calendar-independent arithmetic
                let s = x.timestamp() as i128 * 1_000_000_000 + x.timestamp_subsec_nanos() as i128;
                if s != ms as i128 * 1_000_000 {
                    return Err(format!("{}: {} ms decoded as {}", what, ms, x));
                }
                let (n, e) = enc_of(&x);
                if e != b || n != 9 {
                    return Err(format!("{}: {} ms re-encoded as {}", what, ms, hex(&e)));
                }
                Ok(())
            }
        }
    };
    check("timestamp", dec::<DateTime<Utc>>(&b).map(|x| x.0))?;
    let v = dec::<amqp_codec::types::Variant>(&b);
    check("variant", v.and_then(|(x, _)| match x {
        amqp_codec::types::Variant::Timestamp(t) => Ok(t),
        x => panic!("timestamp decoded as {:?}", x),
    }))?;
    let mut a = vec![0xe0, 10, 1];
    a.extend_from_slice(&b);
    check("array", dec::<Vec<DateTime<Utc>>>(&a).map(|x| x.0[0]))?;
    // inside properties: creation-time is the tenth field
    let mut q = vec![0, 0x53, 0x73, 0xc0, 1 + 9 + 9, 10];
    q.extend_from_slice(&[0x40; 9]);
    q.extend_from_slice(&b);
    check("creation-time", dec::<p::Properties>(&q).map(|x| x.0.creation_time.unwrap()))
}
pub fn c20(s: &mut Src, ctx: &mut Ctx) -> Res {
    let raw = s.int(64) as i64;
    let ms = match s.weighted(&[3, 3, 3]) {
        0 => raw,
        1 => raw % 8_400_000_000_000_000,
        _ => raw % 4_000_000_000,
    };
    ctx.nontrivial = ms % 1000 != 0 || ms < 0;
    ctx.label(if ms < 0 { "before 1970" } else { "after 1970" });
    if ms % 1000 == 0 {
        ctx.label("whole second");
    }
    if Utc.timestamp_millis_opt(ms).single().is_none() {
        ctx.label("outside the calendar");
    }
    ctx.desc(|| format!("{} ms", ms));
    ts_decode(ms)?;
    // an instant with sub-millisecond parts
    let secs = (g::millis(s)).div_euclid(1000);
    let nanos = match s.weighted(&[4, 4, 2, 1]) {
        // within a leap second
        3 => 1_000_000_000 + s.below(1_000_000_000) as u32,
        0 => s.below(1_000_000_000) as u32,
        1 => (s.below(1000) as u32) * 1_000_000 + *s.pick(&[0u32, 1, 999_999, 500_000]),
        _ => *s.pick(&[0u32, 999_999_999, 1, 999_000_000]),
    };
    let x = match Utc.timestamp_opt(secs, nanos).single() {
        Some(x) => x,
        None => return Ok(()),
    };
    let want = secs as i128 * 1000 + (nanos / 1_000_000) as i128;
    let (_, b) = enc_of(&x);
    let mut e = vec![0x83];
    e.extend_from_slice(&(want as i64).to_be_bytes());
    if b != e {
        return Err(format!("instant {} s + {} ns encoded as {}, expected {} ms", secs, nanos, hex(&b), want));
    }
    let (_, b) = enc_of(&amqp_codec::types::Variant::Timestamp(x));
    if b != e {
        return Err(format!("variant instant {} s + {} ns encoded as {}, expected {} ms", secs, nanos, hex(&b), want));
    }
    Ok(())
}
pub fn c20_fixed(_: &mut Ctx) -> Res {
    for base in [0i64, 1000, -1000, 1_311_704_463_521, -45_000_000_000, i64::MIN, i64::MAX, 8_210_266_876_799_999, 8_210_298_412_799_999, -8_334_601_228_800_000, -8_334_632_851_200_000] {
        for d in -1100..=1100i64 {
            if d.abs() < 12 || (d.abs() > 985 && d.abs() < 1015) || d % 97 == 0 {
                if let Some(x) = base.checked_add(d) {
                    ts_decode(x)?;
                }
            }
        }
    }
    Ok(())
}

// ---------- C23 ----------
pub fn c23(s: &mut Src, ctx: &mut Ctx) -> Res {
    statics(s);
    match s.weighted(&[4, 4, 1, 3]) {
        0 => {
            // several items into one buffer, each given the room it announces
            let n = 1 + s.below(4);
            let cap = s.len(600);
            let mut buf = BytesMut::with_capacity(cap);
            let pre = { let n = s.len(300); s.fill(n) };
            buf.reserve(pre.len());
            buf.put_slice(&pre);
            let mut want = pre;
            ctx.label("sequence into one buffer");
            ctx.nontrivial = true;
            for _ in 0..n {
                let k = kinds::pick(s);
                let v = (k.gen)(s);
                ctx.desc(|| format!("{} {}", k.name, show(&v)));
                pure(k, &v, &mut buf, &mut want)?;
            }
        }
        1 => {
            let mut c = AmqpCodec::<AmqpFrame>::new();
            let n = 1 + s.below(5);
            ctx.label("AMQP stream encoder");
            let mut dst = start_buf(s);
            let mut want = dst.to_vec();
            ctx.nontrivial = true;
            for _ in 0..n {
                let f = g::frame(s);
                let x = make_frame(&f);
                let (_, b) = enc_of(&x);
                let again = enc_of(&x).1;
                if again != b {
                    return Err("a frame encodes differently the second time".into());
                }
                want.extend_from_slice(&b);
                ctx.desc(|| format!("frame {:?}", f.perf.as_ref().map(show)));
                c.encode(x, &mut dst).map_err(|e| format!("{:?}", e))?;
                if dst[..] != want[..] {
                    return Err(format!("stream encoder wrote {} bytes, expected {}; frame {:?}", dst.len(), want.len(), f.perf.as_ref().map(show)));
                }
            }
        }
        2 => {
            let mut c = AmqpCodec::<SaslFrame>::new();
            let n = 1 + s.below(4);
            ctx.label("SASL stream encoder");
            let mut dst = start_buf(s);
            let mut want = dst.to_vec();
            ctx.nontrivial = true;
            for _ in 0..n {
                let name = *s.pick(sc::SASL);
                let v = g::comp(s, name);
                let x = make_sasl(&v);
                let (_, b) = enc_of(&x);
                want.extend_from_slice(&b);
                ctx.desc(|| show(&v));
                c.encode(x, &mut dst).map_err(|e| format!("{:?}", e))?;
                if dst[..] != want[..] {
                    return Err(format!("stream encoder wrote {} bytes, expected {}", dst.len(), want.len()));
                }
            }
        }
        _ => {
            // messages and transfers carrying them
            let m = g::message(s, true);
            ctx.label("message");
            ctx.nontrivial = true;
            ctx.desc(|| m.show());
            let mut b = vec![];
            for x in m.on_wire().sections() {
                b.extend(enc_compact(&x));
            }
            let x = dec::<InMessage>(&b).map_err(|e| format!("message rejected: {}", e))?.0;
            let y = dec::<OutMessage>(&b).map_err(|e| format!("message rejected: {}", e))?.0;
            let pre = { let n = s.len(100); s.fill(n) };
            twice(&x, &pre)?;
            twice(&y, &pre)?;
            let t = p::Transfer { body: Some(p::TransferBody::MessageIn(x)), ..fv(&g::comp(s, "transfer")) };
            let f = AmqpFrame::new(0, p::Frame::Transfer(t));
            twice(&f, &pre)?;
            let mut c = AmqpCodec::<AmqpFrame>::new();
            let mut dst = start_buf(s);
            let mut want = dst.to_vec();
            want.extend_from_slice(&enc_of(&f).1);
            c.encode(f, &mut dst).map_err(|e| format!("{:?}", e))?;
            if dst[..] != want[..] {
                return Err("stream encoder differs for a transfer".into());
            }
        }
    }
    Ok(())
}
fn start_buf(s: &mut Src) -> BytesMut {
    let cap = match s.weighted(&[2, 2, 2, 1]) {
        0 => 0,
        1 => s.len(100),
        2 => 3900 + s.below(400) as usize,
        _ => s.len(70_000),
    };
    let mut b = BytesMut::with_capacity(cap);
    let n = match s.below(3) {
        0 => 0,
        1 => cap.min(s.len(cap)),
        _ => cap,
    };
    b.put_slice(&vec![0x5a; n]);
    if s.chance(30) && n > 0 {
        let k = s.below(n as u64) as usize;
        b.split_to(k);
    }
    b
}
fn twice<X: Encode>(x: &X, pre: &[u8]) -> Res {
    let (n, a) = enc_of(x);
    let mut b = BytesMut::with_capacity(pre.len() + n);
    b.put_slice(pre);
    x.encode(&mut b);
    if b[..pre.len()] != *pre {
        return Err("bytes before the encoding were disturbed".into());
    }
    if b[pre.len()..] != a[..] {
        return Err(format!("encoding differs by position: {} then {}", hex(&a), hex(&b[pre.len()..])));
    }
    Ok(())
}
/// Every kind behind every number of bytes: sizes and positions are no business of an encoder.
pub fn c23_positions(ctx: &mut Ctx) -> Res {
    set_static_mode(0);
    let mut at: Vec<usize> = (0..70).collect();
    for k in 7..18 {
        at.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    let mut s = super::frames::fixed_src(23);
    s.budget = 400;
    for k in kinds::kinds() {
        for _ in 0..2 {
            let mut v = (k.gen)(&mut s);
            for _ in 0..20 {
                if (k.enc)(&v).0 < 200 {
                    break;
                }
                s.budget = 100;
                v = (k.gen)(&mut s);
            }
            let n = (k.enc)(&v).0;
            for a in &at {
                // starting there, and ending there
                for a in [*a, a.wrapping_sub(n)] {
                    if a > 1 << 18 {
                        continue;
                    }
                    let mut want = vec![0x5a; a];
                    let mut buf = BytesMut::with_capacity(a + n);
                    buf.extend_from_slice(&want);
                    pure(k, &v, &mut buf, &mut want).map_err(|e| format!("behind {} bytes: {} {}", a, e, show(&v)))?;
                    ctx.sub += 1;
                }
            }
        }
    }
    Ok(())
}
fn pure(k: &Kind, v: &V, buf: &mut BytesMut, want: &mut Vec<u8>) -> Res {
    let (n, one) = (k.enc)(v);
    buf.reserve(n);
    let before = buf.len();
    let (x, y) = (k.append)(v, buf);
    if x != y {
        return Err(format!("{}: encoding changed the item: size {} before, {} after", k.name, x, y));
    }
    if buf[..before] != want[..] {
        return Err(format!("{}: encoding disturbed earlier bytes", k.name));
    }
    if buf.len() - before != one.len() {
        return Err(format!("{}: {} bytes at this position, {} alone", k.name, buf.len() - before, one.len()));
    }
    let got = buf[before..].to_vec();
    if got != one {
        // hash maps built separately may order their entries differently
        let a = parse_all(&got).map_err(|e| format!("{}: {}", k.name, e))?;
        let b = parse_all(&one).map_err(|e| format!("{}: {}", k.name, e))?;
        same(k.name, &a, &b)?;
    }
    want.extend_from_slice(&got);
    Ok(())
}
