//! C26: accessors, conversions and containers report exactly what an item holds.
use super::values::hex;
use crate::conv::*;
use crate::engine::{Ctx, Res};
use crate::gen as g;
use crate::kinds;
use crate::refm::V::{self, *};
use crate::refm::{enc_compact, parse_all, same, show};
use crate::schema::{self as sc, T};
use crate::src::Src;
use amqp_codec::protocol as p;
use amqp_codec::types as t;
use amqp_codec::{AmqpFrame, InMessage, MessageBody, OutMessage, SaslFrame};
use bytes::Bytes;
use chrono::{DateTime, Utc};
use ordered_float::OrderedFloat;

pub fn camel(n: &str) -> String {
    n.split('-').map(|w| w[..1].to_uppercase() + &w[1..]).collect()
}
/// Accessors of every composite inside `v`, whose composite structure is `name`.
pub fn acc_tree(v: &V) -> Res {
    let c = sc::by_code(code_of(v)).ok_or("harness: not a composite")?;
    if c.name == "transfer" {
        let x: p::Transfer = fv(v);
        x.acc()?;
        if x.body().is_some() {
            return Err("Transfer::body() of a transfer without one".into());
        }
    } else {
        (kinds::by_name(&camel(c.name)).acc)(v)?;
    }
    let l = match v {
        Desc(_, l) => match &**l {
            List(l) => l,
            _ => return Err("harness: not a list".into()),
        },
        _ => return Err("harness".into()),
    };
    for (f, x) in c.fields.iter().zip(l) {
        if let (T::Comp(_) | T::State | T::Outcome, Desc(..)) = (f.ty, x) {
            acc_tree(x)?;
        }
    }
    Ok(())
}

pub fn c26(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mode = s.weighted(&[3, 1, 2]) as u8;
    set_static_mode(mode);
    match s.weighted(&[5, 5, 4, 4, 4, 3]) {
        0 => {
            let names: Vec<&'static str> = sc::all().iter().map(|c| c.name).collect();
            let n = *s.pick(&names);
            let v = g::comp(s, n);
            ctx.label(n);
            ctx.nontrivial = !sc::comp(n).fields.is_empty();
            ctx.desc(|| show(&v));
            acc_tree(&v)
        }
        1 => {
            let k = s.below(g::SCALARS);
            let v = match s.below(4) {
                0 => g::compound(s, 6),
                1 => g::msg_id(s),
                _ => g::scalar_of(s, k, 400),
            };
            ctx.label(v.kind());
            ctx.nontrivial = v != Null;
            ctx.desc(|| show(&v));
            conversions(&v)
        }
        2 => {
            let v = if s.chance(70) {
                if s.bool() {
                    Sym(g::symbol(s, 400))
                } else {
                    Str(g::text(s, 400))
                }
            } else {
                g::value(s, 4)
            };
            let other = match &v {
                Str(x) | Sym(x) if s.bool() => x.clone(),
                _ => g::text(s, 60),
            };
            ctx.label("text of a value");
            ctx.nontrivial = matches!(&v, Str(x) | Sym(x) if !x.is_empty());
            ctx.desc(|| format!("{} against {:?}", show(&v), other));
            texts(&v, &other)
        }
        3 => {
            let l = g::list(s, 5);
            let m = g::multi(s);
            let f = g::str_map(s);
            let extra = g::value(s, 3);
            let sym = g::symbol(s, 60);
            ctx.label("containers");
            ctx.nontrivial = true;
            ctx.desc(|| format!("{} {} {}", show(&l), show(&m), show(&f)));
            containers(&l, &m, &f, &extra, &sym)
        }
        4 => {
            let f = g::frame(s);
            let n = *s.pick(sc::SASL);
            let sasl = g::comp(s, n);
            let mv = g::message(s, false);
            let pick = s.below(4);
            ctx.label("frames");
            ctx.nontrivial = f.perf.is_some();
            ctx.desc(|| format!("ch {} {} / {} / {}", f.channel, f.perf.as_ref().map(show).unwrap_or_default(), show(&sasl), mv.show()));
            frames(&f, &sasl, &mv, pick)
        }
        _ => {
            let x = if s.bool() { g::symbol(s, 600) } else { g::text(s, 600) };
            ctx.label("encoding of plain text");
            ctx.nontrivial = !x.is_empty();
            ctx.desc(|| format!("{} bytes {:?}", x.len(), x));
            plain(&x)
        }
    }
}
fn var(what: &str, x: t::Variant, v: &V) -> Res {
    same(what, &x.v(), v)?;
    let (n, b) = enc_of(&x);
    if n != b.len() {
        return Err(format!("{}: announced {} wrote {}", what, n, b.len()));
    }
    same(what, &parse_all(&b)?, v)
}
fn conversions(v: &V) -> Res {
    use t::Variant as R;
    match v {
        Null => {}
        Bool(x) => var("from bool", R::from(*x), v)?,
        U8(x) => var("from u8", R::from(*x), v)?,
        U16(x) => var("from u16", R::from(*x), v)?,
        U32(x) => var("from u32", R::from(*x), v)?,
        U64(x) => {
            var("from u64", R::from(*x), v)?;
            same("message id", &p::MessageId::from(*x).v(), v)?;
        }
        I8(x) => var("from i8", R::from(*x), v)?,
        I16(x) => var("from i16", R::from(*x), v)?,
        I32(x) => var("from i32", R::from(*x), v)?,
        I64(x) => var("from i64", R::from(*x), v)?,
        F32(x) => var("from f32", R::from(OrderedFloat(f32::from_bits(*x))), v)?,
        F64(x) => var("from f64", R::from(OrderedFloat(f64::from_bits(*x))), v)?,
        Char(_) => var("from char", R::from(fv::<char>(v)), v)?,
        Ts(_) => var("from a timestamp", R::from(fv::<DateTime<Utc>>(v)), v)?,
        Uuid(_) => {
            var("from a uuid", R::from(fv::<uuid::Uuid>(v)), v)?;
            same("message id", &p::MessageId::from(fv::<uuid::Uuid>(v)).v(), v)?;
        }
        Bin(_) => {
            var("from binary", R::from(fv::<Bytes>(v)), v)?;
            same("message id", &p::MessageId::from(fv::<Bytes>(v)).v(), v)?;
            if enc_of(&p::TransferBody::from(fv::<Bytes>(v))).1 != fv::<Bytes>(v) {
                return Err("transfer body from bytes".into());
            }
        }
        Str(x) => {
            var("from a string", R::from(fv::<t::Str>(v)), v)?;
            var("from a byte string", R::from(fv::<t::ByteStr>(v)), v)?;
            same("message id", &p::MessageId::from(fv::<t::ByteStr>(v)).v(), v)?;
            same("string from text", &t::Str::from_str(x).v(), v)?;
            same("string from a byte string", &t::Str::from(fv::<t::ByteStr>(v)).v(), v)?;
            if x.len() <= 80 {
                var("from static text", R::from(intern(x)), v)?;
                same("string from static text", &t::Str::from(intern(x)).v(), v)?;
            }
        }
        Sym(x) => {
            var("from a symbol", R::from(fv::<t::Symbol>(v)), v)?;
            same("symbol from text", &t::Symbol::from_slice(x).v(), v)?;
            same("symbol from a byte string", &t::Symbol::from(t::ByteStr::from_str(x)).v(), v)?;
            same("condition", &p::ErrorCondition::from(fv::<t::Symbol>(v)).v(), v)?;
            if x.len() <= 80 {
                same("symbol from static text", &t::Symbol::from(intern(x)).v(), v)?;
                same("static symbol from text", &t::StaticSymbol::from(intern(x)).v(), v)?;
                var("from a static symbol", R::from(t::StaticSymbol::from(intern(x))), v)?;
            }
        }
        List(_) => var("from a list", R::from(fv::<t::List>(v)), v)?,
        Map(_) => var("from a map", R::from(t::VariantMap::new(fv(v))), v)?,
        Desc(d, x) => var("from a described value", R::from((fv::<t::Descriptor>(d), Box::new(fv::<R>(x)))), v)?,
        Arr(..) => {}
    }
    // a value printed for debugging, cloned, stays what it is
    if let Arr(..) = v {
        return Ok(());
    }
    let x: R = fv(v);
    let y = x.clone();
    if format!("{:?}", x).is_empty() || x != y {
        return Err(format!("clone of {}", show(v)));
    }
    same("clone", &y.v(), v)
}
fn texts(v: &V, other: &str) -> Res {
    use t::Variant as R;
    let mut forms: Vec<R> = vec![fv(v)];
    match v {
        Str(x) => {
            forms.push(R::String(t::Str::from_str(x)));
            if x.len() <= 80 {
                forms.push(R::String(t::Str::Static(intern(x))));
            }
        }
        Sym(x) => {
            forms.push(R::Symbol(t::Symbol::from_slice(x)));
            if x.len() <= 80 {
                forms.push(R::Symbol(t::Symbol::from(intern(x))));
                forms.push(R::StaticSymbol(t::StaticSymbol(intern(x))));
            }
        }
        _ => {}
    }
    let (_, b) = enc_of(&forms[0]);
    if let Ok((x, 0)) = dec::<R>(&b) {
        forms.push(x);
    }
    let want = match v {
        Str(x) | Sym(x) => Some(&x[..]),
        _ => None,
    };
    for x in &forms {
        let w = format!("{:?}", x);
        if x.as_str() != want {
            return Err(format!("{}: as_str gives {:?}", w, x.as_str()));
        }
        if x.as_bytes_str().map(|s| (&*s).to_string()) != want.map(|s| s.to_string()) {
            return Err(format!("{}: as_bytes_str gives {:?}", w, x.as_bytes_str()));
        }
        if (x == other) != (want == Some(other)) {
            return Err(format!("{} == {:?} is {}", w, other, x == other));
        }
        if let Some(s) = want {
            if !(x == s) {
                return Err(format!("{} is not equal to its text", w));
            }
        }
    }
    Ok(())
}
fn containers(l: &V, m: &V, f: &V, extra: &V, sym: &str) -> Res {
    let items = match l {
        List(x) => x,
        _ => return Err("harness".into()),
    };
    let x: t::List = fv(l);
    if x.len() != items.len() || x.is_empty() != items.is_empty() || x.iter().count() != items.len() {
        return Err(format!("list of {} reports {} (empty: {})", items.len(), x.len(), x.is_empty()));
    }
    for (a, b) in x.iter().zip(items) {
        same("list item", &a.v(), b)?;
    }
    let syms = match m {
        Arr(_, x) => x,
        _ => return Err("harness".into()),
    };
    let mut x: t::Multiple<t::Symbol> = fv(m);
    if x.len() != syms.len() || x.is_empty() != syms.is_empty() || x.iter().count() != syms.len() {
        return Err(format!("multiple of {} reports {} (empty: {})", syms.len(), x.len(), x.is_empty()));
    }
    for (i, a) in syms.iter().enumerate() {
        same("multiple by iteration", &x.iter().nth(i).unwrap().v(), a)?;
        same("multiple by index", &x[i].v(), a)?;
    }
    same("multiple from a vector", &t::Multiple::<t::Symbol>::from(x.0.clone()).v(), m)?;
    x.push(t::Symbol::from_slice(sym));
    let mut want = syms.clone();
    want.push(V::sym(sym));
    same("multiple after push", &x.v(), &Arr(0xb3, want.clone()))?;
    let (n, b) = enc_of(&x);
    if n != b.len() {
        return Err("size of a multiple after push".into());
    }
    // a single element may stand alone
    let wire = match parse_all(&b)? {
        Sym(x) => Arr(0xb3, vec![Sym(x)]),
        x => x,
    };
    same("multiple after push, on the wire", &wire, &Arr(0xb3, want))?;
    let e = t::Multiple::<t::Symbol>::default();
    if !e.is_empty() || e.len() != 0 {
        return Err("default multiple is not empty".into());
    }
    let pairs = match f {
        Map(x) => x,
        _ => return Err("harness".into()),
    };
    let mut x: t::VecVariantMap = fv(f);
    if x.len() != pairs.len() || x.iter().count() != pairs.len() {
        return Err("length of an ordered map".into());
    }
    for (i, (k, y)) in pairs.iter().enumerate() {
        same("ordered map key", &x[i].0.v(), k)?;
        same("ordered map value", &x[i].1.v(), y)?;
    }
    if pairs.iter().all(|(k, _)| *k != V::s(sym)) {
        x.push((mk_str(sym), fv(extra)));
        let mut want = pairs.clone();
        want.push((V::s(sym), extra.clone()));
        let (n, b) = enc_of(&x);
        if n != b.len() {
            return Err("size of an ordered map after push".into());
        }
        same("ordered map after push, on the wire", &parse_all(&b)?, &Map(want))?;
    }
    if !t::VecVariantMap::default().is_empty() {
        return Err("default ordered map is not empty".into());
    }
    Ok(())
}
fn frames(f: &FrameV, sasl: &V, mv: &MV, pick: u64) -> Res {
    let x = make_frame(f);
    if x.channel_id() != f.channel {
        return Err("channel_id()".into());
    }
    // conversions from each performative
    if let Some(v) = &f.perf {
        acc_tree(v)?;
        let y = match x.performative().clone() {
            p::Frame::Open(b) => p::Frame::from(b),
            p::Frame::Begin(b) => p::Frame::from(b),
            p::Frame::Attach(b) => p::Frame::from(b),
            p::Frame::Flow(b) => p::Frame::from(b),
            p::Frame::Transfer(b) => p::Frame::from(b),
            p::Frame::Disposition(b) => p::Frame::from(b),
            p::Frame::Detach(b) => p::Frame::from(b),
            p::Frame::End(b) => p::Frame::from(b),
            p::Frame::Close(b) => p::Frame::from(b),
            p::Frame::Empty => p::Frame::Empty,
        };
        same("performative by conversion", &y.v(), v)?;
        if camel(sc::by_code(code_of(v)).unwrap().name) != y.name() {
            return Err(format!("{} is named {}", show(v), y.name()));
        }
        if let p::Frame::Transfer(t) = &y {
            if t.body().map(body_bytes).unwrap_or_default() != f.payload {
                return Err("Transfer::body()".into());
            }
        }
    } else if p::Frame::Empty.name() != "Empty" {
        return Err("name of the empty frame".into());
    }
    let (ch, perf) = x.clone().into_parts();
    frames_same("into_parts", &view_frame(&AmqpFrame::new(ch, perf)), f)?;
    if format!("{:?}", x).is_empty() {
        return Err("debug text of a frame".into());
    }
    // sasl
    acc_tree(sasl)?;
    let y = match code_of(sasl) {
        0x40 => SaslFrame::from(fv::<p::SaslMechanisms>(sasl)),
        0x41 => SaslFrame::from(fv::<p::SaslInit>(sasl)),
        0x42 => SaslFrame::from(fv::<p::SaslChallenge>(sasl)),
        0x43 => SaslFrame::from(fv::<p::SaslResponse>(sasl)),
        _ => SaslFrame::from(fv::<p::SaslOutcome>(sasl)),
    };
    same("sasl frame by conversion", &y.body.v(), sasl)?;
    // bodies
    let (content, fmt) = match pick {
        0 => {
            let mut m: InMessage = build_msg(mv);
            m.message_format = Some(f.channel as u32);
            (m.clone().into(), m.message_format)
        }
        1 => {
            let mut m: OutMessage = build_msg(mv);
            m.message_format = Some(f.channel as u32 + 7);
            (m.clone().into(), m.message_format)
        }
        2 => (p::TransferBody::from(build_msg::<OutMessage>(mv)), None),
        _ => (p::TransferBody::from(Bytes::from(&f.payload[..])), None),
    };
    let content: p::TransferBody = content;
    let want = match &content {
        p::TransferBody::Data(b) => b.to_vec(),
        p::TransferBody::MessageIn(m) => enc_of(m).1,
        p::TransferBody::MessageOut(m) => enc_of(m).1,
    };
    if content.message_format() != fmt {
        return Err(format!("transfer body reports format {:?}, has {:?}", content.message_format(), fmt));
    }
    if content.len() != want.len() || enc_of(&content).1 != want {
        return Err(format!("transfer body reports {} bytes, is {}", content.len(), want.len()));
    }
    if pick < 3 {
        same_message(&want, mv)?;
    }
    // message bodies
    let mut b = MessageBody::default();
    if b.data().is_some() || b.value().is_some() || enc_of(&b).1 != b"" {
        return Err("default body is not empty".into());
    }
    b.data = mv.data.iter().map(|d| Bytes::from(&d[..])).collect();
    b.value = mv.value.as_ref().map(fv);
    if b.data().map(|x| x.to_vec()) != mv.data.first().cloned() {
        return Err("MessageBody::data()".into());
    }
    match (b.value(), &mv.value) {
        (None, None) => {}
        (Some(x), Some(y)) => same("MessageBody::value()", &x.v(), y)?,
        _ => return Err("MessageBody::value()".into()),
    }
    b.set_data(Bytes::from(&f.payload[..]));
    if b.data.len() != 1 || b.data[0] != f.payload || b.data().map(|x| x.to_vec()) != Some(f.payload.clone()) {
        return Err("MessageBody::set_data()".into());
    }
    let q = p::Properties::default();
    q.acc()?;
    if q.v() != V::desc(0x73, List(vec![Null; sc::comp("properties").fields.len()])) {
        return Err("default properties are not empty".into());
    }
    Ok(())
}
fn same_message(b: &[u8], mv: &MV) -> Res {
    let mut want = mv.on_wire();
    // the builder interface has no annotations or footer
    want.da = None;
    want.ma = None;
    want.footer = None;
    let mut have = parse_message(b)?;
    // properties and header that are all absent are as good as none
    for m in [&mut have, &mut want] {
        if matches!(&m.ap, Some(Map(l)) if l.is_empty()) {
            m.ap = None;
        }
    }
    mv_same("message as a transfer body", &have, &want)
}
/// Symbols are ASCII, but the types take any text: the size still has to be right.
pub fn symbol_sizes(x: &str) -> Res {
    let st: &'static str = intern(x);
    let forms = [
        ("symbol", enc_of(&t::Symbol::from_slice(x))),
        ("symbol of owned text", enc_of(&t::Symbol::from(amqp_codec::types::ByteStr::from_str(x)))),
        ("symbol of static text", enc_of(&t::Symbol::from(st))),
        ("static symbol", enc_of(&t::StaticSymbol::from(st))),
        ("symbol value", enc_of(&t::Variant::Symbol(t::Symbol::from_slice(x)))),
        ("static symbol value", enc_of(&t::Variant::StaticSymbol(t::StaticSymbol(st)))),
        ("multiple symbols", enc_of(&t::Multiple::<t::Symbol>(vec![t::Symbol::from_slice(x), t::Symbol::from(st)]))),
        ("vector of symbols", enc_of(&vec![t::Symbol::from_slice(x), t::Symbol::from(st)])),
    ];
    for (what, (n, b)) in &forms {
        if *n != b.len() {
            return Err(format!("{} of {} bytes in {} characters: announced {} wrote {}", what, x.len(), x.chars().count(), n, b.len()));
        }
    }
    Ok(())
}
fn plain(x: &str) -> Res {
    let same_bytes = |what: &str, got: (usize, Vec<u8>), v: &V| -> Res {
        let w = enc_compact(v);
        if got.0 != got.1.len() {
            return Err(format!("{} of {} bytes: announced {} wrote {}", what, x.len(), got.0, got.1.len()));
        }
        same(what, &parse_all(&got.1).map_err(|e| format!("{} of {} bytes is written as {}: {}", what, x.len(), hex(&got.1), e))?, v)?;
        if got.1 != w {
            return Err(format!("{} of {} bytes is not written in its shortest form", what, x.len()));
        }
        Ok(())
    };
    same_bytes("text", enc_of(x), &V::s(x))?;
    let st: &'static str = intern(x);
    same_bytes("static string", enc_of(&t::Str::Static(st)), &V::s(x))?;
    same_bytes("byte string", enc_of(&t::ByteStr::from_str(x)), &V::s(x))?;
    if !x.is_ascii() {
        return symbol_sizes(x);
    }
    same_bytes("symbol", enc_of(&t::Symbol::from_slice(x)), &V::sym(x))?;
    same_bytes("static symbol", enc_of(&t::StaticSymbol::from(st)), &V::sym(x))?;
    same_bytes("symbol of static text", enc_of(&t::Symbol::from(st)), &V::sym(x))?;
    same_bytes("static symbol value", enc_of(&t::Variant::StaticSymbol(t::StaticSymbol(st))), &V::sym(x))
}
pub fn c26_fixed(ctx: &mut Ctx) -> Res {
    let long: String = "0123456789".repeat(30);
    for n in (0..=3).chain(250..=260) {
        plain(&long[..n])?;
        ctx.sub += 1;
    }
    for v in super::frames::all_singles() {
        acc_tree(&v)?;
        ctx.sub += 1;
    }
    for v in [Null, Bool(true), Bool(false), U8(0), I64(-1), Bin(b"abc".to_vec()), List(vec![V::s("abc")]), Map(vec![(V::s("abc"), Null)]), V::desc(1, V::s("abc")), V::s("abc"), V::sym("abc"), V::s(""), V::sym("")] {
        for o in ["abc", "", "abcd"] {
            texts(&v, o)?;
        }
        conversions(&v)?;
    }
    Ok(())
}
