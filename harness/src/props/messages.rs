//! C12 C13 C14 C21 and the message part of C04.
use super::values::{hex, sized, strict_frame};
use crate::conv::*;
use crate::engine::{Ctx, Res};
use crate::gen as g;
use crate::refm::V::{self, *};
use crate::refm::{enc_compact, same, show};
use crate::schema as sc;
use crate::src::Src;
use amqp_codec::protocol as p;
use amqp_codec::types as t;
use amqp_codec::{AmqpFrame, InMessage, MessageBody, OutMessage};
use bytes::Bytes;
use std::cell::RefCell;

pub fn keys_of(m: &MV) -> Vec<String> {
    let mut o = vec![];
    if let Some(Map(l)) = &m.ap {
        for (k, _) in l {
            if let Str(k) = k {
                o.push(k.clone());
            }
        }
    }
    o
}
/// What the getters can show of a message (no annotations, no footer; empty application properties look absent).
pub fn visible(m: &MV) -> MV {
    MV { da: None, ma: None, footer: None, ap: m.ap.clone().filter(|x| *x != Map(vec![])), ..m.clone() }
}

// ---------- C12 ----------
pub fn c12(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mode = s.weighted(&[3, 1, 2]) as u8;
    set_static_mode(mode);
    if s.chance(50) {
        let m = g::message(s, true);
        ctx.nontrivial = m.sections().len() > 1;
        ctx.label(&format!("received, {} sections", m.sections().len().min(9)));
        ctx.desc(|| format!("received {}", m.show()));
        let mut b = vec![];
        for x in m.on_wire().sections() {
            let w = g::peer_section(s, &x);
            g::enc_free(s, &w, &mut b);
        }
        received::<InMessage>(&m, &b)?;
        received::<OutMessage>(&m, &b)
    } else {
        let m = g::message(s, false);
        ctx.nontrivial = m.sections().len() > 1;
        ctx.label(&format!("built, {} sections", m.sections().len().min(9)));
        ctx.desc(|| format!("built {}", m.show()));
        if s.bool() {
            local::<InMessage>(&m)
        } else {
            local::<OutMessage>(&m)
        }
    }
}
fn received<M: Msg>(m: &MV, b: &[u8]) -> Res {
    let (x, left) = dec::<M>(b).map_err(|e| format!("{}: {} rejected: {}", M::NAME, hex(b), e))?;
    if left != 0 {
        return Err(format!("{}: {} of {} bytes left after the whole message", M::NAME, left, b.len()));
    }
    let keys = keys_of(m);
    let want = m.on_wire();
    mv_same(&format!("{} received", M::NAME), &view_msg(&x, &keys), &visible(&want))?;
    // annotations and footer are visible in what it sends on
    let (n, e) = enc_of(&x);
    if n != e.len() {
        return Err(format!("{}: announced {} wrote {}", M::NAME, n, e.len()));
    }
    let w = parse_message(&e).map_err(|e| format!("{} sent on: {}", M::NAME, e))?;
    mv_same(&format!("{} sent on", M::NAME), &w, &want)?;
    if x.body().data().map(|d| d.to_vec()) != want.data.first().cloned() {
        return Err("MessageBody::data is not the first data section".into());
    }
    Ok(())
}
fn local<M: Msg>(m: &MV) -> Res {
    let x: M = build_msg(m);
    let keys = keys_of(m);
    mv_same(&format!("{} built", M::NAME), &view_msg(&x, &keys), &visible(m))?;
    let (_, b) = enc_of(&x);
    let want = m.on_wire();
    let w = parse_message(&b).map_err(|e| format!("{}: {}", M::NAME, e))?;
    mv_same(&format!("{} on the wire", M::NAME), &w, &want)?;
    received::<InMessage>(m, &b)?;
    received::<OutMessage>(m, &b)
}
/// Every subset of sections, with each body shape, through both kinds.
pub fn c12_subsets(_: &mut Ctx) -> Res {
    let hdr = V::desc(0x70, List(vec![Bool(true), U8(9), U32(1000), Bool(true), U32(3)]));
    let anno = |k: &str| Map(vec![(V::sym(k), U32(7)), (V::sym("l"), List(vec![V::s("x")]))]);
    let mut props = vec![Null; 13];
    props[0] = U64(5);
    props[3] = V::s("subject");
    props[8] = Ts(1_600_000_000_123);
    let props = V::desc(0x73, List(props));
    let bodies: Vec<MV> = vec![
        MV::default(),
        MV { data: vec![vec![]], ..MV::default() },
        MV { data: vec![vec![1, 2], vec![], vec![3; 300]], ..MV::default() },
        MV { seq: vec![List(vec![U32(1)]), List(vec![]), List(vec![Null; 300])], ..MV::default() },
        MV { value: Some(Null), ..MV::default() },
        MV { value: Some(Map(vec![(V::s("a"), List(vec![Bool(true)]))])), ..MV::default() },
    ];
    for set in 0..64u32 {
        for b in &bodies {
            let mut m = b.clone();
            if set & 1 != 0 {
                m.header = Some(hdr.clone());
            }
            if set & 2 != 0 {
                m.da = Some(anno("delivery"));
            }
            if set & 4 != 0 {
                m.ma = Some(anno("message"));
            }
            if set & 8 != 0 {
                m.props = Some(props.clone());
            }
            if set & 16 != 0 {
                m.ap = Some(Map(vec![(V::s("k1"), V::s("v1")), (V::s("k2"), Null)]));
            }
            if set & 32 != 0 {
                m.footer = Some(anno("footer"));
            }
            let b: Vec<u8> = m.on_wire().sections().iter().flat_map(|x| enc_compact(x)).collect();
            received::<InMessage>(&m, &b)?;
            received::<OutMessage>(&m, &b)?;
            if set & 38 == 0 {
                local::<InMessage>(&m)?;
                local::<OutMessage>(&m)?;
            }
        }
    }
    Ok(())
}

/// Messages with many sections and many application properties.
pub fn c12_many(ctx: &mut Ctx) -> Res {
    set_static_mode(0);
    for n in [5usize, 9, 17, 33, 65, 129, 257, 600, 5000] {
        let ap: Vec<(V, V)> = (0..n).map(|i| (V::s(&format!("k{}", i)), U32(i as u32))).collect();
        let syms: Vec<(V, V)> = (0..n).map(|i| (V::sym(&format!("x-opt-{}", i)), U32(i as u32))).collect();
        let ms = vec![
            MV { data: (0..n).map(|i| vec![i as u8; i % 7]).collect(), ..MV::default() },
            MV { seq: (0..n).map(|i| List(vec![U32(i as u32)])).collect(), ..MV::default() },
            MV { ap: Some(Map(ap.clone())), value: Some(Map(ap.clone())), ..MV::default() },
            MV { seq: vec![List(vec![Null; n]), List(vec![U32(300); n])], ..MV::default() },
            MV { da: Some(Map(syms.clone())), ma: Some(Map(syms.clone())), footer: Some(Map(syms)), ap: Some(Map(ap)), ..MV::default() },
        ];
        for m in ms {
            let b: Vec<u8> = m.on_wire().sections().iter().flat_map(|x| enc_compact(x)).collect();
            received::<InMessage>(&m, &b)?;
            received::<OutMessage>(&m, &b)?;
            if !only_received(&m) {
                local::<InMessage>(&m)?;
                local::<OutMessage>(&m)?;
            }
            ctx.sub += 1;
        }
    }
    Ok(())
}

// ---------- C13 ----------
/// Long histories on one message, with a size query now and then.
fn many<M: Msg>(ctx: &mut Ctx) -> Res {
    set_static_mode(0);
    let mut w = Model { own: MV::default(), nested: vec![] };
    let mut m = M::default();
    let item = OutMessage::with_body(Bytes::from_static(b"nested"));
    let ib = enc_of(&item).1;
    for i in 0..900usize {
        let e = match i % 9 {
            0 | 1 | 2 => Edit::App(format!("k{}", i % 500), List(vec![Null; i % 5])),
            3 => Edit::PushData(vec![i as u8; i % 11]),
            4 => Edit::PushSeq(List(vec![U32(i as u32)])),
            5 => Edit::PushMessage(item.clone().into(), ib.clone()),
            6 => Edit::Prop(i % 13, Null),
            7 => Edit::BodyValue(if i % 2 == 0 { None } else { Some(V::s(&"v".repeat(i % 300))) }),
            _ => Edit::Prop(3, V::s(&"s".repeat(i % 300))),
        };
        m = apply(m, &e);
        w.edit(&e);
        if i % 4 == 1 {
            let _ = m.encoded_size();
        }
        if i % 50 == 3 || i > 890 {
            check_getters(&m, &w).and_then(|_| check_wire(&m, &w)).map_err(|x| format!("{} after {} edits: {}", M::NAME, i + 1, x))?;
            ctx.sub += 1;
        }
    }
    Ok(())
}
pub fn c13_many(ctx: &mut Ctx) -> Res {
    many::<InMessage>(ctx)?;
    many::<OutMessage>(ctx)
}
#[derive(Clone)]
enum Edit {
    Header(V),
    /// index into properties, new value
    Prop(usize, V),
    AllProps(V),
    App(String, V),
    Value(V),
    SetData(Vec<u8>),
    PushData(Vec<u8>),
    ClearData,
    PushSeq(V),
    ClearSeq,
    BodyValue(Option<V>),
    PushMessage(p::TransferBody, Vec<u8>),
    ClearMessages,
    /// in one of the three sequences of a body: remove, duplicate to the end, move to the front, keep so many
    Remove(usize, usize),
    Again(usize, usize),
    Front(usize, usize),
    Keep(usize, usize),
    /// a new element in the middle (data, sequence)
    Insert(usize, V),
    /// several changes to the body in one call
    Several(Vec<Edit>),
    Nothing,
}
fn remove<T>(l: &mut Vec<T>, i: usize) {
    if !l.is_empty() {
        let n = l.len();
        l.remove(i % n);
    }
}
fn again<T: Clone>(l: &mut Vec<T>, i: usize) {
    if !l.is_empty() {
        let x = l[i % l.len()].clone();
        l.push(x);
    }
}
fn front<T>(l: &mut Vec<T>, i: usize) {
    if !l.is_empty() {
        let n = l.len();
        let x = l.remove(i % n);
        l.insert(0, x);
    }
}
fn keep<T>(l: &mut Vec<T>, i: usize) {
    let n = l.len() + 1;
    l.truncate(i % n);
}
fn insert<T>(l: &mut Vec<T>, i: usize, x: T) {
    let n = l.len() + 1;
    l.insert(i % n, x);
}
fn set_prop(q: &mut p::Properties, i: usize, v: &V) {
    match i {
        0 => q.message_id = fv(v),
        1 => q.user_id = fv(v),
        2 => q.to = fv(v),
        3 => q.subject = fv(v),
        4 => q.reply_to = fv(v),
        5 => q.correlation_id = fv(v),
        6 => q.content_type = fv(v),
        7 => q.content_encoding = fv(v),
        8 => q.absolute_expiry_time = fv(v),
        9 => q.creation_time = fv(v),
        10 => q.group_id = fv(v),
        11 => q.group_sequence = fv(v),
        _ => q.reply_to_group_id = fv(v),
    }
}
fn no_props() -> V {
    V::desc(0x73, List(vec![Null; 13]))
}
#[derive(Clone)]
struct Model {
    own: MV,
    nested: Vec<(p::TransferBody, Vec<u8>)>,
}
impl Model {
    fn wire(&self) -> MV {
        let mut m = if self.nested.is_empty() { self.own.on_wire() } else { self.own.clone() };
        m.data.extend(self.nested.iter().map(|x| x.1.clone()));
        m
    }
    fn edit(&mut self, e: &Edit) {
        match e {
            Edit::Header(h) => self.own.header = Some(h.clone()),
            Edit::Prop(i, v) => {
                let mut x = self.own.props.clone().unwrap_or_else(no_props);
                if let Desc(_, l) = &mut x {
                    if let List(l) = &mut **l {
                        l[*i] = v.clone();
                    }
                }
                self.own.props = Some(x);
            }
            Edit::AllProps(x) => self.own.props = Some(x.clone()),
            Edit::App(k, v) => {
                let mut l = match self.own.ap.take() {
                    Some(Map(l)) => l,
                    _ => vec![],
                };
                match l.iter_mut().find(|(x, _)| *x == V::s(k)) {
                    Some(x) => x.1 = v.clone(),
                    None => l.push((V::s(k), v.clone())),
                }
                self.own.ap = Some(Map(l));
            }
            Edit::Value(v) => self.own.value = Some(v.clone()),
            Edit::SetData(d) => self.own.data = vec![d.clone()],
            Edit::PushData(d) => self.own.data.push(d.clone()),
            Edit::ClearData => self.own.data.clear(),
            Edit::PushSeq(v) => self.own.seq.push(v.clone()),
            Edit::ClearSeq => self.own.seq.clear(),
            Edit::BodyValue(v) => self.own.value = v.clone(),
            Edit::PushMessage(t, b) => self.nested.push((t.clone(), b.clone())),
            Edit::ClearMessages => self.nested.clear(),
            Edit::Remove(0, i) => remove(&mut self.own.data, *i),
            Edit::Remove(1, i) => remove(&mut self.own.seq, *i),
            Edit::Remove(_, i) => remove(&mut self.nested, *i),
            Edit::Again(0, i) => again(&mut self.own.data, *i),
            Edit::Again(1, i) => again(&mut self.own.seq, *i),
            Edit::Again(_, i) => again(&mut self.nested, *i),
            Edit::Front(0, i) => front(&mut self.own.data, *i),
            Edit::Front(1, i) => front(&mut self.own.seq, *i),
            Edit::Front(_, i) => front(&mut self.nested, *i),
            Edit::Keep(0, i) => keep(&mut self.own.data, *i),
            Edit::Keep(1, i) => keep(&mut self.own.seq, *i),
            Edit::Keep(_, i) => keep(&mut self.nested, *i),
            Edit::Insert(i, Bin(x)) => insert(&mut self.own.data, *i, x.clone()),
            Edit::Insert(i, x) => insert(&mut self.own.seq, *i, x.clone()),
            Edit::Several(l) => l.iter().for_each(|e| self.edit(e)),
            Edit::Nothing => {}
        }
    }
}
fn body_edit(b: &mut MessageBody, e: &Edit) {
    match e {
        Edit::SetData(d) => b.set_data(Bytes::from(&d[..])),
        Edit::PushData(d) => b.data.push(Bytes::from(&d[..])),
        Edit::ClearData => b.data.clear(),
        Edit::PushSeq(v) => b.sequence.push(fv(v)),
        Edit::ClearSeq => b.sequence.clear(),
        Edit::BodyValue(v) => b.value = v.as_ref().map(|x| fv(x)),
        Edit::PushMessage(t, _) => b.messages.push(t.clone()),
        Edit::ClearMessages => b.messages.clear(),
        Edit::Remove(0, i) => remove(&mut b.data, *i),
        Edit::Remove(1, i) => remove(&mut b.sequence, *i),
        Edit::Remove(_, i) => remove(&mut b.messages, *i),
        Edit::Again(0, i) => again(&mut b.data, *i),
        Edit::Again(1, i) => again(&mut b.sequence, *i),
        Edit::Again(_, i) => again(&mut b.messages, *i),
        Edit::Front(0, i) => front(&mut b.data, *i),
        Edit::Front(1, i) => front(&mut b.sequence, *i),
        Edit::Front(_, i) => front(&mut b.messages, *i),
        Edit::Keep(0, i) => keep(&mut b.data, *i),
        Edit::Keep(1, i) => keep(&mut b.sequence, *i),
        Edit::Keep(_, i) => keep(&mut b.messages, *i),
        Edit::Insert(i, Bin(x)) => insert(&mut b.data, *i, Bytes::from(&x[..])),
        Edit::Insert(i, x) => insert(&mut b.sequence, *i, fv(x)),
        Edit::Several(l) => l.iter().for_each(|e| body_edit(b, e)),
        _ => {}
    }
}
fn apply<M: Msg>(m: M, e: &Edit) -> M {
    match e {
        Edit::Header(h) => m.set_header(fv(h)),
        Edit::Prop(i, v) => m.set_properties(|q| set_prop(q, *i, v)),
        Edit::AllProps(x) => {
            let x: p::Properties = fv(x);
            m.set_properties(|q| *q = x.clone())
        }
        Edit::App(k, v) => {
            let k: t::Str = mk_str(k);
            m.set_app(k, fv::<t::Variant>(v))
        }
        Edit::Value(v) => m.set_value(fv::<t::Variant>(v)),
        Edit::Nothing => m,
        e => m.set_body(|b| body_edit(b, e)),
    }
}
const POOL: &[&str] = &["", "a", "b", "key", "Key", "correlation"];
fn gen_edit(s: &mut Src, depth: usize) -> Edit {
    match s.weighted(&[3, 5, 1, 6, 4, 3, 3, 1, 3, 1, 2, 3, 1, 2, 2]) {
        0 => Edit::Header(g::comp(s, "header")),
        1 => {
            let i = s.idx(13);
            let v = if s.chance(80) { g::field(s, sc::comp("properties").fields[i].ty) } else { Null };
            Edit::Prop(i, v)
        }
        2 => Edit::AllProps(g::comp(s, "properties")),
        3 => {
            let k = if s.chance(25) { g::text(s, 300) } else { s.pick(POOL).to_string() };
            Edit::App(k, g::value(s, 2))
        }
        4 => Edit::Value(g::value(s, 3)),
        5 => Edit::SetData(g::bin(s, 3000)),
        6 => Edit::PushData(g::bin(s, 3000)),
        7 => Edit::ClearData,
        8 => Edit::PushSeq(g::list(s, 2)),
        9 => Edit::ClearSeq,
        10 => Edit::BodyValue(if s.bool() { Some(g::value(s, 2)) } else { None }),
        11 if depth > 0 => {
            let (t, b, _) = nested(s, depth - 1);
            Edit::PushMessage(t, b)
        }
        12 => Edit::ClearMessages,
        13 => reshape(s),
        14 => {
            let n = 1 + s.below(4);
            Edit::Several(
                (0..n)
                    .map(|_| match s.below(6) {
                        0 => Edit::SetData(g::bin(s, 300)),
                        1 => Edit::PushData(g::bin(s, 300)),
                        2 => Edit::PushSeq(g::list(s, 1)),
                        3 => Edit::BodyValue(if s.bool() { Some(g::value(s, 1)) } else { None }),
                        _ => reshape(s),
                    })
                    .collect(),
            )
        }
        _ => Edit::Nothing,
    }
}
fn reshape(s: &mut Src) -> Edit {
    let (k, i) = (s.below(3) as usize, s.below(5) as usize);
    match s.below(6) {
        0 => Edit::Again(k, i),
        1 => Edit::Front(k, i),
        2 => Edit::Keep(k, i),
        3 => Edit::Insert(i, Bin(g::bin(s, 300))),
        4 => Edit::Insert(i, g::list(s, 1)),
        _ => Edit::Remove(k, i),
    }
}
/// A transfer body, the bytes it must put on the wire, and the message in it.
fn nested(s: &mut Src, depth: usize) -> (p::TransferBody, Vec<u8>, Option<MV>) {
    match s.weighted(&[2, 3, 3]) {
        0 => {
            let b = g::bin(s, 3000);
            (p::TransferBody::Data(Bytes::from(&b[..])), b, None)
        }
        k => {
            let recv = s.chance(25);
            let mut m = g::message(s, recv);
            if recv && m.sections().is_empty() {
                m.data.push(vec![]);
            }
            let mut model = Model { own: m.clone(), nested: vec![] };
            if depth > 0 && s.chance(40) {
                for _ in 0..1 + s.below(3) {
                    let (t, b, _) = nested(s, depth - 1);
                    model.nested.push((t, b));
                }
            }
            let add = |b: &mut MessageBody| b.messages = model.nested.iter().map(|x| x.0.clone()).collect();
            if k == 1 {
                let x = make_msg::<OutMessage>(&m).expect("harness: message").set_body(add);
                let b = enc_of(&x).1;
                (p::TransferBody::MessageOut(x), b, Some(model.wire()))
            } else {
                let x = make_msg::<InMessage>(&m).expect("harness: message").set_body(add);
                let b = enc_of(&x).1;
                (p::TransferBody::MessageIn(x), b, Some(model.wire()))
            }
        }
    }
}
/// Content identity as the crate's equality sees it.
fn ident(m: &Model) -> Vec<Vec<u8>> {
    let mut o: Vec<Vec<u8>> = m.own.sections().iter().map(g::ckey).collect();
    for (t, b) in &m.nested {
        o.push(vec![match t {
            p::TransferBody::Data(_) => 0,
            p::TransferBody::MessageIn(_) => 1,
            p::TransferBody::MessageOut(_) => 2,
        }]);
        o.push(b.clone());
    }
    o
}
fn check_getters<M: Msg>(m: &M, w: &Model) -> Res {
    let mut keys = keys_of(&w.own);
    for k in POOL {
        if !keys.iter().any(|x| x == k) {
            keys.push(k.to_string());
        }
    }
    let got = view_msg(m, &keys);
    mv_same(&format!("{} getters", M::NAME), &got, &visible(&w.own))?;
    if M::ORDERED {
        let order = keys_of(&w.own);
        let have: Vec<String> = m.app(&[]).into_iter().map(|x| x.0).collect();
        if have != order {
            return Err(format!("application properties in order {:?}, expected {:?}", have, order));
        }
    }
    match (m.value(), &w.own.value) {
        (None, None) => {}
        (Some(x), Some(y)) => same("value()", &x.v(), y)?,
        _ => return Err("value() does not report the body value".into()),
    }
    if m.body().messages.len() != w.nested.len() {
        return Err(format!("{} nested messages, expected {}", m.body().messages.len(), w.nested.len()));
    }
    for (a, b) in m.body().messages.iter().zip(&w.nested) {
        if body_bytes(a) != b.1 {
            return Err("a nested message changed".into());
        }
    }
    if m.body().data().map(|d| d.to_vec()) != w.own.data.first().cloned() {
        return Err("MessageBody::data is not the first data section".into());
    }
    Ok(())
}
fn check_wire<M: Msg>(m: &M, w: &Model) -> Res {
    let (n, b) = enc_of(m);
    if n != b.len() {
        return Err(format!("{}: announced {} bytes, wrote {}", M::NAME, n, b.len()));
    }
    let got = parse_message(&b).map_err(|e| format!("{}: {} in {}", M::NAME, e, hex(&b)))?;
    mv_same(&format!("{} encoding", M::NAME), &got, &w.wire())?;
    if M::ORDERED && keys_of(&got) != keys_of(&w.own) {
        return Err(format!("application properties sent in order {:?}, expected {:?}", keys_of(&got), keys_of(&w.own)));
    }
    Ok(())
}
/// What only a received message has: annotations, a footer, empty application properties.
pub fn only_received(m: &MV) -> bool {
    m.da.is_some() || m.ma.is_some() || m.footer.is_some() || m.ap == Some(Map(vec![]))
}
/// Built through the API, or received where the API cannot set all of it.
pub fn make_msg<M: Msg>(m: &MV) -> Result<M, String> {
    if !only_received(m) {
        return Ok(build_msg(m));
    }
    let b: Vec<u8> = m.sections().iter().flat_map(|x| enc_compact(x)).collect();
    let (x, left) = dec::<M>(&b).map_err(|e| format!("{}: {} rejected: {}", M::NAME, hex(&b), e))?;
    if left != 0 {
        return Err(format!("{} bytes left behind a message", left));
    }
    Ok(x)
}
/// Received application properties have no order of their own: take over the one they got.
fn reorder<M: Msg>(m: &M, own: &mut MV) -> Res {
    if let (true, Some(x)) = (M::ORDERED, &own.ap) {
        let l = Map(m.app(&[]).into_iter().map(|(k, v)| (Str(k), v)).collect());
        same("received application properties", &l, x)?;
        own.ap = Some(l);
    }
    Ok(())
}
fn fresh<M: Msg>(w: &Model, format: Option<u32>) -> Result<M, String> {
    let mut m: M = build_msg(&w.own);
    if only_received(&w.own) {
        m = make_msg(&w.own)?;
        // in the order of the model
        if let (true, Some(Map(l))) = (M::ORDERED, &w.own.ap) {
            if !l.is_empty() {
                m = make_msg(&MV { ap: Some(Map(vec![])), ..w.own.clone() })?;
                for (k, x) in l {
                    m = m.set_app(fv::<t::Str>(k), fv::<t::Variant>(x));
                }
            }
        }
    }
    if !w.nested.is_empty() {
        m = m.set_body(|b| b.messages = w.nested.iter().map(|x| x.0.clone()).collect());
    }
    m.set_format(format);
    Ok(m)
}
/// `deep`: full model comparison; otherwise only announced sizes.
fn history<M: Msg>(s: &mut Src, ctx: &mut Ctx, deep: bool) -> Res {
    let mode = s.below(2) as u8;
    set_static_mode(mode);
    s.budget = 30_000;
    let mut w = Model { own: MV::default(), nested: vec![] };
    let mut m = M::default();
    let mut log: Vec<String> = vec![];
    match s.weighted(&[6, 2, 1, 3, 3]) {
        0 => {}
        4 => {
            let x = g::message(s, true);
            if x.sections().is_empty() {
                return Ok(());
            }
            m = make_msg(&x)?;
            w.own = x;
            if only_received(&w.own) {
                reorder(&m, &mut w.own)?;
            }
            log.push("received".into());
            ctx.label("received message");
        }
        1 => {
            let b = g::bin(s, 600);
            m = M::with_body(Bytes::from(&b[..]));
            w.own.data.push(b);
        }
        2 => {
            let n = s.below(3);
            for _ in 0..n {
                let (t, b, _) = nested(s, 1);
                w.nested.push((t, b));
            }
            m = M::with_messages(w.nested.iter().map(|x| x.0.clone()).collect());
        }
        _ => {
            let x = g::message(s, false);
            m = build_msg(&x);
            w.own = x;
            log.push("built".into());
        }
    }
    let mut kept: Vec<(M, Model)> = vec![];
    let mut format = None;
    let n = s.count(24) + 1;
    let mut edits = 0;
    let res = (|| -> Res {
        for _ in 0..n {
            match s.weighted(&[10, 3, 2, 3, 3, 2, 2, 2, 1, 1]) {
                0 => {
                    let e = gen_edit(s, 1);
                    log.push(edit_name(&e));
                    let before = m.clone();
                    let was = w.clone();
                    m = apply(m, &e);
                    w.edit(&e);
                    edits += 1;
                    if deep {
                        check_getters(&m, &w)?;
                        if (before == m) != (ident(&was) == ident(&w)) {
                            return Err(format!("a message before and after {} compares {}", edit_name(&e), if before == m { "equal" } else { "unequal" }));
                        }
                    }
                }
                1 => {
                    log.push("size".into());
                    let n = m.encoded_size();
                    let n2 = m.encoded_size();
                    if n != n2 {
                        return Err(format!("size {} then {}", n, n2));
                    }
                }
                2 => {
                    log.push("encode".into());
                    sized(M::NAME, &m)?;
                }
                3 => {
                    let e = gen_edit(s, 1);
                    log.push(format!("update({})", edit_name(&e)));
                    let seen = RefCell::new(None);
                    m = m.update(|x| {
                        *seen.borrow_mut() = Some(x.clone());
                        let _ = x.encoded_size();
                        apply(x, &e)
                    });
                    if deep {
                        let x = seen.into_inner().ok_or("update did not call its closure")?;
                        check_getters(&x, &w)?;
                    }
                    w.edit(&e);
                    edits += 1;
                }
                4 => {
                    let e = if s.chance(70) { Some(gen_edit(s, 1)) } else { None };
                    log.push(format!("if_some({})", e.as_ref().map(edit_name).unwrap_or_default()));
                    let look = s.bool();
                    m = m.if_some(&e, |x, e| {
                        if look {
                            let _ = x.encoded_size();
                        }
                        apply(x, e)
                    });
                    if let Some(e) = &e {
                        w.edit(e);
                        edits += 1;
                    }
                }
                5 => {
                    log.push("clone".into());
                    let c = m.clone();
                    if !(c == m) {
                        return Err("a clone differs from its original".into());
                    }
                    if s.bool() {
                        kept.push((std::mem::replace(&mut m, c), w.clone()));
                    } else {
                        kept.push((c, w.clone()));
                    }
                }
                6 => {
                    log.push("send and receive".into());
                    let (_, b) = enc_of(&m);
                    m = dec::<M>(&b).map_err(|e| format!("own encoding rejected: {}", e))?.0;
                    m.set_format(format);
                    w = Model { own: w.wire(), nested: vec![] };
                    reorder(&m, &mut w.own)?;
                }
                7 => {
                    log.push("compare".into());
                    let f: M = fresh(&w, format)?;
                    if s.bool() {
                        let _ = f.encoded_size();
                    }
                    if deep && !(f == m && m == f) {
                        return Err(format!("differs from a message built directly with the same content: {}", w.own.show()));
                    }
                }
                8 => {
                    log.push("reply".into());
                    let _ = m.reply();
                    let l = m.clone().into_body().len();
                    if l != enc_of(&m).1.len() {
                        return Err(format!("TransferBody::len {} for {} bytes", l, enc_of(&m).1.len()));
                    }
                }
                _ => {
                    let f = if s.bool() { Some(s.int(32) as u32) } else { None };
                    log.push("format".into());
                    m.set_format(f);
                    format = f;
                }
            }
            if !deep {
                sized_now(&m)?;
            }
        }
        if deep {
            if m.format() != format {
                return Err("message format changed".into());
            }
            check_getters(&m, &w)?;
            check_wire(&m, &w)?;
            check_getters(&m, &w)?;
            let f: M = fresh(&w, format)?;
            if !(f == m && m == f) {
                return Err(format!("differs from a message built directly with the same content: {}", w.own.show()));
            }
            for (k, w) in &kept {
                check_getters(k, w).map_err(|e| format!("a clone changed: {}", e))?;
                check_wire(k, w).map_err(|e| format!("a clone changed: {}", e))?;
            }
        } else {
            sized(M::NAME, &m)?;
            for (k, _) in &kept {
                sized(M::NAME, k)?;
            }
            if !m.body().messages.is_empty() {
                ctx.label("with nested messages");
            }
            sized("body", m.body())?;
            let b = m.clone().into_body();
            sized("transfer body", &b)?;
            let tr = p::Transfer { body: Some(b), ..fv(&g::comp(s, "transfer")) };
            sized("frame with message", &AmqpFrame::new(1, p::Frame::Transfer(tr)))?;
        }
        Ok(())
    })();
    ctx.nontrivial = edits >= 2;
    ctx.label(&format!("{} {} edits", M::NAME, if edits > 8 { ">8".to_string() } else { edits.to_string() }));
    ctx.desc(|| format!("{}: {}", M::NAME, log.join(", ")));
    res.map_err(|e| format!("{} after {}: {}", M::NAME, log.join(", "), e))
}
/// announced size against written bytes, without disturbing when sizes are first asked for
fn sized_now<M: Msg>(m: &M) -> Res {
    let c = m.clone();
    let (n, b) = enc_of(&c);
    if n != b.len() {
        return Err(format!("announced {} bytes, wrote {}", n, b.len()));
    }
    Ok(())
}
fn edit_name(e: &Edit) -> String {
    match e {
        Edit::Header(_) => "set_header".into(),
        Edit::Prop(i, v) => format!("set_properties({}={})", sc::comp("properties").fields[*i].name, show(v)),
        Edit::AllProps(_) => "set_properties(all)".into(),
        Edit::App(k, v) => format!("set_app_property({:?}, {})", k, show(v)),
        Edit::Value(v) => format!("set_value({})", show(v)),
        Edit::SetData(d) => format!("set_data({})", d.len()),
        Edit::PushData(d) => format!("push data({})", d.len()),
        Edit::ClearData => "clear data".into(),
        Edit::PushSeq(_) => "push sequence".into(),
        Edit::ClearSeq => "clear sequences".into(),
        Edit::BodyValue(v) => format!("body.value={}", v.is_some()),
        Edit::PushMessage(_, b) => format!("push message({})", b.len()),
        Edit::ClearMessages => "clear messages".into(),
        Edit::Remove(k, i) => format!("remove {} of part {}", i, k),
        Edit::Again(k, i) => format!("repeat {} of part {}", i, k),
        Edit::Front(k, i) => format!("move {} of part {} to the front", i, k),
        Edit::Keep(k, i) => format!("keep {} of part {}", i, k),
        Edit::Insert(i, _) => format!("insert at {}", i),
        Edit::Several(l) => l.iter().map(edit_name).collect::<Vec<_>>().join(" and "),
        Edit::Nothing => "nothing".into(),
    }
}
pub fn c13(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.bool() {
        history::<InMessage>(s, ctx, true)
    } else {
        history::<OutMessage>(s, ctx, true)
    }
}
pub fn sizes(s: &mut Src, ctx: &mut Ctx) -> Res {
    ctx.label("message history");
    if s.bool() {
        history::<InMessage>(s, ctx, false)
    } else {
        history::<OutMessage>(s, ctx, false)
    }
}

// ---------- C14 ----------
pub fn c14(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mode = s.weighted(&[3, 1, 2]) as u8;
    set_static_mode(mode);
    if s.chance(45) {
        carried(s, ctx)
    } else if s.bool() {
        batch::<InMessage>(s, ctx)
    } else {
        batch::<OutMessage>(s, ctx)
    }
}
/// Batches with items and counts that do not fit 16 or 24 bits, bare and inside a transfer frame.
pub fn c14_large(ctx: &mut Ctx) -> Res {
    set_static_mode(0);
    for (n, k) in [(65_536usize, 2usize), ((1 << 20) + 3, 2), ((1 << 24) + 5, 1), (1, 300), (3, 70_000)] {
        let item = OutMessage::with_body(Bytes::from(vec![0x6b; n]));
        let (m, b) = enc_of(&item);
        if m != b.len() {
            return Err(format!("a message of {} bytes announces {} and writes {}", n, m, b.len()));
        }
        let mut want = vec![];
        let mut x = OutMessage::default();
        for i in 0..k {
            want.push(if i % 2 == 0 { b.clone() } else { vec![0x77; n] });
        }
        x = x.set_body(|body| {
            for i in 0..k {
                body.messages.push(if i % 2 == 0 { item.clone().into() } else { Bytes::from(vec![0x77; n]).into() });
            }
        });
        let (m, b) = enc_of(&x);
        if m != b.len() {
            return Err(format!("a batch of {} items of {} bytes announces {} and writes {}", k, n, m, b.len()));
        }
        let check = |b: &[u8]| -> Res {
            let (y, left) = dec::<InMessage>(b).map_err(|e| format!("a batch of {} items of {} bytes rejected: {}", k, n, e))?;
            if left != 0 || y.body().data.len() != k || y.body().data.iter().zip(&want).any(|(a, b)| a[..] != b[..]) {
                return Err(format!("a batch of {} items of {} bytes reads back as {} other ones, {} bytes left", k, n, y.body().data.len(), left));
            }
            Ok(())
        };
        check(&b)?;
        let mut t: p::Transfer = fv(&super::frames::minimal("transfer"));
        t.body = Some(x.into());
        let f = AmqpFrame::new(5, p::Frame::Transfer(t));
        let (m, fb) = enc_of(&f);
        if m != fb.len() || fb[..4] != (m as u32).to_be_bytes() || !fb.ends_with(&b) {
            return Err(format!("a frame with a batch of {} items of {} bytes announces {} and writes {}", k, n, m, fb.len()));
        }
        let (g, left) = dec::<AmqpFrame>(&fb[4..])?;
        match g.performative() {
            p::Frame::Transfer(t) if left == 0 => check(&body_bytes(t.body.as_ref().ok_or("the body is gone")?))?,
            x => return Err(format!("a transfer reads back as {:?}, {} bytes left", x.name(), left)),
        }
        ctx.sub += 1;
    }
    Ok(())
}
fn exact(b: &[u8], want: &MV) -> Res {
    let got = parse_message(b)?;
    mv_same("nested message", &got, want)?;
    let keys = keys_of(want);
    let (x, left) = dec::<InMessage>(b)?;
    if left != 0 {
        return Err(format!("{} bytes left after the nested message", left));
    }
    mv_same("nested message read as InMessage", &view_msg(&x, &keys), &visible(want))?;
    let (x, left) = dec::<OutMessage>(b)?;
    if left != 0 {
        return Err(format!("{} bytes left after the nested message", left));
    }
    mv_same("nested message read as OutMessage", &view_msg(&x, &keys), &visible(want))
}
fn batch<M: Msg>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let own = if s.chance(60) { g::message(s, false) } else { MV::default() };
    let n = s.count(12) + 1;
    let mut items = vec![];
    for _ in 0..n {
        items.push(nested(s, 2));
    }
    ctx.label(&format!("{} batch of {}", M::NAME, if n > 4 { ">4".to_string() } else { n.to_string() }));
    if items.iter().any(|x| x.1.len() > 255) {
        ctx.label("item over 255 bytes");
    }
    if items.iter().any(|x| (250..=255).contains(&x.1.len())) {
        ctx.label("item of 250..255 bytes");
    }
    ctx.nontrivial = true;
    ctx.desc(|| format!("{} carrying {:?} byte items; own {}", M::NAME, items.iter().map(|x| x.1.len()).collect::<Vec<_>>(), own.show()));
    let via_ctor = own == MV::default() && s.bool();
    let x: M = if via_ctor {
        M::with_messages(items.iter().map(|x| x.0.clone()).collect())
    } else {
        let x: M = build_msg(&own);
        if s.bool() {
            let _ = x.encoded_size();
        }
        x.set_body(|b| b.messages.extend(items.iter().map(|x| x.0.clone())))
    };
    sized(M::NAME, &x)?;
    let (_, b) = enc_of(&x);
    let got = parse_message(&b).map_err(|e| format!("batch: {}", e))?;
    let mut want = own.clone();
    want.data.extend(items.iter().map(|x| x.1.clone()));
    mv_same("batch", &got, &want)?;
    let (y, left) = dec::<InMessage>(&b).map_err(|e| format!("batch rejected: {}", e))?;
    if left != 0 {
        return Err(format!("{} bytes left after the batch", left));
    }
    let data: Vec<Vec<u8>> = y.body().data.iter().map(|d| d.to_vec()).collect();
    if data != want.data {
        return Err("a received batch holds other data sections".into());
    }
    for ((t, bytes, m), d) in items.iter().zip(&data[own.data.len()..]) {
        if t.len() != bytes.len() {
            return Err(format!("TransferBody::len {} for {} bytes", t.len(), bytes.len()));
        }
        if let Some(m) = m {
            exact(d, m)?;
        }
    }
    Ok(())
}
fn carried(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (t, bytes, m) = if s.chance(25) {
        let b = g::bin(s, 120_000);
        (p::TransferBody::Data(Bytes::from(&b[..])), b, None)
    } else {
        nested(s, 2)
    };
    ctx.label(match &t {
        p::TransferBody::Data(_) => "transfer of bytes",
        p::TransferBody::MessageIn(_) => "transfer of a received message",
        p::TransferBody::MessageOut(_) => "transfer of an outgoing message",
    });
    let perf = g::comp(s, "transfer");
    ctx.nontrivial = !bytes.is_empty();
    ctx.desc(|| format!("{} payload bytes under {}", bytes.len(), show(&perf)));
    if t.len() != bytes.len() {
        return Err(format!("TransferBody::len {} for {} bytes", t.len(), bytes.len()));
    }
    let f = s.int(32) as u32;
    let given = f != 0 || s.bool();
    let (t, format) = match t {
        p::TransferBody::MessageIn(mut x) if given => {
            x.message_format = Some(f);
            (p::TransferBody::from(x), Some(f))
        }
        p::TransferBody::MessageOut(mut x) if given => {
            x.message_format = Some(f);
            (p::TransferBody::from(x), Some(f))
        }
        p::TransferBody::Data(x) => (p::TransferBody::from(x), None),
        t => (t, None),
    };
    if t.message_format() != format {
        return Err(format!("message_format() {:?}, set to {:?}", t.message_format(), format));
    }
    if t.len() != bytes.len() {
        return Err(format!("TransferBody::len {} for {} bytes", t.len(), bytes.len()));
    }
    let channel = s.int(16) as u16;
    let tr = p::Transfer { body: Some(t.clone()), ..fv(&perf) };
    if tr.body() != Some(&t) {
        return Err("Transfer::body() is not the body".into());
    }
    let frame = AmqpFrame::new(channel, p::Frame::Transfer(tr));
    sized("transfer frame", &frame)?;
    let (_, b) = enc_of(&frame);
    let (ch, got, payload) = strict_frame(&b, 0)?;
    let want = FrameV { channel, perf: Some(perf), payload: bytes.clone() };
    frames_same("transfer on the wire", &FrameV { channel: ch, perf: got, payload }, &want)?;
    let (x, left) = dec::<AmqpFrame>(&b[4..]).map_err(|e| format!("transfer rejected: {}", e))?;
    if left != 0 {
        return Err(format!("{} bytes of the transfer left", left));
    }
    frames_same("transfer received", &view_frame(&x), &want)?;
    if let p::Frame::Transfer(x) = x.performative() {
        match &x.body {
            None if bytes.is_empty() => {}
            Some(b) if b.len() == bytes.len() => {}
            b => return Err(format!("received payload length {:?}, sent {}", b.as_ref().map(|b| b.len()), bytes.len())),
        }
    }
    if let Some(m) = &m {
        exact(&bytes, m)?;
    }
    Ok(())
}

// ---------- C21 ----------
pub fn c21(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mode = s.weighted(&[3, 1, 2]) as u8;
    set_static_mode(mode);
    let received = s.bool();
    let m = {
        let mut m = g::message(s, received);
        if s.chance(60) {
            m.props = Some(g::comp(s, "properties"));
        }
        // make ids common
        if let Some(Desc(_, l)) = &mut m.props {
            if let List(l) = &mut **l {
                if s.chance(60) {
                    l[0] = g::msg_id(s);
                }
            }
        }
        m
    };
    ctx.desc(|| m.show());
    let kind = s.bool();
    if received {
        let b: Vec<u8> = {
            let mut b = vec![];
            for x in m.on_wire().sections() {
                let w = g::peer_section(s, &x);
                g::enc_free(s, &w, &mut b);
            }
            b
        };
        if kind {
            let x = dressed(s, dec::<InMessage>(&b)?.0);
            replies(&x, &m, ctx)
        } else {
            let x = dressed(s, dec::<OutMessage>(&b)?.0);
            replies(&x, &m, ctx)
        }
    } else if kind {
        let x = dressed(s, build_msg::<InMessage>(&m));
        replies(&x, &m, ctx)
    } else {
        let x = dressed(s, build_msg::<OutMessage>(&m));
        replies(&x, &m, ctx)
    }
}
/// What a reply must not take over: a message format, nested messages, a size already known.
fn dressed<M: Msg>(s: &mut Src, mut x: M) -> M {
    if s.bool() {
        x.set_format(Some(s.int(32) as u32));
    }
    if s.chance(20) {
        let t = nested(s, 1).0;
        x = x.set_body(|b| b.messages.push(t.clone()));
    }
    if s.bool() {
        let _ = x.encoded_size();
    }
    x
}
fn replies<M: Msg>(x: &M, m: &MV, ctx: &mut Ctx) -> Res {
    let before = x.clone();
    let bytes = enc_of(x).1;
    let id = match &m.props {
        Some(Desc(_, l)) => match &**l {
            List(l) => Some(l[0].clone()),
            _ => None,
        },
        _ => None,
    };
    ctx.label(match &id {
        None => "no properties",
        Some(Null) => "no message id",
        Some(v) => v.kind(),
    });
    ctx.nontrivial = matches!(&id, Some(v) if *v != Null);
    let want = MV {
        props: id.map(|id| {
            let mut l = vec![Null; 13];
            l[5] = id;
            V::desc(0x73, List(l))
        }),
        ..MV::default()
    };
    let r = x.reply();
    if r.message_format.is_some() {
        return Err("a reply has a message format".into());
    }
    if x.format() != before.format() {
        return Err("replying changed the request's message format".into());
    }
    let built: OutMessage = build_msg(&want);
    if !(r == built && built == r) {
        return Err("a reply differs from a message built with only the correlation id".into());
    }
    mv_same("reply", &view_msg(&r, &[]), &want)?;
    if !r.body().messages.is_empty() {
        return Err("a reply carries messages".into());
    }
    let (n, b) = enc_of(&r);
    if n != b.len() {
        return Err(format!("reply: announced {} wrote {}", n, b.len()));
    }
    mv_same("reply on the wire", &parse_message(&b)?, &want.on_wire())?;
    let (y, _) = dec::<InMessage>(&b)?;
    mv_same("reply received", &view_msg(&y, &[]), &want.on_wire())?;
    let (y, _) = dec::<OutMessage>(&b)?;
    mv_same("reply received", &view_msg(&y, &[]), &want.on_wire())?;
    if !(*x == before) || enc_of(x).1 != bytes {
        return Err("replying changed the request".into());
    }
    Ok(())
}
