//! Every stand-alone encodable/decodable type, as a table of monomorphic entry points.
use crate::conv::*;
use crate::gen as g;
use crate::refm::V::{self, *};
use crate::schema as sc;
use crate::src::Src;
use amqp_codec::protocol as p;
use amqp_codec::types as t;
use amqp_codec::{Decode, Encode};
use bytes::{Bytes, BytesMut};
use chrono::{DateTime, Utc};
use hashbrown::HashMap;

#[derive(Clone, Copy, PartialEq)]
pub enum Shape {
    /// value without composite structure
    Plain,
    /// composite(s): peers may omit, default, rename
    Comp,
    Section,
}
pub struct Kind {
    pub name: &'static str,
    pub shape: Shape,
    /// direct arrays of primitives (zero-width constructors are a recorded finding)
    pub vec: bool,
    pub gen: fn(&mut Src) -> V,
    /// announced size, bytes
    pub enc: fn(&V) -> (usize, Vec<u8>),
    /// append to a buffer twice from one object: sizes before and after
    pub append: fn(&V, &mut BytesMut) -> (usize, usize),
    /// value and number of bytes left
    pub dec: fn(&[u8]) -> Result<(V, usize), String>,
    /// decode, re-encode: (value, left, announced size, bytes)
    pub relay: fn(&[u8]) -> Option<(V, usize, usize, Vec<u8>)>,
    /// what decoding, sizing, encoding, cloning, comparing cost
    pub work: fn(&[u8]) -> crate::props::work::Costs,
    /// decode and drop
    pub touch: fn(&[u8]) -> bool,
    /// build both, clone, compare: are they equal? (and the content each holds)
    pub eq: fn(&V, &V) -> Result<(bool, V, V), String>,
    /// accessor check of a built value
    pub acc: fn(&V) -> Result<(), String>,
}
pub fn enc_k<X: FromV + Encode>(v: &V) -> (usize, Vec<u8>) {
    enc_of(&X::fv(v))
}
pub fn append_k<X: FromV + Encode>(v: &V, b: &mut BytesMut) -> (usize, usize) {
    let x = X::fv(v);
    let n = x.encoded_size();
    x.encode(b);
    (n, x.encoded_size())
}
pub fn dec_k<X: View + Decode>(b: &[u8]) -> Result<(V, usize), String> {
    dec::<X>(b).map(|(x, r)| (x.v(), r))
}
pub fn relay_k<X: View + Decode + Encode>(b: &[u8]) -> Option<(V, usize, usize, Vec<u8>)> {
    let (x, r) = dec::<X>(b).ok()?;
    let (n, e) = enc_of(&x);
    Some((x.v(), r, n, e))
}
pub fn touch_k<X: Decode>(b: &[u8]) -> bool {
    X::decode(b).is_ok()
}
/// Equality and cloning of two built items, and of what cloning leaves behind.
pub fn eq_of<X: Clone + PartialEq + std::fmt::Debug>(a: &X, b: &X, view: fn(&X) -> Vec<u8>) -> Result<bool, String> {
    let (va, vb) = (view(a), view(b));
    let r = a == b;
    if (b == a) != r {
        return Err(format!("equality is not symmetric: {:?} {:?}", a, b));
    }
    if (a != b) == r {
        return Err("== and != agree".into());
    }
    let c = a.clone();
    if view(&c) != va {
        return Err(format!("a clone differs: {:?} of {:?}", c, a));
    }
    if (c == *a) != (*a == *a) || (c == *b) != r {
        return Err(format!("a clone compares differently from the original: {:?}", a));
    }
    if format!("{:?}", a).is_empty() {
        return Err("formats as nothing".into());
    }
    let mut d = b.clone();
    d.clone_from(a);
    if view(&d) != va {
        return Err("clone_from differs".into());
    }
    drop(c);
    drop(d);
    if view(a) != va || view(b) != vb {
        return Err("changed by comparing, cloning or formatting".into());
    }
    Ok(r)
}
pub fn eq_k<X: FromV + View + Clone + PartialEq + std::fmt::Debug>(u: &V, w: &V) -> Result<(bool, V, V), String> {
    let (a, b) = (X::fv(u), X::fv(w));
    let r = eq_of(&a, &b, |x| crate::refm::canon(&x.v()))?;
    Ok((r, a.v(), b.v()))
}
pub fn no_acc(_: &V) -> Result<(), String> {
    Ok(())
}
pub fn acc_k<X: FromV + Acc>(v: &V) -> Result<(), String> {
    X::fv(v).acc()
}
macro_rules! k {
    ($t:ty, $name:expr, $shape:ident, $vec:expr, $gen:expr, $acc:expr) => {
        Kind { name: $name, shape: Shape::$shape, vec: $vec, gen: $gen, enc: enc_k::<$t>, append: append_k::<$t>, dec: dec_k::<$t>, relay: relay_k::<$t>, touch: touch_k::<$t>, work: crate::props::work::work::<$t>, eq: eq_k::<$t>, acc: $acc }
    };
}
macro_rules! prims {
    ($out:ident; $($t:ty, $name:expr, $k:expr, $fmt:expr;)*) => { $(
        $out.push(k!($t, $name, Plain, false, |s| g::scalar_of(s, $k, 70_000), no_acc));
        $out.push(k!(Option<$t>, concat!("Option<", $name, ">"), Plain, false, |s| if s.chance(70) { g::scalar_of(s, $k, 70_000) } else { Null }, no_acc));
        $out.push(k!(Vec<$t>, concat!("Vec<", $name, ">"), Plain, true, |s| g::array(s, $k, $fmt), no_acc));
    )* };
}
macro_rules! kcomps {
    ($out:ident; $($t:ident $name:expr),*) => { $( $out.push(k!(p::$t, stringify!($t), Comp, false, |s| g::comp(s, $name), acc_k::<p::$t>)); )* };
}
macro_rules! kenums {
    ($out:ident; $($t:ident),*) => { $( $out.push(k!(p::$t, stringify!($t), Plain, false, |s| { let i = <p::$t as Items>::items(); let n = s.idx(i.len()); i[n].1.clone() }, no_acc)); )* };
}
fn build() -> Vec<Kind> {
    let mut o: Vec<Kind> = vec![];
    prims! { o;
        bool, "bool", 1, 0x56; u8, "u8", 8, 0x50; u16, "u16", 9, 0x60; u32, "u32", 2, 0x70; u64, "u64", 5, 0x80;
        i8, "i8", 10, 0x51; i16, "i16", 11, 0x61; i32, "i32", 6, 0x71; i64, "i64", 7, 0x81; f32, "f32", 12, 0x72; f64, "f64", 13, 0x82;
        char, "char", 14, 0x73; DateTime<Utc>, "timestamp", 15, 0x83; uuid::Uuid, "uuid", 16, 0x98;
        Bytes, "binary", 17, 0xb0; t::ByteStr, "string", 3, 0xb1; t::Symbol, "symbol", 4, 0xb3;
    }
    o.push(k!(t::Str, "Str", Plain, false, |s| g::scalar_of(s, 3, 70_000), no_acc));
    o.push(k!(Vec<HashMap<t::Variant, t::Variant>>, "Vec<map>", Plain, false, |s| { let n = s.below(4); Arr(0xd1, (0..n).map(|_| g::map(s, 3)).collect()) }, no_acc));
    o.push(k!(t::Multiple<t::Symbol>, "Multiple<Symbol>", Plain, false, g::multi, no_acc));
    o.push(k!(t::List, "List", Plain, false, |s| g::list(s, 64), no_acc));
    o.push(k!(HashMap<t::Variant, t::Variant>, "Map", Plain, false, |s| g::map(s, 64), no_acc));
    o.push(k!(p::Fields, "Fields", Plain, false, g::fields, no_acc));
    o.push(k!(p::StringVariantMap, "StringVariantMap", Plain, false, g::str_map, no_acc));
    o.push(k!(p::FilterSet, "FilterSet", Plain, false, |s| g::field(s, sc::T::Filter), no_acc));
    o.push(k!(t::VecVariantMap, "VecVariantMap", Plain, false, g::str_map, no_acc));
    o.push(k!(t::Variant, "Variant", Plain, false, |s| g::value(s, 64), no_acc));
    o.push(k!(t::Variant, "Variant(compound)", Plain, false, |s| g::compound(s, 64), no_acc));
    o.push(k!(p::MessageId, "MessageId", Plain, false, g::msg_id, no_acc));
    o.push(k!(p::ErrorCondition, "ErrorCondition", Plain, false, g::condition, no_acc));
    o.push(k!(p::DistributionMode, "DistributionMode", Plain, false, |s| Sym(g::symbol(s, 400)), no_acc));
    kenums!(o; Role, SenderSettleMode, ReceiverSettleMode, TerminusDurability, SaslCode, TerminusExpiryPolicy, AmqpError, ConnectionError, SessionError, LinkError);
    kcomps!(o; Open "open", Begin "begin", Attach "attach", Flow "flow", Disposition "disposition", Detach "detach", End "end", Close "close",
        Error "error", Received "received", Accepted "accepted", Rejected "rejected", Released "released", Modified "modified", Source "source", Target "target",
        SaslMechanisms "sasl-mechanisms", SaslInit "sasl-init", SaslChallenge "sasl-challenge", SaslResponse "sasl-response", SaslOutcome "sasl-outcome",
        Header "header", Properties "properties");
    o.push(k!(p::DeliveryState, "DeliveryState", Comp, false, |s| g::field(s, sc::T::State), acc_k::<p::DeliveryState>));
    o.push(k!(p::Outcome, "Outcome", Comp, false, |s| g::field(s, sc::T::Outcome), acc_k::<p::Outcome>));
    o.push(k!(p::SaslFrameBody, "SaslFrameBody", Comp, false, |s| { let n = *s.pick(sc::SASL); g::comp(s, n) }, acc_k::<p::SaslFrameBody>));
    o.push(k!(p::Section, "Section", Section, false, section, no_acc));
    crate::extra::kinds(&mut o);
    o
}
pub fn section(s: &mut Src) -> V {
    match s.below(9) {
        0 => g::comp(s, "header"),
        1 => V::desc(0x71, g::fields(s)),
        2 => V::desc(0x72, g::fields(s)),
        3 => g::comp(s, "properties"),
        4 => V::desc(0x74, g::str_map(s)),
        5 => V::desc(0x75, Bin(g::bin(s, 70_000))),
        6 => V::desc(0x76, g::list(s, 20)),
        7 => V::desc(0x77, g::value(s, 62)),
        _ => V::desc(0x78, g::fields(s)),
    }
}
pub fn kinds() -> &'static [Kind] {
    static K: std::sync::OnceLock<Vec<Kind>> = std::sync::OnceLock::new();
    K.get_or_init(build)
}
/// A kind, the compound ones more often.
pub fn pick(s: &mut Src) -> &'static Kind {
    let ks = kinds();
    if s.chance(30) {
        let n = s.idx(6);
        let name = ["Variant(compound)", "List", "Map", "Multiple<Symbol>", "Section", "Variant"][n];
        return ks.iter().find(|k| k.name == name).unwrap();
    }
    &ks[s.idx(ks.len())]
}
pub fn by_name(n: &str) -> &'static Kind {
    kinds().iter().find(|k| k.name == n).unwrap_or_else(|| panic!("kind {}", n))
}
/// What a peer may send for this value.
pub fn peer_form(s: &mut Src, k: &Kind, v: &V) -> V {
    match k.shape {
        Shape::Comp => g::peer(s, v),
        Shape::Section => g::peer_section(s, v),
        Shape::Plain => match v {
            Arr(0xb3, l) if k.name == "Multiple<Symbol>" && l.len() == 1 && s.bool() => l[0].clone(),
            v => v.clone(),
        },
    }
}
