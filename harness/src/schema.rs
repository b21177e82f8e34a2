//! Composite types of AMQP 1.0, written from the OASIS specification.
use crate::refm::V::{self, *};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T {
    Bool,
    U8,
    U16,
    U32,
    U64,
    Bin,
    Str,
    Sym,
    Ts,
    /// multiple="true" symbol
    Multi,
    /// symbol-keyed map of anything
    Fields,
    /// symbol-keyed map of string or null (as this library types filters)
    Filter,
    Map,
    MsgId,
    EnumU8(&'static [u8]),
    EnumU16(&'static [u16]),
    EnumU32(&'static [u32]),
    EnumU64(&'static [u64]),
    Uuid,
    EnumSym(&'static [&'static str]),
    Comp(&'static str),
    State,
    Outcome,
}

#[derive(Clone)]
pub struct F {
    pub name: &'static str,
    pub ty: T,
    pub mandatory: bool,
    pub default: Option<V>,
}
pub struct C {
    pub name: &'static str,
    pub code: u64,
    pub sym: &'static str,
    pub fields: Vec<F>,
}

fn o(name: &'static str, ty: T) -> F {
    F { name, ty, mandatory: false, default: None }
}
fn m(name: &'static str, ty: T) -> F {
    F { name, ty, mandatory: true, default: None }
}
fn d(name: &'static str, ty: T, v: V) -> F {
    F { name, ty, mandatory: false, default: Some(v) }
}

pub const EXPIRY: &[&str] = &["link-detach", "session-end", "connection-close", "never"];
pub const PERFORMATIVES: &[&str] = &["open", "begin", "attach", "flow", "transfer", "disposition", "detach", "end", "close"];
pub const SASL: &[&str] = &["sasl-mechanisms", "sasl-init", "sasl-challenge", "sasl-response", "sasl-outcome"];
pub const STATES: &[&str] = &["received", "accepted", "rejected", "released", "modified"];
pub const OUTCOMES: &[&str] = &["accepted", "rejected", "released", "modified"];

pub const AMQP_ERRORS: &[&str] = &[
    "amqp:internal-error", "amqp:not-found", "amqp:unauthorized-access", "amqp:decode-error", "amqp:resource-limit-exceeded",
    "amqp:not-allowed", "amqp:invalid-field", "amqp:not-implemented", "amqp:resource-locked", "amqp:precondition-failed",
    "amqp:resource-deleted", "amqp:illegal-state", "amqp:frame-size-too-small",
];
pub const CONN_ERRORS: &[&str] = &["amqp:connection:forced", "amqp:connection:framing-error", "amqp:connection:redirect"];
pub const SESSION_ERRORS: &[&str] = &["amqp:session:window-violation", "amqp:session:errant-link", "amqp:session:handle-in-use", "amqp:session:unattached-handle"];
pub const LINK_ERRORS: &[&str] = &["amqp:link:detach-forced", "amqp:link:transfer-limit-exceeded", "amqp:link:message-size-exceeded", "amqp:link:redirect", "amqp:link:stolen"];

fn build() -> Vec<C> {
    let e = T::Comp("error");
    let durable = T::EnumU32(&[0, 1, 2]);
    let snd = T::EnumU8(&[0, 1, 2]);
    let rcv = T::EnumU8(&[0, 1]);
    let c = |name, code, sym, fields| C { name, code, sym, fields };
    vec![
        c("open", 0x10, "amqp:open:list", vec![
            m("container-id", T::Str), o("hostname", T::Str), d("max-frame-size", T::U32, U32(4294967295)), d("channel-max", T::U16, U16(65535)),
            o("idle-time-out", T::U32), o("outgoing-locales", T::Multi), o("incoming-locales", T::Multi),
            o("offered-capabilities", T::Multi), o("desired-capabilities", T::Multi), o("properties", T::Fields)]),
        c("begin", 0x11, "amqp:begin:list", vec![
            o("remote-channel", T::U16), m("next-outgoing-id", T::U32), m("incoming-window", T::U32), m("outgoing-window", T::U32),
            d("handle-max", T::U32, U32(4294967295)), o("offered-capabilities", T::Multi), o("desired-capabilities", T::Multi), o("properties", T::Fields)]),
        c("attach", 0x12, "amqp:attach:list", vec![
            m("name", T::Str), m("handle", T::U32), m("role", T::Bool), d("snd-settle-mode", snd, U8(2)), d("rcv-settle-mode", rcv, U8(0)),
            o("source", T::Comp("source")), o("target", T::Comp("target")), o("unsettled", T::Map), d("incomplete-unsettled", T::Bool, Bool(false)),
            o("initial-delivery-count", T::U32), o("max-message-size", T::U64), o("offered-capabilities", T::Multi), o("desired-capabilities", T::Multi), o("properties", T::Fields)]),
        c("flow", 0x13, "amqp:flow:list", vec![
            o("next-incoming-id", T::U32), m("incoming-window", T::U32), m("next-outgoing-id", T::U32), m("outgoing-window", T::U32), o("handle", T::U32),
            o("delivery-count", T::U32), o("link-credit", T::U32), o("available", T::U32), d("drain", T::Bool, Bool(false)), d("echo", T::Bool, Bool(false)), o("properties", T::Fields)]),
        c("transfer", 0x14, "amqp:transfer:list", vec![
            m("handle", T::U32), o("delivery-id", T::U32), o("delivery-tag", T::Bin), o("message-format", T::U32), o("settled", T::Bool), d("more", T::Bool, Bool(false)),
            o("rcv-settle-mode", rcv), o("state", T::State), d("resume", T::Bool, Bool(false)), d("aborted", T::Bool, Bool(false)), d("batchable", T::Bool, Bool(false))]),
        c("disposition", 0x15, "amqp:disposition:list", vec![
            m("role", T::Bool), m("first", T::U32), o("last", T::U32), d("settled", T::Bool, Bool(false)), o("state", T::State), d("batchable", T::Bool, Bool(false))]),
        c("detach", 0x16, "amqp:detach:list", vec![m("handle", T::U32), d("closed", T::Bool, Bool(false)), o("error", e)]),
        c("end", 0x17, "amqp:end:list", vec![o("error", e)]),
        c("close", 0x18, "amqp:close:list", vec![o("error", e)]),
        c("error", 0x1d, "amqp:error:list", vec![m("condition", T::Sym), o("description", T::Str), o("info", T::Fields)]),
        c("received", 0x23, "amqp:received:list", vec![m("section-number", T::U32), m("section-offset", T::U64)]),
        c("accepted", 0x24, "amqp:accepted:list", vec![]),
        c("rejected", 0x25, "amqp:rejected:list", vec![o("error", e)]),
        c("released", 0x26, "amqp:released:list", vec![]),
        c("modified", 0x27, "amqp:modified:list", vec![o("delivery-failed", T::Bool), o("undeliverable-here", T::Bool), o("message-annotations", T::Fields)]),
        c("source", 0x28, "amqp:source:list", vec![
            o("address", T::Str), d("durable", durable, U32(0)), d("expiry-policy", T::EnumSym(EXPIRY), V::sym("session-end")), d("timeout", T::U32, U32(0)),
            d("dynamic", T::Bool, Bool(false)), o("dynamic-node-properties", T::Fields), o("distribution-mode", T::Sym), o("filter", T::Filter),
            o("default-outcome", T::Outcome), o("outcomes", T::Multi), o("capabilities", T::Multi)]),
        c("target", 0x29, "amqp:target:list", vec![
            o("address", T::Str), d("durable", durable, U32(0)), d("expiry-policy", T::EnumSym(EXPIRY), V::sym("session-end")), d("timeout", T::U32, U32(0)),
            d("dynamic", T::Bool, Bool(false)), o("dynamic-node-properties", T::Fields), o("capabilities", T::Multi)]),
        c("sasl-mechanisms", 0x40, "amqp:sasl-mechanisms:list", vec![m("sasl-server-mechanisms", T::Multi)]),
        c("sasl-init", 0x41, "amqp:sasl-init:list", vec![m("mechanism", T::Sym), o("initial-response", T::Bin), o("hostname", T::Str)]),
        c("sasl-challenge", 0x42, "amqp:sasl-challenge:list", vec![m("challenge", T::Bin)]),
        c("sasl-response", 0x43, "amqp:sasl-response:list", vec![m("response", T::Bin)]),
        c("sasl-outcome", 0x44, "amqp:sasl-outcome:list", vec![m("code", T::EnumU8(&[0, 1, 2, 3, 4])), o("additional-data", T::Bin)]),
        c("header", 0x70, "amqp:header:list", vec![
            d("durable", T::Bool, Bool(false)), d("priority", T::U8, U8(4)), o("ttl", T::U32), d("first-acquirer", T::Bool, Bool(false)), d("delivery-count", T::U32, U32(0))]),
        c("properties", 0x73, "amqp:properties:list", vec![
            o("message-id", T::MsgId), o("user-id", T::Bin), o("to", T::Str), o("subject", T::Str), o("reply-to", T::Str), o("correlation-id", T::MsgId),
            o("content-type", T::Sym), o("content-encoding", T::Sym), o("absolute-expiry-time", T::Ts), o("creation-time", T::Ts),
            o("group-id", T::Str), o("group-sequence", T::U32), o("reply-to-group-id", T::Str)]),
    ]
}

pub fn all() -> &'static [C] {
    static A: std::sync::OnceLock<Vec<C>> = std::sync::OnceLock::new();
    A.get_or_init(|| build().into_iter().chain(crate::extra::comps()).collect())
}
pub fn comp(name: &str) -> &'static C {
    all().iter().find(|c| c.name == name).unwrap()
}
pub fn by_code(code: u64) -> Option<&'static C> {
    all().iter().find(|c| c.code == code)
}
pub fn by_sym(s: &str) -> Option<&'static C> {
    all().iter().find(|c| c.sym == s)
}

/// (descriptor code, symbol, name) of the message sections
pub const SECTIONS: &[(u64, &str, &str)] = &[
    (0x70, "amqp:header:list", "header"),
    (0x71, "amqp:delivery-annotations:map", "delivery-annotations"),
    (0x72, "amqp:message-annotations:map", "message-annotations"),
    (0x73, "amqp:properties:list", "properties"),
    (0x74, "amqp:application-properties:map", "application-properties"),
    (0x75, "amqp:data:binary", "data"),
    (0x76, "amqp:amqp-sequence:list", "amqp-sequence"),
    (0x77, "amqp:amqp-value:*", "amqp-value"),
    (0x78, "amqp:footer:map", "footer"),
];

/// Full form of a parsed composite: all fields, defaults filled in, multiples as arrays, numeric descriptor.
pub fn full(v: &V, want: &[&str]) -> Result<V, String> {
    let (d, l) = match v {
        Desc(d, l) => (d, l),
        x => return Err(format!("expected a composite, found {}", x.kind())),
    };
    let c = match &**d {
        U64(c) => by_code(*c),
        Sym(s) => by_sym(s),
        _ => None,
    }
    .ok_or_else(|| format!("unknown descriptor {}", crate::refm::show(d)))?;
    if !want.contains(&c.name) {
        return Err(format!("descriptor of {} where {:?} belongs", c.name, want));
    }
    let l = match &**l {
        List(l) => l,
        x => return Err(format!("{} is a {}", c.name, x.kind())),
    };
    if l.len() > c.fields.len() {
        return Err(format!("{}: {} fields", c.name, l.len()));
    }
    let mut out = vec![];
    for (i, f) in c.fields.iter().enumerate() {
        let x = l.get(i).unwrap_or(&Null);
        out.push(if *x == Null {
            if f.mandatory {
                return Err(format!("{}.{} missing", c.name, f.name));
            }
            f.default.clone().unwrap_or(Null)
        } else {
            field(x, f.ty).map_err(|e| format!("{}.{}: {}", c.name, f.name, e))?
        });
    }
    Ok(V::desc(c.code, List(out)))
}

fn field(x: &V, t: T) -> Result<V, String> {
    let bad = || Err(format!("{} for {:?}", x.kind(), t));
    match (t, x) {
        (T::Bool, Bool(_)) | (T::U8, U8(_)) | (T::U16, U16(_)) | (T::U32, U32(_)) | (T::U64, U64(_)) => Ok(x.clone()),
        (T::Bin, Bin(_)) | (T::Str, Str(_)) | (T::Sym, Sym(_)) | (T::Ts, Ts(_)) | (T::Map, Map(_)) => Ok(x.clone()),
        (T::MsgId, U64(_)) | (T::MsgId, Uuid(_)) | (T::MsgId, Bin(_)) | (T::MsgId, Str(_)) => Ok(x.clone()),
        (T::Multi, Sym(_)) => Ok(Arr(0xb3, vec![x.clone()])),
        (T::Multi, Arr(_, l)) if l.iter().all(|y| matches!(y, Sym(_))) => Ok(Arr(0xb3, l.clone())),
        (T::Fields, Map(m)) if m.iter().all(|(k, _)| matches!(k, Sym(_))) => Ok(x.clone()),
        (T::Filter, Map(m)) if m.iter().all(|(k, v)| matches!(k, Sym(_)) && matches!(v, Str(_) | Null)) => Ok(x.clone()),
        (T::EnumU8(a), U8(v)) if a.contains(v) => Ok(x.clone()),
        (T::EnumU16(a), U16(v)) if a.contains(v) => Ok(x.clone()),
        (T::EnumU32(a), U32(v)) if a.contains(v) => Ok(x.clone()),
        (T::EnumU64(a), U64(v)) if a.contains(v) => Ok(x.clone()),
        (T::Uuid, Uuid(_)) => Ok(x.clone()),
        (T::EnumSym(a), Sym(v)) if a.contains(&&v[..]) => Ok(x.clone()),
        (T::Comp(n), Desc(..)) => full(x, &[n]),
        (T::State, Desc(..)) => full(x, STATES),
        (T::Outcome, Desc(..)) => full(x, OUTCOMES),
        _ => bad(),
    }
}
