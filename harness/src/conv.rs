//! Views of the crate's types as reference values, and construction from them.
use crate::refm::V::{self, *};
use amqp_codec::protocol as p;
use amqp_codec::types as t;
use amqp_codec::{AmqpFrame, Decode, Encode, InMessage, MessageBody, OutMessage, SaslFrame};
use bytes::{Bytes, BytesMut};
use chrono::{DateTime, TimeZone, Utc};
use hashbrown::HashMap;
use ordered_float::OrderedFloat;
use std::cell::{Cell, RefCell};
use std::collections::HashMap as StdMap;
use std::hash::Hash;

pub trait View {
    fn v(&self) -> V;
}
pub trait FromV: Sized {
    fn fv(v: &V) -> Self;
}
pub fn fv<T: FromV>(v: &V) -> T {
    T::fv(v)
}

thread_local! {
    /// 0: shared strings, 1: static, 2: alternating
    static STATIC_MODE: Cell<u8> = Cell::new(0);
    static FLIP: Cell<bool> = Cell::new(false);
    static INTERN: RefCell<StdMap<String, &'static str>> = RefCell::new(StdMap::new());
}
pub fn set_static_mode(m: u8) {
    STATIC_MODE.with(|s| s.set(m));
    FLIP.with(|f| f.set(false));
}
pub fn intern(s: &str) -> &'static str {
    INTERN.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(x) = m.get(s) {
            return *x;
        }
        let x: &'static str = Box::leak(s.to_string().into_boxed_str());
        m.insert(s.to_string(), x);
        x
    })
}
fn use_static(s: &str) -> bool {
    if s.len() > 80 {
        return false;
    }
    match STATIC_MODE.with(|m| m.get()) {
        0 => false,
        1 => true,
        _ => FLIP.with(|f| {
            f.set(!f.get());
            f.get()
        }),
    }
}

macro_rules! prim {
    ($($t:ty => $v:ident),*) => { $(
        impl View for $t { fn v(&self) -> V { $v(*self) } }
        impl FromV for $t { fn fv(v: &V) -> Self { match v { $v(x) => *x, o => panic!("harness: {:?} for {}", o, stringify!($t)) } } }
    )* };
}
prim!(bool => Bool, u8 => U8, u16 => U16, u32 => U32, u64 => U64, i8 => I8, i16 => I16, i32 => I32, i64 => I64);

impl View for f32 {
    fn v(&self) -> V {
        F32(self.to_bits())
    }
}
impl FromV for f32 {
    fn fv(v: &V) -> Self {
        match v {
            F32(x) => f32::from_bits(*x),
            o => panic!("harness {:?}", o),
        }
    }
}
impl View for f64 {
    fn v(&self) -> V {
        F64(self.to_bits())
    }
}
impl FromV for f64 {
    fn fv(v: &V) -> Self {
        match v {
            F64(x) => f64::from_bits(*x),
            o => panic!("harness {:?}", o),
        }
    }
}
impl View for char {
    fn v(&self) -> V {
        Char(*self as u32)
    }
}
impl FromV for char {
    fn fv(v: &V) -> Self {
        match v {
            Char(x) => char::from_u32(*x).unwrap(),
            o => panic!("harness {:?}", o),
        }
    }
}
/// Milliseconds of an instant by chrono's own calendar arithmetic, floor.
pub fn millis_of(d: &DateTime<Utc>) -> i64 {
    let s = d.timestamp();
    let n = d.timestamp_subsec_nanos();
    s * 1000 + (n / 1_000_000) as i64
}
impl View for DateTime<Utc> {
    fn v(&self) -> V {
        // an instant that is not a whole millisecond, or a leap second, is not a decoded timestamp
        Ts(millis_of(self))
    }
}
impl FromV for DateTime<Utc> {
    fn fv(v: &V) -> Self {
        match v {
            Ts(x) => Utc.timestamp_millis_opt(*x).single().expect("harness: instant out of range"),
            o => panic!("harness {:?}", o),
        }
    }
}
impl View for uuid::Uuid {
    fn v(&self) -> V {
        Uuid(*self.as_bytes())
    }
}
impl FromV for uuid::Uuid {
    fn fv(v: &V) -> Self {
        match v {
            Uuid(x) => uuid::Uuid::from_slice(x).unwrap(),
            o => panic!("harness {:?}", o),
        }
    }
}
impl View for Bytes {
    fn v(&self) -> V {
        Bin(self.to_vec())
    }
}
impl FromV for Bytes {
    fn fv(v: &V) -> Self {
        match v {
            Bin(x) => Bytes::from(&x[..]),
            o => panic!("harness {:?}", o),
        }
    }
}
impl View for str {
    fn v(&self) -> V {
        Str(self.to_string())
    }
}
impl<'a, T: View + ?Sized> View for &'a T {
    fn v(&self) -> V {
        (**self).v()
    }
}
impl View for t::ByteStr {
    fn v(&self) -> V {
        let s: &str = &*self;
        Str(s.to_string())
    }
}
impl FromV for t::ByteStr {
    fn fv(v: &V) -> Self {
        match v {
            Str(x) => t::ByteStr::from_str(x),
            o => panic!("harness {:?}", o),
        }
    }
}
impl View for t::Str {
    fn v(&self) -> V {
        let s: &str = match self {
            t::Str::ByteStr(s) => &*s,
            t::Str::Static(s) => s,
        };
        Str(s.to_string())
    }
}
pub fn mk_str(s: &str) -> t::Str {
    if use_static(s) {
        t::Str::Static(intern(s))
    } else {
        t::Str::ByteStr(t::ByteStr::from_str(s))
    }
}
impl FromV for t::Str {
    fn fv(v: &V) -> Self {
        match v {
            Str(x) => mk_str(x),
            o => panic!("harness {:?}", o),
        }
    }
}
impl View for t::Symbol {
    fn v(&self) -> V {
        match self.0.v() {
            Str(s) => Sym(s),
            _ => unreachable!(),
        }
    }
}
impl FromV for t::Symbol {
    fn fv(v: &V) -> Self {
        match v {
            Sym(x) => t::Symbol(mk_str(x)),
            o => panic!("harness {:?}", o),
        }
    }
}
impl View for t::StaticSymbol {
    fn v(&self) -> V {
        Sym(self.0.to_string())
    }
}
impl<T: View> View for Option<T> {
    fn v(&self) -> V {
        match self {
            None => Null,
            Some(x) => x.v(),
        }
    }
}
impl<T: FromV> FromV for Option<T> {
    fn fv(v: &V) -> Self {
        match v {
            Null => None,
            x => Some(T::fv(x)),
        }
    }
}
/// widest format code of a Rust element type
pub trait ElemFmt {
    const FMT: u8;
}
macro_rules! elem { ($($t:ty => $c:expr),*) => { $(impl ElemFmt for $t { const FMT: u8 = $c; })* } }
elem!(bool => 0x56, u8 => 0x50, u16 => 0x60, u32 => 0x70, u64 => 0x80, i8 => 0x51, i16 => 0x61, i32 => 0x71, i64 => 0x81,
      f32 => 0x72, f64 => 0x82, char => 0x73, DateTime<Utc> => 0x83, uuid::Uuid => 0x98, Bytes => 0xb0, t::ByteStr => 0xb1, t::Symbol => 0xb3,
      HashMap<t::Variant, t::Variant> => 0xd1);
impl<T: View + ElemFmt> View for Vec<T> {
    fn v(&self) -> V {
        Arr(T::FMT, self.iter().map(|x| x.v()).collect())
    }
}
impl<T: FromV> FromV for Vec<T> {
    fn fv(v: &V) -> Self {
        match v {
            Arr(_, l) => l.iter().map(T::fv).collect(),
            o => panic!("harness {:?}", o),
        }
    }
}
impl<T: View + ElemFmt> View for t::Multiple<T> {
    fn v(&self) -> V {
        self.0.v()
    }
}
impl<T: FromV> FromV for t::Multiple<T> {
    fn fv(v: &V) -> Self {
        t::Multiple(Vec::fv(v))
    }
}
impl<K: View + Eq + Hash, X: View, S: std::hash::BuildHasher> View for HashMap<K, X, S> {
    fn v(&self) -> V {
        Map(self.iter().map(|(k, x)| (k.v(), x.v())).collect())
    }
}
impl<K: FromV + Eq + Hash, X: FromV, S: std::hash::BuildHasher + Default> FromV for HashMap<K, X, S> {
    fn fv(v: &V) -> Self {
        match v {
            Map(m) => {
                let mut h = HashMap::default();
                for (k, x) in m {
                    h.insert(K::fv(k), X::fv(x));
                }
                h
            }
            o => panic!("harness {:?}", o),
        }
    }
}
impl View for t::VecVariantMap {
    fn v(&self) -> V {
        Map(self.0.iter().map(|(k, x)| (k.v(), x.v())).collect())
    }
}
impl FromV for t::VecVariantMap {
    fn fv(v: &V) -> Self {
        match v {
            Map(m) => t::VecVariantMap(m.iter().map(|(k, x)| (fv(k), fv(x))).collect()),
            o => panic!("harness {:?}", o),
        }
    }
}
impl View for t::List {
    fn v(&self) -> V {
        List(self.0.iter().map(|x| x.v()).collect())
    }
}
impl FromV for t::List {
    fn fv(v: &V) -> Self {
        match v {
            List(l) => t::List(l.iter().map(fv).collect()),
            o => panic!("harness {:?}", o),
        }
    }
}
impl View for t::Descriptor {
    fn v(&self) -> V {
        match self {
            t::Descriptor::Ulong(x) => U64(*x),
            t::Descriptor::Symbol(s) => s.v(),
        }
    }
}
impl FromV for t::Descriptor {
    fn fv(v: &V) -> Self {
        match v {
            U64(x) => t::Descriptor::Ulong(*x),
            x => t::Descriptor::Symbol(fv(x)),
        }
    }
}
impl View for t::Variant {
    fn v(&self) -> V {
        use t::Variant as R;
        match self {
            R::Null => Null,
            R::Boolean(x) => x.v(),
            R::Ubyte(x) => x.v(),
            R::Ushort(x) => x.v(),
            R::Uint(x) => x.v(),
            R::Ulong(x) => x.v(),
            R::Byte(x) => x.v(),
            R::Short(x) => x.v(),
            R::Int(x) => x.v(),
            R::Long(x) => x.v(),
            R::Float(x) => x.0.v(),
            R::Double(x) => x.0.v(),
            R::Char(x) => x.v(),
            R::Timestamp(x) => x.v(),
            R::Uuid(x) => x.v(),
            R::Binary(x) => x.v(),
            R::String(x) => x.v(),
            R::Symbol(x) => x.v(),
            R::StaticSymbol(x) => x.v(),
            R::List(x) => x.v(),
            R::Map(x) => x.map.v(),
            R::Described(d) => Desc(Box::new(d.0.v()), Box::new(d.1.v())),
        }
    }
}
impl FromV for t::Variant {
    fn fv(v: &V) -> Self {
        use t::Variant as R;
        match v {
            Null => R::Null,
            Bool(x) => R::Boolean(*x),
            U8(x) => R::Ubyte(*x),
            U16(x) => R::Ushort(*x),
            U32(x) => R::Uint(*x),
            U64(x) => R::Ulong(*x),
            I8(x) => R::Byte(*x),
            I16(x) => R::Short(*x),
            I32(x) => R::Int(*x),
            I64(x) => R::Long(*x),
            F32(x) => R::Float(OrderedFloat(f32::from_bits(*x))),
            F64(x) => R::Double(OrderedFloat(f64::from_bits(*x))),
            Char(_) => R::Char(fv(v)),
            Ts(_) => R::Timestamp(fv(v)),
            Uuid(_) => R::Uuid(fv(v)),
            Bin(_) => R::Binary(fv(v)),
            Str(_) => R::String(fv(v)),
            Sym(s) => {
                if STATIC_MODE.with(|m| m.get()) == 2 && use_static(s) {
                    R::StaticSymbol(t::StaticSymbol(intern(s)))
                } else {
                    R::Symbol(fv(v))
                }
            }
            List(_) => R::List(fv(v)),
            Map(_) => R::Map(t::VariantMap::new(fv(v))),
            Desc(d, x) => R::Described((fv(d), Box::new(fv(x)))),
            Arr(..) => panic!("harness: array as variant"),
        }
    }
}

// ---- enumerations ----
macro_rules! enums {
    ($($t:ident { $($k:ident => $v:expr),* })*) => { $(
        impl View for p::$t { fn v(&self) -> V { match self { $(p::$t::$k => $v),* } } }
        impl FromV for p::$t { fn fv(v: &V) -> Self { $(if *v == $v { return p::$t::$k; })* panic!("harness: {:?} for {}", v, stringify!($t)) } }
        impl $crate::conv::Items for p::$t { fn items() -> Vec<(Self, V)> { vec![$((p::$t::$k, $v)),*] } }
    )* };
}
pub trait Items: Sized {
    fn items() -> Vec<(Self, V)>;
}
fn sy(s: &str) -> V {
    V::sym(s)
}
enums! {
    Role { Sender => Bool(false), Receiver => Bool(true) }
    SenderSettleMode { Unsettled => U8(0), Settled => U8(1), Mixed => U8(2) }
    ReceiverSettleMode { First => U8(0), Second => U8(1) }
    TerminusDurability { None => U32(0), Configuration => U32(1), UnsettledState => U32(2) }
    SaslCode { Ok => U8(0), Auth => U8(1), Sys => U8(2), SysPerm => U8(3), SysTemp => U8(4) }
    TerminusExpiryPolicy { LinkDetach => sy("link-detach"), SessionEnd => sy("session-end"), ConnectionClose => sy("connection-close"), Never => sy("never") }
    AmqpError {
        InternalError => sy("amqp:internal-error"), NotFound => sy("amqp:not-found"), UnauthorizedAccess => sy("amqp:unauthorized-access"),
        DecodeError => sy("amqp:decode-error"), ResourceLimitExceeded => sy("amqp:resource-limit-exceeded"), NotAllowed => sy("amqp:not-allowed"),
        InvalidField => sy("amqp:invalid-field"), NotImplemented => sy("amqp:not-implemented"), ResourceLocked => sy("amqp:resource-locked"),
        PreconditionFailed => sy("amqp:precondition-failed"), ResourceDeleted => sy("amqp:resource-deleted"), IllegalState => sy("amqp:illegal-state"),
        FrameSizeTooSmall => sy("amqp:frame-size-too-small")
    }
    ConnectionError { ConnectionForced => sy("amqp:connection:forced"), FramingError => sy("amqp:connection:framing-error"), Redirect => sy("amqp:connection:redirect") }
    SessionError {
        WindowViolation => sy("amqp:session:window-violation"), ErrantLink => sy("amqp:session:errant-link"),
        HandleInUse => sy("amqp:session:handle-in-use"), UnattachedHandle => sy("amqp:session:unattached-handle")
    }
    LinkError {
        DetachForced => sy("amqp:link:detach-forced"), TransferLimitExceeded => sy("amqp:link:transfer-limit-exceeded"),
        MessageSizeExceeded => sy("amqp:link:message-size-exceeded"), Redirect => sy("amqp:link:redirect"), Stolen => sy("amqp:link:stolen")
    }
}

impl View for p::ErrorCondition {
    fn v(&self) -> V {
        use p::ErrorCondition as E;
        match self {
            E::AmqpError(x) => x.v(),
            E::ConnectionError(x) => x.v(),
            E::SessionError(x) => x.v(),
            E::LinkError(x) => x.v(),
            E::Custom(x) => x.v(),
        }
    }
}
impl FromV for p::ErrorCondition {
    fn fv(v: &V) -> Self {
        use crate::schema as s;
        use p::ErrorCondition as E;
        match v {
            Sym(x) if s::AMQP_ERRORS.contains(&&x[..]) => E::AmqpError(fv(v)),
            Sym(x) if s::CONN_ERRORS.contains(&&x[..]) => E::ConnectionError(fv(v)),
            Sym(x) if s::SESSION_ERRORS.contains(&&x[..]) => E::SessionError(fv(v)),
            Sym(x) if s::LINK_ERRORS.contains(&&x[..]) => E::LinkError(fv(v)),
            x => E::Custom(fv(x)),
        }
    }
}
impl View for p::DistributionMode {
    fn v(&self) -> V {
        match self {
            p::DistributionMode::Move => sy("move"),
            p::DistributionMode::Copy => sy("copy"),
            p::DistributionMode::Custom(x) => x.v(),
        }
    }
}
impl FromV for p::DistributionMode {
    fn fv(v: &V) -> Self {
        match v {
            Sym(x) if x == "move" => p::DistributionMode::Move,
            Sym(x) if x == "copy" => p::DistributionMode::Copy,
            x => p::DistributionMode::Custom(fv(x)),
        }
    }
}
impl View for p::MessageId {
    fn v(&self) -> V {
        match self {
            p::MessageId::Ulong(x) => x.v(),
            p::MessageId::Uuid(x) => x.v(),
            p::MessageId::Binary(x) => x.v(),
            p::MessageId::String(x) => x.v(),
        }
    }
}
impl FromV for p::MessageId {
    fn fv(v: &V) -> Self {
        match v {
            U64(x) => p::MessageId::Ulong(*x),
            Uuid(_) => p::MessageId::Uuid(fv(v)),
            Bin(_) => p::MessageId::Binary(fv(v)),
            x => p::MessageId::String(fv(x)),
        }
    }
}

// ---- composites ----
/// Field accessors report the fields.
pub trait Acc {
    fn acc(&self) -> Result<(), String>;
}
macro_rules! comps {
    ($($t:ident $code:literal [$($f:ident),*] { $($extra:tt)* })*) => { $(
        impl View for p::$t {
            fn v(&self) -> V { V::desc($code, List(vec![$(View::v(&self.$f)),*])) }
        }
        impl FromV for p::$t {
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn fv(v: &V) -> Self {
                let l = match v { Desc(_, l) => match &**l { List(l) => l.clone(), _ => panic!("harness") }, _ => panic!("harness") };
                let mut i = 0;
                $(let $f = fv(&l[i]); i += 1;)*
                p::$t { $($f,)* $($extra)* }
            }
        }
        impl Acc for p::$t {
            fn acc(&self) -> Result<(), String> {
                $(if View::v(&self.$f()) != View::v(&self.$f) { return Err(format!("accessor {}::{} gives {:?}", stringify!($t), stringify!($f), View::v(&self.$f()))); })*
                Ok(())
            }
        }
    )* };
}
comps! {
    Open 0x10 [container_id, hostname, max_frame_size, channel_max, idle_time_out, outgoing_locales, incoming_locales, offered_capabilities, desired_capabilities, properties] {}
    Begin 0x11 [remote_channel, next_outgoing_id, incoming_window, outgoing_window, handle_max, offered_capabilities, desired_capabilities, properties] {}
    Attach 0x12 [name, handle, role, snd_settle_mode, rcv_settle_mode, source, target, unsettled, incomplete_unsettled, initial_delivery_count, max_message_size, offered_capabilities, desired_capabilities, properties] {}
    Flow 0x13 [next_incoming_id, incoming_window, next_outgoing_id, outgoing_window, handle, delivery_count, link_credit, available, drain, echo, properties] {}
    Transfer 0x14 [handle, delivery_id, delivery_tag, message_format, settled, more, rcv_settle_mode, state, resume, aborted, batchable] { body: None }
    Disposition 0x15 [role, first, last, settled, state, batchable] {}
    Detach 0x16 [handle, closed, error] {}
    End 0x17 [error] {}
    Close 0x18 [error] {}
    Error 0x1d [condition, description, info] {}
    Received 0x23 [section_number, section_offset] {}
    Accepted 0x24 [] {}
    Rejected 0x25 [error] {}
    Released 0x26 [] {}
    Modified 0x27 [delivery_failed, undeliverable_here, message_annotations] {}
    Source 0x28 [address, durable, expiry_policy, timeout, dynamic, dynamic_node_properties, distribution_mode, filter, default_outcome, outcomes, capabilities] {}
    Target 0x29 [address, durable, expiry_policy, timeout, dynamic, dynamic_node_properties, capabilities] {}
    SaslMechanisms 0x40 [sasl_server_mechanisms] {}
    SaslInit 0x41 [mechanism, initial_response, hostname] {}
    SaslChallenge 0x42 [challenge] {}
    SaslResponse 0x43 [response] {}
    SaslOutcome 0x44 [code, additional_data] {}
    Header 0x70 [durable, priority, ttl, first_acquirer, delivery_count] {}
    Properties 0x73 [message_id, user_id, to, subject, reply_to, correlation_id, content_type, content_encoding, absolute_expiry_time, creation_time, group_id, group_sequence, reply_to_group_id] {}
}
pub fn code_of(v: &V) -> u64 {
    match v {
        Desc(d, _) => match &**d {
            U64(c) => *c,
            _ => panic!("harness: symbolic"),
        },
        _ => panic!("harness: not described"),
    }
}
macro_rules! unions {
    ($($t:ident { $($k:ident $code:literal),* })*) => { $(
        impl View for p::$t { fn v(&self) -> V { match self { $(p::$t::$k(x) => View::v(x),)* #[allow(unreachable_patterns)] _ => Null } } }
        impl FromV for p::$t { fn fv(v: &V) -> Self { match code_of(v) { $($code => p::$t::$k(fv(v)),)* c => panic!("harness: {} for {}", c, stringify!($t)) } } }
        impl Acc for p::$t { fn acc(&self) -> Result<(), String> { match self { $(p::$t::$k(x) => Acc::acc(x),)* #[allow(unreachable_patterns)] _ => Ok(()) } } }
    )* };
}
unions! {
    DeliveryState { Received 0x23, Accepted 0x24, Rejected 0x25, Released 0x26, Modified 0x27 }
    Outcome { Accepted 0x24, Rejected 0x25, Released 0x26, Modified 0x27 }
    SaslFrameBody { SaslMechanisms 0x40, SaslInit 0x41, SaslChallenge 0x42, SaslResponse 0x43, SaslOutcome 0x44 }
    Frame { Open 0x10, Begin 0x11, Attach 0x12, Flow 0x13, Transfer 0x14, Disposition 0x15, Detach 0x16, End 0x17, Close 0x18 }
}

impl View for p::Section {
    fn v(&self) -> V {
        use p::Section as S;
        match self {
            S::Header(x) => x.v(),
            S::DeliveryAnnotations(x) => V::desc(0x71, x.v()),
            S::MessageAnnotations(x) => V::desc(0x72, x.v()),
            S::Properties(x) => x.v(),
            S::ApplicationProperties(x) => V::desc(0x74, x.v()),
            S::Data(x) => V::desc(0x75, x.v()),
            S::AmqpSequence(x) => V::desc(0x76, x.v()),
            S::AmqpValue(x) => V::desc(0x77, x.v()),
            S::Footer(x) => V::desc(0x78, x.v()),
        }
    }
}
impl FromV for p::Section {
    fn fv(v: &V) -> Self {
        use p::Section as S;
        let inner = match v {
            Desc(_, x) => &**x,
            _ => panic!("harness"),
        };
        match code_of(v) {
            0x70 => S::Header(fv(v)),
            0x71 => S::DeliveryAnnotations(fv(inner)),
            0x72 => S::MessageAnnotations(fv(inner)),
            0x73 => S::Properties(fv(v)),
            0x74 => S::ApplicationProperties(fv(inner)),
            0x75 => S::Data(fv(inner)),
            0x76 => S::AmqpSequence(fv(inner)),
            0x77 => S::AmqpValue(fv(inner)),
            0x78 => S::Footer(fv(inner)),
            c => panic!("harness: section {}", c),
        }
    }
}

// ---- frames ----
#[derive(Clone, Debug, PartialEq)]
pub struct FrameV {
    pub channel: u16,
    /// None: empty frame
    pub perf: Option<V>,
    pub payload: Vec<u8>,
}
pub fn body_bytes(b: &p::TransferBody) -> Vec<u8> {
    enc_of(b).1
}
pub fn view_frame(f: &AmqpFrame) -> FrameV {
    let (perf, payload) = match f.performative() {
        p::Frame::Empty => (None, vec![]),
        p::Frame::Transfer(t) => (Some(t.v()), t.body.as_ref().map(body_bytes).unwrap_or_default()),
        x => (Some(x.v()), vec![]),
    };
    FrameV { channel: f.channel_id(), perf, payload }
}
pub fn make_frame(f: &FrameV) -> AmqpFrame {
    let perf = match &f.perf {
        None => p::Frame::Empty,
        Some(v) => {
            let mut x: p::Frame = fv(v);
            if let p::Frame::Transfer(ref mut t) = x {
                if !f.payload.is_empty() {
                    t.body = Some(p::TransferBody::Data(Bytes::from(&f.payload[..])));
                }
            }
            x
        }
    };
    AmqpFrame::new(f.channel, perf)
}
pub fn frames_same(what: &str, a: &FrameV, b: &FrameV) -> Result<(), String> {
    if a.channel != b.channel {
        return Err(format!("{}: channel {} expected {}", what, a.channel, b.channel));
    }
    match (&a.perf, &b.perf) {
        (None, None) => {}
        (Some(x), Some(y)) => crate::refm::same(what, x, y)?,
        (x, y) => return Err(format!("{}: performative {:?} expected {:?}", what, x.is_some(), y.is_some())),
    }
    if a.payload != b.payload {
        return Err(format!("{}: payload of {} bytes differs from {} bytes sent", what, a.payload.len(), b.payload.len()));
    }
    Ok(())
}
pub fn make_sasl(v: &V) -> SaslFrame {
    SaslFrame::new(fv(v))
}

// ---- messages ----
#[derive(Clone, Debug, PartialEq, Default)]
pub struct MV {
    pub header: Option<V>,
    pub da: Option<V>,
    pub ma: Option<V>,
    pub props: Option<V>,
    pub ap: Option<V>,
    pub data: Vec<Vec<u8>>,
    pub seq: Vec<V>,
    pub value: Option<V>,
    pub footer: Option<V>,
}
impl MV {
    pub fn body_empty(&self) -> bool {
        self.data.is_empty() && self.seq.is_empty() && self.value.is_none()
    }
    /// what travels: a body-less message carries one empty data section
    pub fn on_wire(&self) -> MV {
        let mut m = self.clone();
        if m.body_empty() {
            m.data.push(vec![]);
        }
        m
    }
    pub fn sections(&self) -> Vec<V> {
        let mut o = vec![];
        o.extend(self.header.clone());
        o.extend(self.da.clone().map(|x| V::desc(0x71, x)));
        o.extend(self.ma.clone().map(|x| V::desc(0x72, x)));
        o.extend(self.props.clone());
        o.extend(self.ap.clone().map(|x| V::desc(0x74, x)));
        o.extend(self.data.iter().map(|x| V::desc(0x75, Bin(x.clone()))));
        o.extend(self.seq.iter().map(|x| V::desc(0x76, x.clone())));
        o.extend(self.value.iter().map(|x| V::desc(0x77, x.clone())));
        o.extend(self.footer.clone().map(|x| V::desc(0x78, x)));
        o
    }
    pub fn show(&self) -> String {
        self.sections().iter().map(|s| crate::refm::show(s)).collect::<Vec<_>>().join(" ")
    }
}
pub fn mv_same(what: &str, a: &MV, b: &MV) -> Result<(), String> {
    let o = |n: &str, x: &Option<V>, y: &Option<V>| -> Result<(), String> {
        match (x, y) {
            (None, None) => Ok(()),
            (Some(x), Some(y)) => crate::refm::same(&format!("{} {}", what, n), x, y),
            (x, y) => Err(format!("{}: {} present={} expected={}", what, n, x.is_some(), y.is_some())),
        }
    };
    o("header", &a.header, &b.header)?;
    o("delivery-annotations", &a.da, &b.da)?;
    o("message-annotations", &a.ma, &b.ma)?;
    o("properties", &a.props, &b.props)?;
    o("application-properties", &a.ap, &b.ap)?;
    o("value", &a.value, &b.value)?;
    o("footer", &a.footer, &b.footer)?;
    if a.data.len() != b.data.len() || a.seq.len() != b.seq.len() {
        return Err(format!("{}: {} data sections and {} sequences, expected {} and {}", what, a.data.len(), a.seq.len(), b.data.len(), b.seq.len()));
    }
    for (i, (x, y)) in a.data.iter().zip(&b.data).enumerate() {
        if x != y {
            return Err(format!("{}: data section {} differs ({} bytes, expected {})", what, i, x.len(), y.len()));
        }
    }
    for (x, y) in a.seq.iter().zip(&b.seq) {
        crate::refm::same(&format!("{} sequence", what), x, y)?;
    }
    Ok(())
}
/// Strictly parse a message; sections in the specified order.
pub fn parse_message(mut b: &[u8]) -> Result<MV, String> {
    let mut m = MV::default();
    let mut last = 0;
    while !b.is_empty() {
        let (v, r) = crate::refm::parse(b)?;
        b = r;
        let (d, x) = match &v {
            Desc(d, x) => (d, (**x).clone()),
            _ => return Err("section is not described".into()),
        };
        let code = match &**d {
            U64(c) => *c,
            Sym(s) => crate::schema::SECTIONS.iter().find(|x| x.1 == s).map(|x| x.0).unwrap_or(0),
            _ => 0,
        };
        let order = match code {
            0x70..=0x74 => code,
            0x75..=0x77 => 0x75,
            0x78 => code,
            _ => return Err(format!("section descriptor {:#x}", code)),
        };
        if order < last || (order == last && order != 0x75) {
            return Err(format!("section {:#x} out of order", code));
        }
        last = order;
        let map = |x: V, sym: bool| -> Result<V, String> {
            match &x {
                Map(m) if m.iter().all(|(k, _)| if sym { matches!(k, Sym(_)) } else { matches!(k, Str(_)) }) => Ok(x),
                x => Err(format!("section {:#x} holds {}", code, crate::refm::show(x))),
            }
        };
        match code {
            0x70 => m.header = Some(crate::schema::full(&v, &["header"])?),
            0x71 => m.da = Some(map(x, true)?),
            0x72 => m.ma = Some(map(x, true)?),
            0x73 => m.props = Some(crate::schema::full(&v, &["properties"])?),
            0x74 => m.ap = Some(map(x, false)?),
            0x75 => match x {
                Bin(b) => m.data.push(b),
                x => return Err(format!("data section holds a {}", x.kind())),
            },
            0x76 => match x {
                List(_) => m.seq.push(x),
                x => return Err(format!("sequence section holds a {}", x.kind())),
            },
            0x77 => {
                if m.value.is_some() {
                    return Err("two value sections".into());
                }
                m.value = Some(x)
            }
            _ => m.footer = Some(map(x, true)?),
        }
    }
    Ok(m)
}

/// What the two message kinds share.
pub trait Msg: Encode + Decode + Clone + PartialEq + Default + std::fmt::Debug {
    const NAME: &'static str;
    fn header(&self) -> Option<&p::Header>;
    fn set_header(self, h: p::Header) -> Self;
    fn properties(&self) -> Option<&p::Properties>;
    fn set_properties<F: Fn(&mut p::Properties)>(self, f: F) -> Self;
    /// (key, value) pairs as reported by the getters, looked up for `keys`
    fn app(&self, keys: &[String]) -> Vec<(String, V)>;
    /// exact order known?
    const ORDERED: bool;
    fn set_app<K: Into<t::Str>, X: Into<t::Variant>>(self, k: K, v: X) -> Self;
    fn update<F: Fn(Self) -> Self>(self, f: F) -> Self;
    fn if_some<T, F: Fn(Self, &T) -> Self>(self, v: &Option<T>, f: F) -> Self;
    fn body(&self) -> &MessageBody;
    fn value(&self) -> Option<&t::Variant>;
    fn set_value<X: Into<t::Variant>>(self, v: X) -> Self;
    fn set_body<F: Fn(&mut MessageBody)>(self, f: F) -> Self;
    fn with_body(b: Bytes) -> Self;
    fn with_messages(m: Vec<p::TransferBody>) -> Self;
    fn reply(&self) -> OutMessage;
    fn into_body(self) -> p::TransferBody;
    fn format(&self) -> Option<u32>;
    fn set_format(&mut self, f: Option<u32>);
}
macro_rules! msg {
    ($t:ident, $name:expr, $ord:expr, $app:expr) => {
        impl Msg for $t {
            const NAME: &'static str = $name;
            const ORDERED: bool = $ord;
            fn header(&self) -> Option<&p::Header> { $t::header(self) }
            fn set_header(self, h: p::Header) -> Self { $t::set_header(self, h) }
            fn properties(&self) -> Option<&p::Properties> { $t::properties(self) }
            fn set_properties<F: Fn(&mut p::Properties)>(self, f: F) -> Self { $t::set_properties(self, f) }
            fn app(&self, keys: &[String]) -> Vec<(String, V)> { let f: fn(&$t, &[String]) -> Vec<(String, V)> = $app; f(self, keys) }
            fn set_app<K: Into<t::Str>, X: Into<t::Variant>>(self, k: K, v: X) -> Self { $t::set_app_property(self, k, v) }
            fn update<F: Fn(Self) -> Self>(self, f: F) -> Self { $t::update(self, f) }
            fn if_some<T, F: Fn(Self, &T) -> Self>(self, v: &Option<T>, f: F) -> Self { $t::if_some(self, v, f) }
            fn body(&self) -> &MessageBody { $t::body(self) }
            fn value(&self) -> Option<&t::Variant> { $t::value(self) }
            fn set_value<X: Into<t::Variant>>(self, v: X) -> Self { $t::set_value(self, v) }
            fn set_body<F: Fn(&mut MessageBody)>(self, f: F) -> Self { $t::set_body(self, f) }
            fn with_body(b: Bytes) -> Self { $t::with_body(b) }
            fn with_messages(m: Vec<p::TransferBody>) -> Self { $t::with_messages(m) }
            fn reply(&self) -> OutMessage { $t::reply_message(self) }
            fn into_body(self) -> p::TransferBody { self.into() }
            fn format(&self) -> Option<u32> { self.message_format }
            fn set_format(&mut self, f: Option<u32>) { self.message_format = f }
        }
    };
}
msg!(InMessage, "InMessage", false, |m, keys| {
    keys.iter().filter_map(|k| m.app_property(k).map(|v| (k.clone(), v.v()))).collect()
});
msg!(OutMessage, "OutMessage", true, |m, _| {
    m.app_properties().map(|l| l.iter().map(|(k, v)| (k.as_str().to_string(), v.v())).collect()).unwrap_or_default()
});

/// Message content through the public getters (annotations and footers have none).
pub fn view_msg<M: Msg>(m: &M, keys: &[String]) -> MV {
    let app = m.app(keys);
    MV {
        header: m.header().map(|h| h.v()),
        da: None,
        ma: None,
        props: m.properties().map(|x| x.v()),
        ap: if app.is_empty() { None } else { Some(Map(app.into_iter().map(|(k, v)| (Str(k), v)).collect())) },
        data: m.body().data.iter().map(|b| b.to_vec()).collect(),
        seq: m.body().sequence.iter().map(|l| l.v()).collect(),
        value: m.body().value.as_ref().map(|v| v.v()),
        footer: None,
    }
}
/// Build through the public builder interface (no annotations or footers there).
pub fn build_msg<M: Msg>(mv: &MV) -> M {
    let mut m = M::default();
    if let Some(h) = &mv.header {
        m = m.set_header(fv(h));
    }
    if let Some(x) = &mv.props {
        let x: p::Properties = fv(x);
        m = m.set_properties(|q| *q = x.clone());
    }
    if let Some(Map(l)) = &mv.ap {
        for (k, x) in l {
            let k: t::Str = fv(k);
            let x: t::Variant = fv(x);
            m = m.set_app(k, x);
        }
    }
    if !mv.data.is_empty() || !mv.seq.is_empty() {
        m = m.set_body(|b| {
            b.data = mv.data.iter().map(|d| Bytes::from(&d[..])).collect();
            b.sequence = mv.seq.iter().map(|l| fv(l)).collect();
        });
    }
    if let Some(x) = &mv.value {
        m = m.set_value(fv::<t::Variant>(x));
    }
    m
}

// ---- encoding helpers ----
/// (announced size, bytes written)
pub fn enc_of<T: Encode + ?Sized>(x: &T) -> (usize, Vec<u8>) {
    let n = x.encoded_size();
    let mut b = BytesMut::with_capacity(n + 256);
    x.encode(&mut b);
    (n, b.to_vec())
}
/// decode; returns how many bytes were left and checks the remainder is the tail of the input
pub fn dec<T: Decode>(b: &[u8]) -> Result<(T, usize), String> {
    match T::decode(b) {
        Err(e) => Err(format!("{:?}", e)),
        Ok((r, x)) => {
            if r.len() > b.len() || &b[b.len() - r.len()..] != r {
                return Err("remainder is not the tail of the input".into());
            }
            Ok((x, r.len()))
        }
    }
}
