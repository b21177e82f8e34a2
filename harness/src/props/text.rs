//! C19: text and value comparisons.
use crate::conv::*;
use crate::engine::{Ctx, Res};
use crate::gen as g;
use crate::refm::V::{self, *};
use crate::refm::show;
use crate::src::Src;
use amqp_codec::types as t;
use hashbrown::HashMap;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::collections::HashMap as StdMap;
use std::hash::{Hash, Hasher};

fn h<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut d = DefaultHasher::new();
    x.hash(&mut d);
    d.finish()
}
fn forms(s: &str) -> Vec<t::Str> {
    let mut o = vec![t::Str::from_str(s), t::Str::ByteStr(t::ByteStr::from_str(s)), t::Str::from(t::ByteStr::from_str(s))];
    if s.len() <= 80 {
        let st = intern(s);
        o.push(t::Str::Static(st));
        o.push(t::Str::from(st));
    }
    o
}
fn sforms(s: &str) -> Vec<t::Symbol> {
    let mut o = vec![t::Symbol::from_slice(s), t::Symbol::from(t::ByteStr::from_str(s))];
    if s.len() <= 80 {
        let st = intern(s);
        o.push(t::Symbol::from(st));
        o.push(t::Symbol(t::Str::Static(st)));
    }
    o
}
fn variation(s: &mut Src, a: &str) -> String {
    match s.weighted(&[3, 1, 1, 1, 2]) {
        0 => a.to_string(),
        1 => format!("{}x", a),
        2 => {
            let mut b = a.to_string();
            b.pop();
            b
        }
        3 => a.to_uppercase(),
        _ => g::text(s, 300),
    }
}
pub fn c19(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.weighted(&[4, 6, 2]) {
        0 => {
            let a = g::text(s, 300);
            let b = variation(s, &a);
            let c = variation(s, &b);
            ctx.label(if a == b { "equal texts" } else { "different texts" });
            ctx.nontrivial = !a.is_empty();
            ctx.desc(|| format!("{:?} {:?} {:?}", a, b, c));
            texts(&a, &b)?;
            texts(&b, &c)?;
            texts(&a, &c)?;
            lookup(&[&a, &b, &c])
        }
        1 => {
            let a = if s.bool() { g::value(s, 4) } else { g::compound(s, 4) };
            let b = if s.chance(40) { alter(s, &a) } else { a.clone() };
            ctx.label(a.kind());
            ctx.nontrivial = a.is_compound() || a != b;
            ctx.desc(|| format!("{} / {}", show(&a), show(&b)));
            values(&a, &b)
        }
        _ => {
            // any values as keys
            let mut l: Vec<V> = vec![];
            for _ in 0..1 + s.below(6) {
                let v = g::value(s, 3);
                l.push(v.clone());
                if s.bool() {
                    l.push(alter(s, &v));
                }
            }
            ctx.label("as map keys");
            ctx.nontrivial = true;
            ctx.desc(|| l.iter().map(show).collect::<Vec<_>>().join(" | "));
            as_keys(&l)
        }
    }
}
fn texts(a: &str, b: &str) -> Res {
    for x in forms(a) {
        let w = format!("Str {:?} ({})", a, if let t::Str::Static(_) = x { "static" } else { "shared" });
        if x.as_str() != a || x.as_bytes() != a.as_bytes() || x.len() != a.len() || &*x.as_bytes_str() != a {
            return Err(format!("{}: text accessors differ", w));
        }
        let y: &str = x.borrow();
        if y != a || h(&x) != h(a) {
            return Err(format!("{}: does not hash or borrow like its text", w));
        }
        if (x == *b) != (a == b) {
            return Err(format!("{} == {:?} is {}", w, b, x == *b));
        }
        for y in forms(b) {
            if (x == y) != (a == b) {
                return Err(format!("{} == {:?} is {}", w, b, x == y));
            }
            if (x != y) != (a != b) {
                return Err(format!("{} != {:?} is {}", w, b, x != y));
            }
            if x.cmp(&y) != a.cmp(b) || x.partial_cmp(&y) != Some(a.cmp(b)) {
                return Err(format!("{} cmp {:?} ({}) is {:?}", w, b, if let t::Str::Static(_) = y { "static" } else { "shared" }, x.cmp(&y)));
            }
            if (x < y) != (a < b) || (x >= y) != (a >= b) {
                return Err(format!("{} < {:?}", w, b));
            }
            if x == y && h(&x) != h(&y) {
                return Err(format!("{}: equal texts hash differently", w));
            }
            let (vx, vy) = (t::Variant::from(x.clone()), t::Variant::from(y.clone()));
            if (vx == vy) != (a == b) || (a == b && h(&vx) != h(&vy)) {
                return Err(format!("string values of {:?} and {:?} compare {}", a, b, vx == vy));
            }
        }
        let v = t::Variant::from(x.clone());
        if v.as_str() != Some(a) || v.as_bytes_str().map(|s| s.to_string()) != Some(a.to_string()) || (v == *b) != (a == b) {
            return Err(format!("string value {:?}: text accessors differ", a));
        }
        if a == b && x.clone().cmp(&x) != Ordering::Equal {
            return Err("reflexivity".into());
        }
    }
    if let (Some(x), Some(y)) = (stat(a), stat(b)) {
        let x = t::Variant::from(x);
        if (x == t::Variant::from(t::ByteStr::from_str(b))) != (a == b) || (x == *y) != (a == b) {
            return Err(format!("values of {:?} and {:?}", a, b));
        }
    }
    for x in sforms(a) {
        if x.as_str() != a || x.as_bytes() != a.as_bytes() || x.len() != a.len() || &*x.as_bytes_str() != a {
            return Err(format!("symbol {:?}: text accessors differ", a));
        }
        let y: &str = x.borrow();
        if y != a || h(&x) != h(a) {
            return Err(format!("symbol {:?}: does not hash or borrow like its text", a));
        }
        if (x == *b) != (a == b) {
            return Err(format!("symbol {:?} == {:?} is {}", a, b, x == *b));
        }
        for y in sforms(b) {
            if (x == y) != (a == b) || (a == b && h(&x) != h(&y)) {
                return Err(format!("symbols {:?} and {:?} compare or hash inconsistently", a, b));
            }
        }
        let v = t::Variant::from(x.clone());
        if v.as_str() != Some(a) || (v == *b) != (a == b) || v.as_bytes_str().map(|s| s.to_string()) != Some(a.to_string()) {
            return Err(format!("symbol value {:?}: text accessors differ", a));
        }
    }
    Ok(())
}
fn stat(a: &str) -> Option<&'static str> {
    if a.len() <= 80 {
        Some(intern(a))
    } else {
        None
    }
}
fn lookup(l: &[&str]) -> Res {
    for rot in 0..2 {
        let mut m: HashMap<t::Str, usize> = HashMap::new();
        let mut f: StdMap<t::Symbol, usize> = StdMap::new();
        let mut b: BTreeMap<t::Str, usize> = BTreeMap::new();
        let mut want: StdMap<&str, usize> = StdMap::new();
        for (i, x) in l.iter().enumerate() {
            let fs = forms(x);
            let k = fs[(i * 3 + rot * 2) % fs.len()].clone();
            m.insert(k.clone(), i);
            b.insert(k, i);
            let fs = sforms(x);
            f.insert(fs[(i + rot) % fs.len()].clone(), i);
            want.insert(x, i);
        }
        if m.len() != want.len() || f.len() != want.len() || b.len() != want.len() {
            return Err(format!("maps over {:?} hold {} {} {} entries", l, m.len(), f.len(), b.len()));
        }
        for x in l {
            let w = want.get(x);
            if m.get(*x) != w || f.get(*x) != w || b.get(*x) != w {
                return Err(format!("lookup of {:?} by text", x));
            }
            for k in forms(x) {
                if m.get(&k) != w || b.get(&k) != w {
                    return Err(format!("lookup of {:?} by string", x));
                }
            }
        }
    }
    Ok(())
}
/// The same value: rebuilt with other storage and other insertion order; or a slightly different one.
fn alter(s: &mut Src, v: &V) -> V {
    match v {
        Map(m) => {
            let mut m = m.clone();
            match s.below(4) {
                0 => m.reverse(),
                1 if !m.is_empty() => {
                    let i = s.idx(m.len());
                    m.rotate_left(i);
                    if s.bool() {
                        let x = alter(s, &m[0].1);
                        m[0].1 = x;
                    }
                }
                2 => {
                    m.pop();
                }
                _ => {}
            }
            Map(m)
        }
        List(l) => {
            let mut l = l.clone();
            if !l.is_empty() {
                let i = s.idx(l.len());
                let x = alter(s, &l[i]);
                l[i] = x;
            }
            List(l)
        }
        Desc(d, x) => Desc(d.clone(), Box::new(alter(s, x))),
        F32(0) => F32(0x8000_0000),
        F32(x) if x & 0x7fff_ffff > 0x7f80_0000 => F32(0x7fc0_0000 | (s.below(1 << 16) as u32)),
        F64(0) => F64(1 << 63),
        F64(x) if x & !(1 << 63) > 0x7ff << 52 => F64((0x7ff8 << 48) | s.below(1 << 16)),
        Str(a) => {
            let a = a.clone();
            if s.bool() {
                Sym(a)
            } else {
                Str(variation(s, &a))
            }
        }
        U32(x) => match s.below(3) {
            0 => I32(*x as i32),
            1 => U64(*x as u64),
            _ => U32(x ^ 1),
        },
        Null => List(vec![]),
        x => x.clone(),
    }
}
fn build(v: &V, mode: u8) -> t::Variant {
    set_static_mode(mode);
    fv(v)
}
fn values(a: &V, b: &V) -> Res {
    let (x, y, z) = (build(a, 0), build(b, 1), build(a, 1));
    if !(x == z && z == x) {
        return Err(format!("{} built twice differs from itself", show(a)));
    }
    if h(&x) != h(&z) {
        return Err(format!("{} built twice hashes differently", show(a)));
    }
    if (x == y) != (y == x) {
        return Err("equality is not symmetric".into());
    }
    // the keys' identity is an independent notion of equality
    let want = g::ckey(a) == g::ckey(b);
    if (x == y) != want {
        return Err(format!("{} and {} compare {}", show(a), show(b), x == y));
    }
    if x == y && h(&x) != h(&y) {
        return Err(format!("equal values hash differently: {} and {}", show(a), show(b)));
    }
    let c = x.clone();
    if !(c == x) || h(&c) != h(&x) {
        return Err("a clone differs".into());
    }
    Ok(())
}
fn as_keys(l: &[V]) -> Res {
    let mut m: HashMap<t::Variant, usize> = HashMap::new();
    let mut f: StdMap<t::Variant, usize> = StdMap::new();
    let mut want: StdMap<Vec<u8>, usize> = StdMap::new();
    for (i, v) in l.iter().enumerate() {
        m.insert(build(v, (i % 2) as u8), i);
        f.insert(build(v, ((i + 1) % 2) as u8), i);
        want.insert(g::ckey(v), i);
    }
    if m.len() != want.len() || f.len() != want.len() {
        return Err(format!("{} distinct keys, maps hold {} and {}", want.len(), m.len(), f.len()));
    }
    for v in l {
        for mode in 0..2 {
            let k = build(v, mode);
            let w = want.get(&g::ckey(v));
            if m.get(&k) != w || f.get(&k) != w {
                return Err(format!("key {} is not found", show(v)));
            }
        }
    }
    // two maps with the same entries, differently filled
    let entries: Vec<(V, V)> = g::dedup(l.iter().map(|v| (v.clone(), Null)).collect());
    let mut r = entries.clone();
    r.reverse();
    values(&Map(entries.clone()), &Map(r))?;
    let mut small = hashbrown::HashMap::new();
    let mut large = hashbrown::HashMap::with_capacity(500);
    for (k, _) in &entries {
        small.insert(build(k, 0), t::Variant::Null);
        large.insert(build(k, 0), t::Variant::Null);
    }
    let (a, b) = (t::Variant::Map(t::VariantMap::new(small)), t::Variant::Map(t::VariantMap::new(large)));
    if a != b || h(&a) != h(&b) {
        return Err("equal maps of different capacity differ or hash differently".into());
    }
    Ok(())
}
pub fn c19_fixed(_: &mut Ctx) -> Res {
    let w = ["", "a", "b", "B", "aa", "é", "e", "z", "\u{10000}", "\u{ffff}", "amqp:open:list", "a\0", "a\0b"];
    for a in &w {
        for b in &w {
            texts(a, b)?;
        }
    }
    lookup(&w)?;
    let m = Map(vec![(V::s("a"), U32(1)), (V::s("b"), U32(2))]);
    let n = Map(vec![(V::s("b"), U32(2)), (V::s("a"), U32(1))]);
    values(&m, &n)?;
    values(&Map(vec![(m.clone(), Null)]), &Map(vec![(n.clone(), Null)]))?;
    values(&List(vec![m.clone(), F32(0)]), &List(vec![n, F32(0x8000_0000)]))?;
    as_keys(&[m.clone(), List(vec![m]), Map(vec![]), List(vec![]), Null])
}
