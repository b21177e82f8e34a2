//! C25: the types of a generated specification.
use crate::conv::*;
use crate::engine::{Ctx, Res};
use crate::extra;
use crate::gen as g;
use crate::kinds;
use crate::refm::V::{self, *};
use crate::refm::{enc_compact, parse_all, same, show};
use crate::schema as sc;
use crate::src::Src;
use bytes::BytesMut;

fn comps() -> &'static [&'static str] {
    thread_local! { static N: &'static [&'static str] = Box::leak(extra::comps().iter().map(|c| c.name).collect::<Vec<_>>().into_boxed_slice()); }
    N.with(|n| *n)
}
fn enums() -> &'static [(&'static str, Vec<V>)] {
    thread_local! { static N: &'static [(&'static str, Vec<V>)] = Box::leak(extra::enum_values().into_boxed_slice()); }
    N.with(|n| *n)
}
type Unions = &'static [(&'static str, Vec<(u64, &'static str, Option<&'static str>)>)];
fn unions() -> Unions {
    thread_local! { static N: Unions = Box::leak(extra::unions().into_boxed_slice()); }
    N.with(|n| *n)
}

/// encoding of one value, and back
fn out_and_back(k: &kinds::Kind, v: &V) -> Result<Vec<u8>, String> {
    let (n, b) = (k.enc)(v);
    if n != b.len() {
        return Err(format!("{}: announces {} bytes and writes {} for {}", k.name, n, b.len(), show(v)));
    }
    let w = parse_all(&b).map_err(|e| format!("{}: malformed encoding ({}) of {}", k.name, e, show(v)))?;
    let (x, left) = (k.dec)(&b).map_err(|e| format!("{}: own encoding rejected ({}): {}", k.name, e, show(v)))?;
    if left != 0 {
        return Err(format!("{}: {} bytes of its own encoding left: {}", k.name, left, show(v)));
    }
    same(&format!("{} decoded again", k.name), &x, v)?;
    let mut buf = BytesMut::with_capacity(n + 1);
    buf.extend_from_slice(&b[..1]);
    let (n1, n2) = (k.append)(v, &mut buf);
    if n1 != n || n2 != n || buf[1..] != b[..] && !has_map(v) {
        return Err(format!("{}: encoding again gives something else", k.name));
    }
    match &w {
        Desc(..) | Sym(_) | U8(_) | U16(_) | U32(_) | U64(_) | Bool(_) => {}
        w => return Err(format!("{}: encoded as a {}", k.name, w.kind())),
    }
    Ok(b)
}
fn has_map(v: &V) -> bool {
    match v {
        Map(_) => true,
        List(l) | Arr(_, l) => l.iter().any(has_map),
        Desc(_, x) => has_map(x),
        _ => false,
    }
}
fn comp_case(s: &mut Src, ctx: &mut Ctx, name: &str) -> Res {
    let c = sc::comp(name);
    let v = g::comp(s, name);
    ctx.nontrivial = !c.fields.is_empty();
    ctx.label(match c.fields.len() {
        0 => "composite without fields",
        1..=3 => "composite of up to 3 fields",
        4..=20 => "composite of up to 20 fields",
        _ => "composite of 200 and more fields",
    });
    ctx.desc(|| format!("{} {}", name, show(&v)));
    let k = kinds::by_name(name);
    let b = out_and_back(k, &v)?;
    let w = parse_all(&b)?;
    match &w {
        Desc(d, _) if **d == U64(c.code) => {}
        w => return Err(format!("{}: descriptor of {}, expected {:#x}", name, show(w), c.code)),
    }
    same(&format!("{} as read by its specification", name), &sc::full(&w, &[name])?, &v)?;
    (k.acc)(&v)?;
    let p = g::peer(s, &v);
    let mut b = vec![];
    g::enc_free(s, &p, &mut b);
    let tail = s.below(4) as usize;
    b.extend(std::iter::repeat(0x40).take(tail));
    let (x, left) = (k.dec)(&b).map_err(|e| format!("{}: {} rejected: {}", name, show(&p), e))?;
    same(&format!("{} from {}", name, show(&p)), &x, &v)?;
    if left != tail {
        return Err(format!("{}: {} bytes left of {} following", name, left, tail));
    }
    Ok(())
}
fn descriptor_ok(name: &str, members: &[(u64, &str)], d: &V, body: &V) -> Res {
    let want = match d {
        U64(c) => members.iter().any(|m| m.0 == *c),
        Sym(t) => members.iter().any(|m| m.1 == t),
        _ => false,
    };
    if want {
        return Ok(()); // judged by the other cases
    }
    let b = enc_compact(&Desc(Box::new(d.clone()), Box::new(body.clone())));
    match (kinds::by_name(name).dec)(&b) {
        Ok((v, _)) => Err(format!("{} accepts descriptor {} as {}", name, show(d), show(&v))),
        Err(_) => Ok(()),
    }
}
fn strange(s: &mut Src, near: (u64, &str)) -> V {
    match s.below(7) {
        0 => U64(s.int(64)),
        1 => U64(near.0 ^ (1u64 << s.below(64))),
        2 => U64(near.0 & 0xffff_ffff),
        3 => U64(near.0 & 0xff),
        4 => Sym(g::near(s, &[near.1])),
        5 => Sym(g::symbol(s, 300)),
        _ => {
            let c = &sc::all()[s.idx(sc::all().len())];
            if s.bool() {
                U64(c.code)
            } else {
                V::sym(c.sym)
            }
        }
    }
}
fn body_of(v: &V) -> V {
    match v {
        Desc(_, x) => (**x).clone(),
        x => x.clone(),
    }
}
pub fn c25(s: &mut Src, ctx: &mut Ctx) -> Res {
    set_static_mode(0);
    if comps().is_empty() {
        return Ok(());
    }
    s.budget = 20_000;
    match s.weighted(&[6, 5, 2, 2, 2]) {
        0 => {
            let name = comps()[s.idx(comps().len())];
            comp_case(s, ctx, name)
        }
        1 => {
            let name = comps()[s.idx(comps().len())];
            super::frames::c16_of(s, ctx, name)
        }
        2 => {
            let (name, vals) = &enums()[s.idx(enums().len())];
            let v = match s.below(5) {
                0 => U64(s.int(64)),
                1 => U32(s.int(32) as u32),
                2 => {
                    let k = s.below(g::SCALARS);
                    g::scalar_of(s, k, 300)
                }
                3 => vals[s.idx(vals.len())].clone(),
                _ => match &vals[s.idx(vals.len())] {
                    Sym(t) => Sym(g::near(s, &[&t[..]])),
                    U8(x) => U8(x ^ (1 << s.below(8))),
                    U16(x) => U16(x ^ (1 << s.below(16))),
                    U32(x) => U32(x ^ (1 << s.below(32))),
                    U64(x) => U64(x ^ (1 << s.below(64))),
                    x => x.clone(),
                },
            };
            ctx.label("choice");
            ctx.nontrivial = true;
            ctx.desc(|| format!("{} given {}", name, show(&v)));
            let mut b = vec![];
            g::enc_free(s, &v, &mut b);
            choice(name, vals, &v, &b)
        }
        3 => {
            let (name, members) = &unions()[s.idx(unions().len())];
            let k = kinds::by_name(name);
            let v = (k.gen)(s);
            ctx.label("group");
            ctx.nontrivial = true;
            ctx.desc(|| format!("{} {}", name, show(&v)));
            let b = out_and_back(k, &v)?;
            let w = parse_all(&b)?;
            let m = members.iter().find(|m| m.0 == code_of(&v)).unwrap();
            let w2 = match m.2 {
                Some(n) => sc::full(&w, &[n])?,
                None => w,
            };
            same(&format!("{} as read by its specification", name), &w2, &v)?;
            // as a peer may write it
            let p = match m.2 {
                Some(_) => g::peer(s, &v),
                None => Desc(Box::new(if s.bool() { V::sym(m.1) } else { U64(m.0) }), Box::new(body_of(&v))),
            };
            let mut b = vec![];
            g::enc_free(s, &p, &mut b);
            let (x, left) = (k.dec)(&b).map_err(|e| format!("{}: {} rejected: {}", name, show(&p), e))?;
            if left != 0 {
                return Err(format!("{}: {} bytes left", name, left));
            }
            same(&format!("{} from {}", name, show(&p)), &x, &v)
        }
        _ => {
            ctx.label("other descriptor");
            ctx.nontrivial = true;
            if s.chance(70) {
                let name = comps()[s.idx(comps().len())];
                let c = sc::comp(name);
                let v = g::comp(s, name);
                let d = strange(s, (c.code, c.sym));
                ctx.desc(|| format!("{} given descriptor {}", name, show(&d)));
                descriptor_ok(name, &[(c.code, c.sym)], &d, &body_of(&v))
            } else {
                let (name, members) = &unions()[s.idx(unions().len())];
                let v = (kinds::by_name(name).gen)(s);
                let m = &members[s.idx(members.len())];
                let d = strange(s, (m.0, m.1));
                let all: Vec<(u64, &str)> = members.iter().map(|m| (m.0, m.1)).collect();
                ctx.desc(|| format!("{} given descriptor {}", name, show(&d)));
                descriptor_ok(name, &all, &d, &body_of(&v))
            }
        }
    }
}
fn choice(name: &str, vals: &[V], v: &V, b: &[u8]) -> Res {
    let r = (kinds::by_name(name).dec)(b);
    match (vals.contains(v), r) {
        (true, Ok((x, 0))) if x == *v => Ok(()),
        (false, Err(_)) => Ok(()),
        (true, r) => Err(format!("{} reads {} as {:?}", name, show(v), r.map(|x| show(&x.0)))),
        (false, Ok((x, _))) => Err(format!("{} accepts {} as {}", name, show(v), show(&x))),
    }
}
pub fn c25_lists(ctx: &mut Ctx) -> Res {
    let small: Vec<&str> = comps().iter().cloned().filter(|n| sc::comp(n).fields.len() < 60).collect();
    super::frames::c16_lists_of(ctx, &small)
}
pub fn c25_fixed(ctx: &mut Ctx) -> Res {
    for (name, vals) in enums() {
        let k = kinds::by_name(name);
        for v in vals {
            let b = out_and_back(k, v)?;
            same(name, &parse_all(&b)?, v)?;
            ctx.sub += 1;
        }
        for x in 0..=300u64 {
            for v in [U64(x), U32(x as u32), U16(x as u16), U8(x as u8)] {
                choice(name, vals, &v, &enc_compact(&v))?;
            }
        }
        for (_, other) in enums() {
            for v in other {
                choice(name, vals, v, &enc_compact(v))?;
                ctx.sub += 1;
            }
        }
    }
    // every descriptor there is, to every composite and group
    let codes: Vec<(u64, &str)> = sc::all().iter().map(|c| (c.code, c.sym)).chain(unions().iter().flat_map(|u| u.1.iter().map(|m| (m.0, m.1)))).collect();
    let mut readers: Vec<(&str, Vec<(u64, &str)>)> = comps().iter().map(|n| (*n, vec![(sc::comp(n).code, sc::comp(n).sym)])).collect();
    readers.extend(unions().iter().map(|u| (u.0, u.1.iter().map(|m| (m.0, m.1)).collect())));
    for (name, members) in &readers {
        for (c, t) in &codes {
            for d in [U64(*c), U64(*c & 0xffff_ffff), U64(*c & 0xff), V::sym(t)] {
                for body in [List(vec![]), Null, Bin(vec![1]), Map(vec![])] {
                    descriptor_ok(name, members, &d, &body)?;
                    ctx.sub += 1;
                }
            }
        }
    }
    Ok(())
}
