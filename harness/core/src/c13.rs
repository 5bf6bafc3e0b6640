//! C13: conversion between value encodings.
use crate::c08::{self, Gen};
use crate::refc::*;
use aldrin_core::message::*;
use aldrin_core::*;
use std::borrow::Cow;

fn version() -> ProtocolVersion {
    ProtocolVersion::new(sym::u32("major"), sym::u32("minor"))
}

fn valid(v: ProtocolVersion) -> bool {
    (v.major() == 1) & (v.minor() >= 14) & (v.minor() <= 20)
}

/// Everything the property says about one conversion of `b`.
pub fn judge(b: &[u8], from: Option<ProtocolVersion>, to: ProtocolVersion) {
    let s = raw(b);
    let (ok, utf8, v2) = match scan(b) {
        Some((k, u, v2)) => (k == b.len(), u, v2),
        None => (false, false, false),
    };
    let r = (*s).convert(from, to);
    // the in-place variant does the same
    let mut t = raw(b);
    let r2 = t.convert(from, to);
    sym::check(r.is_ok() == r2.is_ok(), "in-place conversion differs");

    let old = |v: ProtocolVersion| v.minor() < 20;
    if !(from.is_none_or(valid) && valid(to)) {
        sym::check(r.is_err(), "conversion with an unknown version succeeded");
        sym::check(t[..] == *b, "failed conversion changed its input");
        sym::cover("bad version");
        return;
    }
    let down = old(to) && !from.is_some_and(old);
    sym::log(down as u64);
    let Ok(c) = r else {
        sym::check(!(ok && utf8), "conversion of a well-formed value failed");
        // whatever is not an UTF-8 problem has to be an ill-formed value
        sym::check(!ok || !utf8, "conversion failed for another reason");
        sym::check(t[..] == *b, "failed conversion changed its input");
        return;
    };
    sym::check(c[..] == t[..], "in-place conversion yields other bytes");
    if !down {
        sym::check(c[..] == *b, "conversion to the same or a newer epoch changed the value");
        sym::cover("unchanged");
        return;
    }
    if !ok {
        return;
    }
    sym::cover("converted");
    let Some((k, u, w2)) = scan(&c) else {
        sym::check(false, "converted value is ill-formed");
        return;
    };
    sym::check(k == c.len(), "converted value has trailing data");
    sym::check(!w2, "converted value contains a new container encoding");
    sym::check(u == utf8, "conversion changed the text");
    if !v2 {
        sym::check(c[..] == *b || !canonical(b), "conversion changed a legacy value");
    }
    match (s.deserialize_as_value(), c.deserialize_as_value()) {
        (Ok(v), Ok(w)) => sym::check(same(&v, &w), "converted value decodes to another value"),
        (Err(_), Err(_)) => sym::check(!utf8, "well-formed value not decodable"),
        _ => sym::check(false, "decodability changed by conversion"),
    }
    // twice is once
    let c = match c {
        Cow::Owned(c) => c,
        Cow::Borrowed(c) => c.to_owned(),
    };
    for f in [from, None, Some(to)] {
        match (*c).convert(f, to) {
            Ok(d) => sym::check(d[..] == c[..], "converting twice differs from converting once"),
            Err(_) => sym::check(false, "converting twice failed"),
        }
    }
}

/// does not matter for values with overlong integers
fn canonical(b: &[u8]) -> bool {
    match raw(b).deserialize_as_value() {
        Ok(v) => encode(&v, &mut || true, 8)[..] == *b,
        Err(_) => false,
    }
}

fn versions() -> (Option<ProtocolVersion>, ProtocolVersion) {
    let from = (sym::choice(2, "from") == 1).then(version);
    (from, version())
}

/// downward conversion to some old version, from every form of "new"
fn down() -> (Option<ProtocolVersion>, ProtocolVersion) {
    let to = ProtocolVersion::new(1, 14 + sym::choice(6, "to") as u32);
    let from = [None, Some(ProtocolVersion::V1_20)][sym::choice(2, "from")];
    (from, to)
}

/// all versions, known and unknown
pub fn all_versions() {
    let v = match sym::choice(4, "shape") {
        0 => leaf(sym::choice(LEAVES, "leaf"), 1),
        1 => flat(sym::choice(FLATS, "flat"), 1, 1),
        2 => nest(sym::choice(NESTS, "nest"), 1, 1, &mut || Value::U8(sym::u8("u8"))),
        _ => nest(2, 1, 1, &mut || flat(0, 1, 1)),
    };
    let legacy = sym::choice(2, "legacy") == 1;
    let b = encode(&v, &mut || legacy, 1);
    let (from, to) = versions();
    // a value is never newer than the version it is said to be from
    sym::assume(legacy || from.is_none_or(|f| f.minor() >= 20));
    judge(&b, from, to);
}

fn mixed() -> impl FnMut() -> bool {
    || sym::choice(2, "legacy") == 1
}

pub fn flats() {
    let k = sym::choice(FLATS, "flat");
    let n = sym::choice(3, "n");
    let v = flat(k, n, 1);
    let chunk = if k == 0 { 1 + sym::choice(2, "chunk") } else { 8 };
    let legacy = sym::bool("legacy");
    let b = encode(&v, &mut || legacy, chunk);
    let to = ProtocolVersion::new(1, [14, 19, 20][sym::choice(3, "to")]);
    judge(&b, None, to);
}

pub fn one(slen: usize) {
    let k = sym::choice(NESTS, "nest");
    let n = if k < 2 { 1 } else { sym::choice(3, "n") };
    let v = nest(k, n, slen, &mut || match sym::choice(3, "small") {
        0 => Value::None,
        1 => Value::U16(sym::u16("u16")),
        _ => flat(sym::choice(2, "flat"), 1, 1),
    });
    let b = encode(&v, &mut mixed(), 1);
    judge(&b, None, ProtocolVersion::V1_14);
}

pub fn two() {
    let a = sym::choice(NESTS, "outer");
    let b = sym::choice(NESTS, "inner");
    let l = sym::choice(LEAVES + FLATS, "leaf");
    gen::FIXED.set([1, 0xf0][sym::choice(2, "pattern")]);
    let v = nest(a, 1, 1, &mut || {
        nest(b, 2, 1, &mut || {
            if l < LEAVES {
                leaf(l, 1)
            } else {
                flat(l - LEAVES, 2, 1)
            }
        })
    });
    let e = encode(&v, &mut mixed(), 1);
    judge(&e, None, ProtocolVersion::V1_19);
}

pub fn deep() {
    let d = 1 + sym::choice(34, "depth");
    let f = sym::choice(NESTS, "filler");
    let x = sym::choice(NESTS, "inner");
    let leaf = sym::choice(4, "leaf");
    let legacy = sym::choice(2, "legacy") == 1;
    let mut v = match leaf {
        0 => Value::U8(sym::u8("u8")),
        1 => Value::Bytes(Bytes(vec![1, 2])),
        2 => Value::Vec(vec![]),
        _ => Value::U16Set(std::iter::once(300).collect()),
    };
    for i in 1..d {
        v = crate::c01::wrap(if i == 1 { x } else { f }, v);
    }
    // depths alternate between the encodings
    let mut l = legacy;
    let e = encode(
        &v,
        &mut || {
            l = !l;
            l
        },
        1,
    );
    judge(&e, None, ProtocolVersion::V1_14);
}

/// arbitrary bytes
pub fn any(n: usize) {
    let b = sym::vec(n, "buf");
    judge(&b, None, ProtocolVersion::V1_14);
}

/// the message level interface converts the payload and nothing else
pub fn messages() {
    let k = sym::choice(c08::KINDS as usize, "kind") as u8;
    let v = match sym::choice(3, "value") {
        0 => flat(0, 1, 1),
        1 => nest(3, 1, 1, &mut || Value::None),
        _ => Value::U8(sym::u8("u8")),
    };
    let b = encode(&v, &mut || false, 8);
    let mut g = Gen { body: vec![], val: Some(b.clone()), thin: true };
    let m = g.message(k);
    let (from, to) = versions();
    sym::assume(from.is_none_or(|f| f.minor() >= 20));
    let expect = (*raw(&b)).convert(from, to).map(|c| c.to_vec());
    let mut c = m.clone();
    let r = c.convert_value(from, to);
    if m.value().is_none() {
        sym::check(r.is_ok() && c == m, "message without payload changed");
        return;
    }
    sym::cover("payload");
    match (r, expect) {
        (Ok(()), Ok(e)) => {
            sym::check(c.value().is_some_and(|x| x[..] == e[..]), "payload not converted");
            // put the old payload back: nothing else may have changed
            *c.value_mut().unwrap() = raw(&b);
            sym::check(c == m, "conversion changed another field");
        }
        (Err(_), Err(_)) => sym::check(c == m, "failed conversion changed the message"),
        _ => sym::check(false, "message conversion differs from value conversion"),
    }
}

/// lengths of several bytes; byte strings in chunks
pub fn large() {
    let v = crate::refc::large();
    let chunk = match &v {
        Value::Bytes(_) => [255, 251, 252, 256, 100_000][sym::choice(5, "chunk")],
        _ => 100_000,
    };
    let v = if sym::bool("nested") { Value::Vec(vec![v, Value::None]) } else { v };
    let legacy = sym::bool("legacy");
    let b = encode(&v, &mut || legacy, chunk);
    let to = ProtocolVersion::new(1, [14, 19, 20][sym::choice(3, "to")]);
    judge(&b, None, to);
}
