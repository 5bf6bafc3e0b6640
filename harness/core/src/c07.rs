//! C07: decoding untrusted bytes is total; skip, measure, split and decode agree.
use crate::refc::*;
use aldrin_core::*;
use std::cell::RefCell;

thread_local! {
    static OUT: RefCell<Probe> = const { RefCell::new(Probe { len: None, dec: None, skip: None, split: None }) };
}

#[derive(Default)]
struct Probe {
    len: Option<Option<usize>>,
    dec: Option<Option<Value>>,
    skip: Option<bool>,
    split: Option<Option<Vec<u8>>>,
}

struct Measure;
impl Deserialize<tags::Value> for Measure {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let r = d.len();
        OUT.with(|o| o.borrow_mut().len = Some(r.ok()));
        Ok(Measure)
    }
}
struct Decode;
impl Deserialize<tags::Value> for Decode {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let r = d.deserialize::<tags::Value, Value>();
        OUT.with(|o| o.borrow_mut().dec = Some(r.ok()));
        Ok(Decode)
    }
}
struct Skip;
impl Deserialize<tags::Value> for Skip {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let r = d.skip();
        OUT.with(|o| o.borrow_mut().skip = Some(r.is_ok()));
        Ok(Skip)
    }
}
struct Split;
impl Deserialize<tags::Value> for Split {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let r = d.split_off_serialized_value().map(|s| s.to_vec());
        OUT.with(|o| o.borrow_mut().split = Some(r.ok()));
        Ok(Split)
    }
}

/// `top` is Ok(()) if nothing was left over behind the probe
fn trailing(r: Result<(), DeserializeError>) -> bool {
    matches!(r, Err(DeserializeError::TrailingData))
}

/// All observable outcomes on `b` against the reference recogniser.
pub fn agree(b: &[u8]) {
    let s = raw(b);
    let n = b.len();
    let live = sym::alloc_reset(1024 * n as u64 + 16384);

    let r = scan(b);
    let (acc, k, utf8) = match r {
        Some((k, u, _)) => (true, k, u),
        None => (false, 0, false),
    };

    // full decoding
    let top = s.deserialize_as::<tags::Value, Decode>().map(drop);
    let dec = OUT.with(|o| o.borrow_mut().dec.take()).flatten();
    sym::check(
        dec.is_some() == (acc && utf8),
        "decoding accepts a malformed value or rejects a well-formed one",
    );
    if dec.is_some() {
        sym::cover("decoded");
        sym::check(
            trailing(top) == (k < n),
            "decoding consumed a different number of bytes",
        );
    }
    let plain = s.deserialize_as_value();
    sym::check(
        plain.is_ok() == (acc && utf8 && k == n),
        "deserialize_as_value disagrees about acceptance",
    );
    sym::log(plain.is_ok() as u64);
    drop(plain);
    sym::check(
        sym::alloc_peak() - live <= 4096 * n as u64 + 65536,
        "decoding allocated more than a small multiple of the input",
    );

    // measuring
    let _ = s.deserialize_as::<tags::Value, Measure>();
    let len = OUT.with(|o| o.borrow_mut().len.take()).flatten();
    sym::check(
        len == acc.then_some(k),
        "measuring disagrees with decoding",
    );

    // skipping
    let top = s.deserialize_as::<tags::Value, Skip>().map(drop);
    let skip = OUT.with(|o| o.borrow_mut().skip.take()) == Some(true);
    sym::check(skip == acc, "skipping disagrees with decoding");
    if skip {
        sym::check(
            trailing(top) == (k < n),
            "skipping consumed a different number of bytes",
        );
    }

    // splitting off
    let top = s.deserialize_as::<tags::Value, Split>().map(drop);
    let split = OUT.with(|o| o.borrow_mut().split.take()).flatten();
    sym::check(split.is_some() == acc, "splitting disagrees with decoding");
    if let Some(x) = split {
        sym::check(
            trailing(top) == (k < n),
            "splitting consumed a different number of bytes",
        );
        sym::check(x == b[..k], "split off value has other bytes");
        let again = raw(&x).deserialize_as_value();
        match (&dec, &again) {
            (Some(v), Ok(w)) => sym::check(same(v, w), "re-decoded opaque value differs"),
            (None, Err(_)) => {}
            _ => sym::check(false, "re-decoding an opaque value disagrees"),
        }
    }

    // reading the kind
    match s.kind() {
        Ok(kd) => sym::check(
            n >= 1 && u8::from(kd) == b[0] && b[0] <= 65,
            "wrong kind reported",
        ),
        Err(_) => sym::check(n == 0 || b[0] > 65, "kind of a known value not reported"),
    }
    sym::check(
        sym::alloc_peak() - live <= 8192 * n as u64 + 65536,
        "handling allocated more than a small multiple of the input",
    );
    sym::alloc_reset(0);
}

/// every byte string of exactly n bytes
pub fn any(n: usize) {
    agree(&sym::vec(n, "buf"));
}

struct Fields(Vec<(u32, Vec<u8>)>);
impl Deserialize<tags::Value> for Fields {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let mut s = d.deserialize_struct()?;
        while let Some(f) = s.deserialize()? {
            f.add_to_unknown_fields()?;
        }
        s.finish_with(|u| Ok(Fields(u.iter().map(|(k, v)| (k, v.to_vec())).collect())))
    }
}
struct Variant(u32, Vec<u8>);
impl Deserialize<tags::Value> for Variant {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let u = d.deserialize_enum()?.into_unknown_variant()?;
        Ok(Variant(u.id(), u.value().to_vec()))
    }
}

/// unknown fields / variants keep sub-values byte for byte
pub fn unknown(n: usize) {
    let mut b = vec![[39, 65, 40][sym::choice(3, "kind")]];
    b.extend(sym::vec(n, "buf"));
    let s = raw(&b);
    let acc = matches!(scan(&b), Some((k, _, _)) if k == b.len());
    let v = s.deserialize_as_value();
    if b[0] == 40 {
        match s.deserialize_as::<tags::Value, Variant>() {
            Ok(u) => {
                sym::check(acc, "unknown variant captured from a malformed value");
                if let Ok(v) = v {
                    let Value::Enum(e) = v else { unreachable!() };
                    sym::check(e.id == u.0, "unknown variant id differs");
                    match raw(&u.1).deserialize_as_value() {
                        Ok(w) => sym::check(same(&e.value, &w), "unknown variant value differs"),
                        Err(_) => sym::check(false, "unknown variant value not re-decodable"),
                    }
                    sym::cover("variant");
                }
            }
            Err(_) => sym::check(!acc, "unknown variant of a well-formed value not captured"),
        }
    } else {
        match s.deserialize_as::<tags::Value, Fields>() {
            Ok(u) => {
                sym::check(acc, "unknown fields captured from a malformed value");
                if let Ok(v) = v {
                    let Value::Struct(e) = v else { unreachable!() };
                    sym::check(e.0.len() == u.0.len(), "number of unknown fields differs");
                    for (id, b) in &u.0 {
                        match (e.0.get(id), raw(b).deserialize_as_value()) {
                            (Some(v), Ok(w)) => {
                                sym::check(same(v, &w), "unknown field value differs")
                            }
                            _ => sym::check(false, "unknown field value not re-decodable"),
                        }
                    }
                    sym::cover("fields");
                }
            }
            Err(_) => sym::check(!acc, "unknown fields of a well-formed value not captured"),
        }
    }
}

fn pick_value() -> Value {
    match sym::choice(3, "shape") {
        0 => {
            let k = sym::choice(LEAVES - 10, "leaf");
            leaf(k + 10, 2)
        }
        1 => flat(sym::choice(FLATS, "flat"), 2, 1),
        _ => nest(sym::choice(NESTS, "nest"), 1, 1, &mut || {
            match sym::choice(3, "child") {
                0 => Value::U8(sym::u8("u8")),
                1 => flat(sym::choice(FLATS, "flat"), 1, 1),
                _ => nest(sym::choice(NESTS, "nest2"), 1, 1, &mut || Value::None),
            }
        }),
    }
}

/// valid encodings with one arbitrary byte replaced, truncated or extended
pub fn mutated() {
    let legacy = sym::choice(2, "legacy") == 1;
    // fixed contents around the boundaries of the integer encodings
    gen::FIXED.set([1, 0xf0][sym::choice(2, "pattern")]);
    let v = pick_value();
    let mut b = encode(&v, &mut || legacy, 1);
    let n = b.len();
    match sym::choice(3, "mutation") {
        0 => {
            let i = sym::choice(n.min(24), "pos");
            b[i] = sym::u8("mut");
        }
        1 => {
            let i = 1 + sym::choice(n, "cut");
            b.truncate(i);
        }
        _ => b.push(sym::u8("extra")),
    }
    agree(&b);
}

/// nesting: decode, skip and split agree around the limit
pub fn deep() {
    let d = 30 + sym::choice(6, "depth");
    let f = sym::choice(NESTS, "filler");
    let x = sym::choice(NESTS, "inner");
    let legacy = sym::choice(2, "legacy") == 1;
    let mut v = crate::c01::wrap(x, Value::U8(1));
    for _ in 2..d {
        v = crate::c01::wrap(f, v);
    }
    agree(&encode(&v, &mut || legacy, 8));
}

/// declared lengths far beyond the input
pub fn huge() {
    let k = sym::choice(66, "kind") as u8;
    let mut b = vec![k, 0xff];
    b.extend(sym::bytes::<4>("len"));
    b.extend(sym::bytes::<2>("rest"));
    agree(&b);
}

/// lengths of several bytes; chunks of byte strings of several sizes
pub fn large() {
    let legacy = sym::bool("legacy");
    let v = crate::refc::large();
    let chunk = match &v {
        Value::Bytes(_) if !legacy => [255, 251, 252, 256, 100_000][sym::choice(5, "chunk")],
        _ => 100_000,
    };
    let mutation = sym::choice(5, "mutation");
    let v = if mutation == 4 { Value::Vec(vec![v, Value::None]) } else { v };
    let mut b = encode(&v, &mut || legacy, chunk);
    let n = b.len();
    match mutation {
        0 | 4 => (),
        1 => {
            let k = 1 + sym::choice(4, "pos");
            b[k] = b[k].wrapping_add([1, 255, 128][sym::choice(3, "delta")]);
        }
        2 => b.truncate(n - 1),
        _ => b.push(sym::u8("extra")),
    }
    agree(&b);
}
