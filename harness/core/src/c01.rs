//! C01: value codec round trip (both epochs) and the nesting limit.
use crate::refc::*;
use aldrin_core::*;

/// Serializes a value with the legacy (counted) container encodings through
/// the public serializer interface.
struct Legacy<'a>(&'a Value);

impl Serialize<tags::Value> for Legacy<'_> {
    fn serialize(self, s: Serializer) -> Result<(), SerializeError> {
        macro_rules! map {
            ($m:expr, $t:ty) => {
                s.serialize_map1_iter::<$t, _, tags::Value, _, _>($m.iter().map(|(k, v)| (k.clone(), Legacy(v))))
            };
        }
        macro_rules! set {
            ($m:expr, $t:ty) => {
                s.serialize_set1_iter::<$t, _>($m.iter().cloned())
            };
        }
        match self.0 {
            Value::Some(v) => s.serialize_some::<tags::Value>(Legacy(v)),
            Value::Enum(e) => s.serialize_enum::<tags::Value>(e.id, Legacy(&e.value)),
            Value::Vec(v) => s.serialize_vec1_iter::<tags::Value, _>(v.iter().map(Legacy)),
            Value::Bytes(b) => s.serialize_byte_slice1(&b.0),
            Value::Struct(m) => {
                let mut s = s.serialize_struct1(m.0.len())?;
                for (k, v) in &m.0 {
                    s.serialize::<tags::Value>(*k, Legacy(v))?;
                }
                s.finish()
            }
            Value::U8Map(m) => map!(m, tags::U8),
            Value::I8Map(m) => map!(m, tags::I8),
            Value::U16Map(m) => map!(m, tags::U16),
            Value::I16Map(m) => map!(m, tags::I16),
            Value::U32Map(m) => map!(m, tags::U32),
            Value::I32Map(m) => map!(m, tags::I32),
            Value::U64Map(m) => map!(m, tags::U64),
            Value::I64Map(m) => map!(m, tags::I64),
            Value::StringMap(m) => map!(m, tags::String),
            Value::UuidMap(m) => map!(m, tags::Uuid),
            Value::U8Set(m) => set!(m, tags::U8),
            Value::I8Set(m) => set!(m, tags::I8),
            Value::U16Set(m) => set!(m, tags::U16),
            Value::I16Set(m) => set!(m, tags::I16),
            Value::U32Set(m) => set!(m, tags::U32),
            Value::I32Set(m) => set!(m, tags::I32),
            Value::U64Set(m) => set!(m, tags::U64),
            Value::I64Set(m) => set!(m, tags::I64),
            Value::StringSet(m) => set!(m, tags::String),
            Value::UuidSet(m) => set!(m, tags::Uuid),
            other => s.serialize(other),
        }
    }
}

pub fn roundtrip(v: &Value) {
    let legacy = sym::choice(2, "legacy") == 1;
    let s = if legacy {
        SerializedValue::serialize_as(Legacy(v))
    } else {
        SerializedValue::serialize(v)
    };
    let Ok(s) = s else {
        sym::check(false, "serialization failed");
        return;
    };
    // consumption of all bytes is implied: leftovers are reported as an error
    match s.deserialize_as_value() {
        Ok(w) => sym::check(same(v, &w), "deserialized value differs"),
        Err(_) => sym::check(false, "deserialization of a serialized value failed"),
    }
    // a strict prefix or an extension must not be accepted as the same value
    let n = s.len();
    sym::log(n as u64);
    let mut b = s.to_vec();
    b.push(0);
    sym::check(
        raw(&b).deserialize_as_value().is_err(),
        "trailing byte accepted",
    );
    b.truncate(n - 1);
    if n > 1 {
        sym::check(
            raw(&b).deserialize_as_value().is_err(),
            "truncated value accepted",
        );
    }
}

/// every kind on its own, full leaf domain
pub fn leaves() {
    let k = sym::choice(LEAVES, "leaf");
    roundtrip(&leaf(k, 4));
}

pub fn flats(max: usize, slen: usize) {
    let k = sym::choice(FLATS, "flat");
    let n = sym::choice(max + 1, "n");
    roundtrip(&flat(k, n, slen));
}

fn small(slen: usize) -> Value {
    match sym::choice(5, "small") {
        0 => Value::None,
        1 => Value::U8(sym::u8("u8")),
        2 => Value::I32(sym::u32("i32") as i32),
        3 => Value::String(string(slen)),
        _ => flat(sym::choice(2, "flat"), 1, slen),
    }
}

/// one container with up to `max` children
pub fn one(max: usize, slen: usize) {
    let k = sym::choice(NESTS, "nest");
    let n = if k < 2 { 1 } else { sym::choice(max + 1, "n") };
    roundtrip(&nest(k, n, slen, &mut || small(slen)));
}

/// a container in a container, any child leaf kind
pub fn two() {
    let a = sym::choice(NESTS, "outer");
    let b = sym::choice(NESTS, "inner");
    let l = sym::choice(LEAVES + FLATS, "leaf");
    let n = if b < 2 { 1 } else { sym::choice(2, "n") };
    roundtrip(&nest(a, 1, 1, &mut || {
        nest(b, n, 1, &mut || {
            if l < LEAVES {
                leaf(l, 1)
            } else {
                flat(l - LEAVES, 1, 1)
            }
        })
    }));
}

/// mixed nesting with siblings, three levels
pub fn three() {
    let a = sym::choice(NESTS, "outer");
    let m = if a < 2 { 1 } else { 2 };
    let mut first = true;
    roundtrip(&nest(a, m, 1, &mut || {
        if !std::mem::replace(&mut first, false) {
            return Value::U8(sym::u8("sib"));
        }
        let b = sym::choice(NESTS, "mid");
        nest(b, 1, 1, &mut || {
            let c = sym::choice(NESTS, "inner");
            nest(c, 1, 1, &mut || Value::U16(sym::u16("u16")))
        })
    }));
}

/// concrete-key container used for deep chains
pub fn wrap(k: usize, v: Value) -> Value {
    use std::iter::once;
    match k {
        0 => Value::Some(Box::new(v)),
        1 => Value::Enum(Box::new(Enum::new(300, v))),
        2 => Value::Vec(vec![v]),
        3 => Value::Struct(Struct(once((300, v)).collect())),
        4 => Value::U8Map(once((1, v)).collect()),
        5 => Value::I8Map(once((-1, v)).collect()),
        6 => Value::U16Map(once((300, v)).collect()),
        7 => Value::I16Map(once((-300, v)).collect()),
        8 => Value::U32Map(once((70000, v)).collect()),
        9 => Value::I32Map(once((-70000, v)).collect()),
        10 => Value::U64Map(once((1 << 40, v)).collect()),
        11 => Value::I64Map(once((-(1 << 40), v)).collect()),
        12 => Value::StringMap(once(("k".into(), v)).collect()),
        _ => Value::UuidMap(once((uuid::Uuid::from_u128(5), v)).collect()),
    }
}

fn is_depth<T>(r: Result<T, SerializeError>) -> bool {
    matches!(r, Err(SerializeError::TooDeeplyNested))
}

pub fn check_depth(v: &Value, d: usize) {
    // reference encodings in both epochs, for the decoder
    let b1 = encode(v, &mut || true, 8);
    let b2 = encode(v, &mut || false, 8);
    let s1 = SerializedValue::serialize_as(Legacy(v));
    let s2 = SerializedValue::serialize(v);
    if d <= 32 {
        for s in [s1, s2] {
            match s {
                Ok(s) => match s.deserialize_as_value() {
                    Ok(w) => sym::check(same(v, &w), "deserialized value differs"),
                    Err(_) => sym::check(false, "value within the depth limit not deserialized"),
                },
                Err(_) => sym::check(false, "value within the depth limit rejected"),
            }
        }
        for b in [b1, b2] {
            match raw(&b).deserialize_as_value() {
                Ok(w) => sym::check(same(v, &w), "deserialized value differs"),
                Err(_) => sym::check(false, "value within the depth limit not deserialized"),
            }
        }
    } else {
        sym::check(is_depth(s1), "too deep value serialized (legacy)");
        sym::check(is_depth(s2), "too deep value serialized");
        for b in [b1, b2] {
            sym::check(
                matches!(
                    raw(&b).deserialize_as_value(),
                    Err(DeserializeError::TooDeeplyNested)
                ),
                "too deep value deserialized",
            );
        }
    }
}

/// chains of one filler kind and independently chosen kinds at the positions
/// next to the limit
pub fn deep(fillers: usize) {
    let d = 30 + sym::choice(6, "depth");
    let f = sym::choice(fillers, "filler");
    let x = sym::choice(NESTS, "inner");
    let y = sym::choice(NESTS, "next");
    // the innermost value sits at depth d
    let mut v = match sym::choice(4, "leaf") {
        0 => Value::None,
        1 => Value::U8(sym::u8("u8")),
        2 => Value::Bytes(Bytes(vec![7])),
        _ => Value::U16Set(std::iter::once(sym::u16("elem")).collect()),
    };
    for i in 1..d {
        v = wrap(
            match i {
                1 => x,
                2 => y,
                _ => f,
            },
            v,
        );
    }
    check_depth(&v, d);
}

/// every kind all the way, all depths 1..=40
pub fn chain() {
    let d = 1 + sym::choice(40, "depth");
    let f = sym::choice(NESTS, "kind");
    let mut v = Value::U8(sym::u8("u8"));
    for _ in 1..d {
        v = wrap(f, v);
    }
    check_depth(&v, d);
}

/// empty containers count as one level; no stack exhaustion for absurd depths
pub fn edge() {
    let d = 31 + sym::choice(3, "depth");
    let f = sym::choice(NESTS, "kind");
    let e = sym::choice(NESTS + FLATS, "empty");
    let mut v = if e < NESTS {
        if e < 2 {
            return;
        }
        nest(e, 0, 0, &mut || Value::None)
    } else {
        flat(e - NESTS, 0, 0)
    };
    for _ in 1..d {
        v = wrap(f, v);
    }
    check_depth(&v, d);
}

pub fn absurd() {
    let k = sym::choice(16, "pattern");
    // repeated prefixes that open one more level each
    let pats: [&[u8]; 16] = [
        &[1],
        &[40, 0],
        &[17, 1],
        &[43, 1],
        &[39, 1, 5],
        &[65, 1, 5],
        &[19, 1, 5],
        &[45, 1, 5],
        &[21, 1, 5],
        &[47, 1, 5],
        &[25, 1, 5],
        &[51, 1, 5],
        &[27, 1, 0],
        &[53, 1, 0],
        &[28, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
        &[54, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    ];
    let p = pats[k];
    let mut b = vec![];
    for _ in 0..20000 {
        b.extend_from_slice(p);
    }
    b.push(0);
    sym::check(
        matches!(
            raw(&b).deserialize_as_value(),
            Err(DeserializeError::TooDeeplyNested)
        ),
        "absurdly deep input not rejected with a nesting error",
    );
}

/// lengths of several bytes
pub fn big() {
    let v = large();
    let v = if sym::bool("nested") { Value::Vec(vec![v, Value::None]) } else { v };
    roundtrip(&v);
}
