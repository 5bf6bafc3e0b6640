//! C16: generated types are wire-compatible with their schema.

use crate::desc::*;
use crate::generated::main;
use crate::refc::{self, same};
use crate::schema::{Sch, Set};
use aldrin_core::{Bytes, Enum, SerializedValue, Struct, Value};
use std::collections::{HashMap, HashSet};
use uuid::Uuid;

// ------------------------------------------------------------------ oracle

/// The built-in key type behind `t`.
fn key(tab: &Tab, t: usize) -> &'static str {
    match &tab[t] {
        Def::Nt(n) => key(tab, n.ty),
        Def::B(Bi::Leaf(k)) => LEAVES[*k as usize],
        _ => panic!("harness: not a key"),
    }
}

/// What a type's decode/encode cycle makes of `v`, or `None` if `v` does not
/// conform to type `t`.
pub fn norm(tab: &Tab, t: usize, v: &Value) -> Option<Value> {
    match (&tab[t], v) {
        (Def::Nt(n), v) => norm(tab, n.ty, v),
        (Def::B(Bi::Leaf(k)), v) => {
            let ok = match (LEAVES[*k as usize], v) {
                ("value", _) => true,
                ("bool", Value::Bool(_))
                | ("u8", Value::U8(_))
                | ("i8", Value::I8(_))
                | ("u16", Value::U16(_))
                | ("i16", Value::I16(_))
                | ("u32", Value::U32(_))
                | ("i32", Value::I32(_))
                | ("u64", Value::U64(_))
                | ("i64", Value::I64(_))
                | ("f32", Value::F32(_))
                | ("f64", Value::F64(_))
                | ("string", Value::String(_))
                | ("uuid", Value::Uuid(_))
                | ("object_id", Value::ObjectId(_))
                | ("lifetime", Value::ObjectId(_))
                | ("service_id", Value::ServiceId(_))
                | ("bytes", Value::Bytes(_))
                | ("unit", Value::None) => true,
                _ => false,
            };
            ok.then(|| v.clone())
        }
        (Def::B(Bi::Opt(_)), Value::None) => Some(Value::None),
        (Def::B(Bi::Opt(x)), Value::Some(v)) => Some(Value::Some(Box::new(norm(tab, *x, v)?))),
        (Def::B(Bi::Box(x)), v) => norm(tab, *x, v),
        (Def::B(Bi::Vec(x)), Value::Vec(v)) => list(tab, *x, v),
        (Def::B(Bi::Arr(x, n)), Value::Vec(v)) if v.len() == *n as usize => list(tab, *x, v),
        (Def::B(Bi::Snd(_)), Value::Sender(_)) | (Def::B(Bi::Rcv(_)), Value::Receiver(_)) => Some(v.clone()),
        (Def::B(Bi::Set(x)), v) => {
            let ok = matches!(
                (key(tab, *x), v),
                ("u8", Value::U8Set(_))
                    | ("i8", Value::I8Set(_))
                    | ("u16", Value::U16Set(_))
                    | ("i16", Value::I16Set(_))
                    | ("u32", Value::U32Set(_))
                    | ("i32", Value::I32Set(_))
                    | ("u64", Value::U64Set(_))
                    | ("i64", Value::I64Set(_))
                    | ("string", Value::StringSet(_))
                    | ("uuid", Value::UuidSet(_))
            );
            ok.then(|| v.clone())
        }
        (Def::B(Bi::Map(k, x)), v) => {
            fn m<K: Clone + Eq + std::hash::Hash>(tab: &Tab, x: usize, m: &HashMap<K, Value>) -> Option<HashMap<K, Value>> {
                m.iter().map(|(k, v)| Some((k.clone(), norm(tab, x, v)?))).collect()
            }
            Some(match (key(tab, *k), v) {
                ("u8", Value::U8Map(v)) => Value::U8Map(m(tab, *x, v)?),
                ("i8", Value::I8Map(v)) => Value::I8Map(m(tab, *x, v)?),
                ("u16", Value::U16Map(v)) => Value::U16Map(m(tab, *x, v)?),
                ("i16", Value::I16Map(v)) => Value::I16Map(m(tab, *x, v)?),
                ("u32", Value::U32Map(v)) => Value::U32Map(m(tab, *x, v)?),
                ("i32", Value::I32Map(v)) => Value::I32Map(m(tab, *x, v)?),
                ("u64", Value::U64Map(v)) => Value::U64Map(m(tab, *x, v)?),
                ("i64", Value::I64Map(v)) => Value::I64Map(m(tab, *x, v)?),
                ("string", Value::StringMap(v)) => Value::StringMap(m(tab, *x, v)?),
                ("uuid", Value::UuidMap(v)) => Value::UuidMap(m(tab, *x, v)?),
                _ => return None,
            })
        }
        (Def::B(Bi::Res(a, b)), Value::Enum(e)) => {
            let x = match e.id {
                0 => norm(tab, *a, &e.value)?,
                1 => norm(tab, *b, &e.value)?,
                _ => return None,
            };
            Some(Value::Enum(Box::new(Enum::new(e.id, x))))
        }
        (Def::St(s), Value::Struct(v)) => {
            let mut r = HashMap::new();
            for f in &s.fields {
                match (v.0.get(&f.id), f.req) {
                    (None, true) => return None,
                    (None, false) | (Some(Value::None), false) => {}
                    (Some(v), true) => {
                        r.insert(f.id, norm(tab, f.ty, v)?);
                    }
                    (Some(Value::Some(v)), false) => {
                        r.insert(f.id, Value::Some(Box::new(norm(tab, f.ty, v)?)));
                    }
                    _ => return None,
                }
            }
            if s.fb.is_some() {
                for (id, v) in &v.0 {
                    if !s.fields.iter().any(|f| f.id == *id) {
                        r.insert(*id, v.clone());
                    }
                }
            }
            Some(Value::Struct(Struct(r)))
        }
        (Def::En(s), Value::Enum(e)) => {
            for v in &s.vars {
                if v.id == e.id {
                    let x = match (v.ty, &e.value) {
                        (None, Value::None) => Value::None,
                        (None, _) => return None,
                        (Some(t), x) => norm(tab, t, x)?,
                    };
                    return Some(Value::Enum(Box::new(Enum::new(v.id, x))));
                }
            }
            s.fb.as_ref().map(|_| v.clone())
        }
        _ => None,
    }
}

fn list(tab: &Tab, t: usize, v: &[Value]) -> Option<Value> {
    v.iter().map(|v| norm(tab, t, v)).collect::<Option<Vec<_>>>().map(Value::Vec)
}

// --------------------------------------------------------------- generator

pub struct Gen<'a> {
    tab: &'a Tab,
    /// Places left where something else than asked for may stand.
    dev: usize,
    /// Containers explored in all their forms around here.
    wide: usize,
    /// Length of explored strings.
    slen: usize,
    /// Structs and enums explored in all their forms around each other.
    deep: usize,
}

/// Something of a kind chosen among all.
fn any(slen: usize) -> Value {
    let mut one = || Value::U8(refc::gen::u8("u8"));
    match sym::choice(10, "other value") {
        0 => {
            let k = sym::choice(refc::LEAVES, "leaf");
            match k {
                // cheap forms of the wide integers
                4 => Value::U16(7),
                5 => Value::I16(7),
                6 => Value::U32(7),
                7 => Value::I32(7),
                8 => Value::U64(7),
                9 => Value::I64(7),
                k => refc::leaf(k, slen),
            }
        }
        1 => refc::flat(sym::choice(refc::FLATS, "flat"), 0, 0),
        2 => Value::Bytes(Bytes(vec![1, 2])),
        3 => Value::U8Set([refc::gen::u8("elem")].into_iter().collect()),
        4 => Value::Some(Box::new(one())),
        5 => Value::Enum(Box::new(Enum::new(sym::choice(3, "small id") as u32, if sym::choice(2, "payload") == 0 { Value::None } else { one() }))),
        6 => Value::Vec(vec![one()]),
        7 => Value::Struct(Struct([(sym::choice(3, "small id") as u32, one())].into_iter().collect())),
        8 => refc::nest(2 + sym::choice(refc::NESTS - 2, "nest"), 0, 0, &mut one),
        _ => Value::U8Map([(refc::gen::u8("key"), one())].into_iter().collect()),
    }
}

fn key_map(k: &str, full: bool, v: Option<Value>, slen: usize) -> Value {
    use refc::gen;
    fn m<K: Eq + std::hash::Hash>(k: K, v: Option<Value>) -> HashMap<K, Value> {
        v.map(|v| (k, v)).into_iter().collect()
    }
    let n = |x: u64| if full { x } else { 5 };
    match k {
        "u8" => Value::U8Map(m(gen::u8("key"), v)),
        "i8" => Value::I8Map(m(gen::u8("key") as i8, v)),
        "u16" => Value::U16Map(m(n(if full { gen::u16("key") as u64 } else { 0 }) as u16, v)),
        "i16" => Value::I16Map(m(n(if full { gen::u16("key") as u64 } else { 0 }) as i16, v)),
        "u32" => Value::U32Map(m(n(if full { gen::u32("key") as u64 } else { 0 }) as u32, v)),
        "i32" => Value::I32Map(m(n(if full { gen::u32("key") as u64 } else { 0 }) as i32, v)),
        "u64" => Value::U64Map(m(n(if full { gen::u64("key") } else { 0 }), v)),
        "i64" => Value::I64Map(m(n(if full { gen::u64("key") } else { 0 }) as i64, v)),
        "string" => Value::StringMap(m(if full { refc::string(slen) } else { "k".into() }, v)),
        _ => Value::UuidMap(m(if full { refc::uuid("key") } else { Uuid::from_u128(3) }, v)),
    }
}

fn to_set(v: Value) -> Value {
    fn s<K: Eq + std::hash::Hash>(m: HashMap<K, Value>) -> HashSet<K> {
        m.into_keys().collect()
    }
    match v {
        Value::U8Map(m) => Value::U8Set(s(m)),
        Value::I8Map(m) => Value::I8Set(s(m)),
        Value::U16Map(m) => Value::U16Set(s(m)),
        Value::I16Map(m) => Value::I16Set(s(m)),
        Value::U32Map(m) => Value::U32Set(s(m)),
        Value::I32Map(m) => Value::I32Set(s(m)),
        Value::U64Map(m) => Value::U64Set(s(m)),
        Value::I64Map(m) => Value::I64Set(s(m)),
        Value::StringMap(m) => Value::StringSet(s(m)),
        Value::UuidMap(m) => Value::UuidSet(s(m)),
        v => v,
    }
}

impl Gen<'_> {
    /// A value near type `t`: `full` explores its forms, otherwise one plain
    /// conforming value of it.
    pub fn value(&mut self, t: usize, full: bool) -> Value {
        if full && self.dev > 0 && sym::choice(2, "something else") == 1 {
            self.dev -= 1;
            return any(self.slen);
        }
        match self.tab[t].clone() {
            Def::Nt(n) => self.value(n.ty, full),
            Def::B(b) => self.builtin(b, full),
            Def::St(_) | Def::En(_) if self.deep == 0 => match self.tab[t].clone() {
                Def::St(s) => self.struct_(&s, false),
                Def::En(e) => self.enum_(&e, false),
                _ => unreachable!(),
            },
            Def::St(s) => {
                self.deep -= 1;
                let v = self.struct_(&s, full);
                self.deep += 1;
                v
            }
            Def::En(e) => {
                self.deep -= 1;
                let v = self.enum_(&e, full);
                self.deep += 1;
                v
            }
            Def::Sv(_) => panic!("harness: value of a service"),
        }
    }

    fn builtin(&mut self, b: Bi, full: bool) -> Value {
        let mut wide = full && self.wide > 0;
        match b {
            Bi::Leaf(k) => self.leaf(LEAVES[k as usize], full),
            Bi::Opt(x) => {
                if full && sym::choice(2, "some") == 1 {
                    Value::Some(Box::new(self.value(x, full)))
                } else {
                    Value::None
                }
            }
            Bi::Box(x) => self.value(x, full),
            Bi::Snd(_) => Value::Sender(aldrin_core::ChannelCookie(self.uuid(full))),
            Bi::Rcv(_) => Value::Receiver(aldrin_core::ChannelCookie(self.uuid(full))),
            Bi::Arr(x, n) => {
                let focus = if wide { sym::choice(n as usize, "focus") } else { usize::MAX };
                let mut len = n as usize;
                if full && self.dev > 0 {
                    match sym::choice(3, "array length") {
                        1 => len -= 1,
                        2 => len += 1,
                        _ => {}
                    }
                    if len != n as usize {
                        self.dev -= 1;
                        wide = false;
                    }
                }
                self.wide -= wide as usize;
                let v = (0..len).map(|i| self.value(x, wide && i == focus)).collect();
                self.wide += wide as usize;
                Value::Vec(v)
            }
            Bi::Vec(x) => {
                let n = if wide { sym::choice(3, "length") } else { 0 };
                let focus = if n == 2 { sym::choice(2, "focus") } else { 0 };
                self.wide -= wide as usize;
                let v = (0..n).map(|i| self.value(x, i == focus)).collect();
                self.wide += wide as usize;
                Value::Vec(v)
            }
            Bi::Map(k, x) => {
                let n = if wide { sym::choice(2, "length") } else { 0 };
                self.wide -= wide as usize;
                let v = (n == 1).then(|| self.value(x, wide));
                self.wide += wide as usize;
                key_map(key(self.tab, k), full, v, self.slen)
            }
            Bi::Set(k) => {
                let n = if full { sym::choice(2, "length") } else { 0 };
                to_set(key_map(key(self.tab, k), full, (n == 1).then_some(Value::None), self.slen))
            }
            Bi::Res(a, e) => {
                let k = if full { sym::choice(2 + (self.dev > 0) as usize, "result") } else { 0 };
                let (id, v) = match k {
                    0 => (0, self.value(a, wide)),
                    1 => (1, self.value(e, wide)),
                    _ => {
                        self.dev -= 1;
                        let id = sym::u32("unknown id");
                        sym::assume(id > 1);
                        (id, self.value(a, false))
                    }
                };
                Value::Enum(Box::new(Enum::new(id, v)))
            }
        }
    }

    fn uuid(&self, full: bool) -> Uuid {
        if full {
            refc::uuid("uuid")
        } else {
            Uuid::from_u128(9)
        }
    }

    fn leaf(&mut self, l: &str, full: bool) -> Value {
        if !full {
            return match l {
                "bool" => Value::Bool(true),
                "u8" => Value::U8(200),
                "i8" => Value::I8(-3),
                "u16" => Value::U16(260),
                "i16" => Value::I16(-1),
                "u32" => Value::U32(1),
                "i32" => Value::I32(-70000),
                "u64" => Value::U64(1 << 40),
                "i64" => Value::I64(i64::MIN),
                "f32" => Value::F32(1.5),
                "f64" => Value::F64(-0.25),
                "string" => Value::String("str".into()),
                "uuid" => Value::Uuid(Uuid::from_u128(1)),
                "object_id" | "lifetime" => Value::ObjectId(aldrin_core::ObjectId::NIL),
                "service_id" => Value::ServiceId(aldrin_core::ServiceId::NIL),
                "value" => Value::Vec(vec![Value::U8(1), Value::None]),
                "bytes" => Value::Bytes(Bytes(vec![1, 2, 3])),
                _ => Value::None,
            };
        }
        let k = match l {
            "bool" => 1,
            "u8" => 2,
            "i8" => 3,
            "u16" => 4,
            "i16" => 5,
            "u32" => 6,
            "i32" => 7,
            "u64" => 8,
            "i64" => 9,
            "f32" => 10,
            "f64" => 11,
            "string" => 12,
            "uuid" => 13,
            "object_id" | "lifetime" => 14,
            "service_id" => 15,
            "value" => return any(self.slen),
            "bytes" => return Value::Bytes(Bytes(refc::gen::vec(sym::choice(3, "bytes"), "bytes"))),
            _ => 0,
        };
        refc::leaf(k, self.slen)
    }

    fn struct_(&mut self, s: &St, full: bool) -> Value {
        let n = s.fields.len();
        // the one field explored in all its forms, or all absent or present ones
        let focus = if full { sym::choice(n + 2, "focus") } else { n };
        let mut m = HashMap::new();
        for (i, f) in s.fields.iter().enumerate() {
            let it = i == focus;
            if f.req {
                if it && self.dev > 0 && sym::choice(2, "missing") == 1 {
                    self.dev -= 1;
                    continue;
                }
                let v = self.value(f.ty, it);
                m.insert(f.id, v);
            } else {
                match if it { 1 + sym::choice(3, "optional") } else { (focus == n + 1) as usize * 2 } {
                    1 => {
                        m.insert(f.id, Value::None);
                    }
                    2 => {
                        let v = self.value(f.ty, it);
                        m.insert(f.id, Value::Some(Box::new(v)));
                    }
                    3 if self.dev > 0 => {
                        // not wrapped, or nothing like it
                        self.dev -= 1;
                        let v = if sym::choice(2, "bare") == 0 { self.value(f.ty, false) } else { any(self.slen) };
                        m.insert(f.id, v);
                    }
                    _ => {}
                }
            }
        }
        if full && focus >= n {
            let nested = || Value::Struct(Struct([(2, Value::String("s".into()))].into_iter().collect()));
            let unused = |x: u32| (x..).find(|id| s.fields.iter().all(|f| f.id != *id)).unwrap();
            match sym::choice(4, "unknown fields") {
                0 => {}
                // any id
                1 => {
                    let id = sym::u32("unknown id");
                    for f in &s.fields {
                        sym::assume(f.id != id);
                    }
                    m.insert(id, nested());
                }
                // any value
                2 => {
                    m.insert(unused(3), any(self.slen));
                }
                _ => {
                    m.insert(unused(0), nested());
                    m.insert(unused(1 << 20), Value::U8(refc::gen::u8("u8")));
                }
            }
        }
        Value::Struct(Struct(m))
    }

    fn enum_(&mut self, e: &En, full: bool) -> Value {
        let n = e.vars.len();
        let plain = e.vars.iter().position(|v| v.ty.is_none()).unwrap_or(0);
        let k = if full { sym::choice(n + 1, "variant") } else { plain };
        let (id, v) = match e.vars.get(k) {
            Some(v) => match v.ty {
                Some(t) if full && self.wide > 0 => {
                    self.wide -= 1;
                    let x = self.value(t, true);
                    self.wide += 1;
                    (v.id, x)
                }
                Some(t) => (v.id, self.value(t, false)),
                None if full && self.dev > 0 && sym::choice(2, "payload") == 1 => {
                    self.dev -= 1;
                    (v.id, any(self.slen))
                }
                None => (v.id, Value::None),
            },
            None => {
                let by_id = full && sym::choice(2, "any id") == 0;
                let id = if by_id { sym::u32("unknown id") } else { (3..).find(|id| e.vars.iter().all(|v| v.id != *id)).unwrap() };
                for v in &e.vars {
                    sym::assume(v.id != id);
                }
                (id, if full && !by_id { any(self.slen) } else { Value::U8(1) })
            }
        };
        Value::Enum(Box::new(Enum::new(id, v)))
    }
}

// ------------------------------------------------------------------ checks

/// Decodes as the generated type and encodes again, from the value or from a
/// reference to it.
type Cycle = fn(&SerializedValue, bool) -> Option<SerializedValue>;

macro_rules! cycle {
    ($s:ident, $t:ident) => {
        (stringify!($s), stringify!($t), cycle_of::<main::$s::$t> as Cycle)
    };
}

fn cycle_of<T>(v: &SerializedValue, by_ref: bool) -> Option<SerializedValue>
where
    T: aldrin_core::tags::PrimaryTag
        + aldrin_core::Deserialize<<T as aldrin_core::tags::PrimaryTag>::Tag>
        + aldrin_core::Serialize<<T as aldrin_core::tags::PrimaryTag>::Tag>
        + Clone,
    for<'a> &'a T: aldrin_core::tags::PrimaryTag<Tag = <T as aldrin_core::tags::PrimaryTag>::Tag>
        + aldrin_core::Serialize<<T as aldrin_core::tags::PrimaryTag>::Tag>,
{
    let x: T = v.deserialize().ok()?;
    let r = if by_ref {
        let y = x.clone();
        SerializedValue::serialize(&y)
    } else {
        SerializedValue::serialize(x)
    };
    match r {
        Ok(r) => Some(r),
        Err(_) => {
            sym::check(false, "a decoded value of a generated type cannot be encoded");
            None
        }
    }
}

fn encode(v: &Value) -> SerializedValue {
    let mode = sym::choice(3, "container encoding");
    let mut n = 0;
    let mut f = || {
        n += 1;
        match mode {
            0 => false,
            1 => true,
            _ => n % 2 == 0,
        }
    };
    refc::raw(&refc::encode(v, &mut f, 2))
}

fn read(v: &SerializedValue, msg: &str) -> Value {
    match v.deserialize_as_value() {
        Ok(v) => v,
        Err(_) => {
            sym::check(false, msg);
            sym::stop()
        }
    }
}

fn check(tab: &Tab, t: usize, cycle: Cycle, v: &Value) {
    let by_ref = sym::choice(2, "by reference") == 1;
    let got = cycle(&encode(v), by_ref);
    match (norm(tab, t, v), got) {
        (Some(w), Some(g)) => {
            sym::cover("conforming");
            let g = read(&g, "a generated type encodes something that is not a value");
            sym::check(same(&w, &g), "a generated type's decode/encode cycle changes the value");
        }
        (Some(_), None) => sym::check(false, "a generated type rejects a value that conforms to its schema type"),
        (None, Some(_)) => sym::check(false, "a generated type accepts a value that does not conform to its schema type"),
        (None, None) => sym::cover("not conforming"),
    }
}

fn loads(schema: &str) -> Vec<&str> {
    match schema {
        "ext" => vec!["ext"],
        "all" => vec!["ext", "all"],
        "svc" => vec!["ext", "all", "svc"],
        s => vec!["ext", s],
    }
}

/// Part `part` of `parts` of the corpus' types.
pub fn types(part: usize, parts: usize, wide: usize, deep: usize, dev: usize, slen: usize) {
    let list: Vec<(&str, &str, Cycle)> =
        crate::for_types!(cycle).into_iter().enumerate().filter(|(i, _)| i % parts == part).map(|(_, x)| x).collect();
    let (schema, name, cycle) = list[sym::choice(list.len(), "type")];
    let s = Sch::load(Set::Main, &loads(schema));
    let t = s.get(schema, name.strip_prefix("r#").unwrap_or(name));
    let v = Gen { tab: &s.tab, dev, wide, slen, deep }.value(t, true);
    check(&s.tab, t, cycle, &v);
}

/// Data of a newer schema survives code generated from an older one.
pub fn old_new() {
    let s = Sch::load(Set::Main, &["old", "new"]);
    let list: [(&str, Cycle, Cycle); 3] = [
        ("Item", cycle_of::<main::old::Item>, cycle_of::<main::new::Item>),
        ("Choice", cycle_of::<main::old::Choice>, cycle_of::<main::new::Choice>),
        ("Outer", cycle_of::<main::old::Outer>, cycle_of::<main::new::Outer>),
    ];
    let (name, old, new) = list[sym::choice(list.len(), "type")];
    let t = s.get("new", name);
    let v = Gen { tab: &s.tab, dev: 0, wide: 3, slen: 1, deep: 2 }.value(t, true);
    let w = norm(&s.tab, t, &v).expect("harness: new value");
    let Some(o) = old(&encode(&v), false) else {
        sym::check(false, "code generated from an older schema rejects a newer value");
        return;
    };
    let Some(n) = new(&o, true) else {
        sym::check(false, "a newer value cannot be read any more after passing through an older schema");
        return;
    };
    sym::cover("passed through");
    let n = read(&n, "not a value");
    sym::check(same(&n, &w), "a newer value changes on its way through an older schema");
}

// --------------------------------------------------------------- ref types

/// Encodes a decoded value through its generated ref type.
fn put<T: aldrin_core::tags::Tag>(x: impl aldrin_core::Serialize<T>) -> Option<SerializedValue> {
    match SerializedValue::serialize_as::<T>(x) {
        Ok(r) => Some(r),
        Err(_) => {
            sym::check(false, "the ref type of a decoded value cannot be encoded");
            None
        }
    }
}

macro_rules! with_ref {
    ($s:ident, $t:ident, $x:ident => $e:expr) => {{
        let f: Cycle = |v, _| {
            let $x: main::$s::$t = v.deserialize().ok()?;
            $e
        };
        (stringify!($s), stringify!($t), f)
    }};
}

macro_rules! rs {
    ($s:ident, $t:ident $r:ident:) => { with_ref!($s, $t, _x => put::<main::$s::$t>(main::$s::$r {})) };
    ($s:ident, $t:ident $r:ident: $($f:ident)*) => { with_ref!($s, $t, x => put::<main::$s::$t>(main::$s::$r { $($f: &x.$f),* })) };
}

macro_rules! rn {
    ($s:ident, $t:ident $r:ident) => { with_ref!($s, $t, x => put::<main::$s::$t>(main::$s::$r(&x.0))) };
}

macro_rules! re {
    ($s:ident, $t:ident $r:ident: $($v:ident $f:ident $(($p:ident))?,)*) => {
        with_ref!($s, $t, x => match &x {
            $(main::$s::$t::$v $(($p))? => put::<main::$s::$t>(main::$s::$r::$f($($p)?)),)*
        })
    };
}

fn ref_types() -> Vec<(&'static str, &'static str, Cycle)> {
    vec![
        rs!(ext, Shared SharedRef: num next),
        re!(ext, Kind KindRef: A a, B b(p),),
        rn!(ext, Key KeyRef),
        rn!(ext, Key2 Key2Ref),
        rn!(ext, Num NumRef),
        rs!(all, Ints IntsRef: a b c d e f g h),
        rs!(all, OptInts OptIntsRef: a b c d e f g h),
        rs!(all, Scalars ScalarsRef: a b c d e f g h i j k),
        rs!(all, OptScalars OptScalarsRef: a b c d e f g h i j k),
        rs!(all, Boxes BoxesRef: a b c d e f g h),
        rs!(all, Channels ChannelsRef: a b c d e),
        rs!(all, Maps MapsRef: a b c d e f),
        rs!(all, Sets SetsRef: a b c d e f g h i j),
        rs!(all, Maps2 Maps2Ref: a b c d e f g),
        rs!(all, Arrays ArraysRef: a b c d),
        rs!(all, Results ResultsRef: a b c),
        rs!(all, Deep DeepRef: a b c d),
        rs!(all, Empty EmptyRef:),
        rs!(all, OnlyFallback OnlyFallbackRef: rest),
        rs!(all, Fallback FallbackRef: a b rest),
        re!(all, Plain PlainRef: A a, B b, C c,),
        re!(all, Payload PayloadRef: U8 u8(p), Str str(p), Opt opt(p), St st(p), Unit unit, Unit2 unit2(p), Rec rec(p), Val val(p), Vec vec(p),),
        re!(all, EnumFallback EnumFallbackRef: A a, B b(p), Rest rest(p),),
        re!(all, NoVariants NoVariantsRef: Rest rest(p),),
        rn!(all, Small SmallRef),
        rn!(all, Str StrRef),
        rn!(all, Opt OptRef),
        rn!(all, Many ManyRef),
        rn!(all, Res ResRef),
        rn!(all, Table TableRef),
        rn!(all, Arr ArrRef),
        rn!(all, Chain ChainRef),
        rn!(all, Wrap WrapRef),
        rn!(all, Alias AliasRef),
        rn!(all, Any AnyRef),
        rn!(all, Nothing NothingRef),
        rn!(all, Blob BlobRef),
        rn!(all, Life LifeRef),
        rs!(odd, __ __Ref: a b __),
        rn!(odd, Key KeyRef),
        rn!(odd, Nkey NkeyRef),
        rs!(odd, Attrs AttrsRef: x serializer deserializer value T fields name id unknown_fields new D),
        re!(odd, Names NamesRef: Error error, Ok ok(p), Err err, None none, Some some(p), T t, Value value(p), Option option,),
        rs!(old, Item ItemRef: a b rest),
        re!(old, Choice ChoiceRef: A a, B b(p), Rest rest(p),),
        rs!(old, Outer OuterRef: item choice many rest),
        rs!(new, Item ItemRef: a b c d rest),
        re!(new, Choice ChoiceRef: A a, B b(p), C c(p), D d, Rest rest(p),),
        rs!(new, Outer OuterRef: item choice many extra rest),
    ]
}

/// Part `part` of `parts` of the corpus' ref types.
pub fn refs(part: usize, parts: usize) {
    let list: Vec<_> = ref_types().into_iter().enumerate().filter(|(i, _)| i % parts == part).map(|(_, x)| x).collect();
    let (schema, name, cycle) = list[sym::choice(list.len(), "type")];
    let s = Sch::load(Set::Main, &loads(schema));
    let t = s.get(schema, name);
    let v = Gen { tab: &s.tab, dev: 0, wide: 2, slen: 1, deep: 2 }.value(t, true);
    match (norm(&s.tab, t, &v), cycle(&encode(&v), true)) {
        (Some(w), Some(g)) => {
            sym::cover("conforming");
            let g = read(&g, "a generated ref type encodes something that is not a value");
            sym::check(same(&w, &g), "a generated ref type encodes something else than the value it refers to");
        }
        (Some(_), None) => sym::check(false, "a generated type rejects a value that conforms to its schema type"),
        (None, Some(_)) => sym::check(false, "a generated type accepts a value that does not conform to its schema type"),
        (None, None) => sym::cover("not conforming"),
    }
}
