//! Independent reference for the value wire format: bitwise comparison of
//! values, a generator of value trees with symbolic leaves, an encoder for both
//! epochs and a recogniser.
use aldrin_core::message::*;
use aldrin_core::*;
use bytes::BytesMut;
use std::collections::{HashMap, HashSet};
use uuid::Uuid;

pub const MAX_DEPTH: u32 = 32;

/// A `SerializedValue` holding exactly `b`, obtained the way the implementation
/// obtains untrusted values: out of a received message.
pub fn raw(b: &[u8]) -> SerializedValue {
    let n = b.len();
    let mut f = BytesMut::with_capacity(25 + n);
    f.extend_from_slice(&((25 + n) as u32).to_le_bytes());
    f.extend_from_slice(&[MessageKind::SendItem.into()]);
    f.extend_from_slice(&(n as u32).to_le_bytes());
    f.extend_from_slice(b);
    f.extend_from_slice(&[0; 16]);
    match SendItem::deserialize_message(f) {
        Ok(m) => m.value,
        Err(_) => {
            sym::check(false, "well-formed SendItem frame rejected");
            sym::stop()
        }
    }
}

// ---------------------------------------------------------------- equality

fn map_eq<K: Eq + std::hash::Hash>(a: &HashMap<K, Value>, b: &HashMap<K, Value>) -> bool {
    a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| same(v, w)))
}

/// Equality with floats compared bit for bit.
pub fn same(a: &Value, b: &Value) -> bool {
    use Value::*;
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a, b),
        (Bool(a), Bool(b)) => a == b,
        (U8(a), U8(b)) => a == b,
        (I8(a), I8(b)) => a == b,
        (U16(a), U16(b)) => a == b,
        (I16(a), I16(b)) => a == b,
        (U32(a), U32(b)) => a == b,
        (I32(a), I32(b)) => a == b,
        (U64(a), U64(b)) => a == b,
        (I64(a), I64(b)) => a == b,
        (F32(a), F32(b)) => a.to_bits() == b.to_bits(),
        (F64(a), F64(b)) => a.to_bits() == b.to_bits(),
        (String(a), String(b)) => a == b,
        (Uuid(a), Uuid(b)) => a == b,
        (ObjectId(a), ObjectId(b)) => a == b,
        (ServiceId(a), ServiceId(b)) => a == b,
        (Vec(a), Vec(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (Bytes(a), Bytes(b)) => a.0 == b.0,
        (U8Map(a), U8Map(b)) => map_eq(a, b),
        (I8Map(a), I8Map(b)) => map_eq(a, b),
        (U16Map(a), U16Map(b)) => map_eq(a, b),
        (I16Map(a), I16Map(b)) => map_eq(a, b),
        (U32Map(a), U32Map(b)) => map_eq(a, b),
        (I32Map(a), I32Map(b)) => map_eq(a, b),
        (U64Map(a), U64Map(b)) => map_eq(a, b),
        (I64Map(a), I64Map(b)) => map_eq(a, b),
        (StringMap(a), StringMap(b)) => map_eq(a, b),
        (UuidMap(a), UuidMap(b)) => map_eq(a, b),
        (U8Set(a), U8Set(b)) => a == b,
        (I8Set(a), I8Set(b)) => a == b,
        (U16Set(a), U16Set(b)) => a == b,
        (I16Set(a), I16Set(b)) => a == b,
        (U32Set(a), U32Set(b)) => a == b,
        (I32Set(a), I32Set(b)) => a == b,
        (U64Set(a), U64Set(b)) => a == b,
        (I64Set(a), I64Set(b)) => a == b,
        (StringSet(a), StringSet(b)) => a == b,
        (UuidSet(a), UuidSet(b)) => a == b,
        (Struct(a), Struct(b)) => map_eq(&a.0, &b.0),
        (Enum(a), Enum(b)) => a.id == b.id && same(&a.value, &b.value),
        (Sender(a), Sender(b)) => a == b,
        (Receiver(a), Receiver(b)) => a == b,
        _ => false,
    }
}

// --------------------------------------------------------------- generator

/// Sources of leaf contents: symbolic, or one fixed pattern while `FIXED` is set.
pub mod gen {
    use std::cell::Cell;
    thread_local! { pub static FIXED: Cell<u8> = const { Cell::new(0) }; }
    macro_rules! g {
        ($t:ident) => {
            pub fn $t(n: &str) -> $t {
                match FIXED.get() {
                    0 => sym::$t(n),
                    b => {
                        // distinct values, for keys of maps and sets
                        FIXED.set(if b >= 0xfe { 1 } else { b + 1 });
                        $t::from_le_bytes([b; std::mem::size_of::<$t>()])
                    }
                }
            }
        };
    }
    g!(u8);
    g!(u16);
    g!(u32);
    g!(u64);
    pub fn bool(n: &str) -> bool {
        FIXED.get() != 0 || sym::bool(n)
    }
    pub fn bytes16(n: &str) -> [u8; 16] {
        match FIXED.get() {
            0 => sym::bytes::<16>(n),
            b => {
                FIXED.set(if b >= 0xfe { 1 } else { b + 1 });
                [b; 16]
            }
        }
    }
    pub fn vec(k: usize, n: &str) -> Vec<u8> {
        if FIXED.get() == 0 {
            sym::vec(k, n)
        } else {
            (0..k).map(|_| u8(n) & 0x7f).collect()
        }
    }
    pub fn len(k: usize, n: &str) -> usize {
        if FIXED.get() == 0 {
            sym::choice(k, n)
        } else {
            k - 1
        }
    }
}

pub fn uuid(n: &str) -> Uuid {
    Uuid::from_bytes(gen::bytes16(n))
}

/// A string of at most `max` bytes with every valid UTF-8 content.
pub fn string(max: usize) -> String {
    let n = gen::len(max + 1, "strlen");
    let b = gen::vec(n, "str");
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            sym::assume(false);
            sym::stop()
        }
    }
}

pub const LEAVES: usize = 18;

pub fn leaf(k: usize, size: usize) -> Value {
    match k {
        0 => Value::None,
        1 => Value::Bool(gen::bool("bool")),
        2 => Value::U8(gen::u8("u8")),
        3 => Value::I8(gen::u8("i8") as i8),
        4 => Value::U16(gen::u16("u16")),
        5 => Value::I16(gen::u16("i16") as i16),
        6 => Value::U32(gen::u32("u32")),
        7 => Value::I32(gen::u32("i32") as i32),
        8 => Value::U64(gen::u64("u64")),
        9 => Value::I64(gen::u64("i64") as i64),
        10 => Value::F32(f32::from_bits(gen::u32("f32"))),
        11 => Value::F64(f64::from_bits(gen::u64("f64"))),
        12 => Value::String(string(size)),
        13 => Value::Uuid(uuid("uuid")),
        14 => Value::ObjectId(object_id()),
        15 => Value::ServiceId(ServiceId::new(
            object_id(),
            ServiceUuid(uuid("svcuuid")),
            ServiceCookie(uuid("svccookie")),
        )),
        16 => Value::Sender(ChannelCookie(uuid("sender"))),
        _ => Value::Receiver(ChannelCookie(uuid("receiver"))),
    }
}

pub fn object_id() -> ObjectId {
    ObjectId::new(ObjectUuid(uuid("objuuid")), ObjectCookie(uuid("objcookie")))
}

fn map<K: Eq + std::hash::Hash>(
    n: usize,
    key: impl Fn() -> K,
    mut val: impl FnMut() -> Value,
) -> HashMap<K, Value> {
    let mut m = HashMap::new();
    for _ in 0..n {
        sym::assume(m.insert(key(), val()).is_none());
    }
    m
}

fn set<K: Eq + std::hash::Hash>(n: usize, key: impl Fn() -> K) -> HashSet<K> {
    let mut m = HashSet::new();
    for _ in 0..n {
        sym::assume(m.insert(key()));
    }
    m
}

/// Number of container kinds that contain values.
pub const NESTS: usize = 14;
/// Number of containers that contain no values (bytes and sets).
pub const FLATS: usize = 11;

/// Container `k` with `n` children made by `f`; `slen` bounds string keys.
pub fn nest(k: usize, n: usize, slen: usize, f: &mut dyn FnMut() -> Value) -> Value {
    match k {
        0 => Value::Some(Box::new(f())),
        1 => Value::Enum(Box::new(Enum::new(gen::u32("enumid"), f()))),
        2 => Value::Vec((0..n).map(|_| f()).collect()),
        3 => Value::Struct(Struct(map(n, || gen::u32("fieldid"), f))),
        4 => Value::U8Map(map(n, || gen::u8("key"), f)),
        5 => Value::I8Map(map(n, || gen::u8("key") as i8, f)),
        6 => Value::U16Map(map(n, || gen::u16("key"), f)),
        7 => Value::I16Map(map(n, || gen::u16("key") as i16, f)),
        8 => Value::U32Map(map(n, || gen::u32("key"), f)),
        9 => Value::I32Map(map(n, || gen::u32("key") as i32, f)),
        10 => Value::U64Map(map(n, || gen::u64("key"), f)),
        11 => Value::I64Map(map(n, || gen::u64("key") as i64, f)),
        12 => Value::StringMap(map(n, || string(slen), f)),
        _ => Value::UuidMap(map(n, || uuid("key"), f)),
    }
}

pub fn flat(k: usize, n: usize, slen: usize) -> Value {
    match k {
        0 => Value::Bytes(Bytes(gen::vec(n, "bytes"))),
        1 => Value::U8Set(set(n, || gen::u8("elem"))),
        2 => Value::I8Set(set(n, || gen::u8("elem") as i8)),
        3 => Value::U16Set(set(n, || gen::u16("elem"))),
        4 => Value::I16Set(set(n, || gen::u16("elem") as i16)),
        5 => Value::U32Set(set(n, || gen::u32("elem"))),
        6 => Value::I32Set(set(n, || gen::u32("elem") as i32)),
        7 => Value::U64Set(set(n, || gen::u64("elem"))),
        8 => Value::I64Set(set(n, || gen::u64("elem") as i64)),
        9 => Value::StringSet(set(n, || string(slen))),
        _ => Value::UuidSet(set(n, || uuid("elem"))),
    }
}

/// Kinds of `large`.
pub const LARGES: usize = 15;

/// a value with so many elements or bytes that lengths take several bytes
pub fn large() -> Value {
    let k = sym::choice(LARGES, "large");
    let n = if k < 2 {
        [251, 252, 255, 256, 257, 1000, 65_535, 65_536, 65_537][sym::choice(9, "size")]
    } else {
        [251, 252, 255, 256, 257][sym::choice(5, "size")]
    };
    let e = |i: usize| if i == n - 1 { Value::U8(sym::u8("last")) } else { Value::None };
    match k {
        0 => {
            let mut b = vec![b'x'; n];
            b[n - 1] = sym::u8("last") & 0x7f;
            Value::String(String::from_utf8(b).unwrap())
        }
        1 => {
            let mut b = vec![1; n];
            b[n - 1] = sym::u8("last");
            Value::Bytes(Bytes(b))
        }
        2 => Value::Vec((0..n).map(e).collect()),
        3 => Value::Struct(Struct((0..n).map(|i| (i as u32, e(i))).collect())),
        4 => Value::U8Map((0..n.min(256)).map(|i| (i as u8, Value::None)).collect()),
        5 => Value::I16Map((0..n).map(|i| (i as i16 - 128, e(i))).collect()),
        6 => Value::U32Map((0..n).map(|i| (i as u32, e(i))).collect()),
        7 => Value::StringMap((0..n).map(|i| (i.to_string(), e(i))).collect()),
        8 => Value::UuidMap((0..n).map(|i| (Uuid::from_u128(i as u128), e(i))).collect()),
        9 => Value::I8Set((0..n.min(256)).map(|i| i as u8 as i8).collect()),
        10 => Value::U16Set((0..n).map(|i| i as u16).collect()),
        11 => Value::I64Set((0..n).map(|i| i as i64 - 128).collect()),
        12 => Value::StringSet((0..n).map(|i| i.to_string()).collect()),
        13 => Value::UuidSet((0..n).map(|i| Uuid::from_u128(i as u128)).collect()),
        // long keys
        _ => Value::StringMap([("k".repeat(n), Value::U8(sym::u8("last")))].into_iter().collect()),
    }
}

// ----------------------------------------------------------------- encoder

pub struct Enc<'a> {
    pub out: Vec<u8>,
    /// asked once per container: true for the legacy (counted) form
    pub legacy: &'a mut dyn FnMut() -> bool,
    /// longest chunk of a terminated byte string
    pub chunk: usize,
}

impl Enc<'_> {
    fn var(&mut self, v: u64, n: usize) {
        let lim = 255 - n as u64;
        if v <= lim {
            self.out.push(v as u8);
            return;
        }
        let mut k = 1;
        while k < n && (v >> (8 * k)) != 0 {
            k += 1;
        }
        self.out.push((lim + k as u64) as u8);
        for i in 0..k {
            self.out.push((v >> (8 * i)) as u8);
        }
    }
    fn zz(&mut self, v: i64, n: usize) {
        let m = if n == 8 { u64::MAX } else { (1u64 << (8 * n)) - 1 };
        let z = ((v as u64) << 1) & m;
        self.var(if v < 0 { !z & m } else { z }, n);
    }
    fn kind(&mut self, k: ValueKind) {
        self.out.push(k.into());
    }
    /// header of a container; returns true for the terminated form
    fn open(&mut self, k1: ValueKind, k2: ValueKind, n: usize) -> bool {
        if (self.legacy)() {
            self.kind(k1);
            self.var(n as u64, 4);
            false
        } else {
            self.kind(k2);
            true
        }
    }
    fn elems<T>(
        &mut self,
        k1: ValueKind,
        k2: ValueKind,
        n: usize,
        it: impl Iterator<Item = T>,
        mut f: impl FnMut(&mut Self, T),
    ) {
        let t = self.open(k1, k2, n);
        for x in it {
            if t {
                self.out.push(1);
            }
            f(self, x);
        }
        if t {
            self.out.push(0);
        }
    }
    fn str(&mut self, s: &str) {
        self.var(s.len() as u64, 4);
        self.out.extend_from_slice(s.as_bytes());
    }
    fn id(&mut self, u: &Uuid) {
        self.out.extend_from_slice(u.as_bytes());
    }

    pub fn value(&mut self, v: &Value) {
        use ValueKind as K;
        macro_rules! m {
            ($m:expr, $k1:ident, $k2:ident, |$e:ident, $k:ident| $body:expr) => {
                self.elems(K::$k1, K::$k2, $m.len(), $m.iter(), |$e, ($k, v)| {
                    $body;
                    $e.value(v);
                })
            };
        }
        macro_rules! s {
            ($m:expr, $k1:ident, $k2:ident, |$e:ident, $k:ident| $body:expr) => {
                self.elems(K::$k1, K::$k2, $m.len(), $m.iter(), |$e, $k| $body)
            };
        }
        match v {
            Value::None => self.kind(K::None),
            Value::Some(v) => {
                self.kind(K::Some);
                self.value(v);
            }
            Value::Bool(v) => {
                self.kind(K::Bool);
                self.out.push(*v as u8);
            }
            Value::U8(v) => {
                self.kind(K::U8);
                self.out.push(*v);
            }
            Value::I8(v) => {
                self.kind(K::I8);
                self.out.push(*v as u8);
            }
            Value::U16(v) => {
                self.kind(K::U16);
                self.var(*v as u64, 2);
            }
            Value::I16(v) => {
                self.kind(K::I16);
                self.zz(*v as i64, 2);
            }
            Value::U32(v) => {
                self.kind(K::U32);
                self.var(*v as u64, 4);
            }
            Value::I32(v) => {
                self.kind(K::I32);
                self.zz(*v as i64, 4);
            }
            Value::U64(v) => {
                self.kind(K::U64);
                self.var(*v, 8);
            }
            Value::I64(v) => {
                self.kind(K::I64);
                self.zz(*v, 8);
            }
            Value::F32(v) => {
                self.kind(K::F32);
                self.out.extend_from_slice(&v.to_bits().to_le_bytes());
            }
            Value::F64(v) => {
                self.kind(K::F64);
                self.out.extend_from_slice(&v.to_bits().to_le_bytes());
            }
            Value::String(v) => {
                self.kind(K::String);
                self.str(v);
            }
            Value::Uuid(v) => {
                self.kind(K::Uuid);
                self.id(v);
            }
            Value::ObjectId(v) => {
                self.kind(K::ObjectId);
                self.id(&v.uuid.0);
                self.id(&v.cookie.0);
            }
            Value::ServiceId(v) => {
                self.kind(K::ServiceId);
                self.id(&v.object_id.uuid.0);
                self.id(&v.object_id.cookie.0);
                self.id(&v.uuid.0);
                self.id(&v.cookie.0);
            }
            Value::Sender(v) => {
                self.kind(K::Sender);
                self.id(&v.0);
            }
            Value::Receiver(v) => {
                self.kind(K::Receiver);
                self.id(&v.0);
            }
            Value::Enum(v) => {
                self.kind(K::Enum);
                self.var(v.id as u64, 4);
                self.value(&v.value);
            }
            Value::Bytes(v) => {
                if self.open(K::Bytes1, K::Bytes2, v.0.len()) {
                    for c in v.0.chunks(self.chunk) {
                        self.var(c.len() as u64, 4);
                        self.out.extend_from_slice(c);
                    }
                    self.out.push(0);
                } else {
                    self.out.extend_from_slice(&v.0);
                }
            }
            Value::Vec(v) => self.elems(K::Vec1, K::Vec2, v.len(), v.iter(), |e, v| e.value(v)),
            Value::Struct(v) => m!(v.0, Struct1, Struct2, |e, k| e.var(*k as u64, 4)),
            Value::U8Map(v) => m!(v, U8Map1, U8Map2, |e, k| e.out.push(*k)),
            Value::I8Map(v) => m!(v, I8Map1, I8Map2, |e, k| e.out.push(*k as u8)),
            Value::U16Map(v) => m!(v, U16Map1, U16Map2, |e, k| e.var(*k as u64, 2)),
            Value::I16Map(v) => m!(v, I16Map1, I16Map2, |e, k| e.zz(*k as i64, 2)),
            Value::U32Map(v) => m!(v, U32Map1, U32Map2, |e, k| e.var(*k as u64, 4)),
            Value::I32Map(v) => m!(v, I32Map1, I32Map2, |e, k| e.zz(*k as i64, 4)),
            Value::U64Map(v) => m!(v, U64Map1, U64Map2, |e, k| e.var(*k, 8)),
            Value::I64Map(v) => m!(v, I64Map1, I64Map2, |e, k| e.zz(*k, 8)),
            Value::StringMap(v) => m!(v, StringMap1, StringMap2, |e, k| e.str(k)),
            Value::UuidMap(v) => m!(v, UuidMap1, UuidMap2, |e, k| e.id(k)),
            Value::U8Set(v) => s!(v, U8Set1, U8Set2, |e, k| e.out.push(*k)),
            Value::I8Set(v) => s!(v, I8Set1, I8Set2, |e, k| e.out.push(*k as u8)),
            Value::U16Set(v) => s!(v, U16Set1, U16Set2, |e, k| e.var(*k as u64, 2)),
            Value::I16Set(v) => s!(v, I16Set1, I16Set2, |e, k| e.zz(*k as i64, 2)),
            Value::U32Set(v) => s!(v, U32Set1, U32Set2, |e, k| e.var(*k as u64, 4)),
            Value::I32Set(v) => s!(v, I32Set1, I32Set2, |e, k| e.zz(*k as i64, 4)),
            Value::U64Set(v) => s!(v, U64Set1, U64Set2, |e, k| e.var(*k, 8)),
            Value::I64Set(v) => s!(v, I64Set1, I64Set2, |e, k| e.zz(*k, 8)),
            Value::StringSet(v) => s!(v, StringSet1, StringSet2, |e, k| e.str(k)),
            Value::UuidSet(v) => s!(v, UuidSet1, UuidSet2, |e, k| e.id(k)),
        }
    }
}

pub fn encode(v: &Value, legacy: &mut dyn FnMut() -> bool, chunk: usize) -> Vec<u8> {
    let mut e = Enc {
        out: vec![],
        legacy,
        chunk,
    };
    e.value(v);
    e.out
}

// -------------------------------------------------------------- recogniser

/// Walks one value; independent of the implementation's walkers.
pub struct Scan<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    /// all strings seen so far were valid UTF-8
    pub utf8: bool,
    /// a container encoding introduced in 1.20 was seen
    pub v2: bool,
}

pub struct Bad;
type R<T> = Result<T, Bad>;

impl<'a> Scan<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Scan {
            b,
            pos: 0,
            utf8: true,
            v2: false,
        }
    }
    fn byte(&mut self) -> R<u8> {
        let x = *self.b.get(self.pos).ok_or(Bad)?;
        self.pos += 1;
        Ok(x)
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() - self.pos < n {
            return Err(Bad);
        }
        self.pos += n;
        Ok(&self.b[self.pos - n..self.pos])
    }
    fn var(&mut self, n: usize) -> R<u64> {
        let f = self.byte()? as usize;
        if f <= 255 - n {
            return Ok(f as u64);
        }
        let k = f - (255 - n);
        let mut v = 0;
        for i in 0..k {
            v |= (self.byte()? as u64) << (8 * i);
        }
        Ok(v)
    }
    /// more elements follow in a terminated container
    fn more(&mut self) -> R<bool> {
        match self.byte()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(Bad),
        }
    }
    fn string(&mut self) -> R<()> {
        let n = self.var(4)? as usize;
        let s = self.take(n)?;
        if self.utf8 && std::str::from_utf8(s).is_err() {
            self.utf8 = false;
        }
        Ok(())
    }
    fn key(&mut self, i: u8) -> R<()> {
        match i {
            0 | 1 => self.byte().map(drop),
            2 | 3 => self.var(2).map(drop),
            4 | 5 => self.var(4).map(drop),
            6 | 7 => self.var(8).map(drop),
            8 => self.string(),
            _ => self.take(16).map(drop),
        }
    }
    fn counted(&mut self, mut f: impl FnMut(&mut Self) -> R<()>) -> R<()> {
        let n = self.var(4)?;
        for _ in 0..n {
            f(self)?;
        }
        Ok(())
    }
    fn terminated(&mut self, mut f: impl FnMut(&mut Self) -> R<()>) -> R<()> {
        self.v2 = true;
        while self.more()? {
            f(self)?;
        }
        Ok(())
    }

    pub fn value(&mut self, depth: u32) -> R<()> {
        if depth > MAX_DEPTH {
            return Err(Bad);
        }
        let d = depth + 1;
        match self.byte()? {
            0 => Ok(()),
            1 => self.value(d),
            2..=4 => self.byte().map(drop),
            5 | 6 => self.var(2).map(drop),
            7 | 8 => self.var(4).map(drop),
            9 | 10 => self.var(8).map(drop),
            11 => self.take(4).map(drop),
            12 => self.take(8).map(drop),
            13 => self.string(),
            14 | 41 | 42 => self.take(16).map(drop),
            15 => self.take(32).map(drop),
            16 => self.take(64).map(drop),
            17 => self.counted(|s| s.value(d)),
            18 => {
                let n = self.var(4)? as usize;
                self.take(n).map(drop)
            }
            k @ 19..=28 => self.counted(|s| {
                s.key(k - 19)?;
                s.value(d)
            }),
            k @ 29..=38 => self.counted(|s| s.key(k - 29)),
            39 => self.counted(|s| {
                s.var(4)?;
                s.value(d)
            }),
            40 => {
                self.var(4)?;
                self.value(d)
            }
            43 => self.terminated(|s| s.value(d)),
            44 => {
                self.v2 = true;
                loop {
                    let n = self.var(4)? as usize;
                    if n == 0 {
                        return Ok(());
                    }
                    self.take(n)?;
                }
            }
            k @ 45..=54 => self.terminated(|s| {
                s.key(k - 45)?;
                s.value(d)
            }),
            k @ 55..=64 => self.terminated(|s| s.key(k - 55)),
            65 => self.terminated(|s| {
                s.var(4)?;
                s.value(d)
            }),
            _ => Err(Bad),
        }
    }
}

/// `Ok((consumed, utf8 valid, uses terminated containers))`
pub fn scan(b: &[u8]) -> Option<(usize, bool, bool)> {
    let mut s = Scan::new(b);
    match s.value(1) {
        Ok(()) => Some((s.pos, s.utf8, s.v2)),
        Err(Bad) => None,
    }
}
