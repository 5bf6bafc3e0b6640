//! Descriptions of types, independent of the implementation, and the marker
//! types `N<I>` whose introspection is read from a description.

use aldrin_core::introspection::{ir, DynIntrospectable, Introspectable, LexicalId, References};
use aldrin_core::ServiceUuid;
use uuid::Uuid;

pub type Doc = Option<String>;

#[derive(Clone, Debug)]
pub enum Def {
    B(Bi),
    St(St),
    En(En),
    Sv(Sv),
    Nt(Nt),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bi {
    /// Index into `LEAVES`.
    Leaf(u8),
    Opt(usize),
    Box(usize),
    Vec(usize),
    Set(usize),
    Snd(usize),
    Rcv(usize),
    Map(usize, usize),
    Res(usize, usize),
    Arr(usize, u32),
}

pub const LEAVES: [&str; 19] = [
    "bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "string", "uuid",
    "object_id", "service_id", "value", "bytes", "lifetime", "unit",
];

#[derive(Clone, Debug)]
pub struct St {
    pub schema: String,
    pub name: String,
    pub doc: Doc,
    pub fields: Vec<Fl>,
    pub fb: Option<Fb>,
}
#[derive(Clone, Debug)]
pub struct Fl {
    pub id: u32,
    pub name: String,
    pub req: bool,
    pub ty: usize,
    pub doc: Doc,
}
#[derive(Clone, Debug)]
pub struct Fb {
    pub name: String,
    pub doc: Doc,
}
#[derive(Clone, Debug)]
pub struct En {
    pub schema: String,
    pub name: String,
    pub doc: Doc,
    pub vars: Vec<Va>,
    pub fb: Option<Fb>,
}
#[derive(Clone, Debug)]
pub struct Va {
    pub id: u32,
    pub name: String,
    pub ty: Option<usize>,
    pub doc: Doc,
}
#[derive(Clone, Debug)]
pub struct Sv {
    pub schema: String,
    pub name: String,
    pub doc: Doc,
    pub uuid: u128,
    pub version: u32,
    pub fns: Vec<Func>,
    pub evs: Vec<Va>,
    pub ffb: Option<Fb>,
    pub efb: Option<Fb>,
    /// Declared before the functions?
    pub evs_first: bool,
}
#[derive(Clone, Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub args: Option<usize>,
    pub ok: Option<usize>,
    pub err: Option<usize>,
    pub doc: Doc,
}
#[derive(Clone, Debug)]
pub struct Nt {
    pub schema: String,
    pub name: String,
    pub doc: Doc,
    pub ty: usize,
}

pub type Tab = Vec<Def>;

static mut CUR: Option<(Tab, bool)> = None;

/// Makes `t` the description the marker types read; `rev` reverses the order in
/// which every type reports its references.
pub fn with<R>(t: &Tab, rev: bool, f: impl FnOnce() -> R) -> R {
    unsafe {
        #[allow(static_mut_refs)]
        let old = CUR.replace((t.clone(), rev));
        let r = f();
        CUR = old;
        r
    }
}

fn cur() -> &'static (Tab, bool) {
    #[allow(static_mut_refs)]
    unsafe {
        CUR.as_ref().unwrap()
    }
}

pub struct N<const I: usize>;

impl<const I: usize> Introspectable for N<I> {
    fn layout() -> ir::LayoutIr {
        layout(&cur().0, I)
    }
    fn lexical_id() -> LexicalId {
        lex(&cur().0, I)
    }
    fn add_references(r: &mut References) {
        let (t, rev) = cur();
        let mut v = refs(t, I);
        if *rev {
            v.reverse();
        }
        for i in v {
            r.add_dyn(node(i));
        }
    }
}

macro_rules! n8 {
    ($b:expr, $i:expr) => {
        match $i - $b {
            0 => DynIntrospectable::new::<N<{ $b }>>(),
            1 => DynIntrospectable::new::<N<{ $b + 1 }>>(),
            2 => DynIntrospectable::new::<N<{ $b + 2 }>>(),
            3 => DynIntrospectable::new::<N<{ $b + 3 }>>(),
            4 => DynIntrospectable::new::<N<{ $b + 4 }>>(),
            5 => DynIntrospectable::new::<N<{ $b + 5 }>>(),
            6 => DynIntrospectable::new::<N<{ $b + 6 }>>(),
            _ => DynIntrospectable::new::<N<{ $b + 7 }>>(),
        }
    };
}

pub fn node(i: usize) -> DynIntrospectable {
    match i / 8 {
        0 => n8!(0, i),
        1 => n8!(8, i),
        2 => n8!(16, i),
        3 => n8!(24, i),
        4 => n8!(32, i),
        5 => n8!(40, i),
        6 => n8!(48, i),
        7 => n8!(56, i),
        8 => n8!(64, i),
        9 => n8!(72, i),
        10 => n8!(80, i),
        11 => n8!(88, i),
        12 => n8!(96, i),
        13 => n8!(104, i),
        14 => n8!(112, i),
        15 => n8!(120, i),
        16 => n8!(128, i),
        17 => n8!(136, i),
        18 => n8!(144, i),
        19 => n8!(152, i),
        20 => n8!(160, i),
        21 => n8!(168, i),
        22 => n8!(176, i),
        23 => n8!(184, i),
        _ => panic!("description too large"),
    }
}

pub fn lex(t: &Tab, i: usize) -> LexicalId {
    match &t[i] {
        Def::B(b) => bi(t, *b).lexical_id(),
        Def::St(x) => LexicalId::custom(&x.schema, &x.name),
        Def::En(x) => LexicalId::custom(&x.schema, &x.name),
        Def::Nt(x) => LexicalId::custom(&x.schema, &x.name),
        Def::Sv(x) => LexicalId::service(&x.schema, &x.name),
    }
}

fn bi(t: &Tab, b: Bi) -> ir::BuiltInTypeIr {
    use ir::BuiltInTypeIr as T;
    match b {
        Bi::Leaf(k) => match LEAVES[k as usize] {
            "bool" => T::Bool,
            "u8" => T::U8,
            "i8" => T::I8,
            "u16" => T::U16,
            "i16" => T::I16,
            "u32" => T::U32,
            "i32" => T::I32,
            "u64" => T::U64,
            "i64" => T::I64,
            "f32" => T::F32,
            "f64" => T::F64,
            "string" => T::String,
            "uuid" => T::Uuid,
            "object_id" => T::ObjectId,
            "service_id" => T::ServiceId,
            "value" => T::Value,
            "bytes" => T::Bytes,
            "lifetime" => T::Lifetime,
            _ => T::Unit,
        },
        Bi::Opt(x) => T::Option(lex(t, x)),
        Bi::Box(x) => T::Box(lex(t, x)),
        Bi::Vec(x) => T::Vec(lex(t, x)),
        Bi::Set(x) => T::Set(lex(t, x)),
        Bi::Snd(x) => T::Sender(lex(t, x)),
        Bi::Rcv(x) => T::Receiver(lex(t, x)),
        Bi::Map(k, v) => T::Map(ir::MapTypeIr::new(lex(t, k), lex(t, v))),
        Bi::Res(k, v) => T::Result(ir::ResultTypeIr::new(lex(t, k), lex(t, v))),
        Bi::Arr(x, n) => T::Array(ir::ArrayTypeIr::new(lex(t, x), n)),
    }
}

macro_rules! docd {
    ($b:expr, $d:expr) => {{
        let b = $b;
        match &$d {
            Some(d) => b.doc(d),
            None => b,
        }
    }};
}

pub fn layout(t: &Tab, i: usize) -> ir::LayoutIr {
    match &t[i] {
        Def::B(b) => bi(t, *b).into(),
        Def::St(x) => {
            let mut b = docd!(ir::StructIr::builder(&x.schema, &x.name), x.doc);
            for f in &x.fields {
                b = b.field(docd!(ir::FieldIr::builder(f.id, &f.name, f.req, lex(t, f.ty)), f.doc).finish());
            }
            if let Some(f) = &x.fb {
                b = b.fallback(docd!(ir::StructFallbackIr::builder(&f.name), f.doc).finish());
            }
            b.finish().into()
        }
        Def::En(x) => {
            let mut b = docd!(ir::EnumIr::builder(&x.schema, &x.name), x.doc);
            for v in &x.vars {
                let mut y = docd!(ir::VariantIr::builder(v.id, &v.name), v.doc);
                if let Some(ty) = v.ty {
                    y = y.variant_type(lex(t, ty));
                }
                b = b.variant(y.finish());
            }
            if let Some(f) = &x.fb {
                b = b.fallback(docd!(ir::EnumFallbackIr::builder(&f.name), f.doc).finish());
            }
            b.finish().into()
        }
        Def::Nt(x) => docd!(ir::NewtypeIr::builder(&x.schema, &x.name, lex(t, x.ty)), x.doc)
            .finish()
            .into(),
        Def::Sv(x) => {
            let mut b = docd!(
                ir::ServiceIr::builder(&x.schema, &x.name, ServiceUuid(Uuid::from_u128(x.uuid)), x.version),
                x.doc
            );
            if let Some(f) = &x.ffb {
                b = b.function_fallback(docd!(ir::FunctionFallbackIr::builder(&f.name), f.doc).finish());
            }
            for part in 0..2 {
                if (part == 0) == x.evs_first {
                    for e in &x.evs {
                        let mut y = docd!(ir::EventIr::builder(e.id, &e.name), e.doc);
                        if let Some(ty) = e.ty {
                            y = y.event_type(lex(t, ty));
                        }
                        b = b.event(y.finish());
                    }
                } else {
                    for f in &x.fns {
                        let mut y = docd!(ir::FunctionIr::builder(f.id, &f.name), f.doc);
                        if let Some(ty) = f.args {
                            y = y.args(lex(t, ty));
                        }
                        if let Some(ty) = f.ok {
                            y = y.ok(lex(t, ty));
                        }
                        if let Some(ty) = f.err {
                            y = y.err(lex(t, ty));
                        }
                        b = b.function(y.finish());
                    }
                }
            }
            if let Some(f) = &x.efb {
                b = b.event_fallback(docd!(ir::EventFallbackIr::builder(&f.name), f.doc).finish());
            }
            b.finish().into()
        }
    }
}

/// The types `i` mentions directly, in declaration order.
pub fn refs(t: &Tab, i: usize) -> Vec<usize> {
    match &t[i] {
        Def::B(b) => match *b {
            Bi::Leaf(_) => vec![],
            Bi::Opt(x) | Bi::Box(x) | Bi::Vec(x) | Bi::Set(x) | Bi::Snd(x) | Bi::Rcv(x) | Bi::Arr(x, _) => vec![x],
            Bi::Map(k, v) | Bi::Res(k, v) => vec![k, v],
        },
        Def::St(x) => x.fields.iter().map(|f| f.ty).collect(),
        Def::En(x) => x.vars.iter().filter_map(|f| f.ty).collect(),
        Def::Nt(x) => vec![x.ty],
        Def::Sv(x) => {
            let mut v = vec![];
            for f in &x.fns {
                v.extend(f.args);
                v.extend(f.ok);
                v.extend(f.err);
            }
            v.extend(x.evs.iter().filter_map(|e| e.ty));
            v
        }
    }
}

fn same_fb(a: &Option<Fb>, b: &Option<Fb>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.name == b.name,
        _ => false,
    }
}

/// Whether the wire-relevant description of `a[i]` is that of `b[j]`: the oracle.
pub fn same(a: &Tab, i: usize, b: &Tab, j: usize) -> bool {
    let mut todo = vec![(i, j)];
    let mut k = 0;
    while k < todo.len() {
        let (i, j) = todo[k];
        k += 1;
        let mut next = vec![];
        if !local(&a[i], &b[j], &mut next) {
            return false;
        }
        for p in next {
            if !todo.contains(&p) {
                todo.push(p);
            }
        }
    }
    true
}

fn opt(a: Option<usize>, b: Option<usize>, next: &mut Vec<(usize, usize)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => {
            next.push((a, b));
            true
        }
        _ => false,
    }
}

fn vars(a: &[Va], b: &[Va], next: &mut Vec<(usize, usize)>) -> bool {
    a.len() == b.len()
        && a.iter().all(|v| {
            b.iter()
                .find(|w| w.id == v.id)
                .is_some_and(|w| w.name == v.name && opt(v.ty, w.ty, next))
        })
}

fn local(a: &Def, b: &Def, next: &mut Vec<(usize, usize)>) -> bool {
    match (a, b) {
        (Def::B(a), Def::B(b)) => match (*a, *b) {
            (Bi::Leaf(a), Bi::Leaf(b)) => a == b,
            (Bi::Opt(a), Bi::Opt(b))
            | (Bi::Box(a), Bi::Box(b))
            | (Bi::Vec(a), Bi::Vec(b))
            | (Bi::Set(a), Bi::Set(b))
            | (Bi::Snd(a), Bi::Snd(b))
            | (Bi::Rcv(a), Bi::Rcv(b)) => {
                next.push((a, b));
                true
            }
            (Bi::Map(a, c), Bi::Map(b, d)) | (Bi::Res(a, c), Bi::Res(b, d)) => {
                next.push((a, b));
                next.push((c, d));
                true
            }
            (Bi::Arr(a, m), Bi::Arr(b, n)) => {
                next.push((a, b));
                m == n
            }
            _ => false,
        },
        (Def::St(a), Def::St(b)) => {
            a.schema == b.schema
                && a.name == b.name
                && same_fb(&a.fb, &b.fb)
                && a.fields.len() == b.fields.len()
                && a.fields.iter().all(|f| {
                    b.fields.iter().find(|g| g.id == f.id).is_some_and(|g| {
                        next.push((f.ty, g.ty));
                        f.name == g.name && f.req == g.req
                    })
                })
        }
        (Def::En(a), Def::En(b)) => {
            a.schema == b.schema && a.name == b.name && same_fb(&a.fb, &b.fb) && vars(&a.vars, &b.vars, next)
        }
        (Def::Nt(a), Def::Nt(b)) => {
            next.push((a.ty, b.ty));
            a.schema == b.schema && a.name == b.name
        }
        (Def::Sv(a), Def::Sv(b)) => {
            a.schema == b.schema
                && a.name == b.name
                && a.uuid == b.uuid
                && a.version == b.version
                && same_fb(&a.ffb, &b.ffb)
                && same_fb(&a.efb, &b.efb)
                && vars(&a.evs, &b.evs, next)
                && a.fns.len() == b.fns.len()
                && a.fns.iter().all(|f| {
                    b.fns.iter().find(|g| g.id == f.id).is_some_and(|g| {
                        f.name == g.name
                            && opt(f.args, g.args, next)
                            && opt(f.ok, g.ok, next)
                            && opt(f.err, g.err, next)
                    })
                })
        }
        _ => false,
    }
}

/// What the schema language guarantees: unique ids, unique names of types.
pub fn assume_valid(t: &Tab) {
    fn distinct(v: &[u32]) {
        for i in 0..v.len() {
            for j in 0..i {
                sym::assume(v[i] != v[j]);
            }
        }
    }
    let mut names: Vec<(&str, &str)> = vec![];
    for d in t {
        let n = match d {
            Def::B(_) => continue,
            Def::St(x) => {
                distinct(&x.fields.iter().map(|f| f.id).collect::<Vec<_>>());
                (x.schema.as_str(), x.name.as_str())
            }
            Def::En(x) => {
                distinct(&x.vars.iter().map(|f| f.id).collect::<Vec<_>>());
                (x.schema.as_str(), x.name.as_str())
            }
            Def::Nt(x) => (x.schema.as_str(), x.name.as_str()),
            Def::Sv(x) => {
                distinct(&x.fns.iter().map(|f| f.id).collect::<Vec<_>>());
                distinct(&x.evs.iter().map(|f| f.id).collect::<Vec<_>>());
                (x.schema.as_str(), x.name.as_str())
            }
        };
        for m in &names {
            sym::assume(!(m.0 == n.0 && m.1 == n.1));
        }
        names.push(n);
    }
}
