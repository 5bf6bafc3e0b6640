//! C20: type ids are structural.

use crate::desc::*;
use aldrin_core::introspection::{BuiltInType, DynIntrospectable, Introspection, Layout};
use aldrin_core::{SerializedValue, TypeId};
use std::collections::HashSet;

fn id_of(t: &Tab, i: usize, rev: bool) -> TypeId {
    with(t, rev, || TypeId::compute_from_dyn(node(i)))
}

fn ident(max: usize, what: &str) -> String {
    let n = 1 + sym::choice(max, "name length");
    let mut v = vec![0; n];
    sym::fill(&mut v, what);
    for b in &v {
        sym::assume((*b >= b'a' && *b <= b'z') || *b == b'_');
    }
    unsafe { String::from_utf8_unchecked(v) }
}

fn doc() -> Doc {
    match sym::choice(2, "doc") {
        0 => None,
        _ => Some(ident(1, "doc text")),
    }
}

fn fb(what: &str) -> Option<Fb> {
    match sym::choice(2, what) {
        0 => None,
        _ => Some(Fb { name: ident(1, "fallback name"), doc: None }),
    }
}

fn id(full: bool) -> u32 {
    if full {
        sym::u32("id")
    } else {
        (sym::u8("id") & 0x7f) as u32
    }
}

/// The verdict on two descriptions.
fn verdict(a: &Tab, b: &Tab) {
    sha1_smol::order(sym::choice(2, "hash order") == 1);
    let rev = sym::choice(2, "reverse references") == 1;
    verdict_with(a, b, rev)
}

fn verdict_with(a: &Tab, b: &Tab, rev: bool) {
    assume_valid(a);
    assume_valid(b);
    let x = id_of(a, 0, false);
    let y = id_of(b, 0, rev);
    let s = same(a, 0, b, 0);
    if s {
        sym::cover("same");
        sym::check(x == y, "types with the same wire-relevant layout have different ids");
    } else {
        sym::cover("different");
        sym::check(x != y, "types with different wire-relevant layouts have the same id");
    }
}

fn leaf(i: u8) -> Def {
    Def::B(Bi::Leaf(i))
}

fn st(name: &str, fields: Vec<Fl>) -> Def {
    Def::St(St { schema: "s".into(), name: name.into(), doc: None, fields, fb: None })
}

/// 1..=5: u8, string, option<u8>, an empty struct, the root itself (recursive).
fn rest() -> Tab {
    vec![leaf(1), leaf(11), Def::B(Bi::Opt(1)), st("Empty", vec![])]
}

fn rand_ty(what: &str) -> usize {
    match sym::choice(4, what) {
        0 => 1,
        1 => 3,
        2 => 4,
        _ => 0,
    }
}

fn rand_struct(max: usize, full: bool, docs: bool) -> Tab {
    let n = sym::choice(max + 1, "fields");
    let mut fields = vec![];
    for _ in 0..n {
        fields.push(Fl {
            id: id(full),
            name: ident(1, "field name"),
            req: sym::bool("required"),
            ty: rand_ty("field type"),
            doc: if docs { doc() } else { None },
        });
    }
    let mut t = vec![Def::St(St {
        schema: "s".into(),
        name: ident(1, "struct name"),
        doc: if docs { doc() } else { None },
        fields,
        fb: fb("fallback"),
    })];
    t.extend(rest());
    t
}

/// Two independent structs with at most one field, any 32-bit ids.
pub fn struct1() {
    verdict(&rand_struct(1, true, true), &rand_struct(1, true, false));
}

/// Two independent structs with at most two fields.
pub fn struct2() {
    verdict(&rand_struct(2, false, false), &rand_struct(2, false, false));
}

fn rand_enum(max: usize, full: bool) -> Tab {
    let n = sym::choice(max + 1, "variants");
    let mut vars = vec![];
    for _ in 0..n {
        vars.push(Va {
            id: id(full),
            name: ident(1, "variant name"),
            ty: match sym::choice(4, "payload") {
                0 => None,
                1 => Some(1),
                2 => Some(4),
                _ => Some(0),
            },
            doc: None,
        });
    }
    let mut t = vec![Def::En(En {
        schema: "s".into(),
        name: ident(1, "enum name"),
        doc: doc(),
        vars,
        fb: fb("fallback"),
    })];
    t.extend(rest());
    t
}

pub fn enum1() {
    verdict(&rand_enum(1, true), &rand_enum(1, true));
}

pub fn enum2() {
    verdict(&rand_enum(2, false), &rand_enum(2, false));
}

fn some_ty(what: &str) -> Option<usize> {
    match sym::choice(3, what) {
        0 => None,
        1 => Some(1),
        _ => Some(4),
    }
}

fn rand_service(fns: usize, evs: usize, fbs: bool, head: bool) -> Tab {
    let mut f = vec![];
    for _ in 0..sym::choice(fns + 1, "functions") {
        f.push(Func {
            id: id(false),
            name: ident(1, "function name"),
            args: some_ty("args"),
            ok: some_ty("ok"),
            err: some_ty("err"),
            doc: None,
        });
    }
    let mut e = vec![];
    for _ in 0..sym::choice(evs + 1, "events") {
        e.push(Va { id: id(false), name: ident(1, "event name"), ty: some_ty("event type"), doc: None });
    }
    let mut t = vec![Def::Sv(Sv {
        schema: if head { ident(1, "schema") } else { "s".into() },
        name: if head { ident(1, "service name") } else { "S".into() },
        doc: None,
        uuid: if head { sym::u128("uuid") } else { 7 },
        version: if head { sym::u32("version") } else { 1 },
        fns: f,
        evs: e,
        ffb: if fbs { fb("function fallback") } else { None },
        efb: if fbs { fb("event fallback") } else { None },
        evs_first: false,
    })];
    t.extend(rest());
    t
}

pub fn service_head() {
    verdict(&rand_service(0, 0, true, true), &rand_service(0, 0, true, true));
}

pub fn service_fn() {
    verdict(&rand_service(1, 0, false, false), &rand_service(1, 0, false, false));
}

pub fn service_ev() {
    verdict(&rand_service(0, 1, true, false), &rand_service(0, 1, true, false));
}

/// A service function against an event of the same shape, and the two kinds of
/// fallback against each other.
pub fn service_kinds() {
    let one = || {
        let mut x = Sv {
            schema: "s".into(),
            name: "S".into(),
            doc: None,
            uuid: 7,
            version: 1,
            fns: vec![],
            evs: vec![],
            ffb: None,
            efb: None,
            evs_first: false,
        };
        let n = "n".to_string();
        match sym::choice(2, "member") {
            0 => x.fns.push(Func {
                id: 1,
                name: n,
                args: some_ty("args"),
                ok: some_ty("ok"),
                err: some_ty("err"),
                doc: doc(),
            }),
            _ => x.evs.push(Va { id: 1, name: n, ty: some_ty("event"), doc: doc() }),
        }
        x.ffb = fb("function fallback");
        x.efb = fb("event fallback");
        let mut t = vec![Def::Sv(x)];
        t.extend(rest());
        t
    };
    verdict(&one(), &one());
}

fn rand_bi() -> Tab {
    // 0: the type; 1: struct Empty; 2: u8; 3: string; 4: vec<u8>-like nesting
    let arg = |what: &str| 1 + sym::choice(4, what);
    let x = match sym::choice(10, "builtin") {
        0 => Bi::Leaf(sym::choice(19, "leaf") as u8),
        1 => Bi::Opt(arg("arg")),
        2 => Bi::Box(arg("arg")),
        3 => Bi::Vec(arg("arg")),
        4 => Bi::Set(arg("arg")),
        5 => Bi::Snd(arg("arg")),
        6 => Bi::Rcv(arg("arg")),
        7 => Bi::Map(arg("arg"), arg("arg2")),
        8 => Bi::Res(arg("arg"), arg("arg2")),
        _ => Bi::Arr(arg("arg"), sym::u32("array length")),
    };
    vec![Def::B(x), st("Empty", vec![]), leaf(1), leaf(11), Def::B(Bi::Vec(3))]
}

/// Two independent built-in types, bare.
pub fn builtin() {
    verdict(&rand_bi(), &rand_bi());
}

/// The same behind a newtype or a struct field.
pub fn newtype() {
    let wrap = |mut t: Tab, k: usize| {
        let r = t.len();
        t.push(t[0].clone());
        t[0] = match k {
            0 => Def::Nt(Nt { schema: "s".into(), name: ident(1, "newtype name"), doc: doc(), ty: r }),
            _ => st("a", vec![Fl { id: 0, name: "x".into(), req: true, ty: r, doc: None }]),
        };
        t
    };
    let small = || {
        let x = match sym::choice(4, "builtin") {
            0 => Bi::Leaf(sym::choice(3, "leaf") as u8),
            1 => Bi::Opt(1 + sym::choice(2, "arg")),
            2 => Bi::Vec(1 + sym::choice(2, "arg")),
            _ => Bi::Arr(1 + sym::choice(2, "arg"), sym::u32("array length")),
        };
        vec![Def::B(x), st("Empty", vec![]), leaf(1)]
    };
    let a = wrap(small(), sym::choice(2, "kind"));
    let b = wrap(small(), sym::choice(2, "kind"));
    verdict(&a, &b);
}

/// Struct, enum, newtype and service that agree in schema, name and members.
pub fn kinds() {
    let one = || {
        let schema = || "s".to_string();
        let name = || "X".to_string();
        let x = match sym::choice(4, "kind") {
            0 => Def::St(St {
                schema: schema(),
                name: name(),
                doc: None,
                fields: match sym::choice(2, "fields") {
                    0 => vec![],
                    _ => vec![Fl { id: 0, name: "a".into(), req: sym::bool("required"), ty: 1, doc: None }],
                },
                fb: fb("fallback"),
            }),
            1 => Def::En(En {
                schema: schema(),
                name: name(),
                doc: None,
                vars: match sym::choice(2, "variants") {
                    0 => vec![],
                    _ => vec![Va { id: 0, name: "a".into(), ty: some_ty("type"), doc: None }],
                },
                fb: fb("fallback"),
            }),
            2 => Def::Nt(Nt { schema: schema(), name: name(), doc: None, ty: 1 + sym::choice(3, "type") }),
            _ => Def::Sv(Sv {
                schema: schema(),
                name: name(),
                doc: None,
                uuid: 0,
                version: 0,
                fns: vec![],
                evs: vec![],
                ffb: fb("fallback"),
                efb: None,
                evs_first: false,
            }),
        };
        let mut t = vec![x];
        t.extend(rest());
        t
    };
    verdict(&one(), &one());
}

/// Three custom types that refer to each other in every way.
pub fn graph(a: usize) {
    let one = || {
        let mut t = vec![];
        for n in ["A", "B", "C"] {
            let mut fields = vec![];
            let n_fields = if n == "A" { a } else { sym::choice(2, "fields") };
            for k in 0..n_fields {
                fields.push(Fl {
                    id: k as u32,
                    name: "f".into(),
                    req: true,
                    ty: match sym::choice(4, "type") {
                        3 => 3,
                        x => x,
                    },
                    doc: None,
                });
            }
            t.push(st(n, fields));
        }
        t.push(Def::B(Bi::Opt(2)));
        t
    };
    verdict_with(&one(), &one(), true);
}

/// A description that uses everything.
pub fn full() -> Tab {
    let f = |id, name: &str, req, ty| Fl { id, name: name.into(), req, ty, doc: None };
    let v = |id, name: &str, ty| Va { id, name: name.into(), ty, doc: None };
    let fbk = |n: &str| Some(Fb { name: n.into(), doc: None });
    vec![
        Def::Sv(Sv {
            schema: "s".into(),
            name: "Svc".into(),
            doc: None,
            uuid: 0x1234_5678_9abc_def0_1122_3344_5566_7788,
            version: 3,
            fns: vec![
                Func { id: 1, name: "one".into(), args: Some(1), ok: Some(2), err: Some(3), doc: None },
                Func { id: 4, name: "two".into(), args: None, ok: Some(9), err: None, doc: None },
            ],
            evs: vec![v(1, "ev", Some(4)), v(2, "ev2", None)],
            ffb: fbk("ff"),
            efb: fbk("ef"),
            evs_first: false,
        }),
        Def::St(St {
            schema: "s".into(),
            name: "Root".into(),
            doc: None,
            fields: vec![f(1, "a", true, 5), f(2, "b", false, 6), f(9, "c", false, 2)],
            fb: fbk("more"),
        }),
        Def::En(En {
            schema: "s".into(),
            name: "Sum".into(),
            doc: None,
            vars: vec![v(0, "V0", None), v(3, "V3", Some(7)), v(4, "V4", Some(1))],
            fb: fbk("Other"),
        }),
        Def::Nt(Nt { schema: "t".into(), name: "New".into(), doc: None, ty: 8 }),
        st("Leaf", vec![f(1, "x", true, 10)]),
        Def::B(Bi::Vec(3)),                 // 5
        Def::B(Bi::Map(11, 4)),             // 6
        Def::B(Bi::Res(4, 12)),             // 7
        Def::B(Bi::Arr(10, 5)),             // 8
        Def::B(Bi::Opt(7)),                 // 9
        leaf(1),                            // 10 u8
        leaf(11),                           // 11 string
        Def::B(Bi::Snd(10)),                // 12
    ]
}

struct Edit {
    at: usize,
    n: usize,
    /// Types to put in place of others: never built-ins with arguments, which
    /// could close a cycle of built-ins.
    ty: Vec<usize>,
}

impl Edit {
    fn new(at: usize, t: &Tab) -> Self {
        let mut ty: Vec<usize> = (1..t.len()).filter(|i| !matches!(t[*i], Def::B(_) | Def::Sv(_))).take(4).collect();
        ty.extend((0..t.len()).filter(|i| matches!(t[*i], Def::B(Bi::Leaf(_)))).take(2));
        Edit { at, n: 0, ty }
    }

    fn hit(&mut self) -> bool {
        self.n += 1;
        self.n - 1 == self.at
    }
}

fn edit_fb(e: &mut Edit, f: &mut Option<Fb>) {
    if e.hit() {
        *f = match f {
            Some(_) => None,
            None => Some(Fb { name: "x".into(), doc: None }),
        };
    }
    if e.hit() {
        if let Some(f) = f {
            f.name = ident(1, "new fallback name");
        }
    }
}

fn edit_ty(e: &mut Edit, t: &mut usize) {
    if e.hit() {
        *t = e.ty[sym::choice(e.ty.len(), "new type")];
    }
}

fn edit_opt(e: &mut Edit, t: &mut Option<usize>) {
    if e.hit() {
        *t = match t {
            Some(_) => None,
            None => e.ty.last().copied(),
        };
    }
    if e.hit() {
        *t = Some(e.ty[sym::choice(e.ty.len(), "new type")]);
    }
}

fn edit_name(e: &mut Edit, n: &mut String) {
    if e.hit() {
        *n = ident(2, "new name");
    }
}

fn edit_id(e: &mut Edit, i: &mut u32) {
    if e.hit() {
        *i = sym::u32("new id");
    }
}

fn edit_vars(e: &mut Edit, v: &mut Vec<Va>) {
    for v in v.iter_mut() {
        edit_id(e, &mut v.id);
        edit_name(e, &mut v.name);
        edit_opt(e, &mut v.ty);
    }
    if e.hit() && !v.is_empty() {
        v.remove(sym::choice(v.len(), "removed"));
    }
    if e.hit() {
        v.push(Va { id: 77, name: "added".into(), ty: None, doc: None });
    }
}

/// Applies the edit number `e.at` and counts them.
fn edit(e: &mut Edit, t: &mut Tab) {
    for d in t.iter_mut() {
        match d {
            Def::B(b) => {
                if let Bi::Arr(_, n) = b {
                    if e.hit() {
                        *n = sym::u32("new length");
                    }
                }
                if let Bi::Leaf(l) = b {
                    if e.hit() {
                        *l = sym::choice(19, "new leaf") as u8;
                    }
                    continue;
                }
                if let Bi::Map(_, v) = b {
                    edit_ty(e, v);
                }
                let a = match b {
                    Bi::Opt(a) | Bi::Box(a) | Bi::Vec(a) | Bi::Set(a) | Bi::Snd(a) | Bi::Rcv(a) => *a,
                    Bi::Map(a, _) | Bi::Res(a, _) | Bi::Arr(a, _) => *a,
                    Bi::Leaf(_) => 10,
                };
                if e.hit() {
                    *b = match sym::choice(6, "new builtin") {
                        0 => Bi::Opt(a),
                        1 => Bi::Box(a),
                        2 => Bi::Vec(a),
                        3 => Bi::Set(a),
                        4 => Bi::Snd(a),
                        _ => Bi::Rcv(a),
                    };
                }
            }
            Def::St(x) => {
                edit_name(e, &mut x.schema);
                edit_name(e, &mut x.name);
                edit_fb(e, &mut x.fb);
                for f in x.fields.iter_mut() {
                    edit_id(e, &mut f.id);
                    edit_name(e, &mut f.name);
                    edit_ty(e, &mut f.ty);
                    if e.hit() {
                        f.req = sym::bool("new required");
                    }
                }
                if e.hit() && !x.fields.is_empty() {
                    x.fields.remove(sym::choice(x.fields.len(), "removed"));
                }
                if e.hit() {
                    x.fields.push(Fl { id: 77, name: "added".into(), req: false, ty: *e.ty.last().unwrap(), doc: None });
                }
            }
            Def::En(x) => {
                edit_name(e, &mut x.schema);
                edit_name(e, &mut x.name);
                edit_fb(e, &mut x.fb);
                edit_vars(e, &mut x.vars);
            }
            Def::Nt(x) => {
                edit_name(e, &mut x.schema);
                edit_name(e, &mut x.name);
                edit_ty(e, &mut x.ty);
            }
            Def::Sv(x) => {
                edit_name(e, &mut x.schema);
                edit_name(e, &mut x.name);
                if e.hit() {
                    x.uuid = sym::u128("new uuid");
                }
                if e.hit() {
                    x.version = sym::u32("new version");
                }
                edit_fb(e, &mut x.ffb);
                edit_fb(e, &mut x.efb);
                edit_vars(e, &mut x.evs);
                for f in x.fns.iter_mut() {
                    edit_id(e, &mut f.id);
                    edit_name(e, &mut f.name);
                    edit_opt(e, &mut f.args);
                    edit_opt(e, &mut f.ok);
                    edit_opt(e, &mut f.err);
                }
                if e.hit() && !x.fns.is_empty() {
                    x.fns.remove(sym::choice(x.fns.len(), "removed"));
                }
                if e.hit() {
                    x.fns.push(Func { id: 77, name: "added".into(), args: None, ok: None, err: None, doc: None });
                }
            }
        }
    }
}

fn edits(t: &Tab) -> usize {
    let mut e = Edit::new(usize::MAX, t);
    edit(&mut e, &mut t.clone());
    e.n
}

/// Every single edit of the full description, anywhere below the root.
pub fn edited(root: usize) {
    let mut a = full();
    a.swap(0, root);
    if root != 0 {
        // keep the indices: the swapped entries are referred to by position
        remap(&mut a, 0, root);
    }
    let mut b = a.clone();
    let n = edits(&a);
    let at = sym::choice(n, "edit");
    edit(&mut Edit::new(at, &a), &mut b);
    verdict(&a, &b);
}

fn remap(t: &mut Tab, x: usize, y: usize) {
    let m = |i: &mut usize| {
        if *i == x {
            *i = y
        } else if *i == y {
            *i = x
        }
    };
    let mo = |i: &mut Option<usize>| {
        if let Some(i) = i {
            m(i)
        }
    };
    for d in t.iter_mut() {
        match d {
            Def::B(b) => match b {
                Bi::Leaf(_) => {}
                Bi::Opt(a) | Bi::Box(a) | Bi::Vec(a) | Bi::Set(a) | Bi::Snd(a) | Bi::Rcv(a) | Bi::Arr(a, _) => m(a),
                Bi::Map(a, b) | Bi::Res(a, b) => {
                    m(a);
                    m(b);
                }
            },
            Def::St(s) => s.fields.iter_mut().for_each(|f| m(&mut f.ty)),
            Def::En(s) => s.vars.iter_mut().for_each(|f| mo(&mut f.ty)),
            Def::Nt(s) => m(&mut s.ty),
            Def::Sv(s) => {
                for f in s.fns.iter_mut() {
                    mo(&mut f.args);
                    mo(&mut f.ok);
                    mo(&mut f.err);
                }
                s.evs.iter_mut().for_each(|f| mo(&mut f.ty));
            }
        }
    }
}

/// Every permutation of the declarations, and documentation everywhere.
pub fn permuted() {
    let a = full();
    let mut b = a.clone();
    fn shuffle<T>(v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, sym::choice(i + 1, "swap"));
        }
    }
    let which = sym::choice(7, "permute");
    match which {
        0..=2 => {
            if let Def::Sv(x) = &mut b[0] {
                match which {
                    0 => shuffle(&mut x.fns),
                    1 => shuffle(&mut x.evs),
                    _ => x.evs_first = true,
                }
            }
        }
        3 => {
            if let Def::St(x) = &mut b[1] {
                shuffle(&mut x.fields);
            }
        }
        4 => {
            if let Def::En(x) = &mut b[2] {
                shuffle(&mut x.vars);
            }
        }
        5 => docs(&mut b, &mut |_| Some(ident(1, "doc text"))),
        _ => {
            // one doc string, anywhere
            let mut n = 0;
            docs(&mut b, &mut |_| {
                n += 1;
                None
            });
            let at = sym::choice(n, "doc at");
            let mut k = 0;
            docs(&mut b, &mut |_| {
                k += 1;
                (k - 1 == at).then(|| ident(2, "doc text"))
            });
        }
    }
    sha1_smol::order(sym::choice(2, "hash order") == 1);
    let rev = sym::choice(2, "reverse references") == 1;
    for i in 0..5 {
        sym::check(
            id_of(&a, i, false) == id_of(&b, i, rev),
            "documentation or declaration order changes the type id",
        );
    }
}

fn docs(t: &mut Tab, f: &mut dyn FnMut(&str) -> Doc) {
    fn fbd(x: &mut Option<Fb>, f: &mut dyn FnMut(&str) -> Doc) {
        if let Some(x) = x {
            x.doc = f("fallback");
        }
    }
    for d in t.iter_mut() {
        match d {
            Def::B(_) => {}
            Def::St(x) => {
                x.doc = f("struct");
                x.fields.iter_mut().for_each(|y| y.doc = f("field"));
                fbd(&mut x.fb, f);
            }
            Def::En(x) => {
                x.doc = f("enum");
                x.vars.iter_mut().for_each(|y| y.doc = f("variant"));
                fbd(&mut x.fb, f);
            }
            Def::Nt(x) => x.doc = f("newtype"),
            Def::Sv(x) => {
                x.doc = f("service");
                x.fns.iter_mut().for_each(|y| y.doc = f("function"));
                x.evs.iter_mut().for_each(|y| y.doc = f("event"));
                fbd(&mut x.ffb, f);
                fbd(&mut x.efb, f);
            }
        }
    }
}

// ------------------------------------------------------------ records

static IGNORE_DOCS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn doc_is(a: Option<&str>, b: &Doc) -> bool {
    IGNORE_DOCS.load(std::sync::atomic::Ordering::Relaxed) || a == b.as_deref()
}

/// The record says exactly what the description says, with every reference
/// replaced by the id of the referenced type.
pub fn record_is(t: &Tab, i: usize, x: &Introspection, ids: &mut Vec<TypeId>) {
    let mut id = |j: usize| {
        let y = id_of(t, j, false);
        ids.push(y);
        y
    };
    let msg = "an introspection record does not say what the type's layout says";
    let fbk = |n: Option<(&str, Option<&str>)>, f: &Option<Fb>| match (n, f) {
        (None, None) => true,
        (Some((n, d)), Some(f)) => n == f.name && doc_is(d, &f.doc),
        _ => false,
    };
    match (&t[i], x.layout()) {
        (Def::B(b), Layout::BuiltIn(l)) => {
            let ok = match (*b, *l) {
                (Bi::Leaf(k), l) => {
                    use BuiltInType as T;
                    let want = match LEAVES[k as usize] {
                        "bool" => T::Bool,
                        "u8" => T::U8,
                        "i8" => T::I8,
                        "u16" => T::U16,
                        "i16" => T::I16,
                        "u32" => T::U32,
                        "i32" => T::I32,
                        "u64" => T::U64,
                        "i64" => T::I64,
                        "f32" => T::F32,
                        "f64" => T::F64,
                        "string" => T::String,
                        "uuid" => T::Uuid,
                        "object_id" => T::ObjectId,
                        "service_id" => T::ServiceId,
                        "value" => T::Value,
                        "bytes" => T::Bytes,
                        "lifetime" => T::Lifetime,
                        _ => T::Unit,
                    };
                    want == l
                }
                (Bi::Opt(a), BuiltInType::Option(y)) => id(a) == y,
                (Bi::Box(a), BuiltInType::Box(y)) => id(a) == y,
                (Bi::Vec(a), BuiltInType::Vec(y)) => id(a) == y,
                (Bi::Set(a), BuiltInType::Set(y)) => id(a) == y,
                (Bi::Snd(a), BuiltInType::Sender(y)) => id(a) == y,
                (Bi::Rcv(a), BuiltInType::Receiver(y)) => id(a) == y,
                (Bi::Map(a, b), BuiltInType::Map(y)) => id(a) == y.key() && id(b) == y.value(),
                (Bi::Res(a, b), BuiltInType::Result(y)) => id(a) == y.ok() && id(b) == y.err(),
                (Bi::Arr(a, n), BuiltInType::Array(y)) => id(a) == y.elem_type() && n == y.len(),
                _ => false,
            };
            sym::check(ok, msg);
        }
        (Def::St(s), Layout::Struct(l)) => {
            sym::check(l.schema() == s.schema && l.name() == s.name && doc_is(l.doc(), &s.doc), msg);
            sym::check(fbk(l.fallback().map(|f| (f.name(), f.doc())), &s.fb), msg);
            sym::check(l.fields().len() == s.fields.len(), msg);
            for f in &s.fields {
                match l.fields().get(&f.id) {
                    Some(g) => sym::check(
                        g.id() == f.id
                            && g.name() == f.name
                            && doc_is(g.doc(), &f.doc)
                            && g.is_required() == f.req
                            && g.field_type() == id(f.ty),
                        msg,
                    ),
                    None => sym::check(false, msg),
                }
            }
        }
        (Def::En(s), Layout::Enum(l)) => {
            sym::check(l.schema() == s.schema && l.name() == s.name && doc_is(l.doc(), &s.doc), msg);
            sym::check(fbk(l.fallback().map(|f| (f.name(), f.doc())), &s.fb), msg);
            sym::check(l.variants().len() == s.vars.len(), msg);
            for f in &s.vars {
                match l.variants().get(&f.id) {
                    Some(g) => sym::check(
                        g.id() == f.id
                            && g.name() == f.name
                            && doc_is(g.doc(), &f.doc)
                            && g.variant_type() == f.ty.map(&mut id),
                        msg,
                    ),
                    None => sym::check(false, msg),
                }
            }
        }
        (Def::Nt(s), Layout::Newtype(l)) => sym::check(
            l.schema() == s.schema
                && l.name() == s.name
                && doc_is(l.doc(), &s.doc)
                && l.target_type() == id(s.ty),
            msg,
        ),
        (Def::Sv(s), Layout::Service(l)) => {
            sym::check(l.schema() == s.schema && l.name() == s.name && doc_is(l.doc(), &s.doc), msg);
            sym::check(l.uuid().0.as_u128() == s.uuid && l.version() == s.version, msg);
            sym::check(fbk(l.function_fallback().map(|f| (f.name(), f.doc())), &s.ffb), msg);
            sym::check(fbk(l.event_fallback().map(|f| (f.name(), f.doc())), &s.efb), msg);
            sym::check(l.functions().len() == s.fns.len() && l.events().len() == s.evs.len(), msg);
            for f in &s.fns {
                match l.functions().get(&f.id) {
                    Some(g) => sym::check(
                        g.id() == f.id
                            && g.name() == f.name
                            && doc_is(g.doc(), &f.doc)
                            && g.args() == f.args.map(&mut id)
                            && g.ok() == f.ok.map(&mut id)
                            && g.err() == f.err.map(&mut id),
                        msg,
                    ),
                    None => sym::check(false, msg),
                }
            }
            for f in &s.evs {
                match l.events().get(&f.id) {
                    Some(g) => sym::check(
                        g.id() == f.id
                            && g.name() == f.name
                            && doc_is(g.doc(), &f.doc)
                            && g.event_type() == f.ty.map(&mut id),
                        msg,
                    ),
                    None => sym::check(false, msg),
                }
            }
        }
        _ => sym::check(false, msg),
    }
}

fn record(t: &Tab, i: usize) {
    let x = with(t, false, || Introspection::from_dyn(node(i)));
    round_trip(&x);
    sym::check(x.type_id() == id_of(t, i, false), "a record does not carry its type's id");
    let mut ids = vec![];
    record_is(t, i, &x, &mut ids);
    resolve(&x, &ids);
}

fn resolve(x: &Introspection, ids: &[TypeId]) {
    let want: HashSet<TypeId> = ids.iter().copied().collect();
    sym::check(*x.references() == want, "a record's references are not those of its layout");
}

pub fn round_trip(x: &Introspection) {
    match SerializedValue::serialize(x) {
        Ok(v) => match v.deserialize::<Introspection>() {
            Ok(y) => sym::check(*x == y, "an introspection record changes when it is sent"),
            Err(_) => sym::check(false, "an introspection record cannot be read back"),
        },
        Err(_) => sym::check(false, "an introspection record cannot be serialized"),
    }
}

/// Every type of the full description, with documentation.
pub fn records() {
    let mut t = full();
    if sym::choice(2, "with docs") == 1 {
        docs(&mut t, &mut |_| Some(ident(1, "doc text")));
    }
    let i = sym::choice(t.len(), "type");
    record(&t, i);
    sym::cover("record");
}

/// A struct whose every scalar is arbitrary.
pub fn record_struct() {
    let t = rand_struct(2, false, true);
    assume_valid(&t);
    record(&t, 0);
}

pub fn record_enum() {
    let t = rand_enum(2, false);
    assume_valid(&t);
    record(&t, 0);
}

pub fn record_service() {
    let t = rand_service(1, 1, true, true);
    assume_valid(&t);
    record(&t, 0);
}

pub fn record_builtin() {
    let t = rand_bi();
    record(&t, 0);
}

// ------------------------------------------------------ std's types

/// The introspection that the library gives to std's and its own types.
pub fn std_types() {
    use std::collections::*;
    type A = N<1>;
    type B = N<2>;
    let d = DynIntrospectable::new::<A>();
    let _ = d;
    let list: &[(DynIntrospectable, Bi)] = &[
        (DynIntrospectable::new::<Option<A>>(), Bi::Opt(1)),
        (DynIntrospectable::new::<Box<A>>(), Bi::Box(1)),
        (DynIntrospectable::new::<Vec<A>>(), Bi::Vec(1)),
        (DynIntrospectable::new::<VecDeque<A>>(), Bi::Vec(1)),
        (DynIntrospectable::new::<LinkedList<A>>(), Bi::Vec(1)),
        (DynIntrospectable::new::<[A]>(), Bi::Vec(1)),
        (DynIntrospectable::new::<[A; 0]>(), Bi::Arr(1, 0)),
        (DynIntrospectable::new::<[A; 3]>(), Bi::Arr(1, 3)),
        (DynIntrospectable::new::<[A; 300]>(), Bi::Arr(1, 300)),
        (DynIntrospectable::new::<HashMap<A, B>>(), Bi::Map(1, 2)),
        (DynIntrospectable::new::<BTreeMap<A, B>>(), Bi::Map(1, 2)),
        (DynIntrospectable::new::<HashMap<B, A>>(), Bi::Map(2, 1)),
        (DynIntrospectable::new::<BTreeMap<B, A>>(), Bi::Map(2, 1)),
        (DynIntrospectable::new::<HashSet<A>>(), Bi::Set(1)),
        (DynIntrospectable::new::<BTreeSet<A>>(), Bi::Set(1)),
        (DynIntrospectable::new::<Result<A, B>>(), Bi::Res(1, 2)),
        (DynIntrospectable::new::<Result<B, A>>(), Bi::Res(2, 1)),
        (DynIntrospectable::new::<aldrin::UnboundSender<A>>(), Bi::Snd(1)),
        (DynIntrospectable::new::<aldrin::UnboundReceiver<A>>(), Bi::Rcv(1)),
        (DynIntrospectable::new::<bool>(), Bi::Leaf(0)),
        (DynIntrospectable::new::<u8>(), Bi::Leaf(1)),
        (DynIntrospectable::new::<i8>(), Bi::Leaf(2)),
        (DynIntrospectable::new::<u16>(), Bi::Leaf(3)),
        (DynIntrospectable::new::<i16>(), Bi::Leaf(4)),
        (DynIntrospectable::new::<u32>(), Bi::Leaf(5)),
        (DynIntrospectable::new::<i32>(), Bi::Leaf(6)),
        (DynIntrospectable::new::<u64>(), Bi::Leaf(7)),
        (DynIntrospectable::new::<i64>(), Bi::Leaf(8)),
        (DynIntrospectable::new::<f32>(), Bi::Leaf(9)),
        (DynIntrospectable::new::<f64>(), Bi::Leaf(10)),
        (DynIntrospectable::new::<String>(), Bi::Leaf(11)),
        (DynIntrospectable::new::<str>(), Bi::Leaf(11)),
        (DynIntrospectable::new::<uuid::Uuid>(), Bi::Leaf(12)),
        (DynIntrospectable::new::<aldrin_core::ObjectId>(), Bi::Leaf(13)),
        (DynIntrospectable::new::<aldrin_core::ServiceId>(), Bi::Leaf(14)),
        (DynIntrospectable::new::<aldrin_core::Value>(), Bi::Leaf(15)),
        (DynIntrospectable::new::<SerializedValue>(), Bi::Leaf(15)),
        (DynIntrospectable::new::<aldrin_core::SerializedValueSlice>(), Bi::Leaf(15)),
        (DynIntrospectable::new::<aldrin_core::Bytes>(), Bi::Leaf(16)),
        (DynIntrospectable::new::<aldrin_core::ByteSlice>(), Bi::Leaf(16)),
        (DynIntrospectable::new::<aldrin::LifetimeId>(), Bi::Leaf(17)),
        (DynIntrospectable::new::<()>(), Bi::Leaf(18)),
    ];
    let k = sym::choice(list.len(), "type");
    let (d, b) = list[k];
    let mut t = vec![
        Def::B(b),
        st("A", vec![Fl { id: id(true), name: ident(1, "name"), req: sym::bool("required"), ty: 3, doc: None }]),
        Def::Nt(Nt { schema: "s".into(), name: "B".into(), doc: None, ty: 3 }),
        leaf(1 + sym::choice(2, "leaf") as u8),
    ];
    let want = id_of(&t, 0, false);
    let (got, lexid) = with(&t, false, || (TypeId::compute_from_dyn(d), d.lexical_id()));
    sym::check(got == want, "a library type does not have the id of its schema type");
    sym::check(lexid == lex(&t, 0), "a library type does not have the lexical id of its schema type");
    let x = with(&t, false, || Introspection::from_dyn(d));
    let mut ids = vec![];
    record_is(&t, 0, &x, &mut ids);
    // as somebody's field
    t.push(st("Outer", vec![Fl { id: 0, name: "x".into(), req: true, ty: 0, doc: None }]));
    round_trip(&x);
}

// -------------------------------------------- generated and derived code

use crate::generated::{alt, main};
use crate::schema::{Sch, Set};

type Gen = (&'static str, &'static str, DynIntrospectable, Option<DynIntrospectable>);

fn unraw(s: &'static str) -> &'static str {
    s.strip_prefix("r#").unwrap_or(s)
}

macro_rules! alt_ty {
    (ext, $t:ident) => {
        Some(DynIntrospectable::new::<alt::ext::$t>())
    };
    (all, $t:ident) => {
        Some(DynIntrospectable::new::<alt::all::$t>())
    };
    (svc, $t:ident) => {
        Some(DynIntrospectable::new::<alt::svc::$t>())
    };
    ($s:ident, $t:ident) => {
        None
    };
}

macro_rules! row {
    ($s:ident, $t:ident) => {
        (stringify!($s), unraw(stringify!($t)), DynIntrospectable::new::<main::$s::$t>(), alt_ty!($s, $t))
    };
}

macro_rules! row_svc {
    ($s:ident, $t:ident, $i:ident) => {
        (stringify!($s), unraw(stringify!($t)), DynIntrospectable::new::<main::$s::$i>(), alt_ty!($s, $i))
    };
}

fn generated_types() -> Vec<Gen> {
    let mut v: Vec<Gen> = crate::for_types!(row).to_vec();
    v.extend(crate::for_services!(row_svc));
    v
}

/// Every type that the code generator wrote for the corpus has the id, and the
/// record, that its schema's text says; a rewrite of the schema that changes
/// order and documentation only changes nothing.
pub fn generated() {
    let list = generated_types();
    let k = sym::choice(list.len(), "type");
    let (schema, name, d, other) = list[k];
    let mut loads: Vec<&str> = vec!["ext"];
    match schema {
        "ext" => {}
        "all" => loads.push("all"),
        "svc" => loads.extend(["all", "svc"]),
        s => loads.push(s),
    }
    let s = Sch::load(Set::Main, &loads);
    let i = s.get(schema, name);
    sym::check(d.lexical_id() == lex(&s.tab, i), "a generated type has another lexical id than its schema type");
    let id = TypeId::compute_from_dyn(d);
    sym::check(id == id_of(&s.tab, i, false), "a generated type does not have the id of its schema type");
    sym::cover("generated");
    let x = Introspection::from_dyn(d);
    sym::check(x.type_id() == id, "an introspection record has another id than its type");
    let mut t = s.tab.clone();
    IGNORE_DOCS.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut ids = vec![];
    record_is(&t, i, &x, &mut ids);
    resolve(&x, &ids);
    round_trip(&x);
    if let Some(o) = other {
        let u = Sch::load(Set::Alt, &loads);
        sym::check(
            same(&t, i, &u.tab, u.get(schema, name)),
            "harness: the rewritten schemas say something else",
        );
        sym::check(TypeId::compute_from_dyn(o) == id, "documentation or order changes the id of a generated type");
        sym::cover("rewritten");
    }
    let _ = &mut t;
}

/// A single edit somewhere in the schema changes the ids of the generated types
/// that it reaches, and of no others.
pub fn generated_edit() {
    let s = Sch::load(Set::Main, &["ext", "raw"]);
    let mut b = s.tab.clone();
    let n = edits(&b);
    let at = sym::choice(n, "edit");
    edit(&mut Edit::new(at, &s.tab), &mut b);
    assume_valid(&b);
    sha1_smol::order(sym::choice(2, "hash order") == 1);
    for (schema, name, d, _) in generated_types() {
        if schema == "ext" || schema == "raw" {
            let i = s.get(schema, name);
            let same = same(&s.tab, i, &b, i);
            let eq = TypeId::compute_from_dyn(d) == id_of(&b, i, false);
            if same {
                sym::check(eq, "types with the same wire-relevant layout have different ids");
            } else {
                sym::cover("different");
                sym::check(!eq, "types with different wire-relevant layouts have the same id");
            }
        }
    }
}

mod derived_types {
    use crate::desc::N;
    use aldrin_core::{Introspectable, UnknownFields, UnknownVariant};

    /// Documented.
    #[allow(dead_code)]
    #[derive(Introspectable)]
    #[aldrin(schema = "s")]
    pub struct Full {
        /// First.
        #[aldrin(id = 1)]
        pub a: N<1>,
        #[aldrin(id = 70000, optional)]
        pub b: Option<N<2>>,
        #[aldrin(id = 4)]
        pub r#fn: N<0>,
        #[aldrin(fallback)]
        pub more: UnknownFields,
    }

    #[allow(dead_code)]
    #[derive(Introspectable)]
    #[aldrin(schema = "s")]
    pub struct Implicit {
        pub a: N<1>,
        #[aldrin(id = 5)]
        pub b: N<2>,
        #[aldrin(optional)]
        pub c: Option<N<1>>,
        pub d: N<3>,
    }

    #[allow(dead_code)]
    #[derive(Introspectable)]
    #[aldrin(schema = "s")]
    pub struct Tuple(
        pub N<1>,
        #[aldrin(id = 7)] pub N<2>,
        #[aldrin(optional)] pub Option<N<3>>,
        #[aldrin(fallback)] pub UnknownFields,
    );

    #[derive(Introspectable)]
    #[aldrin(schema = "t")]
    pub struct Unit;

    #[derive(Introspectable)]
    #[aldrin(schema = "t")]
    pub struct Braces {}

    #[allow(dead_code)]
    #[derive(Introspectable)]
    #[aldrin(schema = "s")]
    pub enum Sum {
        A,
        #[aldrin(id = 9)]
        B(N<1>),
        C(N<0>),
        r#fn,
        #[aldrin(fallback)]
        Other(UnknownVariant),
    }

    #[allow(dead_code)]
    #[derive(Introspectable)]
    #[aldrin(schema = "s")]
    pub enum Sum2 {
        #[aldrin(id = 3)]
        /// Doc.
        A(N<2>),
        B,
    }

    #[allow(dead_code)]
    #[derive(Introspectable)]
    #[aldrin(schema = "s", newtype)]
    pub struct New(pub N<2>);

    #[allow(dead_code)]
    #[derive(Introspectable)]
    #[aldrin(schema = "s")]
    pub struct NotNew(pub N<2>);
}

fn derived_list() -> Vec<(DynIntrospectable, Def)> {
    use derived_types as d;
    let f = |id, name: &str, req, ty| Fl { id, name: name.into(), req, ty, doc: None };
    let v = |id, name: &str, ty| Va { id, name: name.into(), ty, doc: None };
    let fbk = |n: &str| Some(Fb { name: n.into(), doc: None });
    let stt = |schema: &str, name: &str, fields, fb| {
        Def::St(St { schema: schema.into(), name: name.into(), doc: None, fields, fb })
    };
    let en = |name: &str, vars, fb| Def::En(En { schema: "s".into(), name: name.into(), doc: None, vars, fb });
    vec![
        (
            DynIntrospectable::new::<d::Full>(),
            stt("s", "Full", vec![f(1, "a", true, 1), f(70000, "b", false, 2), f(4, "fn", true, 0)], fbk("more")),
        ),
        (
            DynIntrospectable::new::<d::Implicit>(),
            stt(
                "s",
                "Implicit",
                vec![f(0, "a", true, 1), f(5, "b", true, 2), f(6, "c", false, 1), f(7, "d", true, 3)],
                None,
            ),
        ),
        (
            DynIntrospectable::new::<d::Tuple>(),
            stt(
                "s",
                "Tuple",
                vec![f(0, "field0", true, 1), f(7, "field1", true, 2), f(8, "field2", false, 3)],
                fbk("fallback"),
            ),
        ),
        (DynIntrospectable::new::<d::Unit>(), stt("t", "Unit", vec![], None)),
        (DynIntrospectable::new::<d::Braces>(), stt("t", "Braces", vec![], None)),
        (
            DynIntrospectable::new::<d::Sum>(),
            en("Sum", vec![v(0, "A", None), v(9, "B", Some(1)), v(10, "C", Some(0)), v(11, "fn", None)], fbk("Other")),
        ),
        (DynIntrospectable::new::<d::Sum2>(), en("Sum2", vec![v(3, "A", Some(2)), v(4, "B", None)], None)),
        (
            DynIntrospectable::new::<d::New>(),
            Def::Nt(Nt { schema: "s".into(), name: "New".into(), doc: None, ty: 2 }),
        ),
        (DynIntrospectable::new::<d::NotNew>(), stt("s", "NotNew", vec![f(0, "field0", true, 2)], None)),
    ]
}

/// Types made by the derive macro by hand, over arbitrary referenced types, and
/// every single edit of their descriptions.
pub fn derived() {
    let list = derived_list();
    let k = sym::choice(list.len(), "type");
    let (d, def) = list[k].clone();
    // 0 is the type itself
    let mut t = vec![
        def,
        st("A", vec![Fl { id: id(false), name: ident(1, "name"), req: sym::bool("required"), ty: 0, doc: doc() }]),
        Def::B(Bi::Opt(1)),
        leaf(sym::choice(3, "leaf") as u8),
    ];
    if k == 7 || k == 8 {
        t[2] = Def::Nt(Nt { schema: "s".into(), name: "B".into(), doc: None, ty: 1 });
    }
    let mut u = t.clone();
    let n = edits(&u);
    let at = sym::choice(n + 1, "edit");
    edit(&mut Edit::new(at, &t), &mut u);
    assume_valid(&t);
    assume_valid(&u);
    sha1_smol::order(sym::choice(2, "hash order") == 1);
    let (x, got, lid) = with(&t, false, || (Introspection::from_dyn(d), TypeId::compute_from_dyn(d), d.lexical_id()));
    sym::check(lid == lex(&t, 0), "a derived type has another lexical id than its description");
    let s = same(&t, 0, &u, 0);
    let eq = got == id_of(&u, 0, false);
    if s {
        sym::cover("same");
        sym::check(eq, "types with the same wire-relevant layout have different ids");
    } else {
        sym::cover("different");
        sym::check(!eq, "types with different wire-relevant layouts have the same id");
    }
    if at == n {
        IGNORE_DOCS.store(true, std::sync::atomic::Ordering::Relaxed);
        let mut ids = vec![];
        record_is(&t, 0, &x, &mut ids);
        resolve(&x, &ids);
        round_trip(&x);
        sym::cover("record");
    }
}
