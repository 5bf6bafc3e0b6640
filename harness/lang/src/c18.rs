//! C18: formatting preserves the schema and is idempotent.

use crate::gram::*;
use aldrin_parser::{Diagnostic, Formatter, MemoryResolver, Parser, Renderer};

/// What a rendered diagnostic says, without what it shows of the source.
fn says(r: String) -> String {
    let mut o = String::new();
    for (i, l) in r.lines().enumerate() {
        if i == 0 || l.trim_start().starts_with("= ") {
            o.push_str(l.trim());
            o.push('\n');
        }
    }
    o
}

/// All diagnostics without positions.
pub fn diagnostics(p: &Parser) -> Vec<String> {
    let r = Renderer::new(false, false, 100);
    let mut v: Vec<String> = p.errors().iter().map(|e| format!("{} {}", e.schema_name(), says(r.render(e, p)))).collect();
    v.extend(p.warnings().iter().map(|e| format!("{} {}", e.schema_name(), says(r.render(e, p)))));
    v.extend(p.other_warnings().iter().map(|e| format!("other {} {}", e.schema_name(), says(r.render(e, p)))));
    v.sort();
    v
}

pub fn parse(src: &str, others: &[(&str, &str)]) -> Parser {
    let mut r = MemoryResolver::new("main", Ok(src.to_owned()));
    for (n, s) in others {
        r.add(*n, Ok((*s).to_owned()));
    }
    Parser::parse(&mut r)
}

fn format(p: &Parser, msg: &str) -> String {
    match Formatter::new(p) {
        Ok(f) => f.to_string(),
        Err(_) => {
            sym::check(false, msg);
            sym::stop()
        }
    }
}

/// Checks the formatting of `src`, whose meaning is `want`.
pub fn check(src: &str, want: Option<MSchema>, others: &[(&str, &str)]) {
    let p = parse(src, others);
    if want.is_none() && Formatter::new(&p).is_err() {
        sym::cover("syntax error");
        return;
    }
    sym::cover("formatted");
    let is = from_ast(p.main_schema());
    if let Some(w) = &want {
        sym::check(is == *w, "the parser reads something else than the schema");
    }
    let f = format(&p, "a valid schema cannot be formatted");
    let q = parse(&f, others);
    let g = format(&q, "a formatted schema has syntax errors");
    let now = from_ast(q.main_schema());
    if p.errors().is_empty() {
        all_read(&p, src);
    }
    sym::check(sorted(is) == now, "formatting changes the schema");
    sym::check(f == g, "formatting a formatted schema changes it");
    sym::check(diagnostics(&p) == diagnostics(&q), "formatting changes the diagnostics");
    sym::log(f.len() as u64);
}

/// How often each letter and digit appears, outside of comments.  `ok` is left
/// out, which isn't written for functions that have nothing else.
fn letters(src: &str) -> [u32; 128] {
    let mut n = [0; 128];
    for l in src.split('\n') {
        let l = l.split("//").next().unwrap_or("");
        for w in l.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').filter(|w| *w != "ok") {
            for c in w.bytes() {
                n[c as usize] += 1;
            }
        }
    }
    n
}

/// Nothing of a schema that is said to be without errors was passed over.
fn all_read(p: &Parser, src: &str) {
    let Ok(f) = Formatter::new(p) else {
        sym::check(false, "a schema without errors cannot be formatted");
        return;
    };
    let imports = p.main_schema().imports();
    let twice = imports.iter().enumerate().any(|(i, x)| imports[..i].iter().any(|y| x.schema_name().value() == y.schema_name().value()));
    if !twice && !src.contains('\r') && !(src.contains('"') && src.contains("//")) {
        sym::check(letters(src) == letters(&f.to_string()), "a part of a schema is passed over without an error");
    }
}

// -------------------------------------------------------------- generators

fn s(x: &str) -> String {
    x.to_owned()
}

fn some(n: usize, what: &str) -> bool {
    sym::choice(n, what) == 0
}

/// Nothing, a comment, documentation, an attribute, or all of them.
fn prelude(attrs: bool, comments: bool) -> Pre {
    let mut p = Pre::default();
    let k = sym::choice(4 + attrs as usize, "prelude");
    if comments && matches!(k, 1 | 3) {
        p.c.push(s("c1"));
    }
    if matches!(k, 2 | 3) {
        p.d.push(s("d1"));
    }
    if k == 3 {
        if comments {
            p.c.push(s(""));
        }
        p.d.extend([s(""), s("d2")]);
        if attrs {
            p.a.push((s("x"), vec![]));
            p.a.push((s("y"), vec![s("z"), s("w")]));
        }
    }
    if k == 4 {
        p.a.push((s("x"), vec![s("a")]));
    }
    p
}

/// Nothing or something in front.
fn short_prelude() -> Pre {
    let mut p = Pre::default();
    match sym::choice(3, "prelude") {
        0 => {}
        1 => p.c.push(s("c")),
        _ => p.d.push(s("d")),
    }
    p
}

fn no_pre() -> Pre {
    Pre::default()
}

fn layout(n: usize) -> Out {
    let (ws, mix, long) = [(Ws::Compact, 1, true), (Ws::Lines, 2, false), (Ws::Crlf, 0, false), (Ws::Indented, 1, false), (Ws::Spaces, 2, true)]
        [sym::choice(n, "layout")];
    Out::new(ws, mix, long, (usize::MAX, ""))
}

fn plain() -> Out {
    Out::new(Ws::Spaces, 0, false, (usize::MAX, ""))
}

fn go(m: MSchema, mut o: Out) {
    o.schema(&m);
    check(&o.s, Some(m), &[]);
}

fn member(name: &str, id: &str, ty: Option<&str>) -> Member {
    Member { pre: no_pre(), req: false, name: s(name), id: s(id), ty: ty.map(|t| vec![s(t)]) }
}

fn uuid() -> String {
    s("12345678-9abc-DEF0-1234-56789abcdef0")
}

/// A definition of any kind, empty or not, with or without a prelude.
fn any_def(i: usize) -> Def {
    let name = s(["A", "B", "C", "D"][i]);
    let kind = sym::choice(7, "kind");
    let pre = short_prelude();
    let kind = match kind {
        0 => Kind::Struct(Body::default()),
        1 => Kind::Struct(Body { members: vec![member("f", "1", Some("u8"))], fb: None }),
        2 => Kind::Enum(Body::default()),
        3 => Kind::Enum(Body { members: vec![member("V", "1", None)], fb: None }),
        4 => Kind::Const("u8", s("1")),
        5 => Kind::Newtype(vec![s("u8")]),
        _ => Kind::Service(Svc { uuid: uuid(), version: s("1"), ..Svc::default() }),
    };
    Def { pre, name, kind }
}

/// The head of a schema: documentation, comments, imports.
pub fn head() {
    let mut m = MSchema::default();
    m.d = vec![s("d1"), s("d2")];
    m.d.truncate(sym::choice(3, "schema docs"));
    if !m.d.is_empty() {
        m.c = vec![s("c1"), s("c2")];
        m.c.truncate(sym::choice(3, "schema comments"));
    }
    for i in 0..sym::choice(4, "imports") {
        let c = if some(2, "import comment") { vec![s("ic")] } else { vec![] };
        m.imports.push((c, s(["b", "a", "b"][i])));
    }
    let pre = short_prelude();
    m.defs.push(Def { pre, name: s("A"), kind: Kind::Newtype(vec![s("u8")]) });
    go(m, layout(5));
}

/// Sequences of `n` definitions.
pub fn defs(n: usize) {
    let m = MSchema { defs: (0..n).map(any_def).collect(), ..MSchema::default() };
    go(m, if n < 3 { layout(5) } else { plain() });
}

fn body(is_struct: bool, max: usize, full: bool) -> Body {
    let mut b = Body::default();
    for i in 0..sym::choice(max + 1, "members") {
        let t = if is_struct {
            Some("u8")
        } else if some(2, "variant type") {
            Some("string")
        } else {
            None
        };
        let mut m = member(["x", "y", "z"][i], ["1", "2", "3"][i], t);
        m.req = is_struct && some(2, "required");
        m.pre = if full { prelude(false, true) } else { short_prelude() };
        b.members.push(m);
    }
    if some(2, "fallback") {
        b.fb = Some(Fb { pre: if full { prelude(false, true) } else { short_prelude() }, name: s("rest") });
    }
    b
}

/// A struct or enum with everything in it, and another definition after it.
pub fn bodies() {
    let is_struct = some(2, "enum");
    let pre = prelude(true, true);
    let b = body(is_struct, 2, false);
    let kind = if is_struct { Kind::Struct(b) } else { Kind::Enum(b) };
    let mut m = MSchema::default();
    m.defs.push(Def { pre, name: s("A"), kind });
    m.defs.push(Def { pre: no_pre(), name: s("B"), kind: Kind::Newtype(vec![s("A")]) });
    go(m, layout(2));
}

/// A few bodies.
fn few(is_struct: bool) -> Body {
    let mut m = member("x", "1", if is_struct { Some("u8") } else { None });
    let mut fb = Fb { pre: no_pre(), name: s("rest") };
    match sym::choice(4, "body") {
        0 => Body::default(),
        1 => Body { members: vec![m], fb: None },
        2 => Body { members: vec![], fb: Some(fb) },
        _ => {
            m.req = is_struct;
            m.pre.d.push(s("md"));
            fb.pre.c.push(s("fc"));
            fb.pre.d.push(s("fd"));
            Body { members: vec![m.clone(), member("y", "2", Some("string"))], fb: Some(fb) }
        }
    }
}

/// An inline type.
fn inline(full: bool) -> Inline {
    match sym::choice(3, "type") {
        0 => Inline::Ty(vec![s("u8")]),
        k => {
            let p = match sym::choice(4, "inline prelude") {
                0 => no_pre(),
                1 => Pre { d: vec![s("d")], ..no_pre() },
                2 => Pre { a: vec![(s("x"), vec![])], ..no_pre() },
                _ => Pre { d: vec![s("d"), s("e")], a: vec![(s("x"), vec![s("y")]), (s("z"), vec![])], ..no_pre() },
            };
            let b = if full { body(k == 1, 1, false) } else { few(k == 1) };
            if k == 1 {
                Inline::Struct(p, b)
            } else {
                Inline::Enum(p, b)
            }
        }
    }
}

fn svc(items: Vec<Item>) -> MSchema {
    let svc = Svc { uuid: uuid(), version: s("1"), items, ..Svc::default() };
    MSchema { defs: vec![Def { pre: no_pre(), name: s("S"), kind: Kind::Service(svc) }], ..MSchema::default() }
}

fn opt_part(what: &str, full: bool) -> Option<Part> {
    match sym::choice(3, what) {
        0 => None,
        1 => Some(Part { c: vec![], ty: inline(full) }),
        _ => Some(Part { c: vec![s("pc"), s("")], ty: inline(full) }),
    }
}

/// A function with one part in all its forms and the others present or not.
pub fn function(full: bool) {
    let focus = sym::choice(3, "part");
    let part = |i: usize, what: &str| {
        if i == focus {
            return opt_part(what, full);
        }
        match sym::choice(3, what) {
            0 => None,
            1 => Some(Part { c: vec![], ty: Inline::Struct(no_pre(), Body::default()) }),
            _ => Some(Part { c: vec![s("x")], ty: Inline::Ty(vec![s("u8")]) }),
        }
    };
    let body = ItemBody::Fn { args: part(0, "args"), ok: part(1, "ok"), err: part(2, "err") };
    let pre = if some(2, "prelude") { Pre { c: vec![s("c")], d: vec![s("d")], a: vec![] } } else { no_pre() };
    let m = svc(vec![Item { pre, name: s("f"), id: s("1"), body }]);
    let mut o = plain();
    if some(2, "long") {
        o = Out::new(Ws::Lines, 1, true, (usize::MAX, ""));
    }
    go(m, o);
}

/// An event.
pub fn event() {
    let t = if some(2, "type") { Some(inline(true)) } else { None };
    let m = svc(vec![Item { pre: prelude(false, true), name: s("e"), id: s("1"), body: ItemBody::Ev(t) }]);
    go(m, layout(2));
}

/// Sequences of `n` functions and events between any head and fallbacks.
pub fn items(n: usize, full: bool) {
    let mut items = Vec::new();
    for i in 0..n {
        let body = match sym::choice(6, "item") {
            0 => ItemBody::Fn { args: None, ok: None, err: None },
            1 => ItemBody::Fn { args: None, ok: Some(Part { c: vec![], ty: Inline::Ty(vec![s("u8")]) }), err: None },
            2 => ItemBody::Fn { args: None, ok: None, err: Some(Part { c: vec![], ty: Inline::Ty(vec![s("u8")]) }) },
            3 => ItemBody::Ev(None),
            4 => ItemBody::Ev(Some(Inline::Ty(vec![s("u8")]))),
            _ => ItemBody::Ev(Some(Inline::Enum(no_pre(), Body { members: vec![member("V", "1", None)], fb: None }))),
        };
        let pre = if full {
            short_prelude()
        } else if some(2, "prelude") {
            Pre { c: vec![s("c")], d: vec![s("d")], a: vec![] }
        } else {
            no_pre()
        };
        items.push(Item { pre, name: s(["a", "b", "c"][i]), id: s(["1", "2", "3"][i]), body });
    }
    let mut m = svc(items);
    let Kind::Service(v) = &mut m.defs[0].kind else { return };
    if full || n == 0 {
        if some(2, "uuid comment") {
            v.uc.push(s("uc"));
        }
        if some(2, "version comment") {
            v.vc.extend([s("vc"), s("vc2")]);
        }
    }
    if some(2, "function fallback") {
        v.fn_fb = Some(Fb { pre: if full || n == 0 { short_prelude() } else { no_pre() }, name: s("ff") });
    }
    if some(2, "event fallback") {
        v.ev_fb = Some(Fb { pre: if full || n == 0 { short_prelude() } else { no_pre() }, name: s("ef") });
    }
    let mut o = plain();
    if some(2, "swapped") {
        o = Out::new(Ws::Compact, 1, false, (usize::MAX, ""));
    }
    go(m, o);
}

const LEAVES: [&str; 23] = [
    "bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "string", "uuid", "object_id", "service_id", "value", "bytes", "lifetime",
    "unit", "Foo", "_x", "s", "é",
];

/// A type with generics up to `depth` deep.
fn any_ty(depth: usize, o: &mut Ty) {
    let put = |o: &mut Ty, x: &[&str]| o.extend(x.iter().map(|x| s(x)));
    match sym::choice(if depth == 0 { 2 } else { 11 }, "type") {
        0 => put(o, &[LEAVES[sym::choice(LEAVES.len(), "leaf")]]),
        1 => put(o, &["s", "::", "Foo"]),
        k @ 2..=7 => {
            put(o, &[["option", "box", "vec", "set", "sender", "receiver"][k - 2], "<"]);
            any_ty(depth - 1, o);
            put(o, &[">"]);
        }
        k @ 8..=9 => {
            let (n, sep) = [("map", "->"), ("result", ",")][k - 8];
            let first = some(2, "second");
            put(o, &[n, "<"]);
            if first {
                any_ty(depth - 1, o);
            } else {
                put(o, &["u8"]);
            }
            put(o, &[sep]);
            if first {
                put(o, &["u8"]);
            } else {
                any_ty(depth - 1, o);
            }
            put(o, &[">"]);
        }
        _ => {
            put(o, &["["]);
            any_ty(depth - 1, o);
            put(o, &[";"]);
            match sym::choice(4, "length") {
                0 => put(o, &["3"]),
                1 => put(o, &["-007"]),
                2 => put(o, &["LEN"]),
                _ => put(o, &["s", "::", "LEN"]),
            }
            put(o, &["]"]);
        }
    }
}

/// Types in all places.
pub fn types(depth: usize) {
    let mut t = Vec::new();
    any_ty(depth, &mut t);
    let simple = t.len() < 4;
    let place = if simple || depth == 1 { sym::choice(5, "place") } else { 0 };
    let mut m = member("x", "1", None);
    m.ty = Some(t.clone());
    let b = Body { members: vec![m], fb: None };
    let m = match place {
        0 => MSchema { defs: vec![Def { pre: no_pre(), name: s("A"), kind: Kind::Struct(b) }], ..MSchema::default() },
        1 => MSchema { defs: vec![Def { pre: no_pre(), name: s("A"), kind: Kind::Enum(b) }], ..MSchema::default() },
        2 => MSchema { defs: vec![Def { pre: no_pre(), name: s("A"), kind: Kind::Newtype(t) }], ..MSchema::default() },
        3 => svc(vec![Item { pre: no_pre(), name: s("e"), id: s("1"), body: ItemBody::Ev(Some(Inline::Ty(t))) }]),
        _ => {
            let p = Some(Part { c: vec![], ty: Inline::Ty(t) });
            svc(vec![Item { pre: no_pre(), name: s("f"), id: s("1"), body: ItemBody::Fn { args: p.clone(), ok: p.clone(), err: p } }])
        }
    };
    go(m, if some(2, "compact") { Out::new(Ws::Compact, 0, false, (usize::MAX, "")) } else { plain() });
}

const WIDE: [&str; 16] = [
    "\u{e9}", "\u{df}", "\u{85}", "\u{a0}", "\u{301}", "\u{1680}", "\u{200b}", "\u{2028}", "\u{202e}", "\u{3000}", "\u{6f22}", "\u{feff}", "\u{ffff}", "\u{1f600}", "\u{e0001}", "\u{10ffff}",
];

/// Up to `n` characters: any of ASCII, or one of a few others.
pub fn text(n: usize) -> String {
    let mut o = String::new();
    for _ in 0..n {
        match sym::choice(2 + WIDE.len(), "char") {
            0 => break,
            1 => {
                let c = sym::u8("text");
                sym::assume(c < 0x80);
                o.push(c as char);
            }
            k => o.push_str(WIDE[k - 2]),
        }
    }
    o
}

/// A comment or documentation with any text at any place.
pub fn texts(n: usize) {
    let t = text(n);
    sym::assume(!t.contains('\n'));
    let place = sym::choice(10, "place");
    let build = |t: &str| {
        let c = Pre { c: vec![s(t), s("x")], ..no_pre() };
        let d = Pre { d: vec![s("x"), s(t)], ..no_pre() };
        let mut m = MSchema::default();
        let st = |pre: Pre, b: Body| Def { pre, name: s("A"), kind: Kind::Struct(b) };
        let ev = |pre: Pre, t: Option<Inline>| svc(vec![Item { pre, name: s("e"), id: s("1"), body: ItemBody::Ev(t) }]);
        let field = |pre: Pre| {
            let mut m = member("x", "1", Some("u8"));
            m.pre = pre;
            Body { members: vec![m], fb: Some(Fb { pre: no_pre(), name: s("r") }) }
        };
        match place {
            0 => {
                m.d = d.d;
            }
            1 => {
                m.c = c.c;
                m.d = vec![s("x")];
            }
            2 => m.imports.push((c.c, s("a"))),
            3 => m.defs.push(st(c, Body::default())),
            4 => m.defs.push(st(d, Body::default())),
            5 => m.defs.push(st(no_pre(), field(c))),
            6 => m.defs.push(st(no_pre(), field(d))),
            7 => m = ev(d, None),
            8 => m = ev(no_pre(), Some(Inline::Enum(d, Body::default()))),
            _ => {
                m = svc(vec![]);
                let Kind::Service(v) = &mut m.defs[0].kind else { unreachable!() };
                v.uc = c.c.clone();
                v.vc = c.c;
            }
        }
        m
    };
    let mut o = if some(2, "compact") { Out::new(Ws::Compact, 0, false, (usize::MAX, "")) } else { plain() };
    o.schema(&build(&t));
    let want = t.trim_end_matches(|c: char| c.is_whitespace());
    check(&o.s, Some(build(want)), &[]);
}

/// Names, numbers and literals.
pub fn literals(place: usize) {
    let mut m = MSchema::default();
    let konst = |k, v: String| Def { pre: no_pre(), name: s("K"), kind: Kind::Const(k, v) };
    let number = || {
        let mut t = String::new();
        match sym::choice(3, "number") {
            0 => {
                const N: [&str; 26] = [
                    "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648",
                    "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
                    "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "-00000000000000000000000000000000000001",
                ];
                t.push_str(N[sym::choice(N.len(), "boundary")]);
            }
            k => {
                if k == 2 {
                    t.push('-');
                }
                let d = sym::u8("digit");
                sym::assume(d.is_ascii_digit());
                t.push(d as char);
                t.push_str(["", "0", "7"][sym::choice(3, "digit")]);
            }
        }
        t
    };
    match place {
        0 => {
            let k = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"][sym::choice(8, "int")];
            m.defs.push(konst(k, number()));
        }
        1 => {
            // any string literal
            let mut v = s("\"");
            for _ in 0..sym::choice(3, "chars") {
                match sym::choice(3, "char") {
                    0 => v.push_str("\\\\"),
                    1 => v.push_str("\\\""),
                    _ => {
                        let c = text(1);
                        sym::assume(c != "\\" && c != "\"" && c != "\n");
                        v.push_str(&c);
                    }
                }
            }
            v.push('"');
            m.defs.push(konst("string", v));
        }
        2 => {
            let mut v = uuid().into_bytes();
            let i = sym::choice(v.len(), "digit");
            if v[i] != b'-' {
                let d = sym::u8("hex");
                sym::assume(d.is_ascii_hexdigit());
                v[i] = d;
            }
            let v = String::from_utf8(v).unwrap();
            m.defs.push(konst("uuid", v.clone()));
            let mut x = svc(vec![]);
            if let Kind::Service(s) = &mut x.defs[0].kind {
                s.uuid = v;
            }
            m.defs.append(&mut x.defs);
        }
        3 => {
            let mut f = member("x", "1", Some("u8"));
            f.id = number();
            m.defs.push(Def { pre: no_pre(), name: s("A"), kind: Kind::Struct(Body { members: vec![f], fb: None }) });
        }
        4 => {
            m = svc(vec![Item { pre: no_pre(), name: s("f"), id: number(), body: ItemBody::Fn { args: None, ok: None, err: None } }]);
            if let Kind::Service(s) = &mut m.defs[0].kind {
                s.version = number();
            }
        }
        _ => {
            // a name of up to three characters
            let mut n = String::new();
            let c = sym::u8("name");
            sym::assume(c.is_ascii_alphabetic() || c == b'_');
            n.push(c as char);
            n.push_str(["", "_", "a", "B", "0", "fn", "_a"][sym::choice(7, "rest")]);
            let k = sym::choice(6, "named");
            let at = |i: usize| if i == k { n.clone() } else { s("zzzz") };
            m.imports.push((vec![], at(0)));
            let mut f = member("x", "1", Some("u8"));
            f.name = at(1);
            let fb = Some(Fb { pre: no_pre(), name: at(2) });
            m.defs.push(Def { pre: Pre { a: vec![(at(3), vec![at(4)])], ..no_pre() }, name: at(5), kind: Kind::Struct(Body { members: vec![f], fb }) });
            sym::assume(k != 1 || n != "required");
        }
    }
    go(m, plain());
}

/// A schema that uses everything, with other whitespace in one place.
pub fn layouts(deep: bool) {
    let c = |x: &str| Pre { c: vec![s(x)], d: vec![s("doc")], ..no_pre() };
    let full = Body {
        members: vec![
            Member { pre: c("m"), req: false, name: s("x"), id: s("1"), ty: Some(vec![s("map"), s("<"), s("u8"), s("->"), s("vec"), s("<"), s("A"), s(">"), s(">")]) },
            Member { pre: c("n"), req: false, name: s("y"), id: s("2"), ty: Some(vec![s("["), s("u8"), s(";"), s("K"), s("]")]) },
        ],
        fb: Some(Fb { pre: c("f"), name: s("r") }),
    };
    let mut st = full.clone();
    st.members[0].req = true;
    let part = |x: &str, ty| Some(Part { c: vec![s(x)], ty });
    let svc = Svc {
        uc: vec![s("u")],
        uuid: uuid(),
        vc: vec![s("v")],
        version: s("1"),
        items: vec![
            Item {
                pre: c("i"),
                name: s("f"),
                id: s("1"),
                body: ItemBody::Fn {
                    args: part("a", Inline::Struct(Pre { d: vec![s("d")], a: vec![(s("x"), vec![s("y"), s("z")])], ..no_pre() }, st.clone())),
                    ok: part("o", Inline::Enum(no_pre(), full.clone())),
                    err: part("e", Inline::Ty(vec![s("result"), s("<"), s("u8"), s(","), s("s"), s("::"), s("A"), s(">")])),
                },
            },
            Item { pre: no_pre(), name: s("e"), id: s("1"), body: ItemBody::Ev(Some(Inline::Ty(vec![s("u8")]))) },
        ],
        fn_fb: Some(Fb { pre: c("ff"), name: s("ff") }),
        ev_fb: Some(Fb { pre: c("ef"), name: s("ef") }),
    };
    let attr = Pre { c: vec![s("c")], d: vec![s("d")], a: vec![(s("rust"), vec![s("impl_copy")])] };
    let m = MSchema {
        c: vec![s("c")],
        d: vec![s("d")],
        imports: vec![(vec![s("i")], s("s")), (vec![], s("a"))],
        defs: vec![
            Def { pre: attr.clone(), name: s("A"), kind: Kind::Struct(st) },
            Def { pre: attr, name: s("B"), kind: Kind::Enum(full) },
            Def { pre: c("s"), name: s("S"), kind: Kind::Service(svc) },
            Def { pre: c("k"), name: s("K"), kind: Kind::Const("u8", s("3")) },
            Def { pre: no_pre(), name: s("N"), kind: Kind::Newtype(vec![s("u8")]) },
        ],
    };
    let (ws, mix) = if deep {
        (WS[sym::choice(WS.len(), "layout")], sym::choice(3, "order"))
    } else {
        [(Ws::Compact, 2), (Ws::Crlf, 0)][sym::choice(2, "layout")]
    };
    let mut n = Out::new(ws, mix, true, (usize::MAX, ""));
    n.schema(&m);
    let at = 16 * sym::choice(n.tokens() / 16 + 1, "where") + sym::choice(16, "token");
    sym::assume(at < n.tokens());
    let odd = [" ", "\t \n", "\r", "\u{3000}", "\u{85}", "\u{2028}\u{a0}", "\u{b}\u{c}"];
    let odd = if deep { odd[sym::choice(7, "odd whitespace")] } else { odd[1 + (ws == Ws::Crlf) as usize] };
    let mut o = Out::new(ws, mix, true, (at, odd));
    o.schema(&m);
    check(&o.s, Some(m), &[]);
}

/// Writes at most `step` bytes at a time; something happens at the `at`th time.
struct Short {
    out: Vec<u8>,
    step: usize,
    at: usize,
    what: usize,
    n: usize,
}

impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.n > self.at && !b.is_empty() {
            match self.what {
                1 if self.n == self.at + 1 => return Err(std::io::ErrorKind::Interrupted.into()),
                2 => return Err(std::io::ErrorKind::Other.into()),
                3 => return Ok(0),
                _ => (),
            }
        }
        let n = b.len().min(self.step);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// However the text is taken from the formatter, it is the same or the
/// formatter says that it is not.
pub fn writer() {
    const SRC: &str = "// c\n//! d\nimport b;\nimport a;\n/// s\n#[x(y)]\nstruct S { /// f\n required a @ 1 = vec<u8>; b @ 2 = box<S>; f = fallback; }\n\
        enum E { A @ 1 = u8; B @ 2; f = fallback; }\nnewtype N = string;\nconst C = u8(1);\n\
        service V { uuid = 5eb3e9c0-5c1b-4c1a-9e8c-6b2b1f0d1e2f; version = 1; fn f @ 1 { args = u8; ok = struct { a @ 1 = u8; } err = E; } fn g @ 2; event e @ 1 = enum { A @ 1; } event h @ 2; \
        fn z = fallback; event y = fallback; }\n";
    let others = [("a", "struct A {}\n"), ("b", "struct B {}\n")];
    let p = parse(SRC, &others);
    let want = format(&p, "a valid schema cannot be formatted");
    let step = [1, 3, 8, usize::MAX][sym::choice(4, "step")];
    let what = sym::choice(4, "what");
    let at = if what == 0 { 0 } else { sym::choice(256, "at") };
    let mut w = Short { out: vec![], step, at, what, n: 0 };
    let r = match Formatter::new(&p) {
        Ok(f) => f.to_writer(&mut w),
        Err(_) => {
            sym::check(false, "a valid schema cannot be formatted");
            return;
        }
    };
    if r.is_ok() {
        sym::check(w.out == want.as_bytes(), "the written text is not the formatted schema");
        sym::cover("written");
    } else {
        sym::check(what >= 2 && w.n > at, "writing fails for no reason");
        sym::check(want.as_bytes().starts_with(&w.out), "what is written before a failure is not the formatted schema");
        sym::cover("failed");
    }
}
