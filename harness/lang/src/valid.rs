//! Schemas that keep or break the rules of the language: one that breaks them
//! has no meaningful translation, so it has to have an error.

use aldrin_parser::{Parser, Resolver, SchemaFile};

pub struct Case {
    pub src: String,
    /// The schema `x`.
    pub other: Option<&'static str>,
    pub ok: bool,
}

impl Resolver for Case {
    fn main_schema(&self) -> SchemaFile<'_> {
        SchemaFile::with_source("main", "main.aldrin", &self.src)
    }

    fn resolve(&mut self, name: &str) -> Option<SchemaFile<'_>> {
        match name {
            "main" => Some(SchemaFile::with_source("main", "main.aldrin", &self.src)),
            "x" => self.other.map(|o| SchemaFile::with_source("x", "other.aldrin", o)),
            _ => None,
        }
    }
}

impl Case {
    pub fn judge(mut self) {
        let p = Parser::parse(&mut self);
        sym::check(self.ok || !p.errors().is_empty(), "a schema without a valid translation has no error");
        sym::cover(if p.errors().is_empty() { "valid" } else { "errors" });
    }
}

fn different<T: PartialEq>(v: &[T]) -> bool {
    v.iter().enumerate().all(|(i, x)| !v[..i].contains(x))
}

/// No definition contains itself, and `keys` are usable as keys.  `holds[i]`
/// lists what is a part of `i`, `key[i]` of what `i` is another name.
fn sound(holds: &[Vec<usize>], key: &[Option<usize>], keys: &[usize]) -> bool {
    let n = holds.len();
    for start in 0..n {
        let (mut seen, mut todo) = (vec![false; n], holds[start].clone());
        while let Some(x) = todo.pop() {
            if x == start {
                return false;
            }
            if x < n && !std::mem::replace(&mut seen[x], true) {
                todo.extend(&holds[x]);
            }
        }
    }
    keys.iter().all(|k| {
        let mut k = *k;
        for _ in 0..=n {
            if k >= n {
                return true;
            }
            match key[k] {
                Some(x) => k = x,
                None => return false,
            }
        }
        false
    })
}

/// Definitions that refer to one another in every way, one of them used as a key.
pub fn graph(full: bool) -> Case {
    let mut src = String::from("import x;\nstruct T { ");
    let used = sym::choice(2, "used as");
    src.push_str(["f @ 1 = map<A -> u8>; g @ 2 = A; h @ 3 = set<x::X>; }\n", "f @ 1 = option<A>; }\n"][used]);
    // A, B, C and X
    let (mut holds, mut key) = (vec![vec![]; 4], vec![None; 4]);
    let mut keys = if used == 0 { vec![0, 3] } else { vec![] };
    for (i, d) in ["A", "B", "C"].into_iter().enumerate() {
        let to = sym::choice(5, "refers to");
        let t = ["A", "B", "C", "x::X", "string"][to];
        let way = sym::choice(if full { 9 } else { 2 }, "way");
        let r = match way {
            0 => format!("newtype {d} = {t};\n"),
            1 => format!("struct {d} {{ a @ 1 = {t}; }}\n"),
            2 => format!("newtype {d} = box<{t}>;\n"),
            3 => format!("newtype {d} = option<{t}>;\n"),
            4 => format!("newtype {d} = map<{t} -> u8>;\n"),
            5 => format!("newtype {d} = [{t}; 2];\n"),
            6 => format!("newtype {d} = result<{t}, map<{t} -> {t}>>;\n"),
            7 => format!("enum {d} {{ A @ 1 = {t}; b = fallback; }}\n"),
            _ => format!("newtype {d} = vec<{t}>;\n"),
        };
        if !matches!(way, 2 | 4 | 8) {
            holds[i].push(to);
        }
        if way == 0 {
            key[i] = Some(to);
        }
        if matches!(way, 4 | 6) {
            keys.push(to);
        }
        src.push_str(&r);
    }
    let xk = if full { sym::choice(3, "x") } else { 0 };
    let x = ["import main;\nnewtype X = main::A;", "newtype X = X;", "import main;\nstruct X { a @ 1 = main::B; }"][xk];
    holds[3].push([0, 3, 1][xk]);
    key[3] = [Some(0), Some(3), None][xk];
    Case { src, other: Some(x), ok: sound(&holds, &key, &keys) }
}

/// Members with equal ids or names, ids out of range.
pub fn members(n: usize) -> Case {
    let kind = sym::choice(6, "kind");
    let ids = ["1", "2", "01", "4294967295", "4294967296"];
    let values = [1, 2, 1, 3, 4];
    let mut id = vec![];
    let mut name = vec![];
    let mut s = String::new();
    for _ in 0..n {
        id.push(sym::choice(ids.len(), "id"));
        name.push(["a", "b", "c"][sym::choice(3, "name")]);
    }
    let item = |ev: bool, n: &str, i: &str| if ev { format!(" event {n} @ {i};") } else { format!(" fn {n} @ {i};") };
    let fallback = sym::choice(3, "fallback");
    for k in 0..n {
        let (n, i) = (name[k], ids[id[k]]);
        match kind {
            0 => s.push_str(&format!(" {n} @ {i} = u8;")),
            1 => s.push_str(&format!(" {n} @ {i};")),
            2 => s.push_str(&item(false, n, i)),
            3 => s.push_str(&item(true, n, i)),
            // functions and events have their own ids and share names
            4 => s.push_str(&item(k == 1, n, i)),
            _ => s.push_str(&format!(" required {n} @ {i} = u8;")),
        }
    }
    match (fallback, kind) {
        (0, _) => {}
        (_, 2) => s.push_str(" fn c = fallback;"),
        (1, 3 | 4) => s.push_str(" event c = fallback;"),
        (_, 3 | 4) => s.push_str(" fn c = fallback;"),
        _ => s.push_str(" c = fallback;"),
    }
    if fallback > 0 {
        name.push("c");
    }
    let inline = matches!(kind, 0 | 1 | 5) && sym::choice(2, "inline") == 1;
    let what = ["struct", "enum", "service", "service", "service", "struct"][kind];
    const HEAD: &str = "uuid = 5eb3e9c0-5c1b-4c1a-9e8c-6b2b1f0d1e2f; version = 1;";
    let src = match (what, inline) {
        ("service", _) => format!("service A {{ {HEAD}{s} }}"),
        (_, true) => format!("service A {{ {HEAD} event e @ 1 = {what} {{{s} }} }}"),
        _ => format!("{what} A {{{s} }}"),
    };
    let v: Vec<i32> = id.iter().map(|i| values[*i]).collect();
    let ok = v.iter().all(|v| *v < 4) && different(&name) && if kind == 4 { n < 3 || v[0] != v[2] } else { different(&v) };
    Case { src, other: None, ok }
}

/// Constants, references and lengths that don't fit.
pub fn values() -> Case {
    const T: [(&str, &str, &str, &str, &str); 8] = [
        ("u8", "0", "255", "-1", "256"),
        ("i8", "-128", "127", "-129", "128"),
        ("u16", "0", "65535", "-1", "65536"),
        ("i16", "-32768", "32767", "-32769", "32768"),
        ("u32", "0", "4294967295", "-1", "4294967296"),
        ("i32", "-2147483648", "2147483647", "-2147483649", "2147483648"),
        ("u64", "0", "18446744073709551615", "-1", "18446744073709551616"),
        ("i64", "-9223372036854775808", "9223372036854775807", "-9223372036854775809", "9223372036854775808"),
    ];
    let t = T[sym::choice(8, "type")];
    let k = sym::choice(5, "value");
    let (v, fits) = [(t.1, true), (t.2, true), (t.3, false), (t.4, false), ("5", true)][k];
    let place = sym::choice(4, "length from");
    let (len, ok) = match place {
        // a length is a u32 other than 0
        0 => ("N", fits && !v.starts_with('-') && v != "0" && v.len() < 11),
        1 => ("x::N", true),
        2 => ("M", false),
        _ => (["0", "1", "4294967295", "4294967296"][k.min(3)], fits && k.min(3) == 1),
    };
    let src = format!("import x;\nconst N = {}({v});\nnewtype A = [x::X; {len}];\n", t.0);
    let other = [
        ("const N = u8(1); struct X {}", true),
        ("const N = string(\"1\"); struct X {}", place != 1),
        ("const N = u8(1); const X = u8(1);", false),
        ("struct N {} struct X {}", place != 1),
        ("const N = u8(1);", false),
        ("const N = u8(1); service X { uuid = 5eb3e9c0-5c1b-4c1a-9e8c-6b2b1f0d1e2f; version = 1; }", false),
    ];
    let (o, good) = other[sym::choice(6, "other")];
    Case { src, other: Some(o), ok: ok && fits && good }
}

/// Definitions with equal names, services with equal ids.
pub fn defs() -> Case {
    let mut s = String::new();
    let mut names = vec![];
    let mut uuids = vec![];
    for _ in 0..3 {
        let n = ["A", "B", "C"][sym::choice(3, "name")];
        names.push(n);
        match sym::choice(5, "kind") {
            0 => s.push_str(&format!("struct {n} {{}}\n")),
            1 => s.push_str(&format!("enum {n} {{ X @ 1; }}\n")),
            2 => s.push_str(&format!("newtype {n} = u8;\n")),
            3 => s.push_str(&format!("const {n} = u8(1);\n")),
            _ => {
                let u = ["5eb3e9c0-5c1b-4c1a-9e8c-6b2b1f0d1e2f", "5eb3e9c0-5c1b-4c1a-9e8c-6b2b1f0d1e20"][sym::choice(2, "uuid")];
                uuids.push(u);
                s.push_str(&format!("service {n} {{ uuid = {u}; version = 1; }}\n"));
            }
        }
    }
    Case { src: s, other: None, ok: different(&names) && different(&uuids) }
}

/// A type anywhere, `depth` generics deep, that may be wrong.
pub fn places(depth: usize) -> Case {
    let place = sym::choice(13, "place");
    // inside of its own definition only in the first four
    const WRONG: [(&str, bool); 20] = [
        ("X", true),
        ("x::X", true),
        ("[u8; 4]", true),
        ("[u8; x::N]", true),
        ("map<K -> x::X>", true),
        ("T", true),
        ("Nope", false),
        ("C", false),
        ("S", false),
        ("x::Nope", false),
        ("y::X", false),
        ("map<X -> u8>", false),
        ("set<x::X>", false),
        ("set<f32>", false),
        ("map<option<u8> -> u8>", false),
        ("[u8; 0]", false),
        ("[u8; Nope]", false),
        ("[u8; x::X]", false),
        ("[u8; C]", false),
        ("[u8; x::M]", false),
    ];
    let k = sym::choice(WRONG.len(), "type");
    let (mut t, mut ok) = (WRONG[k].0.to_owned(), WRONG[k].1);
    let mut direct = true;
    for _ in 0..depth {
        let w = sym::choice(12, "in");
        t = match w {
            0 => format!("option<{t}>"),
            1 => format!("result<{t}, u8>"),
            2 => format!("result<u8, {t}>"),
            3 => format!("[{t}; 2]"),
            4 => format!("box<{t}>"),
            5 => format!("vec<{t}>"),
            6 => format!("map<u8 -> {t}>"),
            7 => format!("sender<{t}>"),
            8 => format!("receiver<{t}>"),
            9 => format!("map<K -> {t}>"),
            10 => format!("map<string -> {t}>"),
            _ => break,
        };
        direct &= w < 4;
    }
    if WRONG[k].0 == "T" && place < 4 {
        ok = !direct;
    }
    let version = ["1", "4294967295", "4294967296", "-1"][if place == 5 && depth == 1 { sym::choice(4, "version") } else { 0 }];
    ok &= version.len() != 2 && version != "4294967296";
    let d = match place {
        0 => format!("struct T {{ a @ 1 = u8; b @ 2 = {t}; }}"),
        1 => format!("struct T {{ required b @ 2 = {t}; c = fallback; }}"),
        2 => format!("enum T {{ A @ 1; B @ 2 = {t}; }}"),
        3 => format!("newtype T = {t};"),
        _ => "struct T {}".to_owned(),
    };
    let i = match place {
        4 => format!("fn f @ 1 {{ args = {t}; }}"),
        5 => format!("fn f @ 1 = {t};"),
        6 => format!("fn f @ 1 {{ ok = {t}; }}"),
        7 => format!("fn f @ 1 {{ err = {t}; }}"),
        8 => format!("event e @ 1 = {t};"),
        9 => format!("fn f @ 1 {{ args = struct {{ a @ 1 = {t}; }} }}"),
        10 => format!("fn f @ 1 {{ ok = enum {{ A @ 1 = {t}; }} err = u8; }}"),
        11 => format!("fn f @ 1 {{ args = u8; err = struct {{ required a @ 1 = {t}; b = fallback; }} }}"),
        12 => format!("event e @ 1 = enum {{ A @ 1 = {t}; b = fallback; }}"),
        _ => String::new(),
    };
    let src = format!(
        "import x;\nstruct X {{}}\nnewtype K = L;\nnewtype L = u8;\nconst C = string(\"\");\n{d}\nservice S {{ uuid = 5eb3e9c0-5c1b-4c1a-9e8c-6b2b1f0d1e2f; version = {version}; {i} }}\n"
    );
    Case { src, other: Some("const N = u8(1);\nconst M = uuid(5eb3e9c0-5c1b-4c1a-9e8c-6b2b1f0d1e2f);\nstruct X {}\n"), ok }
}
