//! C17: parsing, diagnosing, formatting and generating code are total.

use crate::{c18, valid};
use aldrin_codegen::{Generator, Options, RustOptions};
use aldrin_parser::{Diagnostic, Formatter, Parser, Renderer, Resolver, SchemaFile};
use std::io::{Error, ErrorKind};

/// What an import resolves to.
#[derive(Clone, Copy)]
pub enum Other<'a> {
    Text(&'a str, &'a str),
    Unreadable(&'a str),
}

struct Res<'a> {
    name: &'a str,
    src: &'a str,
    others: &'a [Other<'a>],
    err: Error,
}

impl Resolver for Res<'_> {
    fn main_schema(&self) -> SchemaFile<'_> {
        SchemaFile::with_source(self.name, "main.aldrin", self.src)
    }

    fn resolve(&mut self, name: &str) -> Option<SchemaFile<'_>> {
        if name == self.name {
            return Some(SchemaFile::with_source(self.name, "main.aldrin", self.src));
        }
        for o in self.others {
            match *o {
                Other::Text(n, s) if n == name => return Some(SchemaFile::with_source(n, "other.aldrin", s)),
                Other::Unreadable(n) if n == name => return Some(SchemaFile::with_error(n, "bad.aldrin", &self.err)),
                _ => {}
            }
        }
        None
    }
}

pub fn parse(name: &str, src: &str, others: &[Other]) -> Parser {
    let mut r = Res { name, src, others, err: Error::from(ErrorKind::PermissionDenied) };
    Parser::parse(&mut r)
}

/// All diagnostics.
fn rendered(p: &Parser, r: &Renderer) -> Vec<String> {
    let mut v: Vec<String> = p.errors().iter().map(|e| format!("{} {}", e.schema_name(), r.render(e, p))).collect();
    v.extend(p.warnings().iter().map(|e| format!("{} {}", e.schema_name(), r.render(e, p))));
    v.extend(p.other_warnings().iter().map(|e| format!("other {} {}", e.schema_name(), r.render(e, p))));
    v.sort();
    v
}

pub struct How {
    /// Hash functions of the two runs.
    pub seeds: (u64, u64),
    /// Width of the second rendering.
    pub width: usize,
    pub codegen: usize,
}

/// Everything the front end does with one schema.
pub fn total(name: &str, src: &str, others: &[Other], how: &How) {
    sym::hash_seed(how.seeds.0);
    let first = {
        let p = parse(name, src, others);
        if Formatter::new(&p).map(|f| sym::log(f.to_string().len() as u64)).is_ok() {
            sym::cover("formatted");
        }
        let v = rendered(&p, &Renderer::new(false, false, 100));
        sym::log(rendered(&p, &Renderer::new(true, true, how.width)).len() as u64);
        if p.errors().is_empty() {
            sym::cover("no errors");
            if how.codegen != 0 {
                let (client, server, introspection) =
                    [(true, true, true), (true, false, false), (false, true, true), (false, false, false)][how.codegen - 1];
                let mut o = Options::new();
                o.client = client;
                o.server = server;
                o.introspection = introspection;
                let mut r = RustOptions::new();
                if how.codegen == 3 {
                    r.introspection_if = Some("f");
                    r.krate = Some("::k");
                }
                let g = Generator::new(&o, &p).rust(&r);
                sym::check(g.is_ok(), "code generation fails for a schema without errors");
                sym::cover("generated");
            }
        } else {
            sym::cover("errors");
        }
        v
    };
    sym::hash_seed(how.seeds.1);
    let p = parse(name, src, others);
    let v = rendered(&p, &Renderer::new(false, false, 100));
    sym::check(first == v, "parsing the same source again gives other diagnostics");
    if v.len() > 1 {
        sym::cover("several diagnostics");
    }
    drop(p);
    sym::hash_seed(0);
}

const SYMBOLIC: How = How { seeds: (0, 3), width: 30, codegen: 1 };

// -------------------------------------------------------------- generators

/// Any text of up to `n` characters, all but the last from a list.
pub fn bytes(n: usize) {
    const C: [&str; 36] = [
        "", "a", "A", "_", "0", "1", "-", ">", "<", "/", "!", "#", "[", "]", "(", ")", "{", "}", ";", "=", "@", ",", ":", "\"", "\\", "`", " ", "\t", "\r", "\n", "\u{0}", "\u{7f}",
        "\u{e9}", "\u{301}", "\u{2028}", "\u{1f600}",
    ];
    let mut t = String::new();
    for _ in 1..n {
        t.push_str(C[sym::choice(C.len(), "char")]);
    }
    t.push_str(&c18::text(1));
    total("main", &t, &[], &SYMBOLIC);
}

const TOKENS: [&str; 58] = [
    "struct ", "enum ", "service ", "fn ", "event ", "const ", "newtype ", "import ", "required ", "A ", "b ", "_ ", "uuid ", "version ", "args ", "ok ", "err ", "fallback ",
    "00000000-0000-0000-0000-000000000000 ", "1 ", "-1 ", "4294967296 ", "\"s\" ", "\"", "u8 ", "map<", "vec<", "result<", "set<", "option<", "[", "]", "(", ")", "{", "}", "<", ">",
    "->", "::", ";", "=", "@", ",", "#", "!", "///x\n", "//!x\n", "//x\n", "// ", "/// [b](A)\n", "\r", "\n", "\u{e9}", "\u{2028}", "\u{0}", "\u{1f600}", "\\",
];

/// A sequence of `n` tokens, possibly in the midst of something.
pub fn soup(n: usize, contexts: usize) {
    let mut s = String::new();
    let (before, after) = [
        ("", ""),
        ("struct A {", "}"),
        ("service S { uuid = 00000000-0000-0000-0000-000000000000; version = 1; fn f @ 1 = struct {", "}}"),
        ("enum A { B @ 1", "}"),
        ("service S { uuid = 00000000-0000-0000-0000-000000000000; version = 1; fn f @ 1 { args = ", "} }"),
        ("const A = ", ";"),
        ("newtype A = ", ";"),
        ("service S {", "}"),
    ][sym::choice(contexts, "context")];
    s.push_str(before);
    for _ in 0..n {
        s.push_str(TOKENS[sym::choice(TOKENS.len(), "token")]);
    }
    s.push_str(after);
    total("main", &s, &[], &SYMBOLIC);
}

/// A schema that uses everything.
const FULL: &str = "// c
//! d [A] [`A::x`](self::A)

import x;

/// s [A::x] \u{e9} [no] [`x::X`]
#[rust(impl_copy)]
struct A { // c
    /// [self::E::V]
    required x @ 1 = map<u8 -> vec<x::X>>;
    y @ 2 = [result<string, unit>; N];
    r = fallback;
}
enum E { V @ 1; W @ 2 = option<box<E>>; f = fallback; }
newtype T = set<Key>;
newtype Key = string;
const N = u32(3);
const S = string(\"a\\\"b\\\\\");
const U = uuid(01234567-89ab-cdef-0123-456789abcdef);
service S1 {
    uuid = 00000000-0000-0000-0000-000000000000;
    version = 1;
    fn f @ 1 { args = struct { //! [S1::f::args]
        a @ 1 = sender<A>; } ok = E; err = enum { #![rust(impl_copy)] B @ 1; } }
    event e @ 1 = A;
    fn ff = fallback;
    event ef = fallback;
}
";

const X: Other = Other::Text("x", "/// [X]\nstruct X { a @ 1 = u8; }\nconst Y = u8(1);\n");

/// The same in parts.
const PARTS: [&str; 8] = [
    "// c\n//! d [A] [`A::x`](self::A)\n\nimport x;\n// i\nimport\ty;\r\n",
    "/// s [A::x] \u{e9} [no] [`x::X`]\n#[rust(impl_copy, a)]\nstruct A {\n  // c\n  required x @ 1 = u8;\n  r = fallback;\n}",
    "struct A { /// [E::V]\r\n a @ 1 = map<u8->vec<x::X>>; b @ 2 = [result<set<T>,B>;N]; }",
    "enum E { V @ 1; W @ -2 = option<box<E>>; f = fallback; }",
    "newtype K=string; const N = u32(3); const S = string(\"a\\\"b\\\\\");",
    "const U = uuid(01234567-89ab-cdef-0123-456789abcdef);",
    "service S { uuid = 00000000-0000-0000-0000-000000000000;\n version = 1; fn f @ 1; event e @ 1 = A; fn ff = fallback; event ef = fallback; }",
    "service S{uuid=00000000-0000-0000-0000-000000000000;version=1;fn f@1{args=struct{//! [S::f]\n#![r]x@1=T;}ok=E;err=enum{#![r(i)]B@1;}}}",
];

fn edit(src: &str, at: usize, odd: usize) -> Option<String> {
    if !src.is_char_boundary(at) {
        return None;
    }
    let (a, b) = src.split_at(at);
    let skip = b.chars().next().map_or(0, char::len_utf8);
    let mut s = String::from(a);
    match odd {
        // without the character
        0 => s.push_str(&b[skip..]),
        // nothing behind it
        1 => {}
        // any other one in its place
        2 | 3 => {
            let c = sym::u8("byte");
            sym::assume(c < 0x80);
            s.push(c as char);
            s.push_str(&b[if odd == 2 { skip } else { 0 }..]);
        }
        k if k >= 10 => {
            s.push_str(["a", "_", "0", "-", " ", "\"", "/", ">", "{", ";", ":", "\u{0}"][k - 10]);
            s.push_str(&b[skip..]);
        }
        k => {
            s.push_str(["\u{e9}", "\r", "\n", "]", "}", "\u{1f600}"][k - 4]);
            s.push_str(b);
        }
    }
    Some(s)
}

fn pick(full: bool) -> &'static str {
    if full {
        FULL
    } else {
        PARTS[sym::choice(PARTS.len(), "part")]
    }
}

/// One character of a schema is missing, another one, or comes behind another.
pub fn mutate(full: bool, odd: usize, ops: usize) {
    let src = pick(full);
    let at = sym::choice(src.len() + 1, "position");
    let Some(s) = edit(src, at, odd + sym::choice(ops, "edit")) else { return };
    total("main", &s, &[X], &SYMBOLIC);
}

/// The same for the formatter.
pub fn mutate_fmt(full: bool, odd: usize, ops: usize) {
    let src = pick(full);
    let at = sym::choice(src.len() + 1, "position");
    let Some(s) = edit(src, at, odd + sym::choice(ops, "edit")) else { return };
    c18::check(&s, None, &[("x", "struct X { a @ 1 = u8; }\n")]);
}

/// The repository's schemas, as they are or with one character changed.
pub fn corpus(from: usize, to: usize, odd: usize, ops: usize, fmt: bool) {
    use crate::corpus::CORPUS;
    let to = to.min(CORPUS.len());
    let (name, src) = CORPUS[from + sym::choice(to - from, "schema")];
    let others: Vec<Other> = CORPUS.iter().map(|(n, s)| Other::Text(n, s)).collect();
    let s = if ops == 0 {
        src.to_owned()
    } else {
        let at = sym::choice(src.len() + 1, "position");
        let Some(s) = edit(src, at, odd + sym::choice(ops, "edit")) else { return };
        s
    };
    if fmt {
        c18::check(&s, None, CORPUS);
    } else {
        total(name, &s, &others, &if ops == 0 { How { seeds: (0, 99), width: 30, codegen: 1 + sym::choice(4, "options") } } else { SYMBOLIC });
    }
}

/// Documentation with links.
pub fn docs(deep: bool) {
    const PRE: [&str; 18] = [
        "", "x ", "\u{e9}", "\t", "- ", "> ", "\r", "`", "*", "1. ", "    ", "# ", "|a|\r|-|\r|", "<a ", "[^1]: ", "  \t ", "~~", "- [ ] ",
    ];
    const LINK: [&str; 22] = [
        "[zz]", "[`zz`]", "[x](zz)", "[zz][zz]", "[zz][]", "![zz](zz)", "[\u{e9}](zz)", "[a\rb](zz)", "<zz:a>", "[zz\\]", "[zz]: zz\r[zz]", "[A::zz]", "[self::A]", "[zz::A]", "[x::X::zz]",
        "[a](zz \"t\")", "[a](<zz>)", "[[zz]]", "[a\n](zz)", "[a](zz\n)", "[a](\rzz)", "[^1]",
    ];
    const POST: [&str; 14] = ["", "x", "\u{e9}", "\r", "|", "`", " |\rx", "\rx [zz]", "*", "\n", "\n=", "\\", "]", "(zz)"];
    let pre = PRE[sym::choice(PRE.len(), "before")];
    let link = LINK[sym::choice(LINK.len(), "link")];
    let place = if deep { 0 } else { sym::choice(5, "place") };
    let post = POST[sym::choice(if place == 0 { POST.len() } else { 4 }, "after")];
    let mut t = String::from(pre);
    if deep {
        let c = sym::u8("char");
        sym::assume(c < 0x80);
        t.push(c as char);
    }
    t.push_str(link);
    t.push_str(post);
    place_docs(&t, ["\n", "\n", "\r\n", " \u{3000}\n", "\r\n"][place], place % 4);
}

/// Any `n` characters around a link.
pub fn docs_soup(n: usize) {
    const C: [&str; 24] = [
        "[", "]", "(", ")", "`", "\\", "<", ">", "|", "-", "*", "_", "!", ":", "#", "~", "&", "\r", "\t", "\n", " ", "zz", "\u{e9}", "\u{1f600}",
    ];
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(C[sym::choice(C.len(), "char")]);
    }
    let t = match sym::choice(3, "with") {
        0 => t,
        1 => format!("[{t}](zz)"),
        _ => format!("{t}[zz]"),
    };
    place_docs(&t, "\n", 0);
}

fn place_docs(t: &str, end: &str, place: usize) {
    let mut s = String::new();
    let (before, lead, after) = [
        ("", "/// ", "struct A {}"),
        ("", "//!", ""),
        ("enum A {", "    ///  ", "    B @ 1; }"),
        ("/// first [yy]\n", "///", "struct A {}"),
    ][place];
    s.push_str(before);
    s.push_str(end);
    for l in t.split('\n') {
        s.push_str(lead);
        s.push_str(l);
        s.push_str(end);
    }
    s.push_str(after);
    total("main", &s, &[], &SYMBOLIC);
}

const SNIPPETS: [&str; 66] = [
    "struct A {}",
    "struct a_b { A @ 1 = u8; A @ 2 = u8; }",
    "struct A { x @ 1 = A; }",
    "struct A { x @ 1 = B; y @ 1 = B; z @ 1 = u8; }",
    "struct B { x @ 1 = A; }",
    "struct A { x @ 4294967296 = u8; y @ -1 = u8; z @ 00000000000000000000000000000000000001 = u8; }",
    "struct A { x @ 99999999999999999999999 = u8; x = fallback; }",
    "struct \u{e9}\u{301} { \u{df} @ 1 = \u{e9}; }",
    "struct u8 { string @ 1 = u8; }",
    "struct _ { _ @ 1 = _; }",
    "struct self { super @ 1 = self::super; }",
    "struct A { x @ 1 = x::X; y @ 2 = x::Z; z @ 3 = y::X; w @ 4 = main::A; }",
    "struct A { x @ 1 = map<f32 -> u8>; y @ 2 = set<A>; z @ 3 = map<N -> N>; w @ 4 = set<x::X>; v @ 5 = set<x::Nope>; u @ 6 = set<E>; }",
    "struct A { x @ 1 = [u8; 0]; y @ 2 = [u8; 4294967296]; z @ 3 = [u8; -1]; w @ 4 = [u8; 99999999999999999999999]; }",
    "struct A { x @ 1 = [u8; C]; y @ 2 = [u8; A]; z @ 3 = [u8; x::Y]; w @ 4 = [u8; x::X]; v @ 5 = [u8; y::Z]; u @ 6 = [u8; CC]; }",
    "struct A { x @ 1 = strin; y @ 2 = Bb; z @ 3 = vec<optio>; }",
    "struct A { x @ 1 = S; y @ 2 = C; z @ 3 = x::Y; w @ 4 = x::S; }",
    "struct A { x @ 1 = box<A>; y @ 2 = [A; 2]; z @ 3 = option<A>; }",
    "struct A { x @ 1 = result<A, A>; }",
    "struct A { a = fallback; }",
    "struct A { a @ 1 = u8; a = fallback; }",
    "enum E {}",
    "enum E { e = fallback; }",
    "enum E { a @ 1; a @ 1; A @ 1; }",
    "enum E { A @ 1 = E; B @ 2 = option<E>; }",
    "enum B { A @ 1 = A; }",
    "enum E { A @ 4294967295; b @ 4294967296; c @ -1 = nope; A = fallback; }",
    "newtype N = N;",
    "newtype N = M;",
    "newtype M = N;",
    "newtype M = vec<N>;",
    "newtype N = string;",
    "newtype N = x::X;",
    "newtype n = option<n>;",
    "newtype N = bool;",
    "const C = u8(256);",
    "const C = i8(-129);",
    "const c = u64(18446744073709551616);",
    "const C = u8(-1);",
    "const C = i64(9223372036854775807);",
    "const C = string(\"\\\\ \\\" \u{e9}\");",
    "const C = string(\"\\n\");",
    "const C = string(\"\\\u{e9}\");",
    "const CC = uuid(00000000-0000-0000-0000-000000000000);",
    "const Type = u32(1);",
    "const C = u32(1);",
    "service S { uuid = 00000000-0000-0000-0000-000000000000; version = 1; }",
    "service S { uuid = 00000000-0000-0000-0000-000000000001; version = 4294967296; }",
    "service s { uuid = 00000000-0000-0000-0000-000000000000; version = -1; fn A @ 1; fn a @ 1; event a @ 1; event B @ 1; }",
    "service T { uuid = 00000000-0000-0000-0000-000000000001; version = 1; fn f @ 4294967296; event e @ -1; fn f = fallback; event f = fallback; }",
    "service T { uuid = 00000000-0000-0000-0000-000000000002; version = 1; fn f @ 1 = struct { a @ 1 = T; a @ 1 = A; }; }",
    "service T { uuid = 00000000-0000-0000-0000-000000000002; version = 1; fn f @ 1 { args = struct {} ok = enum {} err = E; } event e @ 1 = enum {} }",
    "service T { uuid = 00000000-0000-0000-0000-000000000002; version = 1; fn f @ 1 { args = enum { A @ 1 = nope; } ok = S; err = C; } event e @ 1 = x::S; }",
    "service T { uuid = 00000000-0000-0000-0000-000000000002; version = 1; event type @ 1 = struct { type @ 1 = vec<T>; } event Type @ 2; }",
    "/// [A] [x::X] [y::Z] [self] [self::] [::A] [A::] [A::x::y] [E::a] [S::f::args::x] [x] [main] [C] [N] [Nope]\nstruct D {}",
    "/// [T::f] [T::e] [T::f::ok] [T::f::err] [T::f::args] [T::f::nope] [E::e] [A::a] [S::] [super::A] [a b]\nstruct D {}",
    "#[rust(impl_copy, nope)] #[nope] #[rust] struct A {}",
    "import x; struct A {}",
    "struct A { required required @ 1 = u8; required @ 2 = u8; }",
    "struct A { x @ 1 = u8 }",
    "struct struct {}",
    "/// only a comment",
    "//! late docs",
    "service S { version = 1; }",
    "\u{0}",
    "",
];

const IMPORTS: [&str; 12] = [
    "", "import x;", "import x; import x;", "import main;", "import nope;", "import x; import y;", "import bad;", "import x; import y; import z;", "import syntax;", "import _;", "import X;",
    "// c\nimport y; import x; import y;",
];

const OTHERS: [&[Other]; 5] = [
    &[],
    &[X, Other::Text("y", "struct Z {}\n"), Other::Unreadable("bad"), Other::Text("syntax", "struct {"), Other::Unreadable("_"), Other::Text("X", "\u{feff}")],
    &[
        Other::Text("x", "import main; import y;\n/// [main::A] [nope]\nstruct X { a @ 1 = main::A; }\nservice S { uuid = 00000000-0000-0000-0000-000000000000; version = 1; }\nconst Y = string(\"\");"),
        Other::Text("y", "import x;\nnewtype Z = x::X;\nservice S2 { uuid = 00000000-0000-0000-0000-000000000000; version = 1; }\nservice S3 { uuid = 00000000-0000-0000-0000-000000000001; version = 1; }"),
        Other::Text("z", "service S4 { uuid = 00000000-0000-0000-0000-000000000000; version = 1; }"),
        Other::Text("syntax", "import nope; service S { uuid = 0; version = x; }"),
    ],
    &[
        Other::Text("x", "import nope;\nenum X {}\nnewtype Nope = Nope;\nstruct S { a @ 1 = x; b @ 1 = X; }\nconst Y = u8(300);"),
        Other::Text("y", "import z; import z;\nstruct Z { a @ 1 = x::X; }"),
        Other::Unreadable("z"),
        Other::Text("X", "import x; struct x {}"),
    ],
    &[Other::Text("x", ""), Other::Text("y", "\u{1f600}"), Other::Text("z", "//! [main] [x::X]\n")],
];

const NAMES: [&str; 10] = ["main", "x", "", "_", "a b", "Main", "self", "\u{e9}", "type", "9"];

fn how() -> How {
    How { seeds: [(0, 3), (0, 1), (77, 1234)][sym::choice(3, "hash functions")], width: [0, 1, 30][sym::choice(3, "width")], codegen: 1 + sym::choice(4, "options") }
}

/// Imports of all kinds, and one definition.
pub fn imports() {
    let mut s = String::from(IMPORTS[sym::choice(IMPORTS.len(), "imports")]);
    s.push('\n');
    s.push_str(SNIPPETS[[0, 11, 12, 14, 16, 32, 46, 52, 54, 59][sym::choice(10, "snippet")]]);
    let others = OTHERS[sym::choice(OTHERS.len(), "others")];
    let seeds = [(0, 3), (77, 1234)][sym::choice(2, "hash functions")];
    total("main", &s, others, &How { seeds, ..SYMBOLIC });
}

/// `n` definitions.
pub fn snippets(n: usize, first: usize) {
    let mut s = String::new();
    for i in 0..n {
        let k = if i == 0 { SNIPPETS.len() } else { first };
        // odd numbers are prime to the length
        s.push_str(SNIPPETS[sym::choice(k, "snippet") * 5 % SNIPPETS.len()]);
        s.push('\n');
    }
    let h = if n == 1 { how() } else { SYMBOLIC };
    total("main", &s, OTHERS[1], &h);
}

/// Schemas that keep or break the rules, see `valid`.
pub fn ruled(v: valid::Case) {
    let others: Vec<Other> = v.other.iter().map(|o| Other::Text("x", o)).collect();
    total("main", &v.src, &others, &SYMBOLIC);
}

/// Names of the schema itself.
pub fn names() {
    let name = NAMES[sym::choice(NAMES.len(), "name")];
    let imp = IMPORTS[sym::choice(IMPORTS.len(), "imports")];
    let src = ["struct A {}", "/// [self] [main]\nstruct A { x @ 1 = main::A; y @ 2 = x::A; }", "struct {"][sym::choice(3, "source")];
    let seeds = [(0, 3), (77, 1234)][sym::choice(2, "hash functions")];
    total(name, &format!("{imp}\n{src}"), OTHERS[2], &How { seeds, ..SYMBOLIC });
}

/// Types nested very deeply: a known finding, run natively only.
pub fn deep() {
    let s = format!("newtype A = {}u8{};", "vec<".repeat(100_000), ">".repeat(100_000));
    total("main", &s, &[], &SYMBOLIC);
}
