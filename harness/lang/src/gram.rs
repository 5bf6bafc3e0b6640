//! An independent model of a schema: rendered to source text with a layout
//! that the solver chooses, and read back from the parser's AST.

use aldrin_parser::ast::*;
use aldrin_parser::Schema;

#[derive(Clone, Default, PartialEq, Debug)]
pub struct Pre {
    pub c: Vec<String>,
    pub d: Vec<String>,
    pub a: Vec<(String, Vec<String>)>,
}

impl Pre {
    pub fn is_empty(&self) -> bool {
        self.c.is_empty() && self.d.is_empty() && self.a.is_empty()
    }
}

/// The tokens of a type.
pub type Ty = Vec<String>;

#[derive(Clone, Default, PartialEq, Debug)]
pub struct MSchema {
    pub c: Vec<String>,
    pub d: Vec<String>,
    pub imports: Vec<(Vec<String>, String)>,
    pub defs: Vec<Def>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Def {
    pub pre: Pre,
    pub name: String,
    pub kind: Kind,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    Struct(Body),
    Enum(Body),
    Service(Svc),
    Const(&'static str, String),
    Newtype(Ty),
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct Body {
    pub members: Vec<Member>,
    pub fb: Option<Fb>,
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct Member {
    pub pre: Pre,
    pub req: bool,
    pub name: String,
    pub id: String,
    pub ty: Option<Ty>,
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct Fb {
    pub pre: Pre,
    pub name: String,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Inline {
    Ty(Ty),
    Struct(Pre, Body),
    Enum(Pre, Body),
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct Svc {
    pub uc: Vec<String>,
    pub uuid: String,
    pub vc: Vec<String>,
    pub version: String,
    pub items: Vec<Item>,
    pub fn_fb: Option<Fb>,
    pub ev_fb: Option<Fb>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Item {
    pub pre: Pre,
    pub name: String,
    pub id: String,
    pub body: ItemBody,
}

#[derive(Clone, PartialEq, Debug)]
pub enum ItemBody {
    Fn { args: Option<Part>, ok: Option<Part>, err: Option<Part> },
    Ev(Option<Inline>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Part {
    pub c: Vec<String>,
    pub ty: Inline,
}

// ------------------------------------------------------------- from the AST

fn comments(c: &[Comment]) -> Vec<String> {
    c.iter().map(|c| c.value_inner().to_owned()).collect()
}

fn docs(d: &[DocString]) -> Vec<String> {
    d.iter().map(|d| d.value_inner().to_owned()).collect()
}

fn pre(c: &[Comment], d: &[DocString], a: &[Attribute]) -> Pre {
    Pre {
        c: comments(c),
        d: docs(d),
        a: a.iter().map(|a| (id(a.name()), a.options().iter().map(id).collect())).collect(),
    }
}

fn id(i: &Ident) -> String {
    i.value().to_owned()
}

fn reference(r: &NamedRef, o: &mut Ty) {
    match r.kind() {
        NamedRefKind::Intern(x) => o.push(id(x)),
        NamedRefKind::Extern(s, x) => o.extend([id(s), "::".into(), id(x)]),
    }
}

fn ty_into(t: &TypeName, o: &mut Ty) {
    let mut put = |s: &str| o.push(s.to_owned());
    match t.kind() {
        TypeNameKind::Bool => put("bool"),
        TypeNameKind::U8 => put("u8"),
        TypeNameKind::I8 => put("i8"),
        TypeNameKind::U16 => put("u16"),
        TypeNameKind::I16 => put("i16"),
        TypeNameKind::U32 => put("u32"),
        TypeNameKind::I32 => put("i32"),
        TypeNameKind::U64 => put("u64"),
        TypeNameKind::I64 => put("i64"),
        TypeNameKind::F32 => put("f32"),
        TypeNameKind::F64 => put("f64"),
        TypeNameKind::String => put("string"),
        TypeNameKind::Uuid => put("uuid"),
        TypeNameKind::ObjectId => put("object_id"),
        TypeNameKind::ServiceId => put("service_id"),
        TypeNameKind::Value => put("value"),
        TypeNameKind::Bytes => put("bytes"),
        TypeNameKind::Lifetime => put("lifetime"),
        TypeNameKind::Unit => put("unit"),
        TypeNameKind::Option(x) => one("option", x, o),
        TypeNameKind::Box(x) => one("box", x, o),
        TypeNameKind::Vec(x) => one("vec", x, o),
        TypeNameKind::Set(x) => one("set", x, o),
        TypeNameKind::Sender(x) => one("sender", x, o),
        TypeNameKind::Receiver(x) => one("receiver", x, o),
        TypeNameKind::Map(x, y) => two("map", x, "->", y, o),
        TypeNameKind::Result(x, y) => two("result", x, ",", y, o),
        TypeNameKind::Array(x, len) => {
            put("[");
            ty_into(x, o);
            o.push(";".into());
            match len.value() {
                ArrayLenValue::Literal(n) => o.push(n.value().to_owned()),
                ArrayLenValue::Ref(r) => reference(r, o),
            }
            o.push("]".into());
        }
        TypeNameKind::Ref(r) => reference(r, o),
    }
}

fn one(k: &str, x: &TypeName, o: &mut Ty) {
    o.extend([k.to_owned(), "<".into()]);
    ty_into(x, o);
    o.push(">".into());
}

fn two(k: &str, x: &TypeName, sep: &str, y: &TypeName, o: &mut Ty) {
    o.extend([k.to_owned(), "<".into()]);
    ty_into(x, o);
    o.push(sep.into());
    ty_into(y, o);
    o.push(">".into());
}

fn ty(t: &TypeName) -> Ty {
    let mut o = Vec::new();
    ty_into(t, &mut o);
    o
}

fn field(f: &StructField) -> Member {
    Member {
        pre: pre(f.comment(), f.doc(), &[]),
        req: f.required(),
        name: id(f.name()),
        id: f.id().value().to_owned(),
        ty: Some(ty(f.field_type())),
    }
}

fn variant(v: &EnumVariant) -> Member {
    Member {
        pre: pre(v.comment(), v.doc(), &[]),
        req: false,
        name: id(v.name()),
        id: v.id().value().to_owned(),
        ty: v.variant_type().map(ty),
    }
}

fn fields(f: &[StructField], fb: Option<&StructFallback>) -> Body {
    Body {
        members: f.iter().map(field).collect(),
        fb: fb.map(|f| Fb { pre: pre(f.comment(), f.doc(), &[]), name: id(f.name()) }),
    }
}

fn variants(f: &[EnumVariant], fb: Option<&EnumFallback>) -> Body {
    Body {
        members: f.iter().map(variant).collect(),
        fb: fb.map(|f| Fb { pre: pre(f.comment(), f.doc(), &[]), name: id(f.name()) }),
    }
}

fn inline(t: &TypeNameOrInline) -> Inline {
    match t {
        TypeNameOrInline::TypeName(t) => Inline::Ty(ty(t)),
        TypeNameOrInline::Struct(s) => Inline::Struct(pre(&[], s.doc(), s.attributes()), fields(s.fields(), s.fallback())),
        TypeNameOrInline::Enum(e) => Inline::Enum(pre(&[], e.doc(), e.attributes()), variants(e.variants(), e.fallback())),
    }
}

fn part(p: &FunctionPart) -> Part {
    Part { c: comments(p.comment()), ty: inline(p.part_type()) }
}

fn def(d: &Definition) -> Def {
    match d {
        Definition::Struct(s) => Def {
            pre: pre(s.comment(), s.doc(), s.attributes()),
            name: id(s.name()),
            kind: Kind::Struct(fields(s.fields(), s.fallback())),
        },
        Definition::Enum(s) => Def {
            pre: pre(s.comment(), s.doc(), s.attributes()),
            name: id(s.name()),
            kind: Kind::Enum(variants(s.variants(), s.fallback())),
        },
        Definition::Const(c) => {
            let (k, v) = match c.value() {
                ConstValue::U8(v) => ("u8", v.value()),
                ConstValue::I8(v) => ("i8", v.value()),
                ConstValue::U16(v) => ("u16", v.value()),
                ConstValue::I16(v) => ("i16", v.value()),
                ConstValue::U32(v) => ("u32", v.value()),
                ConstValue::I32(v) => ("i32", v.value()),
                ConstValue::U64(v) => ("u64", v.value()),
                ConstValue::I64(v) => ("i64", v.value()),
                ConstValue::String(v) => ("string", v.value()),
                ConstValue::Uuid(v) => ("uuid", v.value()),
            };
            Def { pre: pre(c.comment(), c.doc(), &[]), name: id(c.name()), kind: Kind::Const(k, v.to_owned()) }
        }
        Definition::Newtype(n) => Def {
            pre: pre(n.comment(), n.doc(), n.attributes()),
            name: id(n.name()),
            kind: Kind::Newtype(ty(n.target_type())),
        },
        Definition::Service(s) => Def {
            pre: pre(s.comment(), s.doc(), &[]),
            name: id(s.name()),
            kind: Kind::Service(Svc {
                uc: comments(s.uuid_comment()),
                uuid: s.uuid().value().to_owned(),
                vc: comments(s.version_comment()),
                version: s.version().value().to_owned(),
                items: s
                    .items()
                    .iter()
                    .map(|i| match i {
                        ServiceItem::Function(f) => Item {
                            pre: pre(f.comment(), f.doc(), &[]),
                            name: id(f.name()),
                            id: f.id().value().to_owned(),
                            body: ItemBody::Fn { args: f.args().map(part), ok: f.ok().map(part), err: f.err().map(part) },
                        },
                        ServiceItem::Event(e) => Item {
                            pre: pre(e.comment(), e.doc(), &[]),
                            name: id(e.name()),
                            id: e.id().value().to_owned(),
                            body: ItemBody::Ev(e.event_type().map(inline)),
                        },
                    })
                    .collect(),
                fn_fb: s.function_fallback().map(|f| Fb { pre: pre(f.comment(), f.doc(), &[]), name: id(f.name()) }),
                ev_fb: s.event_fallback().map(|f| Fb { pre: pre(f.comment(), f.doc(), &[]), name: id(f.name()) }),
            }),
        },
    }
}

pub fn from_ast(s: &Schema) -> MSchema {
    MSchema {
        c: comments(s.comment()),
        d: docs(s.doc()),
        imports: s.imports().iter().map(|i| (comments(i.comment()), id(i.schema_name()))).collect(),
        defs: s.definitions().iter().map(def).collect(),
    }
}

/// The same schema with its imports as a sorted list.
pub fn sorted(mut s: MSchema) -> MSchema {
    s.imports.sort_by(|a, b| a.1.cmp(&b.1));
    s
}

// ------------------------------------------------------------------ layout

#[derive(Clone, Copy, PartialEq)]
pub enum Ws {
    Compact,
    Spaces,
    Lines,
    Crlf,
    Indented,
}

pub const WS: [Ws; 5] = [Ws::Compact, Ws::Spaces, Ws::Lines, Ws::Crlf, Ws::Indented];

pub struct Out {
    pub s: String,
    ws: Ws,
    /// How preludes are interleaved.
    mix: usize,
    /// Long forms of function bodies and attributes.
    long: bool,
    /// The token in front of which there is other whitespace, and that.
    odd: (usize, &'static str),
    n: usize,
    word: bool,
}

fn is_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '-'
}

impl Out {
    pub fn new(ws: Ws, mix: usize, long: bool, odd: (usize, &'static str)) -> Self {
        Self { s: String::new(), ws, mix, long, odd, n: 0, word: false }
    }

    /// Number of tokens so far.
    pub fn tokens(&self) -> usize {
        self.n
    }

    fn gap(&mut self, need: bool) {
        if self.n == self.odd.0 {
            self.s.push_str(self.odd.1);
        } else {
            match self.ws {
                Ws::Compact if need => self.s.push(' '),
                Ws::Compact => {}
                Ws::Spaces => self.s.push(' '),
                Ws::Lines => self.s.push('\n'),
                Ws::Crlf => self.s.push_str("\r\n\r\n"),
                Ws::Indented => self.s.push_str("\n\n\t  "),
            }
        }
        self.n += 1;
    }

    /// A keyword, name or literal.
    fn w(&mut self, t: &str) {
        let n = self.word;
        self.gap(n);
        self.s.push_str(t);
        self.word = true;
    }

    /// A keyword that whitespace has to follow.
    fn k(&mut self, t: &str) {
        self.w(t);
        self.word = true;
    }

    fn p(&mut self, t: &str) {
        self.gap(false);
        self.s.push_str(t);
        self.word = false;
    }

    fn line(&mut self, lead: &str, t: &str) {
        // a comment always starts behind something that is not a word
        self.gap(true);
        self.s.push_str(lead);
        match self.ws {
            // the blank in front is not part of the text
            Ws::Compact if !t.starts_with(' ') && !t.starts_with(['/', '!']) => {}
            _ if t.is_empty() => {}
            _ => self.s.push(' '),
        }
        self.s.push_str(t);
        match self.ws {
            Ws::Compact | Ws::Lines => self.s.push('\n'),
            Ws::Spaces => self.s.push_str("  \n"),
            Ws::Crlf => self.s.push_str(" \t\r\n"),
            Ws::Indented => self.s.push_str("\r\n"),
        }
        self.word = false;
    }

    fn comments(&mut self, c: &[String]) {
        for c in c {
            self.line("//", c);
        }
    }

    fn doc(&mut self, d: &[String], inline: bool) {
        for d in d {
            self.line(if inline { "//!" } else { "///" }, d);
        }
    }

    fn attrs(&mut self, a: &[(String, Vec<String>)], inline: bool) {
        for (n, o) in a {
            self.p("#");
            if inline {
                self.p("!");
            }
            self.p("[");
            self.w(n);
            if !o.is_empty() {
                self.p("(");
                for (i, x) in o.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    self.w(x);
                }
                if self.long {
                    self.p(",");
                }
                self.p(")");
            }
            self.p("]");
        }
    }

    fn pre(&mut self, p: &Pre, inline: bool) {
        match self.mix {
            0 => {
                self.comments(&p.c);
                self.doc(&p.d, inline);
                self.attrs(&p.a, inline);
            }
            1 => {
                self.attrs(&p.a, inline);
                self.doc(&p.d, inline);
                self.comments(&p.c);
            }
            _ => {
                // one of each at a time
                for i in 0..p.c.len().max(p.d.len()).max(p.a.len()) {
                    self.doc(p.d.get(i..i + 1).unwrap_or(&[]), inline);
                    self.comments(p.c.get(i..i + 1).unwrap_or(&[]));
                    self.attrs(p.a.get(i..i + 1).unwrap_or(&[]), inline);
                }
            }
        }
    }

    fn ty(&mut self, t: &[String]) {
        for t in t {
            if t.chars().all(is_word) && t != "->" {
                self.w(t);
            } else {
                self.p(t);
            }
        }
    }

    fn member(&mut self, m: &Member) {
        self.pre(&m.pre, false);
        if m.req {
            self.k("required");
        }
        self.w(&m.name);
        self.p("@");
        self.w(&m.id);
        if let Some(t) = &m.ty {
            self.p("=");
            self.ty(t);
        }
        self.p(";");
    }

    fn fb(&mut self, kw: &str, f: &Fb) {
        self.pre(&f.pre, false);
        if !kw.is_empty() {
            self.k(kw);
        }
        self.w(&f.name);
        self.p("=");
        self.w("fallback");
        self.p(";");
    }

    fn body(&mut self, b: &Body) {
        for m in &b.members {
            self.member(m);
        }
        if let Some(f) = &b.fb {
            self.fb("", f);
        }
    }

    fn inline(&mut self, i: &Inline) {
        let (k, p, b) = match i {
            Inline::Ty(t) => {
                self.ty(t);
                self.p(";");
                return;
            }
            Inline::Struct(p, b) => ("struct", p, b),
            Inline::Enum(p, b) => ("enum", p, b),
        };
        self.inline_kw(k);
        self.p("{");
        self.pre(p, true);
        self.body(b);
        self.p("}");
    }

    fn inline_kw(&mut self, k: &str) {
        self.k(k);
        if self.ws == Ws::Compact {
            self.s.push(' ');
        }
    }

    fn part(&mut self, k: &str, p: &Part) {
        self.comments(&p.c);
        self.w(k);
        self.p("=");
        self.inline(&p.ty);
    }

    fn item(&mut self, i: &Item) {
        self.pre(&i.pre, false);
        match &i.body {
            ItemBody::Fn { args, ok, err } => {
                self.k("fn");
                self.w(&i.name);
                self.p("@");
                self.w(&i.id);
                match (args, ok, err) {
                    (None, None, None) if !self.long => self.p(";"),
                    (None, Some(p), None) if p.c.is_empty() && !self.long => {
                        self.p("=");
                        self.inline(&p.ty);
                    }
                    _ => {
                        self.p("{");
                        for (k, p) in [("args", args), ("ok", ok), ("err", err)] {
                            if let Some(p) = p {
                                self.part(k, p);
                            }
                        }
                        self.p("}");
                    }
                }
            }
            ItemBody::Ev(t) => {
                self.k("event");
                self.w(&i.name);
                self.p("@");
                self.w(&i.id);
                match t {
                    Some(t) => {
                        self.p("=");
                        self.inline(t);
                    }
                    None => self.p(";"),
                }
            }
        }
    }

    fn def(&mut self, d: &Def) {
        self.pre(&d.pre, false);
        match &d.kind {
            Kind::Struct(b) | Kind::Enum(b) => {
                self.k(if matches!(d.kind, Kind::Struct(_)) { "struct" } else { "enum" });
                self.w(&d.name);
                self.p("{");
                self.body(b);
                self.p("}");
            }
            Kind::Const(k, v) => {
                self.k("const");
                self.w(&d.name);
                self.p("=");
                self.w(k);
                self.p("(");
                self.w(v);
                self.p(")");
                self.p(";");
            }
            Kind::Newtype(t) => {
                self.k("newtype");
                self.w(&d.name);
                self.p("=");
                self.ty(t);
                self.p(";");
            }
            Kind::Service(s) => {
                self.k("service");
                self.w(&d.name);
                self.p("{");
                self.comments(&s.uc);
                self.w("uuid");
                self.p("=");
                self.w(&s.uuid);
                self.p(";");
                self.comments(&s.vc);
                self.w("version");
                self.p("=");
                self.w(&s.version);
                self.p(";");
                for i in &s.items {
                    self.item(i);
                }
                if self.mix == 1 {
                    if let Some(f) = &s.ev_fb {
                        self.fb("event", f);
                    }
                }
                if let Some(f) = &s.fn_fb {
                    self.fb("fn", f);
                }
                if self.mix != 1 {
                    if let Some(f) = &s.ev_fb {
                        self.fb("event", f);
                    }
                }
                self.p("}");
            }
        }
    }

    pub fn schema(&mut self, s: &MSchema) {
        if s.d.is_empty() {
            assert!(s.c.is_empty(), "harness: a comment that belongs to nothing");
        }
        // comments may stand in front of any of the schema's doc lines
        if self.mix == 2 && s.d.len() > 1 {
            self.doc(&s.d[..1], true);
            self.comments(&s.c);
            self.doc(&s.d[1..], true);
        } else {
            self.comments(&s.c);
            self.doc(&s.d, true);
        }
        for (c, i) in &s.imports {
            self.comments(c);
            self.k("import");
            self.w(i);
            self.p(";");
        }
        for d in &s.defs {
            self.def(d);
        }
        self.gap(false);
    }
}
