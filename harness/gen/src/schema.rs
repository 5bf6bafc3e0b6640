//! An independent reader of the schemas that the code under test generated Rust
//! code from.  Knows only what the corpus uses.

use crate::desc::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Set {
    /// schemas/*.aldrin
    Main,
    /// schemas/alt/*.aldrin: the same in other words
    Alt,
}

pub fn text(set: Set, name: &str) -> &'static str {
    match (set, name) {
        (Set::Main, "ext") => include_str!("../schemas/ext.aldrin"),
        (Set::Main, "all") => include_str!("../schemas/all.aldrin"),
        (Set::Main, "svc") => include_str!("../schemas/svc.aldrin"),
        (Set::Main, "raw") => include_str!("../schemas/raw.aldrin"),
        (Set::Main, "odd") => include_str!("../schemas/odd.aldrin"),
        (Set::Main, "old") => include_str!("../schemas/old.aldrin"),
        (Set::Main, "new") => include_str!("../schemas/new.aldrin"),
        (Set::Alt, "ext") => include_str!("../schemas/alt/ext.aldrin"),
        (Set::Alt, "all") => include_str!("../schemas/alt/all.aldrin"),
        (Set::Alt, "svc") => include_str!("../schemas/alt/svc.aldrin"),
        _ => panic!("no such schema"),
    }
}

/// What a set of schemas defines.
pub struct Sch {
    pub tab: Tab,
    names: Vec<(String, String)>,
    consts: Vec<(String, String, u32)>,
    set: Set,
}

impl Sch {
    pub fn new(set: Set) -> Self {
        Sch { tab: vec![], names: vec![], consts: vec![], set }
    }

    pub fn load(set: Set, schemas: &[&str]) -> Self {
        let mut s = Self::new(set);
        for n in schemas {
            s.scan_consts(n);
        }
        for n in schemas {
            P::new(&mut s, n).file();
        }
        s
    }

    /// The index of a named type.
    pub fn get(&self, schema: &str, name: &str) -> usize {
        self.names.iter().position(|n| n.0 == schema && n.1 == name).expect("no such type")
    }

    fn named(&mut self, schema: &str, name: &str) -> usize {
        match self.names.iter().position(|n| n.0 == schema && n.1 == name) {
            Some(i) => i,
            None => self.push(schema, name, Def::B(Bi::Opt(usize::MAX))),
        }
    }

    fn push(&mut self, schema: &str, name: &str, d: Def) -> usize {
        self.names.push((schema.into(), name.into()));
        self.tab.push(d);
        self.tab.len() - 1
    }

    fn define(&mut self, schema: &str, name: &str, d: Def) -> usize {
        let i = self.named(schema, name);
        self.tab[i] = d;
        i
    }

    fn bi(&mut self, b: Bi) -> usize {
        for (i, d) in self.tab.iter().enumerate() {
            if let Def::B(x) = d {
                if *x == b {
                    return i;
                }
            }
        }
        self.push("", "", Def::B(b))
    }

    fn scan_consts(&mut self, schema: &str) {
        for l in text(self.set, schema).lines() {
            if let Some(r) = l.strip_prefix("const ") {
                let mut p = r.split(" = ");
                let n = p.next().unwrap();
                let v = p.next().unwrap();
                let v: String = v.chars().skip_while(|c| *c != '(').skip(1).take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(v) = v.parse() {
                    self.consts.push((schema.into(), n.into(), v));
                }
            }
        }
    }
}

fn tokens(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
        } else if c == b'/' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c == b'#' {
            while b[i] != b']' {
                i += 1;
            }
            i += 1;
        } else if c == b'"' {
            let a = i;
            i += 1;
            while b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            i += 1;
            v.push(&s[a..i]);
        } else if c.is_ascii_alphanumeric() || c == b'_' {
            let a = i;
            while i < b.len()
                && (b[i].is_ascii_alphanumeric()
                    || b[i] == b'_'
                    || (b[i] == b'-' && b.get(i + 1).is_some_and(|c| c.is_ascii_hexdigit())))
            {
                i += 1;
            }
            v.push(&s[a..i]);
        } else {
            v.push(&s[i..i + 1]);
            i += 1;
        }
    }
    v
}

pub fn camel(s: &str) -> String {
    let mid = s.trim_matches('_');
    let lead = if mid.is_empty() { s.len() } else { s.find(mid).unwrap() };
    let mut r = "_".repeat(lead);
    let mut up = true;
    for c in mid.chars() {
        if c == '_' {
            up = true;
        } else if up {
            r.push(c.to_ascii_uppercase());
            up = false;
        } else {
            r.push(c);
        }
    }
    r.push_str(&"_".repeat(s.len() - lead - mid.len()));
    r
}

struct P<'a> {
    s: &'a mut Sch,
    schema: String,
    t: Vec<&'static str>,
    i: usize,
}

impl<'a> P<'a> {
    fn new(s: &'a mut Sch, schema: &str) -> Self {
        let t = tokens(text(s.set, schema));
        P { s, schema: schema.into(), t, i: 0 }
    }
    fn peek(&self, k: usize) -> &'static str {
        self.t.get(self.i + k).copied().unwrap_or("")
    }
    fn next(&mut self) -> &'static str {
        self.i += 1;
        self.t[self.i - 1]
    }
    fn eat(&mut self, t: &str) {
        let n = self.next();
        if n != t {
            panic!("harness schema: expected {t}, found {n}");
        }
    }
    fn is(&mut self, t: &str) -> bool {
        if self.peek(0) == t {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn num(&mut self) -> u32 {
        self.next().parse().unwrap()
    }

    fn file(mut self) {
        while self.i < self.t.len() {
            match self.next() {
                "import" => {
                    self.next();
                    self.eat(";");
                }
                "const" => {
                    while self.next() != ";" {}
                }
                "newtype" => {
                    let n = self.next();
                    self.eat("=");
                    let ty = self.ty();
                    self.eat(";");
                    let d = Def::Nt(Nt { schema: self.schema.clone(), name: n.into(), doc: None, ty });
                    let sc = self.schema.clone();
                    self.s.define(&sc, n, d);
                }
                "struct" => {
                    let n = self.next();
                    self.st(n);
                }
                "enum" => {
                    let n = self.next();
                    self.en(n);
                }
                "service" => self.service(),
                x => panic!("harness schema: {x}"),
            }
        }
    }

    fn st(&mut self, name: &str) -> usize {
        self.eat("{");
        let mut fields = vec![];
        let mut fb = None;
        while !self.is("}") {
            let req = self.peek(0) == "required" && self.peek(1) != "@" && self.peek(1) != "=";
            if req {
                self.next();
            }
            let n = self.next();
            if self.is("@") {
                let id = self.num();
                self.eat("=");
                let ty = self.ty();
                self.eat(";");
                fields.push(Fl { id, name: n.into(), req, ty, doc: None });
            } else {
                self.eat("=");
                self.eat("fallback");
                self.eat(";");
                fb = Some(Fb { name: n.into(), doc: None });
            }
        }
        let sc = self.schema.clone();
        self.s.define(&sc, name, Def::St(St { schema: sc.clone(), name: name.into(), doc: None, fields, fb }))
    }

    fn en(&mut self, name: &str) -> usize {
        self.eat("{");
        let mut vars = vec![];
        let mut fb = None;
        while !self.is("}") {
            let n = self.next();
            if self.is("@") {
                let id = self.num();
                let ty = if self.is("=") { Some(self.ty()) } else { None };
                self.eat(";");
                vars.push(Va { id, name: n.into(), ty, doc: None });
            } else {
                self.eat("=");
                self.eat("fallback");
                self.eat(";");
                fb = Some(Fb { name: n.into(), doc: None });
            }
        }
        let sc = self.schema.clone();
        self.s.define(&sc, name, Def::En(En { schema: sc.clone(), name: name.into(), doc: None, vars, fb }))
    }

    /// `T ;`, `struct { }` or `enum { }`.
    fn part(&mut self, inline: &str) -> usize {
        match self.peek(0) {
            "struct" if self.peek(1) == "{" => {
                self.next();
                self.st(inline)
            }
            "enum" if self.peek(1) == "{" => {
                self.next();
                self.en(inline)
            }
            _ => {
                let t = self.ty();
                self.eat(";");
                t
            }
        }
    }

    fn service(&mut self) {
        let name = self.next();
        self.eat("{");
        let mut x = Sv {
            schema: self.schema.clone(),
            name: name.into(),
            doc: None,
            uuid: 0,
            version: 0,
            fns: vec![],
            evs: vec![],
            ffb: None,
            efb: None,
            evs_first: false,
        };
        while !self.is("}") {
            match self.next() {
                "uuid" => {
                    self.eat("=");
                    for c in self.next().chars().filter(|c| *c != '-') {
                        x.uuid = x.uuid << 4 | c.to_digit(16).unwrap() as u128;
                    }
                    self.eat(";");
                }
                "version" => {
                    self.eat("=");
                    x.version = self.num();
                    self.eat(";");
                }
                "fn" => {
                    let n = self.next();
                    if self.is("=") {
                        self.eat("fallback");
                        self.eat(";");
                        x.ffb = Some(Fb { name: n.into(), doc: None });
                        continue;
                    }
                    self.eat("@");
                    let id = self.num();
                    let mut f = Func { id, name: n.into(), args: None, ok: None, err: None, doc: None };
                    let base = format!("{name}{}", camel(n));
                    if self.is("=") {
                        f.ok = Some(self.part(&format!("{base}Ok")));
                    } else if !self.is(";") {
                        self.eat("{");
                        while !self.is("}") {
                            let k = self.next();
                            self.eat("=");
                            match k {
                                "args" => f.args = Some(self.part(&format!("{base}Args"))),
                                "ok" => f.ok = Some(self.part(&format!("{base}Ok"))),
                                _ => f.err = Some(self.part(&format!("{base}Error"))),
                            }
                        }
                    }
                    x.fns.push(f);
                }
                _ => {
                    let n = self.next();
                    if self.is("=") {
                        self.eat("fallback");
                        self.eat(";");
                        x.efb = Some(Fb { name: n.into(), doc: None });
                        continue;
                    }
                    self.eat("@");
                    let id = self.num();
                    let ty = if self.is("=") {
                        Some(self.part(&format!("{name}{}Args", camel(n))))
                    } else {
                        self.eat(";");
                        None
                    };
                    x.evs.push(Va { id, name: n.into(), ty, doc: None });
                }
            }
        }
        let sc = self.schema.clone();
        self.s.define(&sc, name, Def::Sv(x));
    }

    fn ty(&mut self) -> usize {
        let t = self.next();
        let one = |p: &mut Self| {
            p.eat("<");
            let t = p.ty();
            p.eat(">");
            t
        };
        if let Some(k) = LEAVES.iter().position(|l| *l == t) {
            return self.s.bi(Bi::Leaf(k as u8));
        }
        let b = match t {
            "option" => Bi::Opt(one(self)),
            "box" => Bi::Box(one(self)),
            "set" => Bi::Set(one(self)),
            "sender" => Bi::Snd(one(self)),
            "receiver" => Bi::Rcv(one(self)),
            "vec" => {
                let t = one(self);
                if matches!(self.s.tab[t], Def::B(Bi::Leaf(1))) {
                    // a vec<u8> is a bytes
                    Bi::Leaf(16)
                } else {
                    Bi::Vec(t)
                }
            }
            "map" => {
                self.eat("<");
                let k = self.ty();
                self.eat("-");
                self.eat(">");
                let v = self.ty();
                self.eat(">");
                Bi::Map(k, v)
            }
            "result" => {
                self.eat("<");
                let k = self.ty();
                self.eat(",");
                let v = self.ty();
                self.eat(">");
                Bi::Res(k, v)
            }
            "[" => {
                let t = self.ty();
                self.eat(";");
                let n = self.len();
                self.eat("]");
                Bi::Arr(t, n)
            }
            n => {
                let (s, n) = self.path(n);
                return self.s.named(&s, &n);
            }
        };
        self.s.bi(b)
    }

    fn path(&mut self, first: &str) -> (String, String) {
        if self.peek(0) == ":" {
            self.eat(":");
            self.eat(":");
            (first.into(), self.next().into())
        } else {
            (self.schema.clone(), first.into())
        }
    }

    fn len(&mut self) -> u32 {
        let n = self.next();
        if let Ok(n) = n.parse() {
            return n;
        }
        let (s, n) = self.path(n);
        self.s.consts.iter().find(|c| c.0 == s && c.1 == n).expect("no such constant").2
    }
}
