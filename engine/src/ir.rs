//! Parser for the textual LLVM IR produced by rustc, compiled to a register form.
use crate::expr::{Arena, E};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u8),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Func,
    Other,
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    R(u32),
    I(u64),
    X(E),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinK {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FBinK {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwK {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Ind(Op),
    Ext(String),
    Intr(String),
    Asm,
}

#[derive(Debug)]
pub struct CallI {
    pub dst: u32,
    pub ret: Vec<u8>,
    pub callee: Callee,
    pub args: Vec<(Op, u8)>,
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: BinK, w: u8, dst: u32, a: Op, b: Op },
    FBin { op: FBinK, w: u8, dst: u32, a: Op, b: Op },
    FNeg { w: u8, dst: u32, a: Op },
    Icmp { p: Pred, w: u8, dst: u32, a: Op, b: Op },
    Fcmp { p: String, w: u8, dst: u32, a: Op, b: Op },
    Cast { k: CastK, fw: u8, tw: u8, dst: u32, a: Op },
    Copy { dst: u32, src: Vec<Op> },
    Select { dst: u32, c: Op, ws: Vec<u8>, a: Vec<Op>, b: Vec<Op> },
    Load { dst: u32, leafs: Box<[(u32, u8)]>, size: u32, p: Op },
    Store { leafs: Box<[(u32, u8)]>, size: u32, v: Vec<Op>, p: Op },
    Gep { dst: u32, base: Op, off: u64, terms: Box<[(Op, u8, u64)]> },
    Alloca { dst: u32, elem: u64, n: Op },
    Call(Box<CallI>),
    Rmw { k: RmwK, w: u8, dst: u32, p: Op, v: Op },
    CmpXchg { w: u8, dst: u32, p: Op, c: Op, n: Op },
    Br(u32),
    CondBr { c: Op, t: u32, f: u32 },
    Switch { w: u8, v: Op, cases: Vec<(u128, u32)>, groups: Vec<(Vec<u128>, u32)>, def: u32 },
    Ret(Vec<Op>),
    Unreachable,
    Nop,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Edge {
    pub pc: u32,
    pub copies: Vec<(u32, Op)>,
}

pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u8>,
    pub insts: Vec<Inst>,
    pub edges: Vec<Edge>,
}

pub struct FDecl {
    pub name: String,
    pub body: Option<(usize, usize, usize)>, // header start, body start, end
    pub weak: bool,
}

pub struct GDecl {
    pub name: String,
    pub size: u64,
    pub data: Vec<u8>,
    pub constant: bool,
}

pub const FN_ID0: u64 = 0x8000_0000;

pub struct Module {
    pub src: Vec<u8>,
    types: HashMap<String, Ty>,
    pub funcs: Vec<FDecl>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<GDecl>,
    pub gmap: HashMap<String, u64>, // name -> address
    aliases: HashMap<String, String>,
}

pub fn size_align(t: &Ty) -> (u64, u64) {
    match t {
        Ty::Void | Ty::Func | Ty::Other => (0, 1),
        Ty::Int(w) => {
            let b = (*w as u64 + 7) / 8;
            let a = b.next_power_of_two().min(16);
            ((b + a - 1) / a * a, a)
        }
        Ty::Ptr | Ty::F64 => (8, 8),
        Ty::F32 => (4, 4),
        Ty::Arr(n, t) => {
            let (s, a) = size_align(t);
            (s * n, a)
        }
        Ty::Struct(fs, packed) => {
            let mut off = 0;
            let mut al = 1;
            for f in fs.iter() {
                let (s, a) = size_align(f);
                let a = if *packed { 1 } else { a };
                off = (off + a - 1) / a * a + s;
                al = al.max(a);
            }
            ((off + al - 1) / al * al, al)
        }
    }
}

pub fn field_off(fs: &[Ty], packed: bool, i: usize) -> u64 {
    let mut off = 0;
    for (j, f) in fs.iter().enumerate() {
        let (s, a) = size_align(f);
        let a = if packed { 1 } else { a };
        off = (off + a - 1) / a * a;
        if j == i {
            return off;
        }
        off += s;
    }
    off
}

pub fn leafs(t: &Ty, base: u64, out: &mut Vec<(u32, u8)>) {
    match t {
        Ty::Void | Ty::Func | Ty::Other => {}
        Ty::Int(w) => out.push((base as u32, *w)),
        Ty::Ptr | Ty::F64 => out.push((base as u32, 64)),
        Ty::F32 => out.push((base as u32, 32)),
        Ty::Arr(n, t) => {
            let (s, _) = size_align(t);
            for i in 0..*n {
                leafs(t, base + i * s, out);
            }
        }
        Ty::Struct(fs, p) => {
            for (i, f) in fs.iter().enumerate() {
                leafs(f, base + field_off(fs, *p, i), out);
            }
        }
    }
}

pub fn nleafs(t: &Ty) -> u32 {
    match t {
        Ty::Void | Ty::Func | Ty::Other => 0,
        Ty::Arr(n, t) => *n as u32 * nleafs(t),
        Ty::Struct(fs, _) => fs.iter().map(nleafs).sum(),
        _ => 1,
    }
}

struct Cur<'a> {
    s: &'a [u8],
    p: usize,
    end: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'$' || c == b'-'
}

impl<'a> Cur<'a> {
    fn ws(&mut self) {
        while self.p < self.end {
            let c = self.s[self.p];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
                self.p += 1;
            } else if c == b';' {
                while self.p < self.end && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
            } else {
                break;
            }
        }
    }
    /// whitespace within a line
    fn lws(&mut self) {
        while self.p < self.end && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') {
            self.p += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.end {
            self.s[self.p]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected '{}'", c as char));
        }
    }
    fn fail(&self, m: &str) -> ! {
        let mut a = self.p;
        while a > 0 && self.s[a - 1] != b'\n' {
            a -= 1;
        }
        let mut b = self.p;
        while b < self.s.len() && self.s[b] != b'\n' {
            b += 1;
        }
        panic!("IR parse error: {} at col {} in: {}", m, self.p - a, String::from_utf8_lossy(&self.s[a..b]));
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut q = self.p;
        while q < self.end && is_id(self.s[q]) {
            q += 1;
        }
        std::str::from_utf8(&self.s[self.p..q]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.p += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.p += w.len();
            true
        } else {
            false
        }
    }
    /// name after '%' or '@' (already consumed)
    fn name(&mut self) -> String {
        if self.s[self.p] == b'"' {
            let st = self.p + 1;
            let mut q = st;
            while self.s[q] != b'"' {
                q += 1;
            }
            self.p = q + 1;
            return String::from_utf8_lossy(&self.s[st..q]).into_owned();
        }
        let st = self.p;
        while self.p < self.end && is_id(self.s[self.p]) {
            self.p += 1;
        }
        std::str::from_utf8(&self.s[st..self.p]).unwrap().to_string()
    }
    fn skip_parens(&mut self) {
        self.need(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn string(&mut self) -> Vec<u8> {
        self.need(b'"');
        let mut out = vec![];
        loop {
            let c = self.s[self.p];
            if c == b'"' {
                self.p += 1;
                return out;
            }
            if c == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    out.push(b'\\');
                    self.p += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap());
                    self.p += 3;
                }
            } else {
                out.push(c);
                self.p += 1;
            }
        }
    }
    fn num(&mut self) -> i128 {
        let w = self.word();
        w.parse::<i128>().unwrap_or_else(|_| self.fail("number"))
    }
    fn is_type_start(&mut self) -> bool {
        let c = self.peek();
        match c {
            b'[' | b'{' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                match w {
                    "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "fp128" => true,
                    _ => w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()),
                }
            }
        }
    }
    /// skip attributes / flags until something that starts a type
    fn skip_attrs(&mut self) {
        while !self.is_type_start() {
            let c = self.peek();
            if c == b'#' {
                self.p += 1;
                self.word();
                continue;
            }
            if c == b'"' {
                self.string();
                if self.eat(b'=') {
                    self.string();
                }
                continue;
            }
            let w = self.word();
            if w.is_empty() {
                self.fail("attribute");
            }
            if w == "align" && self.peek() != b'(' {
                self.word();
            } else if self.p < self.end && self.s[self.p] == b'(' {
                self.skip_parens();
            }
        }
    }
    /// like skip_attrs, but for parameter attributes after the type: stops at a value
    fn skip_val_attrs(&mut self) {
        loop {
            let c = self.peek();
            if !(c.is_ascii_alphabetic()) {
                return;
            }
            let w = self.peek_word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr"
                | "ptrtoint" | "trunc" | "sub" | "add" | "xor" | "bitcast" | "splat" | "c" | "asm" | "mul" | "f0x" | "icmp" | "select" => return,
                _ => {}
            }
            if w.starts_with("f0x") {
                return;
            }
            self.p += w.len();
            if w == "align" && self.peek() != b'(' {
                self.word();
            } else if self.p < self.end && self.s[self.p] == b'(' {
                self.skip_parens();
            }
        }
    }
}

impl Module {
    pub fn parse(src: Vec<u8>) -> Module {
        let mut m = Module {
            src: vec![],
            types: HashMap::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            aliases: HashMap::new(),
        };
        let mut gl: Vec<usize> = vec![];
        let n = src.len();
        let mut p = 0;
        let mut tys = vec![];
        while p < n {
            let e = src[p..].iter().position(|&c| c == b'\n').map(|x| p + x).unwrap_or(n);
            let line = &src[p..e];
            if line.starts_with(b"define ") {
                let name = fn_name(line);
                // find end: line "}"
                let mut q = e + 1;
                loop {
                    let e2 = src[q..].iter().position(|&c| c == b'\n').map(|x| q + x).unwrap_or(n);
                    if &src[q..e2] == b"}" {
                        break;
                    }
                    q = e2 + 1;
                }
                let id = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), id);
                m.funcs.push(FDecl { name, body: Some((p, e + 1, q)), weak: false });
                p = q + 2;
                continue;
            } else if line.starts_with(b"declare ") {
                let name = fn_name(line);
                let weak = line.starts_with(b"declare extern_weak");
                if !m.fmap.contains_key(&name) {
                    let id = m.funcs.len() as u32;
                    m.fmap.insert(name.clone(), id);
                    m.funcs.push(FDecl { name, body: None, weak });
                }
            } else if line.starts_with(b"@") {
                gl.push(p);
            } else if line.starts_with(b"%") {
                tys.push(p);
            }
            p = e + 1;
        }
        // named types
        for p in tys {
            let mut c = Cur { s: &src, p: p + 1, end: n };
            let name = c.name();
            c.need(b'=');
            assert!(c.eat_word("type"));
            if c.eat_word("opaque") {
                m.types.insert(name, Ty::Other);
            } else {
                let t = m.ty(&mut c);
                m.types.insert(name, t);
            }
        }
        // globals: addresses first
        let mut inits = vec![];
        let mut id = 1u64;
        for p in gl {
            let mut c = Cur { s: &src, p: p + 1, end: n };
            let name = c.name();
            c.need(b'=');
            let mut external = false;
            let mut weak = false;
            let mut constant = false;
            let mut alias = false;
            loop {
                let w = c.word();
                if w == "global" {
                    break;
                }
                if w == "constant" {
                    constant = true;
                    break;
                }
                if w == "alias" {
                    alias = true;
                    break;
                }
                if w == "external" {
                    external = true;
                }
                if w == "extern_weak" {
                    external = true;
                    weak = true;
                }
                if w.is_empty() {
                    c.fail("global");
                }
                if c.p < n && src[c.p] == b'(' {
                    c.skip_parens();
                }
            }
            if alias {
                let _ = m.ty(&mut c);
                c.need(b',');
                let _ = m.ty(&mut c);
                c.need(b'@');
                let t = c.name();
                m.aliases.insert(name, t);
                continue;
            }
            let t = m.ty(&mut c);
            let (size, _) = size_align(&t);
            let addr = if weak { 0 } else { id << 32 };
            m.gmap.insert(name.clone(), addr);
            m.globals.push(GDecl { name, size, data: vec![0; size as usize], constant });
            if !external && size > 0 {
                inits.push((m.globals.len() - 1, t, c.p));
            }
            id += 1;
        }
        let mut datas = vec![];
        for (gi, t, p) in inits {
            let mut c = Cur { s: &src, p, end: n };
            let mut data = vec![0u8; m.globals[gi].size as usize];
            m.const_into(&mut c, &t, &mut data);
            datas.push((gi, data));
        }
        for (gi, d) in datas {
            m.globals[gi].data = d;
        }
        m.src = src;
        m
    }

    fn ty(&self, c: &mut Cur) -> Ty {
        let t = match c.peek() {
            b'[' => {
                c.p += 1;
                let n = c.num() as u64;
                assert_eq!(c.word(), "x");
                let t = self.ty(c);
                c.need(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'{' => {
                c.p += 1;
                let mut fs = vec![];
                if !c.eat(b'}') {
                    loop {
                        fs.push(self.ty(c));
                        if c.eat(b'}') {
                            break;
                        }
                        c.need(b',');
                    }
                }
                Ty::Struct(Rc::new(fs), false)
            }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' {
                    let t = self.ty(c);
                    c.need(b'>');
                    match t {
                        Ty::Struct(f, _) => Ty::Struct(f, true),
                        _ => unreachable!(),
                    }
                } else {
                    // vector
                    let n = c.num() as u64;
                    assert_eq!(c.word(), "x");
                    let t = self.ty(c);
                    c.need(b'>');
                    Ty::Arr(n, Rc::new(t))
                }
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                self.types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = c.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" | "metadata" | "token" => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| c.fail("int type"))),
                    _ => c.fail("type"),
                }
            }
        };
        // function type?
        if c.p < c.end {
            let save = c.p;
            c.lws();
            if c.p < c.end && c.s[c.p] == b'(' {
                // only treat as a function type if followed (after parens) by something; callers that
                // expect a value '(' never occur
                c.skip_parens();
                return Ty::Func;
            }
            c.p = save;
        }
        t
    }

    pub fn addr_of(&self, name: &str) -> u64 {
        if let Some(&a) = self.gmap.get(name) {
            return a;
        }
        if let Some(&f) = self.fmap.get(name) {
            if self.funcs[f as usize].weak {
                return 0;
            }
            return (FN_ID0 + f as u64) << 32;
        }
        if let Some(t) = self.aliases.get(name) {
            return self.addr_of(t);
        }
        panic!("unknown symbol @{}", name)
    }

    fn const_into(&self, c: &mut Cur, t: &Ty, out: &mut [u8]) {
        match c.peek_word() {
            "zeroinitializer" | "undef" | "poison" | "none" => {
                c.word();
                return;
            }
            _ => {}
        }
        match t {
            Ty::Arr(n, et) => {
                if c.peek() == b'c' {
                    c.p += 1;
                    let s = c.string();
                    out[..s.len()].copy_from_slice(&s);
                    return;
                }
                if c.eat_word("splat") {
                    c.need(b'(');
                    let t2 = self.ty(c);
                    let v = self.scalar(c, &t2);
                    c.need(b')');
                    let (s, _) = size_align(et);
                    for i in 0..*n {
                        let o = (i * s) as usize;
                        out[o..o + s as usize].copy_from_slice(&v.to_le_bytes()[..s as usize]);
                    }
                    return;
                }
                let close = if c.eat(b'[') {
                    b']'
                } else {
                    c.need(b'<');
                    b'>'
                };
                let (s, _) = size_align(et);
                for i in 0..*n {
                    let t2 = self.ty(c);
                    let o = (i * s) as usize;
                    self.const_into(c, &t2, &mut out[o..o + s as usize]);
                    if i + 1 < *n {
                        c.need(b',');
                    }
                }
                c.need(close);
            }
            Ty::Struct(fs, p) => {
                if *p {
                    c.need(b'<');
                }
                c.need(b'{');
                for i in 0..fs.len() {
                    let t2 = self.ty(c);
                    let o = field_off(fs, *p, i) as usize;
                    let (s, _) = size_align(&t2);
                    self.const_into(c, &t2, &mut out[o..o + s as usize]);
                    if i + 1 < fs.len() {
                        c.need(b',');
                    }
                }
                c.need(b'}');
                if *p {
                    c.need(b'>');
                }
            }
            _ => {
                let v = self.scalar(c, t);
                let (s, _) = size_align(t);
                out[..s as usize].copy_from_slice(&v.to_le_bytes()[..s as usize]);
            }
        }
    }

    /// scalar constant (no registers)
    fn scalar(&self, c: &mut Cur, t: &Ty) -> u128 {
        let m = match t {
            Ty::Int(w) => crate::expr::mask(*w),
            Ty::F32 => crate::expr::mask(32),
            _ => crate::expr::mask(64),
        };
        if c.peek() == b'@' {
            c.p += 1;
            let n = c.name();
            return self.addr_of(&n) as u128;
        }
        let w = c.peek_word();
        match w {
            "true" => {
                c.word();
                return 1;
            }
            "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" => {
                c.word();
                return 0;
            }
            "getelementptr" => {
                c.word();
                while c.peek() != b'(' {
                    let w = c.word();
                    if w.is_empty() {
                        c.fail("gep const");
                    }
                    if w == "inrange" {
                        c.skip_parens();
                    }
                }
                c.need(b'(');
                let mut t = self.ty(c);
                c.need(b',');
                let pt = self.ty(c);
                let base = self.scalar(c, &pt) as u64;
                let mut off = 0i64;
                let mut first = true;
                while c.eat(b',') {
                    let it = self.ty(c);
                    let iv = self.scalar(c, &it);
                    let iw = match it {
                        Ty::Int(w) => w,
                        _ => 64,
                    };
                    let iv = crate::expr::sx(iv, iw) as i64;
                    if first {
                        off += iv * size_align(&t).0 as i64;
                        first = false;
                    } else {
                        match t.clone() {
                            Ty::Struct(fs, p) => {
                                off += field_off(&fs, p, iv as usize) as i64;
                                t = fs[iv as usize].clone();
                            }
                            Ty::Arr(_, et) => {
                                off += iv * size_align(&et).0 as i64;
                                t = (*et).clone();
                            }
                            _ => c.fail("gep const type"),
                        }
                    }
                }
                c.need(b')');
                return base.wrapping_add(off as u64) as u128;
            }
            "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "ptrtoaddr" => {
                c.word();
                c.need(b'(');
                let st = self.ty(c);
                let v = self.scalar(c, &st);
                assert_eq!(c.word(), "to");
                let _ = self.ty(c);
                c.need(b')');
                return v & m;
            }
            "add" | "sub" | "xor" | "mul" => {
                let op = c.word();
                while c.peek() != b'(' {
                    c.word();
                }
                c.need(b'(');
                let t1 = self.ty(c);
                let a = self.scalar(c, &t1);
                c.need(b',');
                let t2 = self.ty(c);
                let b = self.scalar(c, &t2);
                c.need(b')');
                return m & match op {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    _ => a ^ b,
                };
            }
            _ => {}
        }
        match t {
            Ty::F32 | Ty::F64 => {
                // decimal, 0x hex (double bits), f0x hex (exact bits)
                c.ws();
                let st = c.p;
                while c.p < c.end && (is_id(c.s[c.p]) || c.s[c.p] == b'+') {
                    c.p += 1;
                }
                let w = std::str::from_utf8(&c.s[st..c.p]).unwrap();
                if let Some(h) = w.strip_prefix("f0x") {
                    return u128::from_str_radix(h, 16).unwrap();
                }
                if let Some(h) = w.strip_prefix("0x") {
                    let b = u64::from_str_radix(h, 16).unwrap();
                    return if *t == Ty::F32 { (f64::from_bits(b) as f32).to_bits() as u128 } else { b as u128 };
                }
                let w2 = w.trim_start_matches('+');
                let v: f64 = match w2 {
                    "inf" => f64::INFINITY,
                    "-inf" => f64::NEG_INFINITY,
                    "nan" | "qnan" => f64::NAN,
                    _ => w2.parse().unwrap_or_else(|_| c.fail("float")),
                };
                if *t == Ty::F32 {
                    (v as f32).to_bits() as u128
                } else {
                    v.to_bits() as u128
                }
            }
            _ => {
                let v = if c.peek() == b'-' {
                    let w = c.word();
                    w.parse::<i128>().unwrap_or_else(|_| c.fail("int")) as u128
                } else {
                    let w = c.word();
                    w.parse::<u128>().unwrap_or_else(|_| c.fail("int"))
                };
                v & m
            }
        }
    }

    pub fn compile(&self, fidx: u32, ar: &mut Arena) -> Func {
        let d = &self.funcs[fidx as usize];
        let (h, b, e) = d.body.unwrap();
        let mut fc = FC {
            m: self,
            ar,
            regs: HashMap::new(),
            nregs: 0,
            insts: vec![],
            edges: vec![],
            edge_info: vec![],
            block_pc: HashMap::new(),
            phis: HashMap::new(),
            cur: String::new(),
        };
        // header
        let mut c = Cur { s: &self.src, p: h, end: b };
        assert!(c.eat_word("define"));
        c.skip_attrs();
        let _ret = self.ty_nofn(&mut c);
        c.need(b'@');
        let _ = c.name();
        c.need(b'(');
        let mut params = vec![];
        let mut auto = 0u32;
        if !c.eat(b')') {
            loop {
                if c.eat_word("...") {
                    c.need(b')');
                    break;
                }
                let t = self.ty(&mut c);
                c.skip_val_attrs();
                let name = if c.peek() == b'%' {
                    c.p += 1;
                    c.name()
                } else {
                    auto.to_string()
                };
                if name.bytes().all(|x| x.is_ascii_digit()) {
                    auto = name.parse::<u32>().unwrap() + 1;
                }
                let mut l = vec![];
                leafs(&t, 0, &mut l);
                fc.reg(&name, &t);
                params.extend(l.iter().map(|x| x.1));
                if c.eat(b')') {
                    break;
                }
                c.need(b',');
            }
        }
        // body
        let mut c = Cur { s: &self.src, p: b, end: e };
        // implicit entry label
        let mut first = true;
        loop {
            c.ws();
            if c.p >= c.end {
                break;
            }
            // label?
            let save = c.p;
            let lbl = if c.s[c.p] == b'"' {
                let st = c.p + 1;
                let mut q = st;
                while c.s[q] != b'"' {
                    q += 1;
                }
                if c.s[q + 1] == b':' {
                    c.p = q + 2;
                    Some(String::from_utf8_lossy(&c.s[st..q]).into_owned())
                } else {
                    None
                }
            } else {
                let w = c.peek_word();
                if !w.is_empty() && c.p + w.len() < c.end && c.s[c.p + w.len()] == b':' {
                    c.p += w.len() + 1;
                    Some(w.to_string())
                } else {
                    None
                }
            };
            match lbl {
                Some(l) => {
                    fc.block_pc.insert(l.clone(), fc.insts.len() as u32);
                    fc.cur = l;
                    first = false;
                    // skip the rest of the line (comment)
                    continue;
                }
                None => {
                    c.p = save;
                    if first {
                        fc.cur = auto.to_string();
                        fc.block_pc.insert(fc.cur.clone(), 0);
                        first = false;
                    }
                }
            }
            fc.inst(&mut c);
            // rest of line (metadata etc.)
            while c.p < c.end && c.s[c.p] != b'\n' {
                c.p += 1;
            }
        }
        // edges
        let infos = std::mem::take(&mut fc.edge_info);
        for (from, to) in infos {
            let pc = *fc.block_pc.get(&to).unwrap_or_else(|| panic!("no block {}", to));
            let mut copies = vec![];
            if let Some(ph) = fc.phis.get(&to) {
                for (dst, inc) in ph {
                    let (_, ops) = inc.iter().find(|(l, _)| *l == from).unwrap_or_else(|| panic!("phi edge {} -> {} in {}", from, to, d.name));
                    for (i, o) in ops.iter().enumerate() {
                        copies.push((dst + i as u32, *o));
                    }
                }
            }
            fc.edges.push(Edge { pc, copies });
        }
        // resolve switch groups
        for i in fc.insts.iter_mut() {
            if let Inst::Switch { cases, groups, .. } = i {
                let mut g: Vec<(Vec<u128>, u32)> = vec![];
                for (k, e) in cases.iter() {
                    // same target and same copies: group
                    let found = g.iter_mut().find(|(_, e2)| {
                        let (x, y) = (&fc.edges[*e as usize], &fc.edges[*e2 as usize]);
                        x.pc == y.pc && format!("{:?}", x.copies) == format!("{:?}", y.copies)
                    });
                    match found {
                        Some(q) => q.0.push(*k),
                        None => g.push((vec![*k], *e)),
                    }
                }
                *groups = g;
            }
        }
        Func { name: d.name.clone(), nregs: fc.nregs, params, insts: fc.insts, edges: fc.edges }
    }

    /// a type that is not followed by a function-type parameter list
    fn ty_nofn(&self, c: &mut Cur) -> Ty {
        let t = self.ty(c);
        t
    }
}

fn fn_name(line: &[u8]) -> String {
    let at = line.iter().position(|&c| c == b'@').unwrap();
    let mut c = Cur { s: line, p: at + 1, end: line.len() };
    c.name()
}

struct FC<'a> {
    m: &'a Module,
    ar: &'a mut Arena,
    regs: HashMap<String, u32>,
    nregs: u32,
    insts: Vec<Inst>,
    edges: Vec<Edge>,
    edge_info: Vec<(String, String)>,
    block_pc: HashMap<String, u32>,
    phis: HashMap<String, Vec<(u32, Vec<(String, Vec<Op>)>)>>,
    cur: String,
}

fn width(t: &Ty) -> u8 {
    match t {
        Ty::Int(w) => *w,
        Ty::F32 => 32,
        Ty::Ptr | Ty::F64 => 64,
        _ => 0,
    }
}

impl<'a> FC<'a> {
    fn reg(&mut self, name: &str, t: &Ty) -> u32 {
        if let Some(&r) = self.regs.get(name) {
            return r;
        }
        let r = self.nregs;
        self.nregs += nleafs(t);
        self.regs.insert(name.to_string(), r);
        r
    }

    fn konst(&mut self, v: u128, w: u8) -> Op {
        if w <= 64 {
            Op::I(v as u64)
        } else {
            Op::X(self.ar.c(v, w))
        }
    }

    /// typed operand value -> flattened ops
    fn val(&mut self, c: &mut Cur, t: &Ty) -> Vec<Op> {
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            let r = self.reg(&n, t);
            return (0..nleafs(t)).map(|i| Op::R(r + i)).collect();
        }
        match t {
            Ty::Struct(..) | Ty::Arr(..) => {
                match c.peek_word() {
                    "zeroinitializer" | "undef" | "poison" | "none" => {
                        c.word();
                        let mut l = vec![];
                        leafs(t, 0, &mut l);
                        return l.iter().map(|x| self.konst(0, x.1)).collect();
                    }
                    _ => {}
                }
                if let (Ty::Arr(n, et), b'c') = (t, c.peek()) {
                    let mut d = vec![0u8; *n as usize];
                    self.m.const_into(c, &Ty::Arr(*n, et.clone()), &mut d);
                    return d.iter().map(|x| Op::I(*x as u64)).collect();
                }
                if c.eat_word("splat") {
                    c.need(b'(');
                    let t2 = self.m.ty(c);
                    let v = self.val(c, &t2);
                    c.need(b')');
                    let n = nleafs(t);
                    return (0..n).map(|_| v[0]).collect();
                }
                let packed = matches!(t, Ty::Struct(_, true));
                let mut out = vec![];
                if packed {
                    c.need(b'<');
                }
                let close = if c.eat(b'{') {
                    b'}'
                } else if c.eat(b'<') {
                    b'>'
                } else {
                    c.need(b'[');
                    b']'
                };
                if !c.eat(close) {
                    loop {
                        let t2 = self.m.ty(c);
                        out.extend(self.val(c, &t2));
                        if c.eat(close) {
                            break;
                        }
                        c.need(b',');
                    }
                }
                if packed {
                    c.need(b'>');
                }
                out
            }
            _ => {
                let v = self.m.scalar(c, t);
                vec![self.konst(v, width(t))]
            }
        }
    }

    fn val1(&mut self, c: &mut Cur, t: &Ty) -> Op {
        self.val(c, t)[0]
    }

    fn edge(&mut self, to: String) -> u32 {
        let id = self.edge_info.len() as u32;
        self.edge_info.push((self.cur.clone(), to));
        id
    }

    fn label(&mut self, c: &mut Cur) -> u32 {
        assert!(c.eat_word("label"));
        c.need(b'%');
        let n = c.name();
        self.edge(n)
    }

    fn inst(&mut self, c: &mut Cur) {
        let mut dname: Option<String> = None;
        if c.peek() == b'%' {
            c.p += 1;
            dname = Some(c.name());
            c.need(b'=');
        }
        let mut op = c.word().to_string();
        if matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = c.word().to_string();
        }
        let m = self.m;
        macro_rules! d {
            ($t:expr) => {{
                let n = dname.clone().unwrap();
                self.reg(&n, $t)
            }};
        }
        match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                c.skip_attrs();
                let t = m.ty(c);
                let k = match op.as_str() {
                    "add" => BinK::Add,
                    "sub" => BinK::Sub,
                    "mul" => BinK::Mul,
                    "udiv" => BinK::UDiv,
                    "sdiv" => BinK::SDiv,
                    "urem" => BinK::URem,
                    "srem" => BinK::SRem,
                    "and" => BinK::And,
                    "or" => BinK::Or,
                    "xor" => BinK::Xor,
                    "shl" => BinK::Shl,
                    "lshr" => BinK::LShr,
                    _ => BinK::AShr,
                };
                let a = self.val(c, &t);
                c.need(b',');
                let b = self.val(c, &t);
                let dst = d!(&t);
                let w = match &t {
                    Ty::Arr(_, e) => width(e),
                    _ => width(&t),
                };
                for i in 0..a.len() {
                    self.insts.push(Inst::Bin { op: k, w, dst: dst + i as u32, a: a[i], b: b[i] });
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                c.skip_attrs();
                let t = m.ty(c);
                let k = match op.as_str() {
                    "fadd" => FBinK::Add,
                    "fsub" => FBinK::Sub,
                    "fmul" => FBinK::Mul,
                    "fdiv" => FBinK::Div,
                    _ => FBinK::Rem,
                };
                let a = self.val1(c, &t);
                c.need(b',');
                let b = self.val1(c, &t);
                let dst = d!(&t);
                self.insts.push(Inst::FBin { op: k, w: width(&t), dst, a, b });
            }
            "fneg" => {
                c.skip_attrs();
                let t = m.ty(c);
                let a = self.val1(c, &t);
                let dst = d!(&t);
                self.insts.push(Inst::FNeg { w: width(&t), dst, a });
            }
            "icmp" => {
                if c.peek_word() == "samesign" {
                    c.word();
                }
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("icmp {}", x),
                };
                let t = m.ty(c);
                let a = self.val1(c, &t);
                c.need(b',');
                let b = self.val1(c, &t);
                let dst = d!(&Ty::Int(1));
                self.insts.push(Inst::Icmp { p, w: width(&t), dst, a, b });
            }
            "fcmp" => {
                let mut p = c.word().to_string();
                while !c.is_type_start() {
                    p = c.word().to_string();
                }
                let t = m.ty(c);
                let a = self.val1(c, &t);
                c.need(b',');
                let b = self.val1(c, &t);
                let dst = d!(&Ty::Int(1));
                self.insts.push(Inst::Fcmp { p, w: width(&t), dst, a, b });
            }
            "zext" | "sext" | "trunc" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" => {
                c.skip_attrs();
                let t = m.ty(c);
                let a = self.val1(c, &t);
                assert!(c.eat_word("to"));
                let t2 = m.ty(c);
                let dst = d!(&t2);
                let k = match op.as_str() {
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "trunc" => CastK::Trunc,
                    "fptoui" => CastK::FpToUi,
                    "fptosi" => CastK::FpToSi,
                    "uitofp" => CastK::UiToFp,
                    "sitofp" => CastK::SiToFp,
                    "fptrunc" => CastK::FpTrunc,
                    _ => CastK::FpExt,
                };
                self.insts.push(Inst::Cast { k, fw: width(&t), tw: width(&t2), dst, a });
            }
            "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                c.skip_attrs();
                let t = m.ty(c);
                let a = self.val1(c, &t);
                assert!(c.eat_word("to"));
                let t2 = m.ty(c);
                let dst = d!(&t2);
                let (fw, tw) = (width(&t), width(&t2));
                if fw == tw {
                    self.insts.push(Inst::Copy { dst, src: vec![a] });
                } else {
                    let k = if tw < fw { CastK::Trunc } else { CastK::ZExt };
                    self.insts.push(Inst::Cast { k, fw, tw, dst, a });
                }
            }
            "bitcast" => {
                let t = m.ty(c);
                let a = self.val(c, &t);
                assert!(c.eat_word("to"));
                let t2 = m.ty(c);
                if a.len() != 1 || nleafs(&t2) != 1 {
                    let _ = d!(&t2);
                    self.insts.push(Inst::Unsupported("vector bitcast".into()));
                } else {
                    let dst = d!(&t2);
                    self.insts.push(Inst::Copy { dst, src: a });
                }
            }
            "freeze" => {
                let t = m.ty(c);
                let src = self.val(c, &t);
                let dst = d!(&t);
                self.insts.push(Inst::Copy { dst, src });
            }
            "select" => {
                c.skip_attrs();
                let ct = m.ty(c);
                let cc = self.val1(c, &ct);
                c.need(b',');
                let t = m.ty(c);
                let a = self.val(c, &t);
                c.need(b',');
                let t2 = m.ty(c);
                let b = self.val(c, &t2);
                let dst = d!(&t);
                let mut l = vec![];
                leafs(&t, 0, &mut l);
                self.insts.push(Inst::Select { dst, c: cc, ws: l.iter().map(|x| x.1).collect(), a, b });
            }
            "load" => {
                while matches!(c.peek_word(), "atomic" | "volatile") {
                    c.word();
                }
                let t = m.ty(c);
                c.need(b',');
                let pt = m.ty(c);
                let p = self.val1(c, &pt);
                let dst = d!(&t);
                let mut l = vec![];
                leafs(&t, 0, &mut l);
                let size = acc_size(&l);
                self.insts.push(Inst::Load { dst, leafs: l.into(), size, p });
            }
            "store" => {
                while matches!(c.peek_word(), "atomic" | "volatile") {
                    c.word();
                }
                let t = m.ty(c);
                let v = self.val(c, &t);
                c.need(b',');
                let pt = m.ty(c);
                let p = self.val1(c, &pt);
                let mut l = vec![];
                leafs(&t, 0, &mut l);
                let size = acc_size(&l);
                self.insts.push(Inst::Store { leafs: l.into(), size, v, p });
            }
            "getelementptr" => {
                while !c.is_type_start() {
                    let w = c.word();
                    if w == "inrange" {
                        c.skip_parens();
                    }
                    if w.is_empty() {
                        c.fail("gep");
                    }
                }
                let mut t = m.ty(c);
                c.need(b',');
                let pt = m.ty(c);
                let base = self.val1(c, &pt);
                let mut off = 0u64;
                let mut terms = vec![];
                let mut first = true;
                loop {
                    c.lws();
                    if c.p >= c.end || c.s[c.p] != b',' {
                        break;
                    }
                    // metadata?
                    let save = c.p;
                    c.p += 1;
                    c.lws();
                    if c.s[c.p] == b'!' {
                        c.p = save;
                        break;
                    }
                    let it = m.ty(c);
                    let iv = self.val1(c, &it);
                    let iw = width(&it);
                    let scale;
                    if first {
                        scale = size_align(&t).0;
                        first = false;
                    } else {
                        match t.clone() {
                            Ty::Struct(fs, p) => {
                                let i = match iv {
                                    Op::I(i) => i as usize,
                                    _ => panic!("struct gep index"),
                                };
                                off = off.wrapping_add(field_off(&fs, p, i));
                                t = fs[i].clone();
                                continue;
                            }
                            Ty::Arr(_, et) => {
                                scale = size_align(&et).0;
                                t = (*et).clone();
                            }
                            _ => panic!("gep type"),
                        }
                    }
                    match iv {
                        Op::I(i) => {
                            let i = crate::expr::sx(i as u128, iw) as i64;
                            off = off.wrapping_add((i as u64).wrapping_mul(scale));
                        }
                        o => terms.push((o, iw, scale)),
                    }
                }
                let dst = d!(&Ty::Ptr);
                self.insts.push(Inst::Gep { dst, base, off, terms: terms.into() });
            }
            "alloca" => {
                let t = m.ty(c);
                let (elem, _) = size_align(&t);
                let mut n = Op::I(1);
                c.lws();
                if c.s[c.p] == b',' {
                    let save = c.p;
                    c.p += 1;
                    if c.is_type_start() {
                        let it = m.ty(c);
                        n = self.val1(c, &it);
                    } else {
                        c.p = save;
                    }
                }
                let dst = d!(&Ty::Ptr);
                self.insts.push(Inst::Alloca { dst, elem, n });
            }
            "br" => {
                if c.peek_word() == "label" {
                    let e = self.label(c);
                    self.insts.push(Inst::Br(e));
                } else {
                    let t = m.ty(c);
                    let cc = self.val1(c, &t);
                    c.need(b',');
                    let t = self.label(c);
                    c.need(b',');
                    let f = self.label(c);
                    self.insts.push(Inst::CondBr { c: cc, t, f });
                }
            }
            "switch" => {
                let t = m.ty(c);
                let v = self.val1(c, &t);
                c.need(b',');
                let def = self.label(c);
                c.need(b'[');
                let mut cases = vec![];
                while !c.eat(b']') {
                    let t2 = m.ty(c);
                    let k = m.scalar(c, &t2);
                    c.need(b',');
                    let e = self.label(c);
                    cases.push((k, e));
                }
                self.insts.push(Inst::Switch { w: width(&t), v, cases, groups: vec![], def });
            }
            "phi" => {
                c.skip_attrs();
                let t = m.ty(c);
                let mut inc = vec![];
                loop {
                    c.need(b'[');
                    let v = self.val(c, &t);
                    c.need(b',');
                    c.need(b'%');
                    let l = c.name();
                    c.need(b']');
                    inc.push((l, v));
                    c.lws();
                    if c.p < c.end && c.s[c.p] == b',' {
                        let save = c.p;
                        c.p += 1;
                        c.lws();
                        if c.s[c.p] == b'!' {
                            c.p = save;
                            break;
                        }
                        continue;
                    }
                    break;
                }
                let dst = d!(&t);
                let cur = self.cur.clone();
                self.phis.entry(cur).or_default().push((dst, inc));
            }
            "extractvalue" => {
                let t = m.ty(c);
                let v = self.val(c, &t);
                let (a, n, et) = self.agg_path(c, &t);
                let dst = d!(&et);
                self.insts.push(Inst::Copy { dst, src: v[a..a + n].to_vec() });
            }
            "insertvalue" => {
                let t = m.ty(c);
                let mut v = self.val(c, &t);
                c.need(b',');
                let t2 = m.ty(c);
                let x = self.val(c, &t2);
                let (a, n, _) = self.agg_path(c, &t);
                v[a..a + n].copy_from_slice(&x);
                let dst = d!(&t);
                self.insts.push(Inst::Copy { dst, src: v });
            }
            "ret" => {
                let t = m.ty(c);
                let v = if t == Ty::Void { vec![] } else { self.val(c, &t) };
                self.insts.push(Inst::Ret(v));
            }
            "unreachable" => self.insts.push(Inst::Unreachable),
            "fence" => {}
            "atomicrmw" => {
                c.eat_word("volatile");
                let k = match c.word() {
                    "xchg" => RmwK::Xchg,
                    "add" => RmwK::Add,
                    "sub" => RmwK::Sub,
                    "and" => RmwK::And,
                    "or" => RmwK::Or,
                    "xor" => RmwK::Xor,
                    "nand" => RmwK::Nand,
                    "max" => RmwK::Max,
                    "min" => RmwK::Min,
                    "umax" => RmwK::UMax,
                    "umin" => RmwK::UMin,
                    x => panic!("atomicrmw {}", x),
                };
                let pt = m.ty(c);
                let p = self.val1(c, &pt);
                c.need(b',');
                let t = m.ty(c);
                let v = self.val1(c, &t);
                let dst = d!(&t);
                self.insts.push(Inst::Rmw { k, w: width(&t), dst, p, v });
            }
            "cmpxchg" => {
                while matches!(c.peek_word(), "weak" | "volatile") {
                    c.word();
                }
                let pt = m.ty(c);
                let p = self.val1(c, &pt);
                c.need(b',');
                let t = m.ty(c);
                let cc = self.val1(c, &t);
                c.need(b',');
                let t2 = m.ty(c);
                let n = self.val1(c, &t2);
                let rt = Ty::Struct(Rc::new(vec![t.clone(), Ty::Int(1)]), false);
                let dst = d!(&rt);
                self.insts.push(Inst::CmpXchg { w: width(&t), dst, p, c: cc, n });
            }
            "call" => {
                // [fast flags] [cconv] [ret attrs] type [fnty] callee(args)
                c.skip_attrs();
                let mut t = m.ty(c);
                // `call i64 (i64, ...) @f` : ty() swallowed the function type; recover the return type
                if t == Ty::Func {
                    // re-parse the return type only
                    t = self.ret_of_fnty(c);
                }
                c.skip_val_attrs();
                let callee;
                if c.peek() == b'@' {
                    c.p += 1;
                    let n = c.name();
                    if n.starts_with("llvm.") {
                        callee = Callee::Intr(n);
                    } else {
                        match m.fmap.get(&n) {
                            Some(&f) if m.funcs[f as usize].body.is_some() => callee = Callee::Direct(f),
                            Some(_) => callee = Callee::Ext(n),
                            None => {
                                let a = m.addr_of(&n);
                                callee = Callee::Ind(Op::I(a));
                            }
                        }
                    }
                } else if c.eat_word("asm") {
                    while c.peek() != b'"' {
                        c.word();
                    }
                    c.string();
                    c.need(b',');
                    c.string();
                    callee = Callee::Asm;
                } else {
                    let o = self.val1(c, &Ty::Ptr);
                    callee = Callee::Ind(o);
                }
                c.need(b'(');
                let mut args = vec![];
                if !c.eat(b')') {
                    loop {
                        let at = m.ty(c);
                        if at == Ty::Other {
                            // metadata argument
                            let mut depth = 0;
                            loop {
                                let ch = c.s[c.p];
                                if ch == b'(' || ch == b'{' {
                                    depth += 1
                                }
                                if (ch == b')' || ch == b',') && depth == 0 {
                                    break;
                                }
                                if ch == b')' || ch == b'}' {
                                    depth -= 1
                                }
                                c.p += 1;
                            }
                        } else {
                            c.skip_val_attrs();
                            let v = self.val(c, &at);
                            let mut l = vec![];
                            leafs(&at, 0, &mut l);
                            for (i, o) in v.iter().enumerate() {
                                args.push((*o, l[i].1));
                            }
                        }
                        if c.eat(b')') {
                            break;
                        }
                        c.need(b',');
                    }
                }
                let mut l = vec![];
                leafs(&t, 0, &mut l);
                let dst = match &dname {
                    Some(n) => {
                        let n = n.clone();
                        self.reg(&n, &t)
                    }
                    None => {
                        if t != Ty::Void {
                            // unused result still needs slots
                            let r = self.nregs;
                            self.nregs += l.len() as u32;
                            r
                        } else {
                            0
                        }
                    }
                };
                if let Callee::Intr(n) = &callee {
                    if n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.dbg")
                        || n.starts_with("llvm.prefetch")
                    {
                        return;
                    }
                }
                self.insts.push(Inst::Call(Box::new(CallI { dst, ret: l.iter().map(|x| x.1).collect(), callee, args })));
            }
            _ => {
                self.insts.push(Inst::Unsupported(op));
            }
        }
    }

    fn ret_of_fnty(&mut self, c: &mut Cur) -> Ty {
        // walk back to the start of the type on this line: "call ... TYPE (..."
        let mut q = c.p;
        // c.p is after ')': find matching '('
        let mut d = 0;
        loop {
            q -= 1;
            match c.s[q] {
                b')' => d += 1,
                b'(' => {
                    d -= 1;
                    if d == 0 {
                        break;
                    }
                }
                _ => {}
            }
        }
        let mut e = q;
        while c.s[e - 1] == b' ' {
            e -= 1;
        }
        let mut s = e;
        while is_id(c.s[s - 1]) {
            s -= 1;
        }
        let mut c2 = Cur { s: c.s, p: s, end: e };
        self.m.ty(&mut c2)
    }

    fn agg_path(&mut self, c: &mut Cur, t: &Ty) -> (usize, usize, Ty) {
        let mut t = t.clone();
        let mut a = 0usize;
        loop {
            c.lws();
            if c.p >= c.end || c.s[c.p] != b',' {
                break;
            }
            let save = c.p;
            c.p += 1;
            c.lws();
            if !c.s[c.p].is_ascii_digit() {
                c.p = save;
                break;
            }
            let i = c.num() as usize;
            match t.clone() {
                Ty::Struct(fs, _) => {
                    a += fs[..i].iter().map(|f| nleafs(f) as usize).sum::<usize>();
                    t = fs[i].clone();
                }
                Ty::Arr(_, et) => {
                    a += i * nleafs(&et) as usize;
                    t = (*et).clone();
                }
                _ => panic!("agg path"),
            }
        }
        (a, nleafs(&t) as usize, t)
    }
}

fn acc_size(l: &[(u32, u8)]) -> u32 {
    l.iter().map(|(o, w)| o + (*w as u32 + 7) / 8).max().unwrap_or(0)
}
