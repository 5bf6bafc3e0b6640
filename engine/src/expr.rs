//! Hash-consed bit-vector expressions (width 1..=128) with a local simplifier.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
pub type VarId = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum C {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(VarId),
    Bin(B, E, E),
    Cmp(C, E, E),
    Ite(E, E, E),
    ZExt(E),
    SExt(E),
    Extract(E, u8),
    Concat(E, E),
    /// constant table lookup (table id, 64-bit index); out of range reads 0
    Tab(u32, E),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub n: N,
    pub w: u8,
}

pub struct VarInfo {
    pub name: String,
    pub w: u8,
    pub pos: u32,
}

pub struct Table {
    pub vals: Vec<u64>,
    pub w: u8,
    pub hash: u64,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    hash: Vec<u64>,
    vars: Vec<Rc<[VarId]>>,
    map: HashMap<Node, E, std::hash::BuildHasherDefault<Fx>>,
    pub varinfo: Vec<VarInfo>,
    varmap: HashMap<(u32, u8, String), VarId>,
    pub tables: Vec<Table>,
    tabmap: HashMap<(u8, Vec<u64>), u32>,
    empty: Rc<[VarId]>,
    // evaluation memo
    memo: Vec<(u32, u128)>,
    memo_gen: u32,
    memo_model: usize,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

pub fn sx(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn bin_eval(op: B, w: u8, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        B::Add => a.wrapping_add(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            if b == 0 {
                if sx(a, w) < 0 {
                    1
                } else {
                    m
                }
            } else {
                sx(a, w).wrapping_div(sx(b, w)) as u128
            }
        }
        B::SRem => {
            if b == 0 {
                a
            } else {
                sx(a, w).wrapping_rem(sx(b, w)) as u128
            }
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let s = sx(a, w);
            if b >= w as u128 {
                (s >> 127) as u128
            } else {
                (s >> b) as u128
            }
        }
    }) & m
}

pub fn cmp_eval(op: C, w: u8, a: u128, b: u128) -> bool {
    match op {
        C::Eq => a == b,
        C::Ult => a < b,
        C::Ule => a <= b,
        C::Slt => sx(a, w) < sx(b, w),
        C::Sle => sx(a, w) <= sx(b, w),
    }
}

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9e3779b97f4a7c15).rotate_left(31);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x ^ (x >> 27)
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![],
            hash: vec![],
            vars: vec![],
            map: HashMap::default(),
            varinfo: vec![],
            varmap: HashMap::new(),
            tables: vec![],
            tabmap: HashMap::new(),
            empty: Rc::from(Vec::new()),
            memo: vec![],
            memo_gen: 1,
            memo_model: 0,
        };
        // expression 0 is reserved ("no expression")
        a.intern(Node { n: N::Const(0), w: 0 });
        a
    }

    fn intern(&mut self, node: Node) -> E {
        if let Some(&e) = self.map.get(&node) {
            return e;
        }
        let h;
        let vs: Rc<[VarId]>;
        match node.n {
            N::Const(c) => {
                h = mix(mix(1, c as u64), (c >> 64) as u64 ^ ((node.w as u64) << 56));
                vs = self.empty.clone();
            }
            N::Var(v) => {
                let i = &self.varinfo[v as usize];
                h = mix(mix(2, i.pos as u64), i.w as u64);
                vs = Rc::from(vec![v]);
            }
            N::Bin(op, a, b) => {
                h = mix(mix(mix(3 + op as u64, node.w as u64), self.hash[a as usize]), self.hash[b as usize]);
                vs = self.merge(a, b);
            }
            N::Cmp(op, a, b) => {
                h = mix(mix(mix(40 + op as u64, 0), self.hash[a as usize]), self.hash[b as usize]);
                vs = self.merge(a, b);
            }
            N::Ite(c, a, b) => {
                h = mix(mix(mix(60, self.hash[c as usize]), self.hash[a as usize]), self.hash[b as usize]);
                let x = self.merge(a, b);
                vs = Self::merge2(&x, &self.vars[c as usize]);
            }
            N::ZExt(a) => {
                h = mix(mix(70, node.w as u64), self.hash[a as usize]);
                vs = self.vars[a as usize].clone();
            }
            N::SExt(a) => {
                h = mix(mix(71, node.w as u64), self.hash[a as usize]);
                vs = self.vars[a as usize].clone();
            }
            N::Extract(a, lo) => {
                h = mix(mix(72, node.w as u64 | (lo as u64) << 8), self.hash[a as usize]);
                vs = self.vars[a as usize].clone();
            }
            N::Concat(a, b) => {
                h = mix(mix(73, self.hash[a as usize]), self.hash[b as usize]);
                vs = self.merge(a, b);
            }
            N::Tab(t, a) => {
                h = mix(mix(74, self.tables[t as usize].hash), self.hash[a as usize]);
                vs = self.vars[a as usize].clone();
            }
        }
        let e = self.nodes.len() as E;
        self.nodes.push(node);
        self.hash.push(h);
        self.vars.push(vs);
        self.memo.push((0, 0));
        self.map.insert(node, e);
        e
    }

    fn merge(&self, a: E, b: E) -> Rc<[VarId]> {
        Self::merge2(&self.vars[a as usize], &self.vars[b as usize])
    }

    fn merge2(x: &Rc<[VarId]>, y: &Rc<[VarId]>) -> Rc<[VarId]> {
        if x.is_empty() || Rc::ptr_eq(x, y) {
            return y.clone();
        }
        if y.is_empty() || x == y {
            return x.clone();
        }
        let mut v: Vec<VarId> = x.iter().chain(y.iter()).copied().collect();
        v.sort();
        v.dedup();
        if v.len() == x.len() {
            return x.clone();
        }
        if v.len() == y.len() {
            return y.clone();
        }
        Rc::from(v)
    }

    pub fn vars(&self, e: E) -> &Rc<[VarId]> {
        &self.vars[e as usize]
    }
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    pub fn n(&self, e: E) -> N {
        self.nodes[e as usize].n
    }
    pub fn k(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize].n {
            N::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn c(&mut self, v: u128, w: u8) -> E {
        self.intern(Node { n: N::Const(v & mask(w)), w })
    }
    pub fn tt(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn ff(&mut self) -> E {
        self.c(0, 1)
    }
    pub fn var(&mut self, pos: u32, w: u8, name: &str) -> (VarId, E) {
        let key = (pos, w, name.to_string());
        let id = match self.varmap.get(&key) {
            Some(&v) => v,
            None => {
                let v = self.varinfo.len() as VarId;
                self.varinfo.push(VarInfo { name: name.to_string(), w, pos });
                self.varmap.insert(key, v);
                v
            }
        };
        (id, self.intern(Node { n: N::Var(id), w }))
    }

    pub fn tab(&mut self, vals: Vec<u64>, w: u8, idx: E) -> E {
        if let Some(k) = self.k(idx) {
            let v = if (k as usize) < vals.len() { vals[k as usize] } else { 0 };
            return self.c(v as u128, w);
        }
        let key = (w, vals);
        let t = match self.tabmap.get(&key) {
            Some(&t) => t,
            None => {
                let t = self.tables.len() as u32;
                let hash = key.1.iter().fold(w as u64, |h, v| mix(h, *v));
                self.tables.push(Table { vals: key.1.clone(), w, hash });
                self.tabmap.insert(key, t);
                t
            }
        };
        self.intern(Node { n: N::Tab(t, idx), w })
    }

    pub fn extract(&mut self, e: E, lo: u8, w: u8) -> E {
        let ew = self.w(e);
        debug_assert!(lo as u32 + w as u32 <= ew as u32);
        if lo == 0 && w == ew {
            return e;
        }
        match self.n(e) {
            N::Const(c) => return self.c(c >> lo, w),
            N::Extract(x, l2) => return self.extract(x, lo + l2, w),
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                let a = self.extract(h, 0, lo + w - lw);
                let b = self.extract(l, lo, lw - lo);
                return self.concat(a, b);
            }
            N::ZExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                if lo >= xw {
                    return self.c(0, w);
                }
                let y = self.extract(x, lo, xw - lo);
                return self.zext(y, w);
            }
            N::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                if lo == 0 {
                    return self.sext(x, w);
                }
            }
            N::Bin(op @ (B::And | B::Or | B::Xor), a, b) => {
                if self.k(b).is_some() || self.k(a).is_some() || w <= 8 {
                    let x = self.extract(a, lo, w);
                    let y = self.extract(b, lo, w);
                    return self.bin(op, x, y);
                }
            }
            N::Bin(op @ (B::Add | B::Mul), a, b) if lo == 0 => {
                let x = self.extract(a, 0, w);
                let y = self.extract(b, 0, w);
                return self.bin(op, x, y);
            }
            N::Ite(c, a, b) => {
                if self.k(a).is_some() || self.k(b).is_some() {
                    let x = self.extract(a, lo, w);
                    let y = self.extract(b, lo, w);
                    return self.ite(c, x, y);
                }
            }
            _ => {}
        }
        self.intern(Node { n: N::Extract(e, lo), w })
    }

    pub fn trunc(&mut self, e: E, w: u8) -> E {
        self.extract(e, 0, w)
    }

    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        match (self.n(h), self.n(l)) {
            (N::Const(a), N::Const(b)) => return self.c(a << lw | b, w),
            (N::Const(0), _) => return self.zext(l, w),
            (N::ZExt(x), _) => {
                let y = self.concat(x, l);
                return self.zext(y, w);
            }
            (N::Extract(x, xl), N::Extract(y, yl)) if x == y && xl == yl + lw => {
                return self.extract(x, yl, w);
            }
            (N::Concat(a, b), _) => {
                let bl = self.concat(b, l);
                return self.concat(a, bl);
            }
            (N::Extract(x, xl), N::Concat(m, l2)) => {
                if let N::Extract(y, yl) = self.n(m) {
                    if x == y && xl == yl + self.w(m) {
                        let nh = self.extract(x, yl, hw + self.w(m));
                        return self.concat(nh, l2);
                    }
                }
            }
            (N::Const(_), N::Concat(m, l2)) if self.k(m).is_some() => {
                let nh = self.concat(h, m);
                return self.concat(nh, l2);
            }
            _ => {}
        }
        // whole value on top of extract 0.. of itself cannot happen (width), fall through
        self.intern(Node { n: N::Concat(h, l), w })
    }

    pub fn zext(&mut self, e: E, w: u8) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        match self.n(e) {
            N::Const(c) => self.c(c, w),
            N::ZExt(x) => self.zext(x, w),
            _ => self.intern(Node { n: N::ZExt(e), w }),
        }
    }

    pub fn sext(&mut self, e: E, w: u8) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        match self.n(e) {
            N::Const(c) => self.c(sx(c, ew) as u128, w),
            N::SExt(x) => self.sext(x, w),
            N::ZExt(x) => self.zext(x, w),
            _ => self.intern(Node { n: N::SExt(e), w }),
        }
    }

    pub fn not(&mut self, e: E) -> E {
        debug_assert_eq!(self.w(e), 1);
        match self.n(e) {
            N::Const(c) => self.c(c ^ 1, 1),
            N::Bin(B::Xor, a, b) if self.k(b) == Some(1) => a,
            N::Cmp(C::Ult, a, b) => self.cmp(C::Ule, b, a),
            N::Cmp(C::Ule, a, b) => self.cmp(C::Ult, b, a),
            N::Cmp(C::Slt, a, b) => self.cmp(C::Sle, b, a),
            N::Cmp(C::Sle, a, b) => self.cmp(C::Slt, b, a),
            _ => {
                let one = self.tt();
                self.intern(Node { n: N::Bin(B::Xor, e, one), w: 1 })
            }
        }
    }
    fn as_not(&self, e: E) -> Option<E> {
        match self.n(e) {
            N::Bin(B::Xor, a, b) if self.w(e) == 1 && self.k(b) == Some(1) => Some(a),
            _ => None,
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(B::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(B::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.cmp(C::Eq, a, b)
    }
    pub fn eqk(&mut self, a: E, k: u128) -> E {
        let w = self.w(a);
        let b = self.c(k, w);
        self.cmp(C::Eq, a, b)
    }

    /// non-zero pieces (lo, expr), or None if not decomposable into disjoint pieces
    fn pieces(&self, e: E, base: u8, out: &mut Vec<(u8, E)>) {
        match self.n(e) {
            N::Const(0) => {}
            N::ZExt(x) => self.pieces(x, base, out),
            N::Concat(h, l) => {
                self.pieces(l, base, out);
                self.pieces(h, base + self.w(l), out);
            }
            _ => out.push((base, e)),
        }
    }

    fn try_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w < 2 {
            return None;
        }
        let dec = |s: &Self, e: E| matches!(s.n(e), N::ZExt(_) | N::Concat(..) | N::Const(_));
        if !dec(self, a) || !dec(self, b) {
            return None;
        }
        let mut p = vec![];
        self.pieces(a, 0, &mut p);
        self.pieces(b, 0, &mut p);
        // constants: split into byte pieces would be better; treat as whole non-zero span
        let mut q = vec![];
        for (lo, e) in p {
            if let Some(k) = self.k(e) {
                let ew = self.w(e);
                let tz = k.trailing_zeros() as u8;
                let top = 128 - k.leading_zeros() as u8;
                let _ = ew;
                let ne = self.c(k >> tz, top - tz);
                q.push((lo + tz, ne));
            } else {
                q.push((lo, e));
            }
        }
        q.sort();
        let mut pos = 0u8;
        let mut acc: Option<E> = None;
        for (lo, e) in q {
            if lo < pos {
                return None;
            }
            if lo > pos {
                let z = self.c(0, lo - pos);
                acc = Some(match acc {
                    None => z,
                    Some(x) => self.concat(z, x),
                });
            }
            acc = Some(match acc {
                None => e,
                Some(x) => self.concat(e, x),
            });
            pos = lo + self.w(e);
        }
        let acc = acc?;
        Some(self.zext(acc, w))
    }

    fn order(&self, a: E, b: E) -> (E, E) {
        // constants right, otherwise by structural hash
        if self.k(a).is_some() {
            return (b, a);
        }
        if self.k(b).is_some() {
            return (a, b);
        }
        if self.hash[a as usize] <= self.hash[b as usize] {
            (a, b)
        } else {
            (b, a)
        }
    }

    pub fn sub(&mut self, a: E, b: E) -> E {
        if a == b {
            let w = self.w(a);
            return self.c(0, w);
        }
        let nb = self.neg(b);
        self.bin(B::Add, a, nb)
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let m1 = self.c(!0, w);
        self.bin(B::Mul, a, m1)
    }

    pub fn bin(&mut self, op: B, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.c(bin_eval(op, w, x, y), w);
        }
        let (a, b) = match op {
            B::Add | B::Mul | B::And | B::Or | B::Xor => self.order(a, b),
            _ => (a, b),
        };
        let kb = self.k(b);
        let m = mask(w);
        match op {
            B::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // contiguous mask
                    let tz = k.trailing_zeros() as u8;
                    let top = 128 - k.leading_zeros() as u8;
                    if k >> tz == mask(top - tz) {
                        let x = self.extract(a, tz, top - tz);
                        let y = if tz > 0 {
                            let z = self.c(0, tz);
                            self.concat(x, z)
                        } else {
                            x
                        };
                        return self.zext(y, w);
                    }
                    if let N::Bin(B::And, x, y) = self.n(a) {
                        if let Some(k2) = self.k(y) {
                            let kk = self.c(k & k2, w);
                            return self.bin(B::And, x, kk);
                        }
                    }
                    if let N::ZExt(x) = self.n(a) {
                        let xw = self.w(x);
                        let kk = self.c(k, xw);
                        let y = self.bin(B::And, x, kk);
                        return self.zext(y, w);
                    }
                }
                if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) {
                    if self.w(x) == self.w(y) {
                        let z = self.bin(B::And, x, y);
                        return self.zext(z, w);
                    }
                }
                if w == 1 {
                    if self.as_not(a) == Some(b) || self.as_not(b) == Some(a) {
                        return self.ff();
                    }
                    if let N::Bin(B::And, x, y) = self.n(a) {
                        if x == b || y == b {
                            return a;
                        }
                    }
                    if let N::Bin(B::And, x, y) = self.n(b) {
                        if x == a || y == a {
                            return b;
                        }
                    }
                }
            }
            B::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if w == 1 {
                    if self.as_not(a) == Some(b) || self.as_not(b) == Some(a) {
                        return self.tt();
                    }
                }
                if let Some(e) = self.try_disjoint(a, b) {
                    return e;
                }
                if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) {
                    if self.w(x) == self.w(y) {
                        let z = self.bin(B::Or, x, y);
                        return self.zext(z, w);
                    }
                }
            }
            B::Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                    if let N::Bin(B::Xor, x, y) = self.n(a) {
                        if let Some(k2) = self.k(y) {
                            let kk = self.c(k ^ k2, w);
                            return self.bin(B::Xor, x, kk);
                        }
                    }
                    if let N::ZExt(x) = self.n(a) {
                        let xw = self.w(x);
                        if k <= mask(xw) {
                            let kk = self.c(k, xw);
                            let y = self.bin(B::Xor, x, kk);
                            return self.zext(y, w);
                        }
                    }
                }
                if w > 1 {
                    if let Some(e) = self.try_disjoint(a, b) {
                        return e;
                    }
                }
                if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) {
                    if self.w(x) == self.w(y) {
                        let z = self.bin(B::Xor, x, y);
                        return self.zext(z, w);
                    }
                }
            }
            B::Add => {
                if w == 1 {
                    return self.bin(B::Xor, a, b);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if let N::Bin(B::Add, x, y) = self.n(a) {
                        if let Some(k2) = self.k(y) {
                            let kk = self.c(k.wrapping_add(k2), w);
                            return self.bin(B::Add, x, kk);
                        }
                    }
                    if let N::Ite(c, x, y) = self.n(a) {
                        if self.k(x).is_some() && self.k(y).is_some() {
                            let x2 = self.bin(B::Add, x, b);
                            let y2 = self.bin(B::Add, y, b);
                            return self.ite(c, x2, y2);
                        }
                    }
                } else {
                    // x + (-x) = 0 ; (x + c) + (-x) etc.
                    if self.is_neg_of(a, b) || self.is_neg_of(b, a) {
                        return self.c(0, w);
                    }
                    if let N::Bin(B::Add, x, y) = self.n(a) {
                        if self.k(y).is_some() {
                            let s = self.bin(B::Add, x, b);
                            return self.bin(B::Add, s, y);
                        }
                        if self.is_neg_of(x, b) || self.is_neg_of(b, x) {
                            return y;
                        }
                        if self.is_neg_of(y, b) || self.is_neg_of(b, y) {
                            return x;
                        }
                    }
                    if let N::Bin(B::Add, x, y) = self.n(b) {
                        if self.k(y).is_some() {
                            let s = self.bin(B::Add, a, x);
                            return self.bin(B::Add, s, y);
                        }
                        if self.is_neg_of(x, a) || self.is_neg_of(a, x) {
                            return y;
                        }
                        if self.is_neg_of(y, a) || self.is_neg_of(a, y) {
                            return x;
                        }
                    }
                }
                if w > 1 {
                    if let Some(e) = self.try_disjoint(a, b) {
                        return e;
                    }
                }
            }
            B::Mul => {
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(B::Shl, a, s);
                    }
                    if let N::Bin(B::Mul, x, y) = self.n(a) {
                        if let Some(k2) = self.k(y) {
                            let kk = self.c(k.wrapping_mul(k2), w);
                            return self.bin(B::Mul, x, kk);
                        }
                    }
                    if k == m {
                        // -(x + c) = -x + -c
                        if let N::Bin(B::Add, x, y) = self.n(a) {
                            let nx = self.neg(x);
                            let ny = self.neg(y);
                            return self.bin(B::Add, nx, ny);
                        }
                    }
                }
            }
            B::UDiv => {
                if let Some(k) = kb {
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(B::LShr, a, s);
                    }
                    if let (N::ZExt(x), true) = (self.n(a), k != 0) {
                        let xw = self.w(x);
                        if k <= mask(xw) {
                            let kk = self.c(k, xw);
                            let y = self.bin(B::UDiv, x, kk);
                            return self.zext(y, w);
                        }
                        return self.c(0, w);
                    }
                }
            }
            B::URem => {
                if let Some(k) = kb {
                    if k == 1 {
                        return self.c(0, w);
                    }
                    if k.is_power_of_two() {
                        let s = self.c(k - 1, w);
                        return self.bin(B::And, a, s);
                    }
                    if let N::ZExt(x) = self.n(a) {
                        let xw = self.w(x);
                        if k <= mask(xw) {
                            let kk = self.c(k, xw);
                            let y = self.bin(B::URem, x, kk);
                            return self.zext(y, w);
                        }
                        return a;
                    }
                }
            }
            B::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u8;
                    let x = self.extract(a, 0, w - k);
                    let z = self.c(0, k);
                    return self.concat(x, z);
                }
                if self.k(a) == Some(0) {
                    return a;
                }
            }
            B::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let x = self.extract(a, k as u8, w - k as u8);
                    return self.zext(x, w);
                }
                if self.k(a) == Some(0) {
                    return a;
                }
            }
            B::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u8;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            _ => {}
        }
        self.intern(Node { n: N::Bin(op, a, b), w })
    }

    fn is_neg_of(&self, n: E, x: E) -> bool {
        match self.n(n) {
            N::Bin(B::Mul, y, k) => y == x && self.k(k) == Some(mask(self.w(n))),
            _ => false,
        }
    }

    pub fn cmp(&mut self, op: C, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "cmp width");
        if a == b {
            return match op {
                C::Eq | C::Ule | C::Sle => self.tt(),
                _ => self.ff(),
            };
        }
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.c(cmp_eval(op, w, x, y) as u128, 1);
        }
        let m = mask(w);
        match op {
            C::Eq => {
                let (a, b) = self.order(a, b);
                if w == 1 {
                    if let Some(k) = self.k(b) {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    if self.as_not(a) == Some(b) || self.as_not(b) == Some(a) {
                        return self.ff();
                    }
                }
                if let Some(k) = self.k(b) {
                    match self.n(a) {
                        N::ZExt(x) => {
                            let xw = self.w(x);
                            if k > mask(xw) {
                                return self.ff();
                            }
                            return self.eqk(x, k);
                        }
                        N::SExt(x) => {
                            let xw = self.w(x);
                            let t = k & mask(xw);
                            if (sx(t, xw) as u128) & m != k {
                                return self.ff();
                            }
                            return self.eqk(x, t);
                        }
                        N::Concat(h, l) => {
                            let lw = self.w(l);
                            let x = self.eqk(l, k & mask(lw));
                            if self.k(x) == Some(0) {
                                return x;
                            }
                            let y = self.eqk(h, k >> lw);
                            return self.and(y, x);
                        }
                        N::Bin(B::Add, x, y) => {
                            if let Some(k2) = self.k(y) {
                                return self.eqk(x, k.wrapping_sub(k2) & m);
                            }
                            if k == 0 {
                                // x + -y == 0  ->  x == y
                                if let N::Bin(B::Mul, z, q) = self.n(y) {
                                    if self.k(q) == Some(m) {
                                        return self.cmp(C::Eq, x, z);
                                    }
                                }
                                if let N::Bin(B::Mul, z, q) = self.n(x) {
                                    if self.k(q) == Some(m) {
                                        return self.cmp(C::Eq, y, z);
                                    }
                                }
                            }
                        }
                        N::Bin(B::Mul, x, y) if self.k(y) == Some(m) => {
                            return self.eqk(x, k.wrapping_neg() & m);
                        }
                        N::Bin(B::Xor, x, y) => {
                            if let Some(k2) = self.k(y) {
                                return self.eqk(x, k ^ k2);
                            }
                            if k == 0 {
                                return self.cmp(C::Eq, x, y);
                            }
                        }
                        N::Bin(B::Or, x, y) if k == 0 => {
                            let p = self.eqk(x, 0);
                            let q = self.eqk(y, 0);
                            return self.and(p, q);
                        }
                        N::Ite(c, t, e) => {
                            if let Some(kt) = self.k(t) {
                                let r = self.eqk(e, k);
                                return if kt == k {
                                    self.or(c, r)
                                } else {
                                    let nc = self.not(c);
                                    self.and(nc, r)
                                };
                            }
                            if let Some(ke) = self.k(e) {
                                let r = self.eqk(t, k);
                                return if ke == k {
                                    let nc = self.not(c);
                                    self.or(nc, r)
                                } else {
                                    self.and(c, r)
                                };
                            }
                        }
                        _ => {}
                    }
                } else {
                    match (self.n(a), self.n(b)) {
                        (N::Concat(h1, l1), N::Concat(h2, l2)) if self.w(l1) == self.w(l2) => {
                            let x = self.cmp(C::Eq, l1, l2);
                            let y = self.cmp(C::Eq, h1, h2);
                            return self.and(y, x);
                        }
                        (N::ZExt(x), N::ZExt(y)) if self.w(x) == self.w(y) => {
                            return self.cmp(C::Eq, x, y);
                        }
                        (N::SExt(x), N::SExt(y)) if self.w(x) == self.w(y) => {
                            return self.cmp(C::Eq, x, y);
                        }
                        (N::Bin(B::Add, x, k1), N::Bin(B::Add, y, k2)) if k1 == k2 => {
                            return self.cmp(C::Eq, x, y);
                        }
                        (N::Bin(B::Add, x, k1), _) if x == b => {
                            return self.eqk(k1, 0);
                        }
                        (_, N::Bin(B::Add, x, k1)) if x == a => {
                            return self.eqk(k1, 0);
                        }
                        _ => {}
                    }
                }
                return self.intern(Node { n: N::Cmp(C::Eq, a, b), w: 1 });
            }
            C::Ult => {
                if w == 1 {
                    let na = self.not(a);
                    return self.and(na, b);
                }
                if let Some(k) = self.k(b) {
                    if k == 0 {
                        return self.ff();
                    }
                    if k == 1 {
                        return self.eqk(a, 0);
                    }
                    if k == m {
                        let q = self.eqk(a, m);
                        return self.not(q);
                    }
                    if let N::ZExt(x) = self.n(a) {
                        let xw = self.w(x);
                        if k > mask(xw) {
                            return self.tt();
                        }
                        let kk = self.c(k, xw);
                        return self.cmp(C::Ult, x, kk);
                    }
                }
                if let Some(k) = self.k(a) {
                    if k == m {
                        return self.ff();
                    }
                    if k == 0 {
                        let z = self.eqk(b, 0);
                        return self.not(z);
                    }
                    if let N::ZExt(x) = self.n(b) {
                        let xw = self.w(x);
                        if k >= mask(xw) {
                            return self.ff();
                        }
                        let kk = self.c(k, xw);
                        return self.cmp(C::Ult, kk, x);
                    }
                }
                if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) {
                    if self.w(x) == self.w(y) {
                        return self.cmp(C::Ult, x, y);
                    }
                }
            }
            C::Ule => {
                if w == 1 {
                    let na = self.not(a);
                    return self.or(na, b);
                }
                if let Some(k) = self.k(b) {
                    if k == m {
                        return self.tt();
                    }
                    let kk = self.c(k + 1, w);
                    return self.cmp(C::Ult, a, kk);
                }
                if let Some(k) = self.k(a) {
                    if k == 0 {
                        return self.tt();
                    }
                    let kk = self.c(k - 1, w);
                    return self.cmp(C::Ult, kk, b);
                }
                if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) {
                    if self.w(x) == self.w(y) {
                        return self.cmp(C::Ule, x, y);
                    }
                }
            }
            C::Slt | C::Sle => {
                let nn = |s: &Self, e: E| match s.n(e) {
                    N::ZExt(_) => true,
                    N::Const(k) => k >> (w - 1) == 0,
                    _ => false,
                };
                if nn(self, a) && nn(self, b) {
                    return self.cmp(if op == C::Slt { C::Ult } else { C::Ule }, a, b);
                }
                if op == C::Slt && self.k(b) == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                if op == C::Sle && self.k(a) == Some(0) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
                if op == C::Slt && self.k(a) == Some(m) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
                if op == C::Sle && self.k(b) == Some(m) {
                    return self.extract(a, w - 1, 1);
                }
                // negative constant versus non-negative expression
                if nn(self, a) && self.k(b).is_some() {
                    return self.ff();
                }
                if nn(self, b) && self.k(a).is_some() {
                    return self.tt();
                }
            }
        }
        self.intern(Node { n: N::Cmp(op, a, b), w: 1 })
    }

    pub fn ite(&mut self, c: E, t: E, e: E) -> E {
        if let Some(k) = self.k(c) {
            return if k == 1 { t } else { e };
        }
        if t == e {
            return t;
        }
        if let Some(x) = self.as_not(c) {
            return self.ite(x, e, t);
        }
        let w = self.w(t);
        debug_assert_eq!(w, self.w(e));
        if w == 1 {
            match (self.k(t), self.k(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, e),
                (Some(0), _) => {
                    let nc = self.not(c);
                    return self.and(nc, e);
                }
                (_, Some(0)) => return self.and(c, t),
                (_, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, t);
                }
                _ => {}
            }
        }
        if let N::Ite(c2, t2, _) = self.n(t) {
            if c2 == c {
                return self.ite(c, t2, e);
            }
        }
        if let N::Ite(c2, t2, e2) = self.n(e) {
            if c2 == c {
                return self.ite(c, t, e2);
            }
            if t2 == t {
                let cc = self.or(c, c2);
                return self.ite(cc, t, e2);
            }
        }
        if let (N::ZExt(x), N::ZExt(y)) = (self.n(t), self.n(e)) {
            if self.w(x) == self.w(y) {
                let z = self.ite(c, x, y);
                return self.zext(z, w);
            }
        }
        self.intern(Node { n: N::Ite(c, t, e), w })
    }

    /// Evaluate under `val`; `model_id` identifies the assignment for memoisation (0 = never reuse).
    pub fn eval(&mut self, e: E, model_id: usize, val: &dyn Fn(VarId) -> u64) -> u128 {
        if let N::Const(c) = self.n(e) {
            return c;
        }
        if model_id == 0 || model_id != self.memo_model {
            self.memo_gen += 1;
            self.memo_model = model_id;
        }
        self.eval_rec(e, val)
    }

    fn eval_rec(&mut self, e: E, val: &dyn Fn(VarId) -> u64) -> u128 {
        let node = self.nodes[e as usize];
        if let N::Const(c) = node.n {
            return c;
        }
        let (g, v) = self.memo[e as usize];
        if g == self.memo_gen {
            return v;
        }
        let r = match node.n {
            N::Const(c) => c,
            N::Var(v) => val(v) as u128 & mask(node.w),
            N::Bin(op, a, b) => {
                let x = self.eval_rec(a, val);
                let y = self.eval_rec(b, val);
                bin_eval(op, node.w, x, y)
            }
            N::Cmp(op, a, b) => {
                let x = self.eval_rec(a, val);
                let y = self.eval_rec(b, val);
                let w = self.w(a);
                cmp_eval(op, w, x, y) as u128
            }
            N::Ite(c, a, b) => {
                if self.eval_rec(c, val) == 1 {
                    self.eval_rec(a, val)
                } else {
                    self.eval_rec(b, val)
                }
            }
            N::ZExt(a) => self.eval_rec(a, val),
            N::SExt(a) => {
                let w = self.w(a);
                (sx(self.eval_rec(a, val), w) as u128) & mask(node.w)
            }
            N::Extract(a, lo) => (self.eval_rec(a, val) >> lo) & mask(node.w),
            N::Concat(a, b) => {
                let h = self.eval_rec(a, val);
                let l = self.eval_rec(b, val);
                h << self.w(b) | l
            }
            N::Tab(t, a) => {
                let i = self.eval_rec(a, val) as usize;
                *self.tables[t as usize].vals.get(i).unwrap_or(&0) as u128
            }
        };
        self.memo[e as usize] = (self.memo_gen, r);
        r
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match self.n(e) {
            N::Const(c) => format!("{}:{}", c, self.w(e)),
            N::Var(v) => format!("{}#{}", self.varinfo[v as usize].name, v),
            N::Bin(op, a, b) => format!("({:?} {} {})", op, self.show(a, d), self.show(b, d)),
            N::Cmp(op, a, b) => format!("({:?} {} {})", op, self.show(a, d), self.show(b, d)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", self.show(c, d), self.show(a, d), self.show(b, d)),
            N::ZExt(a) => format!("(zx{} {})", self.w(e), self.show(a, d)),
            N::SExt(a) => format!("(sx{} {})", self.w(e), self.show(a, d)),
            N::Extract(a, lo) => format!("{}[{}+{}]", self.show(a, d), lo, self.w(e)),
            N::Concat(a, b) => format!("({} ++ {})", self.show(a, d), self.show(b, d)),
            N::Tab(t, a) => format!("tab{}[{}]", t, self.show(a, d)),
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    /// differential test of the simplifier: build random expressions twice, once
    /// through the simplifying constructors and once evaluated directly.
    #[test]
    fn simplifier_agrees_with_evaluation() {
        let mut s = 0x1234_5678_9abc_def1u64;
        let mut rnd = move || {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            s
        };
        for round in 0..20000 {
            let mut a = Arena::new();
            let vals: Vec<u64> = (0..6).map(|_| if rnd() % 3 == 0 { rnd() % 4 } else { rnd() }).collect();
            // (expr, width, concrete)
            let mut pool: Vec<(E, u8, u128)> = vec![];
            let ws = [8u8, 8, 8, 16, 32, 1];
            for i in 0..6 {
                let (_, e) = a.var(i as u32, ws[i], "v");
                pool.push((e, ws[i], vals[i] as u128 & mask(ws[i])));
            }
            for _ in 0..60 {
                let k = pool[rnd() as usize % pool.len()];
                let n = match rnd() % 9 {
                    0 => {
                        let w = [1u8, 8, 16, 32, 64][rnd() as usize % 5];
                        let v = match rnd() % 4 {
                            0 => rnd() as u128,
                            1 => 0,
                            2 => mask((rnd() % 65) as u8),
                            _ => (rnd() % 300) as u128,
                        } & mask(w);
                        (a.c(v, w), w, v)
                    }
                    1 => {
                        let w = (k.1 as u64 + rnd() % (129 - k.1 as u64)) as u8;
                        (a.zext(k.0, w), w, k.2)
                    }
                    2 => {
                        let w = (k.1 as u64 + rnd() % (129 - k.1 as u64)) as u8;
                        (a.sext(k.0, w), w, sx(k.2, k.1) as u128 & mask(w))
                    }
                    3 => {
                        let lo = (rnd() % k.1 as u64) as u8;
                        let w = 1 + (rnd() % (k.1 - lo) as u64) as u8;
                        (a.extract(k.0, lo, w), w, (k.2 >> lo) & mask(w))
                    }
                    4 => {
                        let l = pool[rnd() as usize % pool.len()];
                        if k.1 as u32 + l.1 as u32 > 128 {
                            continue;
                        }
                        (a.concat(k.0, l.0), k.1 + l.1, k.2 << l.1 | l.2)
                    }
                    5 | 6 => {
                        let c: Vec<_> = pool.iter().filter(|p| p.1 == k.1).copied().collect();
                        let l = c[rnd() as usize % c.len()];
                        let ops = [B::Add, B::Mul, B::UDiv, B::SDiv, B::URem, B::SRem, B::And, B::Or, B::Xor, B::Shl, B::LShr, B::AShr];
                        let op = ops[rnd() as usize % ops.len()];
                        if rnd() % 5 == 0 {
                            (a.sub(k.0, l.0), k.1, k.2.wrapping_sub(l.2) & mask(k.1))
                        } else {
                            (a.bin(op, k.0, l.0), k.1, bin_eval(op, k.1, k.2, l.2))
                        }
                    }
                    7 => {
                        let c: Vec<_> = pool.iter().filter(|p| p.1 == k.1).copied().collect();
                        let l = c[rnd() as usize % c.len()];
                        let ops = [C::Eq, C::Ult, C::Ule, C::Slt, C::Sle];
                        let op = ops[rnd() as usize % ops.len()];
                        (a.cmp(op, k.0, l.0), 1, cmp_eval(op, k.1, k.2, l.2) as u128)
                    }
                    _ => {
                        let c: Vec<_> = pool.iter().filter(|p| p.1 == k.1).copied().collect();
                        let l = c[rnd() as usize % c.len()];
                        let b: Vec<_> = pool.iter().filter(|p| p.1 == 1).copied().collect();
                        let cc = b[rnd() as usize % b.len()];
                        (a.ite(cc.0, k.0, l.0), k.1, if cc.2 == 1 { k.2 } else { l.2 })
                    }
                };
                assert_eq!(a.w(n.0), n.1);
                let v2 = vals.clone();
                let got = a.eval(n.0, 0, &|v| v2[v as usize]);
                assert_eq!(got, n.2, "round {} {}", round, a.show(n.0, 8));
                pool.push(n);
            }
        }
    }
}
