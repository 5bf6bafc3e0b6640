//! The symbolic executor: states, forking, solver queries, instruction semantics.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct PVec<T: Clone> {
    full: Vec<Rc<Vec<T>>>,
    tail: Vec<T>,
}
impl<T: Clone> PVec<T> {
    pub fn new() -> Self {
        PVec { full: vec![], tail: vec![] }
    }
    pub fn push(&mut self, t: T) {
        self.tail.push(t);
        if self.tail.len() == 128 {
            let v = std::mem::take(&mut self.tail);
            self.full.push(Rc::new(v));
        }
    }
    pub fn len(&self) -> usize {
        self.full.len() * 128 + self.tail.len()
    }
    pub fn iter(&self) -> impl Iterator<Item = &T> {
        self.full.iter().flat_map(|v| v.iter()).chain(self.tail.iter())
    }
}

/// Layered map that is cheap to clone.
#[derive(Clone)]
pub struct PMap {
    layers: Vec<Rc<HashMap<E, u128>>>,
    top: HashMap<E, u128>,
}
impl PMap {
    fn new() -> Self {
        PMap { layers: vec![], top: HashMap::new() }
    }
    fn get(&self, e: E) -> Option<u128> {
        if let Some(v) = self.top.get(&e) {
            return Some(*v);
        }
        for l in self.layers.iter().rev() {
            if let Some(v) = l.get(&e) {
                return Some(*v);
            }
        }
        None
    }
    fn insert(&mut self, e: E, v: u128) {
        self.top.insert(e, v);
        if self.top.len() >= 32 {
            let mut t = std::mem::take(&mut self.top);
            // merge with the last layer when of similar size (logarithmic number of layers)
            while let Some(l) = self.layers.last() {
                if l.len() > 2 * t.len() {
                    break;
                }
                let l = self.layers.pop().unwrap();
                for (k, v) in l.iter() {
                    t.entry(*k).or_insert(*v);
                }
            }
            self.layers.push(Rc::new(t));
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fidx: u32,
    pub pc: u32,
    pub regs: Vec<V>,
    pub dst: u32,
    pub allocas: Vec<u32>,
}

type Dom = [u64; 4];

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    // path condition
    pub multi: PVec<E>,
    pub multi_vars: Rc<HashSet<VarId>>,
    pub dom: Rc<HashMap<VarId, Dom>>,
    pub fixed: Rc<HashMap<VarId, u64>>,
    pub known: PMap,
    pub model: Rc<Vec<u64>>,
    pub model_id: usize,
    pub syms: PVec<VarId>,
    pub trace: PVec<(u64, u8)>,
    pub replay: Option<(Rc<Vec<(u64, u8)>>, usize)>,
    pub log: PVec<V>,
    pub steps: u64,
    pub conc_count: Rc<HashMap<E, u32>>,
    pub rng: u64,
    pub time: u64,
    pub alloc_live: u64,
    pub alloc_peak: u64,
    pub alloc_total: u64,
    pub alloc_limit: u64,
    pub covers: Rc<Vec<String>>,
    pub hashes: Rc<Vec<(Vec<V>, [u8; 16])>>,
    pub choice: Option<E>,
    pub bases: Rc<HashMap<(E, u64), u64>>,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Assume,
    Violation(String, String),
    Incomplete(String),
    Timeout,
}

pub struct TraceData {
    pub trace: Vec<(u64, u8)>,
    pub model: Vec<(u32, u8, String, u64)>,
}

pub enum Pending {
    Live(Box<State>),
    Trace(TraceData),
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub assumed: u64,
    pub incomplete: u64,
    pub incomplete_reasons: BTreeMap<String, u64>,
    pub steps: u64,
    pub forks: u64,
    pub q_z3: u64,
    pub q_assert: u64,
    pub assert_concrete: u64,
    pub q_cache: u64,
    pub q_domain: u64,
    pub q_unknown: u64,
    pub z3_ms: f64,
    pub max_pc: u64,
    pub max_steps: u64,
    pub sat: u64,
    pub unsat: u64,
    pub loads: u64,
}

pub struct Found {
    pub kind: String,
    pub msg: String,
    pub bt: String,
    pub inputs: Vec<(String, u8, u64)>,
}

pub struct Sample {
    pub inputs: Vec<(String, u8, u64)>,
    pub log: Vec<u64>,
    pub steps: u64,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ar: Arena,
    pub code: Vec<Option<Rc<Func>>>,
    pub z3: Z3,
    pub pending: Vec<Pending>,
    pub stats: Stats,
    pub found: Vec<Found>,
    pub samples: Vec<Sample>,
    pub covers: BTreeMap<String, u64>,
    pub covered: HashSet<u32>,
    cache: HashMap<Vec<E>, Option<Rc<Vec<(VarId, u64)>>>>,
    truth: HashMap<E, Dom>,
    model_ids: usize,
    pub max_steps: u64,
    pub max_depth: usize,
    pub deadline: Instant,
    pub live_cap: usize,
    pub sample_every: u64,
    pub max_samples: usize,
    pub max_found: usize,
    pub on_fork: Option<Box<dyn FnMut(&mut Vec<Pending>, &dyn Fn(&State) -> Vec<(u32, u8, String, u64)>) -> bool>>,
    pub unexplored: u64,
    pub verbose: bool,
    pub rss_check: u32,
    pub prof: HashMap<u32, u64>,
    pub fork_sites: HashMap<(u32, u32), u64>,
    pub incomplete_bt: Vec<String>,
}

fn dom_full(w: u8) -> Dom {
    let mut d = [0u64; 4];
    let n = 1usize << w;
    for i in 0..n {
        d[i / 64] |= 1 << (i % 64);
    }
    d
}
fn dom_and(a: &Dom, b: &Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn dom_first(a: &Dom) -> Option<u64> {
    for i in 0..4 {
        if a[i] != 0 {
            return Some(i as u64 * 64 + a[i].trailing_zeros() as u64);
        }
    }
    None
}
fn dom_count(a: &Dom) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
fn dom_has(a: &Dom, v: u64) -> bool {
    a[v as usize / 64] >> (v % 64) & 1 == 1
}

type R<T> = Result<T, Stop>;

fn fbits(w: u8, v: u64) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v)
    }
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, deadline: Instant) -> Self {
        Exec {
            m,
            ar: Arena::new(),
            code: (0..m.funcs.len()).map(|_| None).collect(),
            z3: Z3::new(20000),
            pending: vec![],
            stats: Stats::default(),
            found: vec![],
            samples: vec![],
            covers: BTreeMap::new(),
            covered: HashSet::new(),
            cache: HashMap::new(),
            truth: HashMap::new(),
            model_ids: 1,
            max_steps: 50_000_000,
            max_depth: 5000,
            deadline,
            live_cap: 3000,
            sample_every: 1,
            max_samples: 0,
            max_found: 3,
            on_fork: None,
            unexplored: 0,
            verbose: false,
            rss_check: 0,
            prof: HashMap::new(),
            fork_sites: HashMap::new(),
            incomplete_bt: vec![],
        }
    }

    pub fn func(&mut self, i: u32) -> Rc<Func> {
        if let Some(f) = &self.code[i as usize] {
            return f.clone();
        }
        let f = Rc::new(self.m.compile(i, &mut self.ar));
        self.code[i as usize] = Some(f.clone());
        self.covered.insert(i);
        f
    }

    pub fn initial(&mut self, entry: &str) -> Option<State> {
        let &fi = self.m.fmap.get(entry)?;
        self.m.funcs[fi as usize].body?;
        let f = self.func(fi);
        let mut mem = Mem::new();
        for (i, g) in self.m.globals.iter().enumerate() {
            mem.put(
                i as u32 + 1,
                Obj { size: g.size as u32, data: g.data.clone(), sym: None, freed: false, ro: g.constant, heap: false },
            );
        }
        Some(State {
            cur: Frame { regs: vec![V::I(0); f.nregs as usize], f, fidx: fi, pc: 0, dst: 0, allocas: vec![] },
            stack: vec![],
            mem,
            multi: PVec::new(),
            multi_vars: Rc::new(HashSet::new()),
            dom: Rc::new(HashMap::new()),
            fixed: Rc::new(HashMap::new()),
            known: PMap::new(),
            model: Rc::new(vec![]),
            model_id: 1,
            syms: PVec::new(),
            trace: PVec::new(),
            replay: None,
            log: PVec::new(),
            steps: 0,
            conc_count: Rc::new(HashMap::new()),
            rng: 0x1234_5678,
            time: 1_000_000_000,
            alloc_live: 0,
            alloc_peak: 0,
            alloc_total: 0,
            alloc_limit: u64::MAX,
            covers: Rc::new(vec![]),
            hashes: Rc::new(vec![]),
            choice: None,
            bases: Rc::new(HashMap::new()),
        })
    }

    // ---------------------------------------------------------------- path condition

    fn new_model_id(&mut self) -> usize {
        self.model_ids += 1;
        self.model_ids
    }

    pub fn eval(&mut self, st: &State, e: E) -> u128 {
        let m = st.model.clone();
        self.ar.eval(e, st.model_id, &|v| *m.get(v as usize).unwrap_or(&0))
    }

    fn set_model(&mut self, st: &mut State, vals: &[(VarId, u64)]) {
        let m = Rc::make_mut(&mut st.model);
        for &(v, x) in vals {
            if m.len() <= v as usize {
                m.resize(v as usize + 1, 0);
            }
            m[v as usize] = x;
        }
        st.model_id = self.new_model_id();
    }

    fn truth(&mut self, e: E, v: VarId) -> Dom {
        if let Some(d) = self.truth.get(&e) {
            return *d;
        }
        let w = self.ar.varinfo[v as usize].w;
        let mut d = [0u64; 4];
        for x in 0..1u64 << w {
            if self.ar.eval(e, 0, &|_| x) == 1 {
                d[x as usize / 64] |= 1 << (x % 64);
            }
        }
        self.truth.insert(e, d);
        d
    }

    fn small_var(&self, e: E) -> Option<VarId> {
        let v = self.ar.vars(e);
        if v.len() == 1 && self.ar.varinfo[v[0] as usize].w <= 8 {
            Some(v[0])
        } else {
            None
        }
    }

    pub fn add(&mut self, st: &mut State, e: E) {
        if self.ar.k(e).is_some() {
            return;
        }
        if let N::Bin(B::And, a, b) = self.ar.n(e) {
            st.known.insert(e, 1);
            self.add(st, a);
            self.add(st, b);
            return;
        }
        st.known.insert(e, 1);
        let ne = self.ar.not(e);
        st.known.insert(ne, 0);
        if let N::Cmp(C::Eq, a, b) = self.ar.n(e) {
            if let Some(k) = self.ar.k(b) {
                st.known.insert(a, k);
                if let N::Var(v) = self.ar.n(a) {
                    Rc::make_mut(&mut st.fixed).insert(v, k as u64);
                }
            }
        }
        if let Some(v) = self.small_var(e) {
            let t = self.truth(e, v);
            let w = self.ar.varinfo[v as usize].w;
            let dm = Rc::make_mut(&mut st.dom);
            let d = dm.entry(v).or_insert_with(|| dom_full(w));
            *d = dom_and(d, &t);
            if dom_count(d) == 1 {
                let x = dom_first(d).unwrap();
                Rc::make_mut(&mut st.fixed).insert(v, x);
            }
            return;
        }
        st.multi.push(e);
        let vs = self.ar.vars(e).clone();
        let mv = Rc::make_mut(&mut st.multi_vars);
        for v in vs.iter() {
            mv.insert(*v);
        }
    }

    fn all_fixed(&self, st: &State, e: E) -> bool {
        self.ar.vars(e).iter().all(|v| st.fixed.contains_key(v))
    }

    /// expression for "v is in d"
    fn dom_expr(&mut self, v: VarId, d: &Dom) -> Option<E> {
        let (pos, w, name) = {
            let i = &self.ar.varinfo[v as usize];
            (i.pos, i.w, i.name.clone())
        };
        if *d == dom_full(w) {
            return None;
        }
        let (_, x) = self.ar.var(pos, w, &name);
        let n = 1u64 << w;
        // use the complement when it has fewer members
        let neg = dom_count(d) as u64 > n / 2;
        let mut r = self.ar.ff();
        let mut i = 0;
        while i < n {
            if dom_has(d, i) != neg {
                let mut j = i;
                while j + 1 < n && dom_has(d, j + 1) != neg {
                    j += 1;
                }
                let c = if i == j {
                    self.ar.eqk(x, i as u128)
                } else {
                    let lo = self.ar.c(i as u128, w);
                    let hi = self.ar.c(j as u128, w);
                    let a = self.ar.cmp(C::Ule, lo, x);
                    let b = self.ar.cmp(C::Ule, x, hi);
                    self.ar.and(a, b)
                };
                r = self.ar.or(r, c);
                i = j + 1;
            } else {
                i += 1;
            }
        }
        Some(if neg { self.ar.not(r) } else { r })
    }

    /// constraints relevant for `e`
    fn slice(&mut self, st: &State, e: E) -> Vec<E> {
        let mut vars: HashSet<VarId> = self.ar.vars(e).iter().copied().collect();
        let mut out = vec![];
        if vars.iter().any(|v| st.multi_vars.contains(v)) {
            let mut rest: Vec<E> = st.multi.iter().copied().collect();
            loop {
                let mut changed = false;
                let mut i = 0;
                while i < rest.len() {
                    let c = rest[i];
                    if self.ar.vars(c).iter().any(|v| vars.contains(v)) {
                        out.push(c);
                        for v in self.ar.vars(c).clone().iter() {
                            vars.insert(*v);
                        }
                        rest.swap_remove(i);
                        changed = true;
                    } else {
                        i += 1;
                    }
                }
                if !changed {
                    break;
                }
            }
        }
        let mut vs: Vec<VarId> = vars.into_iter().collect();
        vs.sort();
        for v in vs {
            if let Some(d) = st.dom.get(&v).copied() {
                if let Some(x) = self.dom_expr(v, &d) {
                    out.push(x);
                }
            }
        }
        out.sort();
        out.dedup();
        out
    }

    fn z3_check(&mut self, conj: &[E]) -> Res {
        let t = Instant::now();
        let r = self.z3.check(&mut self.ar, conj);
        self.stats.z3_ms += t.elapsed().as_secs_f64() * 1000.0;
        self.stats.q_z3 += 1;
        match r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.q_unknown += 1,
        }
        r
    }

    /// Is PC and e satisfiable? Ok(Some(model changes)) / Ok(None) / Err(unknown)
    fn feasible(&mut self, st: &State, e: E) -> Result<Option<Rc<Vec<(VarId, u64)>>>, ()> {
        if let Some(k) = self.ar.k(e) {
            return Ok(if k == 1 { Some(Rc::new(vec![])) } else { None });
        }
        if let Some(v) = self.small_var(e) {
            let t = self.truth(e, v);
            let w = self.ar.varinfo[v as usize].w;
            let d = st.dom.get(&v).copied().unwrap_or_else(|| dom_full(w));
            let i = dom_and(&t, &d);
            match dom_first(&i) {
                None => {
                    self.stats.q_domain += 1;
                    return Ok(None);
                }
                Some(x) => {
                    if !st.multi_vars.contains(&v) {
                        self.stats.q_domain += 1;
                        return Ok(Some(Rc::new(vec![(v, x)])));
                    }
                }
            }
        }
        let mut conj = self.slice(st, e);
        conj.push(e);
        if let Some(r) = self.cache.get(&conj) {
            self.stats.q_cache += 1;
            return Ok(r.clone());
        }
        let r = match self.z3_check(&conj) {
            Res::Sat(m) => Some(Rc::new(m)),
            Res::Unsat => None,
            Res::Unknown => return Err(()),
        };
        if self.cache.len() > 300_000 {
            self.cache.clear();
        }
        self.cache.insert(conj, r.clone());
        Ok(r)
    }

    fn push_pending(&mut self, st: State) {
        self.pending.push(Pending::Live(Box::new(st)));
        self.stats.forks += 1;
        self.rss_check += 1;
        if self.on_fork.is_some() {
            let mut f = self.on_fork.take().unwrap();
            {
                let ar = &self.ar;
                let ser = |s: &State| ser_model(ar, s);
                f(&mut self.pending, &ser);
            }
            self.on_fork = Some(f);
        }
        if self.pending.len() > self.live_cap {
            // turn the oldest live states into traces
            let n = self.pending.len() / 2;
            for i in 0..n {
                if let Pending::Live(s) = &self.pending[i] {
                    let td = TraceData { trace: s.trace.iter().copied().collect(), model: ser_model(&self.ar, s) };
                    self.pending[i] = Pending::Trace(td);
                }
            }
        }
    }

    fn replaying(&self, st: &State) -> bool {
        st.replay.is_some()
    }

    fn next_replay(&self, st: &mut State) -> Option<(u64, u8)> {
        if let Some((v, i)) = &mut st.replay {
            let x = v[*i];
            *i += 1;
            if *i == v.len() {
                st.replay = None;
            }
            return Some(x);
        }
        None
    }

    /// A model-dependent candidate value. It is recorded, so that a replayed prefix makes the
    /// same choice without consulting a model.
    fn hint(&mut self, st: &mut State, e: E) -> R<u64> {
        self.hint_with(st, |x, st| x.eval(st, e) as u64)
    }
    fn hint_with(&mut self, st: &mut State, f: impl FnOnce(&mut Self, &State) -> u64) -> R<u64> {
        if let Some((v, fl)) = self.next_replay(st) {
            if fl != 4 {
                return Err(Stop::Incomplete("replay divergence".into()));
            }
            st.trace.push((v, 4));
            return Ok(v);
        }
        let v = f(self, st);
        st.trace.push((v, 4));
        Ok(v)
    }

    fn known_val(&mut self, st: &State, e: E) -> Option<u128> {
        if let Some(k) = self.ar.k(e) {
            return Some(k);
        }
        if let Some(k) = st.known.get(e) {
            return Some(k);
        }
        if self.all_fixed(st, e) {
            return Some(self.eval(st, e));
        }
        None
    }

    /// Decide a condition, forking if both outcomes are possible.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.known_val(st, c) {
            return Ok(k == 1);
        }
        if let Some((_, fl)) = self.next_replay(st) {
            if fl & 4 != 0 {
                return Err(Stop::Incomplete("replay divergence".into()));
            }
            st.trace.push((0, fl));
            let res = fl & 1 == 1;
            if fl & 2 == 0 {
                let x = if res { c } else { self.ar.not(c) };
                self.add(st, x);
            } else {
                st.known.insert(c, res as u128);
            }
            return Ok(res);
        }
        let side = self.eval(st, c) == 1;
        let nc = self.ar.not(c);
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        match self.feasible(st, other) {
            Ok(None) => {
                st.known.insert(c, side as u128);
                st.trace.push((0, side as u8 | 2));
                Ok(side)
            }
            Ok(Some(m)) => {
                *self.fork_sites.entry((st.cur.fidx, st.cur.pc)).or_default() += 1;
                let mut o = st.clone();
                self.add(&mut o, other);
                self.set_model(&mut o, &m);
                o.trace.push((0, !side as u8));
                self.push_pending(o);
                self.add(st, mine);
                st.trace.push((0, side as u8));
                Ok(side)
            }
            Err(()) => {
                // the other side is undecided: it is dropped and the run is not exhaustive
                self.note_incomplete("solver unknown");
                self.add(st, mine);
                st.trace.push((0, side as u8));
                Ok(side)
            }
        }
    }

    fn note_incomplete(&mut self, r: &str) {
        self.stats.incomplete += 1;
        *self.stats.incomplete_reasons.entry(r.to_string()).or_default() += 1;
    }

    /// Make a value concrete by forking over its feasible values.
    pub fn conc(&mut self, st: &mut State, v: V, why: &str) -> R<u64> {
        self.conc_n(st, v, why, 300)
    }

    fn conc_n(&mut self, st: &mut State, v: V, why: &str, limit: u32) -> R<u64> {
        let e = match v {
            V::I(x) => return Ok(x),
            V::S(e) => e,
        };
        if let Some(k) = self.known_val(st, e) {
            return Ok(k as u64);
        }
        let n = {
            let m = Rc::make_mut(&mut st.conc_count);
            let n = m.entry(e).or_insert(0);
            *n += 1;
            *n
        };
        if n > limit {
            return Err(Stop::Incomplete(format!("more than {} values: {}", limit, why)));
        }
        let cand = self.hint(st, e)?;
        let c = self.ar.eqk(e, cand as u128);
        if self.decide(st, c)? {
            st.known.insert(e, cand as u128);
            Ok(cand)
        } else {
            // only reachable if the equation was decided before; try the next value
            self.conc_n(st, v, why, limit)
        }
    }

    fn is_true(&mut self, st: &mut State, v: V) -> R<bool> {
        match v {
            V::I(x) => Ok(x & 1 == 1),
            V::S(e) => self.decide(st, e),
        }
    }

    // ---------------------------------------------------------------- running

    pub fn backtrace(&self, st: &State) -> String {
        let mut v = vec![st.cur.f.name.clone()];
        for f in st.stack.iter().rev().take(12) {
            v.push(f.f.name.clone());
        }
        v.join(" < ")
    }

    pub fn inputs(&self, st: &State) -> Vec<(String, u8, u64)> {
        st.syms
            .iter()
            .map(|&v| {
                let i = &self.ar.varinfo[v as usize];
                (i.name.clone(), i.w, *st.model.get(v as usize).unwrap_or(&0) & mask(i.w) as u64)
            })
            .collect()
    }

    pub fn run_state(&mut self, mut st: State) {
        let start = st.steps;
        let r = self.run(&mut st);
        self.stats.steps += st.steps - start;
        let stop = match r {
            Ok(()) => Stop::Done,
            Err(s) => s,
        };
        self.finish(st, stop);
    }

    fn finish(&mut self, st: State, stop: Stop) {
        self.stats.max_steps = self.stats.max_steps.max(st.steps);
        self.stats.max_pc = self.stats.max_pc.max(st.multi.len() as u64 + st.dom.len() as u64);
        match stop {
            Stop::Done => {
                self.stats.paths += 1;
                for c in st.covers.iter() {
                    *self.covers.entry(c.clone()).or_default() += 1;
                }
                if self.samples.len() < self.max_samples && self.stats.paths % self.sample_every == 0 {
                    let log: Vec<V> = st.log.iter().copied().collect();
                    let log = log
                        .iter()
                        .map(|v| match v {
                            V::I(x) => *x,
                            V::S(e) => self.eval(&st, *e) as u64,
                        })
                        .collect();
                    let inputs = self.inputs(&st);
                    self.samples.push(Sample { inputs, log, steps: st.steps });
                    if self.samples.len() >= self.max_samples / 2 && self.sample_every < 1 << 20 {
                        self.sample_every *= 2;
                    }
                }
            }
            Stop::Assume => {
                self.stats.assumed += 1;
            }
            Stop::Violation(kind, msg) => {
                let bt = self.backtrace(&st);
                if self.verbose {
                    eprintln!("VIOL {} {} at {}", kind, msg, bt);
                }
                self.stats.paths += 1;
                if !self.found.iter().any(|f| f.kind == kind && f.msg == msg) && self.found.len() < 50 {
                    let inputs = self.inputs(&st);
                    self.found.push(Found { kind, msg, bt, inputs });
                }
            }
            Stop::Incomplete(r) => {
                let bt = self.backtrace(&st);
                if self.verbose {
                    eprintln!("INCOMPLETE {} at {}", r, bt);
                }
                if self.incomplete_bt.len() < 5 {
                    self.incomplete_bt.push(format!("{} @ {}", r, bt));
                }
                self.note_incomplete(&r);
            }
            Stop::Timeout => {
                self.unexplored += 1;
            }
        }
    }

    pub fn resume(&mut self, td: TraceData, entry: &str) -> State {
        let mut st = self.initial(entry).unwrap();
        let mut vals = vec![];
        for (pos, w, name, val) in td.model {
            let (v, _) = self.ar.var(pos, w, &name);
            vals.push((v, val));
        }
        self.set_model(&mut st, &vals);
        if !td.trace.is_empty() {
            st.replay = Some((Rc::new(td.trace), 0));
        }
        st
    }

    #[inline]
    fn get(&self, st: &State, o: Op) -> V {
        match o {
            Op::R(r) => st.cur.regs[r as usize],
            Op::I(x) => V::I(x),
            Op::X(e) => V::S(e),
        }
    }

    fn ex(&mut self, v: V, w: u8) -> E {
        match v {
            V::I(x) => self.ar.c(x as u128, w),
            V::S(e) => e,
        }
    }

    fn take_edge(&mut self, st: &mut State, f: &Func, e: u32) {
        let ed = &f.edges[e as usize];
        match ed.copies.len() {
            0 => {}
            1 => {
                let (d, o) = ed.copies[0];
                let v = self.get(st, o);
                st.cur.regs[d as usize] = v;
            }
            _ => {
                let mut tmp: [V; 16] = [V::I(0); 16];
                if ed.copies.len() <= 16 {
                    for (i, (_, o)) in ed.copies.iter().enumerate() {
                        tmp[i] = self.get(st, *o);
                    }
                    for (i, (d, _)) in ed.copies.iter().enumerate() {
                        st.cur.regs[*d as usize] = tmp[i];
                    }
                } else {
                    let t: Vec<V> = ed.copies.iter().map(|(_, o)| self.get(st, *o)).collect();
                    for (i, (d, _)) in ed.copies.iter().enumerate() {
                        st.cur.regs[*d as usize] = t[i];
                    }
                }
            }
        }
        st.cur.pc = ed.pc;
    }

    fn memerr(&self, e: MemErr) -> Stop {
        Stop::Violation("memory".into(), match e {
            MemErr::Null => "null or dangling pointer access".into(),
            MemErr::Bad(_) => "access to an invalid address".into(),
            MemErr::Freed(_) => "use after free".into(),
            MemErr::Oob(_, n, s) => format!("out-of-bounds access of {} bytes in an object of {}", n, s),
            MemErr::ReadOnly(_) => "write to constant memory".into(),
        })
    }

    /// Resolve a possibly symbolic address for an access of `n` bytes.
    fn addr(&mut self, st: &mut State, p: V, n: u64) -> R<u64> {
        match p {
            V::I(a) => Ok(a),
            V::S(e) => {
                if let Some(k) = self.known_val(st, e) {
                    return Ok(k as u64);
                }
                self.in_bounds(st, e, n)?;
                self.conc(st, p, "address")
            }
        }
    }

    /// The object that a symbolic address points to, or none if the address became concrete
    /// while its candidates were excluded (exactly as a forked state sees it, which starts the
    /// instruction over).
    fn in_bounds(&mut self, st: &mut State, e: E, n: u64) -> R<Option<u64>> {
        if let Some(b) = st.bases.get(&(e, n)) {
            return Ok(Some(*b));
        }
        loop {
            if self.known_val(st, e).is_some() {
                return Ok(None);
            }
            let a = self.hint(st, e)?;
            let base = a >> 32 << 32;
            let size = match st.mem.get(base) {
                Ok(o) => o.size as u64,
                Err(x) => {
                    let c = self.ar.eqk(e, a as u128);
                    if self.decide(st, c)? {
                        return Err(self.memerr(x));
                    }
                    continue;
                }
            };
            let b = self.ar.c(base as u128, 64);
            let off = self.ar.sub(e, b);
            if size < n {
                return Err(self.memerr(MemErr::Oob(a, n, size)));
            }
            let lim = self.ar.c((size - n) as u128, 64);
            let ok = self.ar.cmp(C::Ule, off, lim);
            if let Some(k) = self.known_val(st, ok) {
                if k == 1 {
                    Rc::make_mut(&mut st.bases).insert((e, n), base);
                    return Ok(Some(base));
                }
                return Err(self.memerr(MemErr::Oob(a, n, size)));
            }
            if self.decide(st, ok)? {
                Rc::make_mut(&mut st.bases).insert((e, n), base);
                return Ok(Some(base));
            }
        }
    }

    fn load(&mut self, st: &mut State, p: V, w: u8, off: u32) -> R<V> {
        let n = (w as u64 + 7) / 8;
        match p {
            V::I(a) => match st.mem.read(&mut self.ar, a.wrapping_add(off as u64), w) {
                Ok(v) => Ok(v),
                Err(e) => Err(self.memerr(e)),
            },
            V::S(e) => {
                let e = if off != 0 {
                    let o = self.ar.c(off as u128, 64);
                    self.ar.bin(B::Add, e, o)
                } else {
                    e
                };
                if let Some(k) = self.known_val(st, e) {
                    return match st.mem.read(&mut self.ar, k as u64, w) {
                        Ok(v) => Ok(v),
                        Err(e) => Err(self.memerr(e)),
                    };
                }
                let Some(base) = self.in_bounds(st, e, n)? else {
                    let k = self.known_val(st, e).unwrap_or(0);
                    return match st.mem.read(&mut self.ar, k as u64, w) {
                        Ok(v) => Ok(v),
                        Err(e) => Err(self.memerr(e)),
                    };
                };
                if let Ok(o) = st.mem.get(base) {
                    if o.size <= 8192 && w <= 64 && o.is_conc(0, o.size as usize) {
                        let cnt = o.size as u64 - n + 1;
                        let vals: Vec<u64> = (0..cnt)
                            .map(|i| {
                                let mut b = [0u8; 8];
                                b[..n as usize].copy_from_slice(&o.data[i as usize..(i + n) as usize]);
                                let v = u64::from_le_bytes(b);
                                if w == 64 {
                                    v
                                } else {
                                    v & ((1u64 << w) - 1)
                                }
                            })
                            .collect();
                        let b = self.ar.c(base as u128, 64);
                        let idx = self.ar.sub(e, b);
                        let t = self.ar.tab(vals, w, idx);
                        return Ok(norm(&self.ar, t));
                    }
                }
                let a = self.conc(st, V::S(e), "address")?;
                match st.mem.read(&mut self.ar, a, w) {
                    Ok(v) => Ok(v),
                    Err(e) => Err(self.memerr(e)),
                }
            }
        }
    }

    fn icmp(&mut self, p: Pred, w: u8, a: V, b: V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let s = |v: u64| ((v << (64 - w as u32)) as i64) >> (64 - w as u32);
            return V::I(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => s(x) > s(y),
                Pred::Sge => s(x) >= s(y),
                Pred::Slt => s(x) < s(y),
                Pred::Sle => s(x) <= s(y),
            } as u64);
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let ar = &mut self.ar;
        let e = match p {
            Pred::Eq => ar.cmp(C::Eq, x, y),
            Pred::Ne => {
                let q = ar.cmp(C::Eq, x, y);
                ar.not(q)
            }
            Pred::Ugt => ar.cmp(C::Ult, y, x),
            Pred::Uge => ar.cmp(C::Ule, y, x),
            Pred::Ult => ar.cmp(C::Ult, x, y),
            Pred::Ule => ar.cmp(C::Ule, x, y),
            Pred::Sgt => ar.cmp(C::Slt, y, x),
            Pred::Sge => ar.cmp(C::Sle, y, x),
            Pred::Slt => ar.cmp(C::Slt, x, y),
            Pred::Sle => ar.cmp(C::Sle, x, y),
        };
        norm(ar, e)
    }

    fn bin(&mut self, st: &mut State, op: BinK, w: u8, a: V, b: V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let m = if w == 64 { !0u64 } else { (1u64 << w) - 1 };
            let sh = 64 - w as u32;
            let s = |v: u64| ((v << sh) as i64) >> sh;
            return Ok(V::I(
                m & match op {
                    BinK::Add => x.wrapping_add(y),
                    BinK::Sub => x.wrapping_sub(y),
                    BinK::Mul => x.wrapping_mul(y),
                    BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem if y == 0 => {
                        return Err(Stop::Violation("ub".into(), "division by zero".into()));
                    }
                    BinK::UDiv => x / y,
                    BinK::URem => x % y,
                    BinK::SDiv => s(x).wrapping_div(s(y)) as u64,
                    BinK::SRem => s(x).wrapping_rem(s(y)) as u64,
                    BinK::And => x & y,
                    BinK::Or => x | y,
                    BinK::Xor => x ^ y,
                    BinK::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    BinK::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinK::AShr => (s(x) >> y.min(63)) as u64,
                },
            ));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        if matches!(op, BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem) && self.ar.k(y).is_none() {
            let z = self.ar.eqk(y, 0);
            if self.decide(st, z)? {
                return Err(Stop::Violation("ub".into(), "division by zero".into()));
            }
        }
        let ar = &mut self.ar;
        let e = match op {
            BinK::Sub => ar.sub(x, y),
            _ => ar.bin(
                match op {
                    BinK::Add => B::Add,
                    BinK::Mul => B::Mul,
                    BinK::UDiv => B::UDiv,
                    BinK::SDiv => B::SDiv,
                    BinK::URem => B::URem,
                    BinK::SRem => B::SRem,
                    BinK::And => B::And,
                    BinK::Or => B::Or,
                    BinK::Xor => B::Xor,
                    BinK::Shl => B::Shl,
                    BinK::LShr => B::LShr,
                    _ => B::AShr,
                },
                x,
                y,
            ),
        };
        Ok(norm(ar, e))
    }

    fn run(&mut self, st: &mut State) -> R<()> {
        let mut check = 0u32;
        loop {
            let f = st.cur.f.clone();
            // run within this function until a call or return changes the frame
            'func: loop {
                check += 1;
                if check & 0x3fff == 0 {
                    if Instant::now() > self.deadline {
                        return Err(Stop::Timeout);
                    }
                    if st.steps > self.max_steps {
                        return Err(Stop::Violation("steps".into(), format!("no termination within {} steps", self.max_steps)));
                    }
                }
                st.steps += 1;
                let i = &f.insts[st.cur.pc as usize];
                match i {
                    Inst::Bin { op, w, dst, a, b } => {
                        let (x, y) = (self.get(st, *a), self.get(st, *b));
                        let v = self.bin(st, *op, *w, x, y)?;
                        st.cur.regs[*dst as usize] = v;
                    }
                    Inst::Icmp { p, w, dst, a, b } => {
                        let (x, y) = (self.get(st, *a), self.get(st, *b));
                        let v = self.icmp(*p, *w, x, y);
                        st.cur.regs[*dst as usize] = v;
                    }
                    Inst::Cast { k, fw, tw, dst, a } => {
                        let x = self.get(st, *a);
                        let v = self.cast(st, *k, *fw, *tw, x)?;
                        st.cur.regs[*dst as usize] = v;
                    }
                    Inst::Copy { dst, src } => {
                        if src.len() == 1 {
                            let v = self.get(st, src[0]);
                            st.cur.regs[*dst as usize] = v;
                        } else {
                            let vs: Vec<V> = src.iter().map(|o| self.get(st, *o)).collect();
                            for (i, v) in vs.into_iter().enumerate() {
                                st.cur.regs[*dst as usize + i] = v;
                            }
                        }
                    }
                    Inst::Select { dst, c, ws, a, b } => {
                        let cv = self.get(st, *c);
                        match cv {
                            V::I(k) => {
                                let src = if k & 1 == 1 { a } else { b };
                                let vs: Vec<V> = src.iter().map(|o| self.get(st, *o)).collect();
                                for (i, v) in vs.into_iter().enumerate() {
                                    st.cur.regs[*dst as usize + i] = v;
                                }
                            }
                            V::S(ce) => {
                                if let Some(k) = self.known_val(st, ce) {
                                    let src = if k == 1 { a } else { b };
                                    let vs: Vec<V> = src.iter().map(|o| self.get(st, *o)).collect();
                                    for (i, v) in vs.into_iter().enumerate() {
                                        st.cur.regs[*dst as usize + i] = v;
                                    }
                                } else {
                                    let mut vs = vec![];
                                    for j in 0..a.len() {
                                        let (x, y) = (self.get(st, a[j]), self.get(st, b[j]));
                                        let x = self.ex(x, ws[j]);
                                        let y = self.ex(y, ws[j]);
                                        let e = self.ar.ite(ce, x, y);
                                        vs.push(norm(&self.ar, e));
                                    }
                                    for (i, v) in vs.into_iter().enumerate() {
                                        st.cur.regs[*dst as usize + i] = v;
                                    }
                                }
                            }
                        }
                    }
                    Inst::Load { dst, leafs, size: _, p } => {
                        let pv = self.get(st, *p);
                        self.stats.loads += 1;
                        if leafs.len() == 1 {
                            let v = self.load(st, pv, leafs[0].1, leafs[0].0)?;
                            st.cur.regs[*dst as usize] = v;
                        } else {
                            let mut vs = Vec::with_capacity(leafs.len());
                            for (o, w) in leafs.iter() {
                                vs.push(self.load(st, pv, *w, *o)?);
                            }
                            for (i, v) in vs.into_iter().enumerate() {
                                st.cur.regs[*dst as usize + i] = v;
                            }
                        }
                    }
                    Inst::Store { leafs, size, v, p } => {
                        let pv = self.get(st, *p);
                        let a = self.addr(st, pv, *size as u64)?;
                        for (j, (o, w)) in leafs.iter().enumerate() {
                            let x = self.get(st, v[j]);
                            if let Err(e) = st.mem.write(&mut self.ar, a.wrapping_add(*o as u64), *w, x) {
                                return Err(self.memerr(e));
                            }
                        }
                    }
                    Inst::Gep { dst, base, off, terms } => {
                        let mut acc = match self.get(st, *base) {
                            V::I(x) => V::I(x.wrapping_add(*off)),
                            V::S(e) => {
                                let o = self.ar.c(*off as u128, 64);
                                let e = self.ar.bin(B::Add, e, o);
                                norm(&self.ar, e)
                            }
                        };
                        for (o, w, scale) in terms.iter() {
                            let iv = self.get(st, *o);
                            acc = match (acc, iv) {
                                (V::I(x), V::I(y)) => {
                                    let sh = 64 - *w as u32;
                                    let y = ((y << sh) as i64 >> sh) as u64;
                                    V::I(x.wrapping_add(y.wrapping_mul(*scale)))
                                }
                                (x, y) => {
                                    let x = self.ex(x, 64);
                                    let y = self.ex(y, *w);
                                    let y = self.ar.sext(y, 64);
                                    let s = self.ar.c(*scale as u128, 64);
                                    let y = self.ar.bin(B::Mul, y, s);
                                    let e = self.ar.bin(B::Add, x, y);
                                    norm(&self.ar, e)
                                }
                            };
                        }
                        st.cur.regs[*dst as usize] = acc;
                    }
                    Inst::Alloca { dst, elem, n } => {
                        let nv = self.get(st, *n);
                        let n = self.conc(st, nv, "alloca")?;
                        let a = st.mem.alloc(elem * n, false);
                        st.cur.allocas.push((a >> 32) as u32);
                        st.cur.regs[*dst as usize] = V::I(a);
                    }
                    Inst::Br(e) => {
                        self.take_edge(st, &f, *e);
                        continue 'func;
                    }
                    Inst::CondBr { c, t, f: fl } => {
                        let cv = self.get(st, *c);
                        let b = self.is_true(st, cv)?;
                        self.take_edge(st, &f, if b { *t } else { *fl });
                        continue 'func;
                    }
                    Inst::Switch { w, v, cases, groups, def } => {
                        let x = self.get(st, *v);
                        let e = match x {
                            V::I(k) => cases.iter().find(|(c, _)| *c == k as u128).map(|(_, e)| *e).unwrap_or(*def),
                            V::S(xe) => self.switch(st, xe, *w, groups, *def)?,
                        };
                        self.take_edge(st, &f, e);
                        continue 'func;
                    }
                    Inst::Call(ci) => {
                        let r = self.call(st, ci)?;
                        match r {
                            CallR::Entered => break 'func,
                            CallR::Value(v) => {
                                if let (Some(v), false) = (v, ci.ret.is_empty()) {
                                    st.cur.regs[ci.dst as usize] = v;
                                }
                            }
                            CallR::Values(vs) => {
                                for (i, v) in vs.into_iter().enumerate() {
                                    st.cur.regs[ci.dst as usize + i] = v;
                                }
                            }
                        }
                    }
                    Inst::Ret(ops) => {
                        let allocas = std::mem::take(&mut st.cur.allocas);
                        for a in allocas {
                            st.mem.remove(a);
                        }
                        match st.stack.pop() {
                            None => return Ok(()),
                            Some(fr) => {
                                let fr = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                                let old = std::mem::replace(&mut st.cur, fr);
                                let dst = old.dst as usize;
                                for (i, o) in ops.iter().enumerate() {
                                    let v = match o {
                                        Op::R(r) => old.regs[*r as usize],
                                        Op::I(x) => V::I(*x),
                                        Op::X(e) => V::S(*e),
                                    };
                                    st.cur.regs[dst + i] = v;
                                }
                                st.cur.pc += 1;
                                break 'func;
                            }
                        }
                    }
                    Inst::Unreachable => {
                        return Err(Stop::Violation("ub".into(), "unreachable executed".into()));
                    }
                    Inst::Rmw { k, w, dst, p, v } => {
                        let pv = self.get(st, *p);
                        let a = self.addr(st, pv, (*w as u64 + 7) / 8)?;
                        let old = self.load(st, V::I(a), *w, 0)?;
                        let x = self.get(st, *v);
                        let new = match k {
                            RmwK::Xchg => x,
                            RmwK::Add => self.bin(st, BinK::Add, *w, old, x)?,
                            RmwK::Sub => self.bin(st, BinK::Sub, *w, old, x)?,
                            RmwK::And => self.bin(st, BinK::And, *w, old, x)?,
                            RmwK::Or => self.bin(st, BinK::Or, *w, old, x)?,
                            RmwK::Xor => self.bin(st, BinK::Xor, *w, old, x)?,
                            RmwK::Nand => {
                                let t = self.bin(st, BinK::And, *w, old, x)?;
                                let m = if *w == 64 { !0 } else { (1u64 << *w) - 1 };
                                self.bin(st, BinK::Xor, *w, t, V::I(m))?
                            }
                            _ => {
                                let p = match k {
                                    RmwK::Max => Pred::Sgt,
                                    RmwK::Min => Pred::Slt,
                                    RmwK::UMax => Pred::Ugt,
                                    _ => Pred::Ult,
                                };
                                let c = self.icmp(p, *w, old, x);
                                self.select(c, *w, old, x)
                            }
                        };
                        if let Err(e) = st.mem.write(&mut self.ar, a, *w, new) {
                            return Err(self.memerr(e));
                        }
                        st.cur.regs[*dst as usize] = old;
                    }
                    Inst::CmpXchg { w, dst, p, c, n } => {
                        let pv = self.get(st, *p);
                        let a = self.addr(st, pv, (*w as u64 + 7) / 8)?;
                        let old = self.load(st, V::I(a), *w, 0)?;
                        let cv = self.get(st, *c);
                        let nv = self.get(st, *n);
                        let eq = self.icmp(Pred::Eq, *w, old, cv);
                        let new = self.select(eq, *w, nv, old);
                        if let Err(e) = st.mem.write(&mut self.ar, a, *w, new) {
                            return Err(self.memerr(e));
                        }
                        st.cur.regs[*dst as usize] = old;
                        st.cur.regs[*dst as usize + 1] = eq;
                    }
                    Inst::FBin { op, w, dst, a, b } => {
                        let (x, y) = (self.get(st, *a), self.get(st, *b));
                        let x = self.conc(st, x, "float")?;
                        let y = self.conc(st, y, "float")?;
                        let r = if *w == 32 {
                            let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match op {
                                FBinK::Add => x + y,
                                FBinK::Sub => x - y,
                                FBinK::Mul => x * y,
                                FBinK::Div => x / y,
                                FBinK::Rem => x % y,
                            })
                            .to_bits() as u64
                        } else {
                            let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                            (match op {
                                FBinK::Add => x + y,
                                FBinK::Sub => x - y,
                                FBinK::Mul => x * y,
                                FBinK::Div => x / y,
                                FBinK::Rem => x % y,
                            })
                            .to_bits()
                        };
                        st.cur.regs[*dst as usize] = V::I(r);
                    }
                    Inst::FNeg { w, dst, a } => {
                        let x = self.get(st, *a);
                        let v = self.bin(st, BinK::Xor, *w, x, V::I(1u64 << (*w - 1)))?;
                        st.cur.regs[*dst as usize] = v;
                    }
                    Inst::Fcmp { p, w, dst, a, b } => {
                        let (x, y) = (self.get(st, *a), self.get(st, *b));
                        let v = self.fcmp(st, p, *w, x, y)?;
                        st.cur.regs[*dst as usize] = v;
                    }
                    Inst::Nop => {}
                    Inst::Unsupported(s) => return Err(Stop::Incomplete(format!("unsupported instruction {}", s))),
                }
                st.cur.pc += 1;
            }
        }
    }

    fn select(&mut self, c: V, w: u8, a: V, b: V) -> V {
        match c {
            V::I(k) => {
                if k & 1 == 1 {
                    a
                } else {
                    b
                }
            }
            V::S(ce) => {
                let x = self.ex(a, w);
                let y = self.ex(b, w);
                let e = self.ar.ite(ce, x, y);
                norm(&self.ar, e)
            }
        }
    }

    fn fcmp(&mut self, st: &mut State, p: &str, w: u8, a: V, b: V) -> R<V> {
        // symbolic comparisons are expressed over the bit patterns
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (fbits(w, x), fbits(w, y));
            let un = x.is_nan() || y.is_nan();
            let r = match p {
                "oeq" => x == y,
                "one" => !un && x != y,
                "ogt" => x > y,
                "oge" => x >= y,
                "olt" => x < y,
                "ole" => x <= y,
                "ord" => !un,
                "uno" => un,
                "ueq" => un || x == y,
                "une" => x != y,
                "ugt" => un || x > y,
                "uge" => un || x >= y,
                "ult" => un || x < y,
                "ule" => un || x <= y,
                "true" => true,
                _ => false,
            };
            return Ok(V::I(r as u64));
        }
        let _ = st;
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let ar = &mut self.ar;
        let (mant, inf) = if w == 32 { (31u8, 0x7f80_0000u128) } else { (63u8, 0x7ff0_0000_0000_0000u128) };
        let mag = |ar: &mut Arena, e: E| ar.extract(e, 0, mant);
        let (mx, my) = (mag(ar, x), mag(ar, y));
        let infc = ar.c(inf, mant);
        let nx = ar.cmp(C::Ult, infc, mx);
        let ny = ar.cmp(C::Ult, infc, my);
        let un = ar.or(nx, ny);
        let zx = ar.eqk(mx, 0);
        let zy = ar.eqk(my, 0);
        let bz = ar.and(zx, zy);
        let bits = ar.eq(x, y);
        let eqb = ar.or(bits, bz);
        let ord = ar.not(un);
        let eq = ar.and(ord, eqb);
        // less-than over sign/magnitude
        let sxb = ar.extract(x, w - 1, 1);
        let syb = ar.extract(y, w - 1, 1);
        let ltm = ar.cmp(C::Ult, mx, my);
        let gtm = ar.cmp(C::Ult, my, mx);
        let nsy = ar.not(syb);
        let neg_case = {
            let t = ar.not(bz);
            ar.ite(syb, gtm, t)
        };
        let pos_case = ar.and(nsy, ltm);
        let ltb = ar.ite(sxb, neg_case, pos_case);
        let lt = ar.and(ord, ltb);
        let neq = ar.not(eq);
        let r = match p {
            "oeq" => eq,
            "one" => ar.and(ord, neq),
            "olt" => lt,
            "ole" => ar.or(lt, eq),
            "ogt" => {
                let o = ar.or(lt, eq);
                let n = ar.not(o);
                ar.and(ord, n)
            }
            "oge" => {
                let n = ar.not(lt);
                ar.and(ord, n)
            }
            "ord" => ord,
            "uno" => un,
            "ueq" => ar.or(un, eq),
            "une" => neq,
            "ult" => ar.or(un, lt),
            "ule" => {
                let o = ar.or(lt, eq);
                ar.or(un, o)
            }
            "ugt" => {
                let o = ar.or(lt, eq);
                ar.not(o)
            }
            "uge" => ar.not(lt),
            "true" => ar.tt(),
            _ => ar.ff(),
        };
        Ok(norm(ar, r))
    }

    fn cast(&mut self, st: &mut State, k: CastK, fw: u8, tw: u8, x: V) -> R<V> {
        Ok(match k {
            CastK::Trunc => match x {
                V::I(v) => V::I(v & mask(tw) as u64),
                V::S(e) => {
                    let e = self.ar.trunc(e, tw);
                    norm(&self.ar, e)
                }
            },
            CastK::ZExt => match x {
                V::I(v) if tw <= 64 => V::I(v),
                x => {
                    let e = self.ex(x, fw);
                    let e = self.ar.zext(e, tw);
                    norm(&self.ar, e)
                }
            },
            CastK::SExt => match x {
                V::I(v) if tw <= 64 => {
                    let sh = 64 - fw as u32;
                    V::I((((v << sh) as i64) >> sh) as u64 & mask(tw) as u64)
                }
                x => {
                    let e = self.ex(x, fw);
                    let e = self.ar.sext(e, tw);
                    norm(&self.ar, e)
                }
            },
            CastK::FpExt => {
                let v = self.conc(st, x, "float")?;
                V::I((f32::from_bits(v as u32) as f64).to_bits())
            }
            CastK::FpTrunc => {
                let v = self.conc(st, x, "float")?;
                V::I((f64::from_bits(v) as f32).to_bits() as u64)
            }
            CastK::FpToUi | CastK::FpToSi => {
                let v = self.conc(st, x, "float")?;
                let f = fbits(fw, v);
                let r = if k == CastK::FpToUi { f as u128 } else { f as i128 as u128 };
                V::I((r & mask(tw)) as u64)
            }
            CastK::UiToFp | CastK::SiToFp => {
                let v = self.conc(st, x, "float")?;
                let f = if k == CastK::UiToFp { v as f64 } else { sx(v as u128, fw) as i64 as f64 };
                let f32v = if k == CastK::UiToFp { v as f32 } else { sx(v as u128, fw) as i64 as f32 };
                V::I(if tw == 32 { f32v.to_bits() as u64 } else { f.to_bits() })
            }
        })
    }

    fn switch(&mut self, st: &mut State, x: E, _w: u8, groups: &[(Vec<u128>, u32)], def: u32) -> R<u32> {
        if let Some(k) = self.known_val(st, x) {
            return Ok(groups.iter().find(|g| g.0.contains(&k)).map(|g| g.1).unwrap_or(def));
        }
        loop {
            // all groups already decided?
            let mut undecided = false;
            for g in groups.iter() {
                let c = self.group_cond(x, &g.0);
                match self.known_val(st, c) {
                    Some(1) => return Ok(g.1),
                    Some(_) => {}
                    None => undecided = true,
                }
            }
            if !undecided {
                return Ok(def);
            }
            let none = {
                let all: Vec<u128> = groups.iter().flat_map(|g| g.0.iter().copied()).collect();
                let c = self.group_cond(x, &all);
                self.ar.not(c)
            };
            if let Some(1) = self.known_val(st, none) {
                return Ok(def);
            }
            // candidate: the group of the model value
            let cand = self.hint_with(st, |s, st| {
                let k = s.eval(st, x);
                groups.iter().position(|g| g.0.contains(&k)).map(|i| i as u64).unwrap_or(u64::MAX)
            })?;
            if cand == u64::MAX {
                if self.decide(st, none)? {
                    return Ok(def);
                }
            } else {
                let c = self.group_cond(x, &groups[cand as usize].0);
                if self.decide(st, c)? {
                    return Ok(groups[cand as usize].1);
                }
            }
        }
    }

    fn group_cond(&mut self, x: E, ks: &[u128]) -> E {
        let mut v = ks.to_vec();
        v.sort();
        let w = self.ar.w(x);
        let mut r = self.ar.ff();
        let mut i = 0;
        while i < v.len() {
            let mut j = i;
            while j + 1 < v.len() && v[j + 1] == v[j] + 1 {
                j += 1;
            }
            let c = if j - i < 2 {
                let mut c = self.ar.eqk(x, v[i]);
                if j > i {
                    let d = self.ar.eqk(x, v[j]);
                    c = self.ar.or(c, d);
                }
                c
            } else {
                let lo = self.ar.c(v[i], w);
                let hi = self.ar.c(v[j], w);
                let a = self.ar.cmp(C::Ule, lo, x);
                let b = self.ar.cmp(C::Ule, x, hi);
                self.ar.and(a, b)
            };
            r = self.ar.or(r, c);
            i = j + 1;
        }
        r
    }

    // ---------------------------------------------------------------- calls

    fn enter(&mut self, st: &mut State, fi: u32, args: Vec<V>, dst: u32) -> R<CallR> {
        if st.stack.len() > self.max_depth {
            return Err(Stop::Violation("stack".into(), "call depth limit exceeded".into()));
        }
        let f = self.func(fi);
        let mut regs = vec![V::I(0); f.nregs as usize];
        regs[..args.len()].copy_from_slice(&args);
        let fr = Frame { f, fidx: fi, pc: 0, regs, dst, allocas: vec![] };
        let old = std::mem::replace(&mut st.cur, fr);
        st.stack.push(Rc::new(old));
        Ok(CallR::Entered)
    }

    fn call(&mut self, st: &mut State, ci: &CallI) -> R<CallR> {
        let mut target = None;
        let mut name: Option<&str> = None;
        match &ci.callee {
            Callee::Asm => return Ok(CallR::Value(None)),
            Callee::Direct(f) => target = Some(*f),
            Callee::Ext(n) => name = Some(n),
            Callee::Intr(n) => return self.intrinsic(st, n, ci),
            Callee::Ind(o) => {
                let v = self.get(st, *o);
                let a = self.conc(st, v, "function pointer")?;
                let id = a >> 32;
                if id < FN_ID0 || (id - FN_ID0) as usize >= self.m.funcs.len() || a & 0xffff_ffff != 0 {
                    return Err(Stop::Violation("memory".into(), "call through an invalid function pointer".into()));
                }
                let fi = (id - FN_ID0) as u32;
                if self.m.funcs[fi as usize].body.is_some() {
                    target = Some(fi);
                } else {
                    name = Some(&self.m.funcs[fi as usize].name);
                }
            }
        }
        if let Some(fi) = target {
            let args: Vec<V> = ci.args.iter().map(|(o, _)| self.get(st, *o)).collect();
            return self.enter(st, fi, args, ci.dst);
        }
        self.external(st, name.unwrap(), ci)
    }

    fn arg(&self, st: &State, ci: &CallI, i: usize) -> V {
        self.get(st, ci.args[i].0)
    }
    fn carg(&mut self, st: &mut State, ci: &CallI, i: usize, why: &str) -> R<u64> {
        let v = self.arg(st, ci, i);
        self.conc(st, v, why)
    }

    fn read_str(&mut self, st: &mut State, p: u64, n: u64) -> R<String> {
        let o = st.mem.check(p, n).map_err(|e| self.memerr(e))?;
        let off = (p & 0xffff_ffff) as usize;
        Ok(String::from_utf8_lossy(&o.data[off..off + n as usize]).into_owned())
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let o = st.mem.check(s, n).map_err(|e| self.memerr(e))?;
        let so = (s & 0xffff_ffff) as usize;
        let n = n as usize;
        let data = o.data[so..so + n].to_vec();
        let sym: Option<Vec<E>> = o.sym.as_ref().map(|x| x[so..so + n].to_vec());
        let sym = sym.filter(|v| v.iter().any(|&e| e != 0));
        let o = st.mem.check_mut(d, n as u64).map_err(|e| self.memerr(e))?;
        let dof = (d & 0xffff_ffff) as usize;
        o.data[dof..dof + n].copy_from_slice(&data);
        let size = o.size as usize;
        match sym {
            Some(v) => {
                let s = o.sym.get_or_insert_with(|| vec![0; size].into_boxed_slice());
                s[dof..dof + n].copy_from_slice(&v);
            }
            None => {
                if let Some(s) = &mut o.sym {
                    for e in &mut s[dof..dof + n] {
                        *e = 0;
                    }
                }
            }
        }
        Ok(())
    }

    fn set(&mut self, st: &mut State, d: u64, v: V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let ar = &self.ar;
        let o = match st.mem.check_mut(d, n) {
            Ok(o) => o,
            Err(e) => return Err(self.memerr(e)),
        };
        let dof = (d & 0xffff_ffff) as usize;
        let n = n as usize;
        match v {
            V::I(x) => {
                for b in &mut o.data[dof..dof + n] {
                    *b = x as u8;
                }
                if let Some(s) = &mut o.sym {
                    for e in &mut s[dof..dof + n] {
                        *e = 0;
                    }
                }
            }
            V::S(e) => {
                let size = o.size as usize;
                for i in 0..n {
                    o.set_byte_e(ar, dof + i, e, size);
                }
            }
        }
        Ok(())
    }

    /// concretise an address used by a bulk operation
    fn baddr(&mut self, st: &mut State, ci: &CallI, i: usize, n: u64) -> R<u64> {
        let v = self.arg(st, ci, i);
        if n == 0 {
            return match v {
                V::I(a) => Ok(a),
                V::S(_) => Ok(0),
            };
        }
        self.addr(st, v, n)
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, ci: &CallI) -> R<CallR> {
        let base = n.strip_prefix("llvm.").unwrap();
        let val = |v: V| Ok(CallR::Value(Some(v)));
        let w = ci.args.first().map(|a| a.1).unwrap_or(0);
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            let n = self.carg(st, ci, 2, "memcpy length")?;
            let d = self.baddr(st, ci, 0, n)?;
            let s = self.baddr(st, ci, 1, n)?;
            self.copy(st, d, s, n)?;
            return Ok(CallR::Value(None));
        }
        if base.starts_with("memset") {
            let n = self.carg(st, ci, 2, "memset length")?;
            let d = self.baddr(st, ci, 0, n)?;
            let v = self.arg(st, ci, 1);
            self.set(st, d, v, n)?;
            return Ok(CallR::Value(None));
        }
        let a = if !ci.args.is_empty() { self.arg(st, ci, 0) } else { V::I(0) };
        if base.starts_with("umin") || base.starts_with("umax") || base.starts_with("smin") || base.starts_with("smax") {
            let b = self.arg(st, ci, 1);
            let p = match &base[..4] {
                "umin" => Pred::Ult,
                "umax" => Pred::Ugt,
                "smin" => Pred::Slt,
                _ => Pred::Sgt,
            };
            let c = self.icmp(p, w, a, b);
            return val(self.select(c, w, a, b));
        }
        if base.starts_with("usub.sat") || base.starts_with("uadd.sat") {
            let b = self.arg(st, ci, 1);
            if base.starts_with("usub") {
                let d = self.bin(st, BinK::Sub, w, a, b)?;
                let c = self.icmp(Pred::Ult, w, a, b);
                return val(self.select(c, w, V::I(0), d));
            }
            let s = self.bin(st, BinK::Add, w, a, b)?;
            let c = self.icmp(Pred::Ult, w, s, a);
            return val(self.select(c, w, V::I(mask(w) as u64), s));
        }
        if base.contains(".with.overflow") {
            let b = self.arg(st, ci, 1);
            let x = self.ex(a, w);
            let y = self.ex(b, w);
            let (r, o);
            if w > 64 && !base.starts_with("uadd") && !base.starts_with("usub") {
                return Err(Stop::Incomplete(format!("wide {}", base)));
            }
            if base.starts_with("uadd") {
                let s = self.ar.bin(B::Add, x, y);
                o = self.ar.cmp(C::Ult, s, x);
                r = s;
            } else if base.starts_with("usub") {
                r = self.ar.sub(x, y);
                o = self.ar.cmp(C::Ult, x, y);
            } else if base.starts_with("umul") {
                let (x2, y2) = (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w));
                let p = self.ar.bin(B::Mul, x2, y2);
                r = self.ar.trunc(p, w);
                let h = self.ar.extract(p, w, w);
                let z = self.ar.eqk(h, 0);
                o = self.ar.not(z);
            } else {
                let ww = if base.starts_with("smul") { 2 * w } else { (w + 1).min(128) };
                let (x2, y2) = (self.ar.sext(x, ww), self.ar.sext(y, ww));
                let p = if base.starts_with("sadd") {
                    self.ar.bin(B::Add, x2, y2)
                } else if base.starts_with("ssub") {
                    self.ar.sub(x2, y2)
                } else {
                    self.ar.bin(B::Mul, x2, y2)
                };
                r = self.ar.trunc(p, w);
                let back = self.ar.sext(r, ww);
                let z = self.ar.eq(back, p);
                o = self.ar.not(z);
            }
            let (r, o) = (norm(&self.ar, r), norm(&self.ar, o));
            return Ok(CallR::Values(vec![r, o]));
        }
        if base.starts_with("cttz") || base.starts_with("ctlz") || base.starts_with("ctpop") {
            if let V::I(x) = a {
                let r = if base.starts_with("cttz") {
                    if x == 0 {
                        w as u64
                    } else {
                        x.trailing_zeros() as u64
                    }
                } else if base.starts_with("ctlz") {
                    x.leading_zeros() as u64 - (64 - w as u64)
                } else {
                    x.count_ones() as u64
                };
                return val(V::I(r));
            }
            let x = self.ex(a, w);
            let mut r;
            if base.starts_with("ctpop") {
                r = self.ar.c(0, w);
                for i in 0..w {
                    let b = self.ar.extract(x, i, 1);
                    let b = self.ar.zext(b, w);
                    r = self.ar.bin(B::Add, r, b);
                }
            } else {
                r = self.ar.c(w as u128, w);
                let it: Vec<u8> = if base.starts_with("cttz") { (0..w).rev().collect() } else { (0..w).collect() };
                for i in it {
                    let b = self.ar.extract(x, i, 1);
                    let k = if base.starts_with("cttz") { i } else { w - 1 - i };
                    let kc = self.ar.c(k as u128, w);
                    r = self.ar.ite(b, kc, r);
                }
            }
            return val(norm(&self.ar, r));
        }
        if base.starts_with("fshl") || base.starts_with("fshr") {
            let b = self.arg(st, ci, 1);
            let s = self.carg(st, ci, 2, "funnel shift")? % w as u64;
            let x = self.ex(a, w);
            let y = self.ex(b, w);
            let sh = if base.starts_with("fshl") { s as u8 } else { ((w as u64 - s) % w as u64) as u8 };
            // fshl by sh; fshr by s equals fshl by w - s, except s = 0 selects the low operand
            let r = if base.starts_with("fshr") && s == 0 {
                y
            } else if sh == 0 {
                x
            } else {
                let h = self.ar.extract(x, 0, w - sh);
                let l = self.ar.extract(y, w - sh, sh);
                self.ar.concat(h, l)
            };
            return val(norm(&self.ar, r));
        }
        if base.starts_with("bswap") {
            let x = self.ex(a, w);
            let mut r = self.ar.extract(x, 0, 8);
            for i in 1..w / 8 {
                let b = self.ar.extract(x, i * 8, 8);
                r = self.ar.concat(r, b);
            }
            return val(norm(&self.ar, r));
        }
        if base.starts_with("bitreverse") {
            let x = self.ex(a, w);
            let mut r = self.ar.extract(x, 0, 1);
            for i in 1..w {
                let b = self.ar.extract(x, i, 1);
                r = self.ar.concat(r, b);
            }
            return val(norm(&self.ar, r));
        }
        if base.starts_with("abs") {
            let z = self.bin(st, BinK::Sub, w, V::I(0), a)?;
            let c = self.icmp(Pred::Slt, w, a, V::I(0));
            return val(self.select(c, w, z, a));
        }
        if base.starts_with("ucmp") || base.starts_with("scmp") {
            let b = self.arg(st, ci, 1);
            let rw = ci.ret[0];
            let p = if base.starts_with("ucmp") { Pred::Ult } else { Pred::Slt };
            let lt = self.icmp(p, w, a, b);
            let eq = self.icmp(Pred::Eq, w, a, b);
            let r = self.select(eq, rw, V::I(0), V::I(1));
            let m1 = V::I(mask(rw) as u64);
            return val(self.select(lt, rw, m1, r));
        }
        if base.starts_with("fabs") {
            return val(self.bin(st, BinK::And, w, a, V::I(mask(w - 1) as u64))?);
        }
        if base.starts_with("fptosi.sat") || base.starts_with("fptoui.sat") {
            let x = self.conc(st, a, "float")?;
            let f = fbits(w, x);
            let rw = ci.ret[0];
            let r: i128 = if base.starts_with("fptosi") {
                let hi = (1i128 << (rw - 1)) - 1;
                (f as i128).clamp(-hi - 1, hi)
            } else {
                (f as u128).min(mask(rw)) as i128
            };
            return val(V::I((r as u128 & mask(rw)) as u64));
        }
        if base.starts_with("copysign") || base.starts_with("floor") || base.starts_with("trunc.") || base.starts_with("ceil") || base.starts_with("sqrt") {
            return Err(Stop::Incomplete(format!("unsupported intrinsic {}", n)));
        }
        if base.starts_with("threadlocal.address") || base.starts_with("expect") || base.starts_with("launder") || base.starts_with("strip.invariant") || base.starts_with("ptrmask") {
            if base.starts_with("ptrmask") {
                let b = self.arg(st, ci, 1);
                return val(self.bin(st, BinK::And, 64, a, b)?);
            }
            return val(a);
        }
        if base.starts_with("is.constant") || base.starts_with("objectsize") {
            return val(V::I(0));
        }
        if base.starts_with("trap") || base.starts_with("ubsantrap") {
            return Err(Stop::Violation("trap".into(), "trap".into()));
        }
        if base.starts_with("va_") || base.starts_with("stack") || base.starts_with("sideeffect") || base.starts_with("invariant") {
            return Ok(CallR::Value(Some(V::I(0)).filter(|_| !ci.ret.is_empty())));
        }
        Err(Stop::Incomplete(format!("unsupported intrinsic {}", n)))
    }

    fn fresh(&mut self, st: &mut State, name: &str, w: u8) -> (VarId, E) {
        let pos = st.syms.len() as u32;
        let (v, e) = self.ar.var(pos, w, name);
        st.syms.push(v);
        (v, e)
    }

    fn assert_(&mut self, st: &mut State, c: V, kind: &str, msg: String) -> R<()> {
        match c {
            V::I(x) => {
                self.stats.assert_concrete += 1;
                if x & 1 == 1 {
                    Ok(())
                } else {
                    Err(Stop::Violation(kind.into(), msg))
                }
            }
            V::S(e) => {
                if self.replaying(st) {
                    return Ok(());
                }
                if st.known.get(e) == Some(1) {
                    return Ok(());
                }
                let ne = self.ar.not(e);
                let mut conj = self.slice(st, ne);
                conj.push(ne);
                if let Some(r) = self.cache.get(&conj).cloned() {
                    self.stats.q_cache += 1;
                    return match r {
                        None => Ok(()),
                        Some(m) => {
                            self.set_model(st, &m);
                            Err(Stop::Violation(kind.into(), msg))
                        }
                    };
                }
                self.stats.q_assert += 1;
                match self.z3_check(&conj) {
                    Res::Unsat => {
                        self.cache.insert(conj, None);
                        Ok(())
                    }
                    Res::Sat(m) => {
                        self.set_model(st, &m);
                        Err(Stop::Violation(kind.into(), msg))
                    }
                    Res::Unknown => {
                        self.note_incomplete("assertion: solver unknown");
                        Ok(())
                    }
                }
            }
        }
    }

    fn assume(&mut self, st: &mut State, c: V) -> R<()> {
        match c {
            V::I(x) => {
                if x & 1 == 1 {
                    Ok(())
                } else {
                    Err(Stop::Assume)
                }
            }
            V::S(e) => {
                if let Some(k) = st.known.get(e) {
                    return if k == 1 { Ok(()) } else { Err(Stop::Assume) };
                }
                if self.replaying(st) || self.eval(st, e) == 1 {
                    self.add(st, e);
                    return Ok(());
                }
                match self.feasible(st, e) {
                    Ok(Some(m)) => {
                        self.add(st, e);
                        self.set_model(st, &m);
                        Ok(())
                    }
                    Ok(None) => Err(Stop::Assume),
                    Err(()) => Err(Stop::Incomplete("assume: solver unknown".into())),
                }
            }
        }
    }

    fn do_alloc(&mut self, st: &mut State, size: u64) -> R<u64> {
        st.alloc_live += size;
        st.alloc_total += size;
        st.alloc_peak = st.alloc_peak.max(st.alloc_live);
        if size > 1 << 26 {
            return Err(Stop::Violation("alloc".into(), "allocation of more than 64 MiB".into()));
        }
        Ok(st.mem.alloc(size, true))
    }

    fn do_free(&mut self, st: &mut State, p: u64) -> R<()> {
        let o = st.mem.get(p).map_err(|e| self.memerr(e))?;
        if !o.heap || p & 0xffff_ffff != 0 {
            return Err(Stop::Violation("memory".into(), "free of a non-heap pointer".into()));
        }
        st.alloc_live = st.alloc_live.saturating_sub(o.size as u64);
        st.mem.remove((p >> 32) as u32);
        Ok(())
    }

    /// allocation size: symbolic sizes are first checked against the harness limit
    fn alloc_size(&mut self, st: &mut State, v: V) -> R<u64> {
        if let V::S(e) = v {
            if self.known_val(st, e).is_none() {
                let lim = st.alloc_limit.min(1 << 26);
                let l = self.ar.c(lim as u128, 64);
                let big = self.ar.cmp(C::Ult, l, e);
                if self.decide(st, big)? {
                    return Err(Stop::Violation("alloc".into(), format!("allocation larger than {} bytes", lim)));
                }
            }
        }
        let s = self.conc(st, v, "allocation size")?;
        if s > st.alloc_limit {
            return Err(Stop::Violation("alloc".into(), format!("allocation larger than {} bytes", st.alloc_limit)));
        }
        Ok(s)
    }

    fn external(&mut self, st: &mut State, n: &str, ci: &CallI) -> R<CallR> {
        let none = Ok(CallR::Value(None));
        let val = |v: u64| Ok(CallR::Value(Some(V::I(v))));
        match n {
            "sym_u" => {
                // (width, name ptr, name len) -> u64
                let w = self.carg(st, ci, 0, "sym")? as u8;
                let p = self.carg(st, ci, 1, "sym")?;
                let l = self.carg(st, ci, 2, "sym")?;
                let name = self.read_str(st, p, l)?;
                let (_, e) = self.fresh(st, &name, w);
                let e = self.ar.zext(e, 64);
                Ok(CallR::Value(Some(V::S(e))))
            }
            "sym_bytes" => {
                let d = self.carg(st, ci, 0, "sym")?;
                let cnt = self.carg(st, ci, 1, "sym")?;
                let p = self.carg(st, ci, 2, "sym")?;
                let l = self.carg(st, ci, 3, "sym")?;
                let name = self.read_str(st, p, l)?;
                for i in 0..cnt {
                    let (_, e) = self.fresh(st, &format!("{}[{}]", name, i), 8);
                    if let Err(x) = st.mem.write(&mut self.ar, d + i, 8, V::S(e)) {
                        return Err(self.memerr(x));
                    }
                }
                none
            }
            "sym_choice" => {
                // (n, name, len) -> concrete value below n
                // the variable is created once; the instruction is re-executed after a fork
                let k = self.carg(st, ci, 0, "choice")?;
                let p = self.carg(st, ci, 1, "sym")?;
                let l = self.carg(st, ci, 2, "sym")?;
                if k <= 1 {
                    return val(0);
                }
                let name = self.read_str(st, p, l)?;
                let w = if k <= 256 { 8 } else { 16 };
                // the instruction is re-executed in forked states: create the variable once
                let e = match st.choice {
                    Some(e) => e,
                    None => {
                        let (v, e) = self.fresh(st, &name, w);
                        if k < 1 << w {
                            let kc = self.ar.c(k as u128, w);
                            let c = self.ar.cmp(C::Ult, e, kc);
                            if !self.replaying(st) && self.eval(st, c) != 1 {
                                self.set_model(st, &[(v, 0)]);
                            }
                            self.add(st, c);
                        }
                        st.choice = Some(e);
                        e
                    }
                };
                let x = self.conc_n(st, V::S(e), "choice", 1 << 16)?;
                st.choice = None;
                val(x)
            }
            "sym_assume" => {
                let c = self.arg(st, ci, 0);
                let c = self.to_bool(c, ci.args[0].1);
                self.assume(st, c)?;
                none
            }
            "sym_assert" => {
                let c = self.arg(st, ci, 0);
                let c = self.to_bool(c, ci.args[0].1);
                let p = self.carg(st, ci, 1, "sym")?;
                let l = self.carg(st, ci, 2, "sym")?;
                let msg = self.read_str(st, p, l)?;
                self.assert_(st, c, "assert", msg)?;
                none
            }
            "sym_cover" => {
                let p = self.carg(st, ci, 0, "sym")?;
                let l = self.carg(st, ci, 1, "sym")?;
                let msg = self.read_str(st, p, l)?;
                if !st.covers.contains(&msg) {
                    Rc::make_mut(&mut st.covers).push(msg);
                }
                none
            }
            "sym_log" => {
                let v = self.arg(st, ci, 0);
                st.log.push(v);
                none
            }
            "sym_conc" => {
                let v = self.arg(st, ci, 0);
                let x = self.conc(st, v, "sym_conc")?;
                val(x)
            }
            "sym_is_symbolic" => {
                let v = self.arg(st, ci, 0);
                val(matches!(v, V::S(_)) as u64)
            }
            "sym_running" => val(1),
            "sym_stop" => Err(Stop::Done),
            "sym_alloc_reset" => {
                let lim = self.carg(st, ci, 0, "sym")?;
                st.alloc_peak = st.alloc_live;
                st.alloc_limit = if lim == 0 { u64::MAX } else { lim };
                val(st.alloc_live)
            }
            "sym_alloc_peak" => val(st.alloc_peak),
            "rsym_alloc" => {
                let v = self.arg(st, ci, 0);
                let s = self.alloc_size(st, v)?;
                let a = self.do_alloc(st, s)?;
                val(a)
            }
            "rsym_dealloc" | "free" => {
                let p = self.carg(st, ci, 0, "free")?;
                if n == "free" && p == 0 {
                    return none;
                }
                self.do_free(st, p)?;
                none
            }
            "rsym_realloc" => {
                let p = self.carg(st, ci, 0, "realloc")?;
                let old = self.carg(st, ci, 1, "realloc")?;
                let v = self.arg(st, ci, 3);
                let new = self.alloc_size(st, v)?;
                let a = self.do_alloc(st, new)?;
                self.copy(st, a, p, old.min(new))?;
                self.do_free(st, p)?;
                val(a)
            }
            "malloc" => {
                let v = self.arg(st, ci, 0);
                let s = self.alloc_size(st, v)?;
                let a = self.do_alloc(st, s)?;
                val(a)
            }
            "calloc" => {
                let x = self.carg(st, ci, 0, "calloc")?;
                let y = self.carg(st, ci, 1, "calloc")?;
                let a = self.do_alloc(st, x * y)?;
                val(a)
            }
            "rsym_panic" => {
                let f = self.carg(st, ci, 0, "panic")?;
                let fl = self.carg(st, ci, 1, "panic")?;
                let line = self.carg(st, ci, 2, "panic")?;
                let p = self.carg(st, ci, 3, "panic")?;
                let l = self.carg(st, ci, 4, "panic")?;
                let file = self.read_str(st, f, fl)?;
                let msg = if p != 0 && l > 0 { self.read_str(st, p, l.min(300))? } else { String::new() };
                Err(Stop::Violation("panic".into(), format!("{}:{}: {}", file, line, msg)))
            }
            "rsym_random" => {
                let d = self.carg(st, ci, 0, "random")?;
                let l = self.carg(st, ci, 1, "random")?;
                self.random(st, d, l)?;
                none
            }
            "getrandom" => {
                let d = self.carg(st, ci, 0, "random")?;
                let l = self.carg(st, ci, 1, "random")?;
                self.random(st, d, l)?;
                val(l)
            }
            "rsym_time" => {
                st.time += 1000;
                val(st.time)
            }
            "rsym_injective_hash" => {
                // (ptr, len, out[16]): an injective function of the input bytes
                let p = self.carg(st, ci, 0, "hash")?;
                let l = self.carg(st, ci, 1, "hash")?;
                let out = self.carg(st, ci, 2, "hash")?;
                self.inj_hash(st, p, l, out)?;
                none
            }
            "bcmp" | "memcmp" => {
                let n2 = self.carg(st, ci, 2, "memcmp length")?;
                if n2 == 0 {
                    return val(0);
                }
                let a = self.baddr(st, ci, 0, n2)?;
                let b = self.baddr(st, ci, 1, n2)?;
                let v = self.memcmp(st, a, b, n2, n == "bcmp")?;
                Ok(CallR::Value(Some(v)))
            }
            "memcpy" | "memmove" => {
                let n2 = self.carg(st, ci, 2, "memcpy length")?;
                let d = self.baddr(st, ci, 0, n2)?;
                let s = self.baddr(st, ci, 1, n2)?;
                self.copy(st, d, s, n2)?;
                val(d)
            }
            "memset" => {
                let n2 = self.carg(st, ci, 2, "memset length")?;
                let d = self.baddr(st, ci, 0, n2)?;
                let v = self.arg(st, ci, 1);
                let v = match v {
                    V::I(x) => V::I(x & 0xff),
                    V::S(e) => {
                        let e = self.ar.trunc(e, 8);
                        norm(&self.ar, e)
                    }
                };
                self.set(st, d, v, n2)?;
                val(d)
            }
            "strlen" => {
                let p = self.carg(st, ci, 0, "strlen")?;
                let mut i = 0;
                loop {
                    let v = self.load(st, V::I(p + i), 8, 0)?;
                    let b = self.conc(st, v, "strlen")?;
                    if b == 0 {
                        return val(i);
                    }
                    i += 1;
                }
            }
            "abort" | "_exit" | "exit" => Err(Stop::Violation("abort".into(), "process abort".into())),
            "write" => {
                let fd = self.carg(st, ci, 0, "write")?;
                let p = self.carg(st, ci, 1, "write")?;
                let l = self.carg(st, ci, 2, "write")?;
                if self.verbose {
                    let s = self.read_str(st, p, l)?;
                    eprint!("[fd {}] {}", fd, s);
                }
                val(l)
            }
            "syscall" => {
                let nr = self.carg(st, ci, 0, "syscall")?;
                match nr {
                    278 => {
                        let d = self.carg(st, ci, 1, "random")?;
                        let l = self.carg(st, ci, 2, "random")?;
                        self.random(st, d, l)?;
                        val(l)
                    }
                    98 => Err(Stop::Violation("deadlock".into(), "blocked in futex wait".into())),
                    _ => Err(Stop::Incomplete(format!("syscall {}", nr))),
                }
            }
            "clock_gettime" => {
                let p = self.carg(st, ci, 1, "clock")?;
                st.time += 1000;
                let t = st.time;
                st.mem.write(&mut self.ar, p, 64, V::I(t / 1_000_000_000)).map_err(|e| self.memerr(e))?;
                st.mem.write(&mut self.ar, p + 8, 64, V::I(t % 1_000_000_000)).map_err(|e| self.memerr(e))?;
                val(0)
            }
            "pthread_self" => val(1),
            "pthread_key_create" => {
                let p = self.carg(st, ci, 0, "pthread")?;
                st.mem.write(&mut self.ar, p, 32, V::I(1)).map_err(|e| self.memerr(e))?;
                val(0)
            }
            "pthread_setspecific" | "pthread_key_delete" | "sched_yield" => val(0),
            "pthread_getspecific" | "getenv" => val(0),
            "sysconf" => val(4096),
            "getauxval" => val(0),
            _ => Err(Stop::Incomplete(format!("unsupported external {}", n))),
        }
    }

    fn to_bool(&mut self, v: V, w: u8) -> V {
        match v {
            V::I(x) => V::I(x & 1),
            V::S(e) => {
                let _ = w;
                let e = self.ar.trunc(e, 1);
                norm(&self.ar, e)
            }
        }
    }

    fn random(&mut self, st: &mut State, d: u64, l: u64) -> R<()> {
        for i in 0..l {
            st.rng = st.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let b = (st.rng >> 33) as u8;
            st.mem.write(&mut self.ar, d + i, 8, V::I(b as u64)).map_err(|e| self.memerr(e))?;
        }
        Ok(())
    }

    fn memcmp(&mut self, st: &mut State, a: u64, b: u64, n: u64, eq_only: bool) -> R<V> {
        let (va, vb): (Vec<V>, Vec<V>);
        {
            let oa = st.mem.check(a, n).map_err(|e| self.memerr(e))?;
            let ob = st.mem.check(b, n).map_err(|e| self.memerr(e))?;
            let (ao, bo) = ((a & 0xffff_ffff) as usize, (b & 0xffff_ffff) as usize);
            let n = n as usize;
            if oa.is_conc(ao, n) && ob.is_conc(bo, n) {
                let r = oa.data[ao..ao + n].cmp(&ob.data[bo..bo + n]);
                return Ok(V::I(r as i8 as i32 as u32 as u64));
            }
            va = (0..n).map(|i| oa.read(&mut self.ar, ao + i, 8)).collect();
            vb = (0..n).map(|i| ob.read(&mut self.ar, bo + i, 8)).collect();
        }
        if eq_only {
            let mut r = self.ar.tt();
            for i in 0..n as usize {
                let x = self.ex(va[i], 8);
                let y = self.ex(vb[i], 8);
                let c = self.ar.eq(x, y);
                if self.ar.k(c) == Some(0) {
                    return Ok(V::I(1));
                }
                r = self.ar.and(r, c);
            }
            let nr = self.ar.not(r);
            let e = self.ar.zext(nr, 32);
            return Ok(norm(&self.ar, e));
        }
        let mut r = self.ar.c(0, 32);
        let one = self.ar.c(1, 32);
        let m1 = self.ar.c(0xffff_ffff, 32);
        for i in (0..n as usize).rev() {
            let x = self.ex(va[i], 8);
            let y = self.ex(vb[i], 8);
            let eq = self.ar.eq(x, y);
            let lt = self.ar.cmp(C::Ult, x, y);
            let d = self.ar.ite(lt, m1, one);
            r = self.ar.ite(eq, r, d);
        }
        Ok(norm(&self.ar, r))
    }

    fn inj_hash(&mut self, st: &mut State, p: u64, l: u64, out: u64) -> R<()> {
        let vs: Vec<V> = (0..l).map(|i| self.load(st, V::I(p + i), 8, 0)).collect::<R<Vec<V>>>()?;
        let hashes = st.hashes.clone();
        let mut hit = None;
        for (k, h) in hashes.iter() {
            if k.len() != vs.len() {
                continue;
            }
            let mut c = self.ar.tt();
            for i in 0..vs.len() {
                let x = self.ex(k[i], 8);
                let y = self.ex(vs[i], 8);
                let q = self.ar.eq(x, y);
                c = self.ar.and(c, q);
            }
            if self.decide(st, c)? {
                hit = Some(*h);
                break;
            }
        }
        let h = match hit {
            Some(h) => h,
            None => {
                let n = hashes.len() as u64 + 1;
                let mut h = [0u8; 16];
                h[..8].copy_from_slice(&n.wrapping_mul(0x9e3779b97f4a7c15).to_le_bytes());
                h[8..].copy_from_slice(&n.to_le_bytes());
                Rc::make_mut(&mut st.hashes).push((vs, h));
                h
            }
        };
        for i in 0..16 {
            st.mem.write(&mut self.ar, out + i, 8, V::I(h[i as usize] as u64)).map_err(|e| self.memerr(e))?;
        }
        Ok(())
    }
}

pub enum CallR {
    Entered,
    Value(Option<V>),
    Values(Vec<V>),
}

pub fn ser_model(ar: &Arena, s: &State) -> Vec<(u32, u8, String, u64)> {
    s.syms
        .iter()
        .map(|&v| {
            let i = &ar.varinfo[v as usize];
            (i.pos, i.w, i.name.clone(), *s.model.get(v as usize).unwrap_or(&0))
        })
        .collect()
}
