mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

const SLOTS: usize = 256;
const SLOT: usize = 256 * 1024;

#[repr(C)]
struct Shared {
    idle: AtomicU32,
    lock: AtomicU32,
    stop: AtomicU32,
    head: AtomicU32,
    tail: AtomicU32,
    found: AtomicU32,
    stop_soon: AtomicU32,
    paths: AtomicU64,
    lens: [u32; SLOTS],
    data: [[u8; SLOT]; SLOTS],
}

fn lock(s: &Shared) {
    while s.lock.compare_exchange(0, 1, SeqCst, SeqCst).is_err() {
        std::thread::yield_now();
    }
}
fn unlock(s: &Shared) {
    s.lock.store(0, SeqCst);
}

fn ser(td: &TraceData) -> Vec<u8> {
    let mut o = vec![];
    o.extend((td.trace.len() as u32).to_le_bytes());
    for (v, f) in &td.trace {
        o.push(*f);
        if *f & 4 != 0 {
            o.extend(v.to_le_bytes());
        }
    }
    o.extend((td.model.len() as u32).to_le_bytes());
    for (p, w, n, v) in &td.model {
        o.extend(p.to_le_bytes());
        o.push(*w);
        o.extend((n.len() as u16).to_le_bytes());
        o.extend(n.as_bytes());
        o.extend(v.to_le_bytes());
    }
    o
}

fn de(b: &[u8]) -> TraceData {
    let mut p = 0;
    let mut take = |n: usize| {
        p += n;
        &b[p - n..p]
    };
    let u32f = |x: &[u8]| u32::from_le_bytes(x.try_into().unwrap());
    let u64f = |x: &[u8]| u64::from_le_bytes(x.try_into().unwrap());
    let n = u32f(take(4));
    let mut trace = vec![];
    for _ in 0..n {
        let f = take(1)[0];
        let v = if f & 4 != 0 { u64f(take(8)) } else { 0 };
        trace.push((v, f));
    }
    let n = u32f(take(4));
    let mut model = vec![];
    for _ in 0..n {
        let pos = u32f(take(4));
        let w = take(1)[0];
        let l = u16::from_le_bytes(take(2).try_into().unwrap()) as usize;
        let name = String::from_utf8(take(l).to_vec()).unwrap();
        let v = u64f(take(8));
        model.push((pos, w, name, v));
    }
    TraceData { trace, model }
}

struct Opts {
    ll: String,
    entries: Vec<(String, f64)>,
    jobs: usize,
    out: String,
    max_steps: u64,
    samples: usize,
    verbose: bool,
    stop_on_found: u32,
    prof: bool,
    grace: f64,
}

fn rss_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096 / 1_000_000
}

fn worker(m: &ir::Module, o: &Opts, entry: &str, deadline: Instant, sh: &'static mut Shared, wi: usize, outf: &str) {
    let shp = sh as *mut Shared;
    let sh: &'static Shared = unsafe { &*shp };
    let mut ex = Exec::new(m, deadline);
    ex.max_steps = o.max_steps;
    ex.max_samples = o.samples;
    ex.verbose = o.verbose;
    let jobs = o.jobs as u32;
    if jobs > 1 {
        ex.on_fork = Some(Box::new(move |pend, serm| {
            let q = sh.tail.load(SeqCst).wrapping_sub(sh.head.load(SeqCst));
            let idle = sh.idle.load(SeqCst);
            if idle > q && pend.len() > 1 {
                // donate the oldest pending state
                let td = match &pend[0] {
                    Pending::Live(s) => TraceData { trace: s.trace.iter().copied().collect(), model: serm(s) },
                    Pending::Trace(t) => TraceData { trace: t.trace.clone(), model: t.model.clone() },
                };
                let b = ser(&td);
                if b.len() > SLOT {
                    return false;
                }
                lock(sh);
                let (h, t) = (sh.head.load(SeqCst), sh.tail.load(SeqCst));
                let ok = (t.wrapping_sub(h) as usize) < SLOTS;
                if ok {
                    unsafe {
                        let i = t as usize % SLOTS;
                        (&mut (*shp).data)[i][..b.len()].copy_from_slice(&b);
                        (*shp).lens[i] = b.len() as u32;
                    }
                    sh.tail.store(t.wrapping_add(1), SeqCst);
                }
                unlock(sh);
                if ok {
                    pend.remove(0);
                }
                return ok;
            }
            false
        }));
    }
    if wi == 0 {
        let st = ex.initial(entry).expect("entry function not found");
        ex.pending.push(Pending::Live(Box::new(st)));
    }
    let mut reported = 0;
    let mut n = 0u64;
    let mut deadline = deadline;
    'outer: loop {
        while let Some(p) = ex.pending.pop() {
            if sh.stop_soon.load(SeqCst) == 1 && deadline > Instant::now() + Duration::from_secs_f64(o.grace) {
                deadline = Instant::now() + Duration::from_secs_f64(o.grace);
                ex.deadline = ex.deadline.min(deadline);
            }
            if sh.stop.load(SeqCst) != 0 || Instant::now() > deadline {
                ex.unexplored += 1 + ex.pending.len() as u64;
                ex.pending.clear();
                break;
            }
            let st = match p {
                Pending::Live(s) => *s,
                Pending::Trace(t) => ex.resume(t, entry),
            };
            ex.run_state(st);
            n += 1;
            if n % 64 == 0 && rss_mb() > 3200 {
                // spill live states
                let l = ex.pending.len();
                for i in 0..l {
                    if let Pending::Live(s) = &ex.pending[i] {
                        let td = TraceData { trace: s.trace.iter().copied().collect(), model: ser_model(&ex.ar, s) };
                        ex.pending[i] = Pending::Trace(td);
                    }
                }
                ex.live_cap = 200;
            }
            if ex.found.len() > reported {
                sh.found.fetch_add((ex.found.len() - reported) as u32, SeqCst);
                reported = ex.found.len();
                // some further violations are worth waiting for, but not for long
                deadline = deadline.min(Instant::now() + Duration::from_secs_f64(o.grace));
                ex.deadline = ex.deadline.min(deadline);
                sh.stop_soon.store(1, SeqCst);
                if sh.found.load(SeqCst) >= o.stop_on_found {
                    sh.stop.store(1, SeqCst);
                }
            }
        }
        if jobs == 1 {
            break;
        }
        sh.idle.fetch_add(1, SeqCst);
        loop {
            lock(sh);
            let (h, t) = (sh.head.load(SeqCst), sh.tail.load(SeqCst));
            if h != t {
                let i = h as usize % SLOTS;
                let td = de(&sh.data[i][..sh.lens[i] as usize]);
                sh.head.store(h.wrapping_add(1), SeqCst);
                sh.idle.fetch_sub(1, SeqCst);
                unlock(sh);
                ex.pending.push(Pending::Trace(td));
                continue 'outer;
            }
            let all = sh.idle.load(SeqCst) == jobs;
            unlock(sh);
            if all || sh.stop.load(SeqCst) != 0 || Instant::now() > deadline {
                break 'outer;
            }
            std::thread::sleep(Duration::from_micros(500));
        }
    }
    // results
    let mut f = std::io::BufWriter::new(std::fs::File::create(outf).unwrap());
    let s = &ex.stats;
    let _ = writeln!(
        f,
        "S paths={} assumed={} incomplete={} steps={} forks={} q_z3={} q_assert={} assert_concrete={} q_cache={} q_domain={} q_unknown={} z3_ms={} max_pc={} max_steps={} unexplored={} sat={} unsat={} exprs={}",
        s.paths, s.assumed, s.incomplete, s.steps, s.forks, s.q_z3, s.q_assert, s.assert_concrete, s.q_cache, s.q_domain, s.q_unknown, s.z3_ms as u64, s.max_pc, s.max_steps, ex.unexplored, s.sat, s.unsat, ex.ar.nodes.len()
    );
    for (k, v) in &s.incomplete_reasons {
        let _ = writeln!(f, "I {} {}", v, k);
    }
    for b in &ex.incomplete_bt {
        let _ = writeln!(f, "B {}", b);
    }
    for (k, v) in &ex.covers {
        let _ = writeln!(f, "C {} {}", v, k);
    }
    for i in &ex.covered {
        let _ = writeln!(f, "F {}", m.funcs[*i as usize].name);
    }
    for x in &ex.found {
        let _ = writeln!(f, "V {}\t{}\t{}", x.kind, x.msg.replace(['\n', '\t'], " "), x.bt);
        for (n, w, v) in &x.inputs {
            let _ = writeln!(f, "i {} {} {}", w, v, n);
        }
        let _ = writeln!(f, "E");
    }
    for x in &ex.samples {
        let _ = writeln!(f, "P {}", x.steps);
        for (n, w, v) in &x.inputs {
            let _ = writeln!(f, "i {} {} {}", w, v, n);
        }
        for v in &x.log {
            let _ = writeln!(f, "l {}", v);
        }
        let _ = writeln!(f, "E");
    }
    if o.prof {
        let mut v: Vec<_> = ex.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((fi, pc), n) in v.iter().take(25) {
            let _ = writeln!(f, "K {} {}+{}", n, m.funcs[*fi as usize].name, pc);
        }
    }
    let _ = f.flush();
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

type Inputs = Vec<(String, u8, u64)>;

fn js_inputs(i: &Inputs) -> String {
    let v: Vec<String> = i.iter().map(|(n, w, v)| format!("[{},{},\"{}\"]", js(n), w, v)).collect();
    format!("[{}]", v.join(","))
}

fn run_entry(m: &ir::Module, o: &Opts, entry: &str, secs: f64) -> String {
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(secs);
    let sz = std::mem::size_of::<Shared>();
    let p = unsafe { mmap(std::ptr::null_mut(), sz, 3, 0x21, -1, 0) };
    assert!(p as isize != -1);
    let mut pids = vec![];
    let tmp = format!("{}.{}.tmp", o.out, entry);
    for wi in 0..o.jobs {
        let outf = format!("{}.{}", tmp, wi);
        let _ = std::fs::remove_file(&outf);
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0) };
            let sh: &'static mut Shared = unsafe { &mut *(p as *mut Shared) };
            let r = std::thread::Builder::new().stack_size(1 << 30).spawn_scoped_hack(move || {
                worker(
                    unsafe { &*(m as *const _) },
                    unsafe { &*(o as *const _) },
                    unsafe { &*(entry as *const str) },
                    deadline,
                    sh,
                    wi,
                    &outf,
                )
            });
            unsafe { _exit(if r { 0 } else { 3 }) };
        }
        pids.push(pid);
    }
    let mut crashed = 0;
    for pid in pids {
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        if st != 0 {
            crashed += 1;
            // let the others finish instead of waiting for this worker
            let sh = unsafe { &*(p as *const Shared) };
            sh.idle.fetch_add(1, SeqCst);
        }
    }
    let mut nums: BTreeMap<String, u64> = BTreeMap::new();
    let mut inc: BTreeMap<String, u64> = BTreeMap::new();
    let mut cov: BTreeMap<String, u64> = BTreeMap::new();
    let mut funcs: BTreeSet<String> = BTreeSet::new();
    let mut viol: Vec<(String, String, String, Inputs)> = vec![];
    let mut samples: Vec<(Inputs, Vec<u64>)> = vec![];
    let mut bts: Vec<String> = vec![];
    let mut sites: BTreeMap<String, u64> = BTreeMap::new();
    for wi in 0..o.jobs {
        let f = format!("{}.{}", tmp, wi);
        let s = std::fs::read_to_string(&f).unwrap_or_default();
        let _ = std::fs::remove_file(&f);
        let mut cur_v = false;
        for l in s.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "S" => {
                    for kv in r.split(' ') {
                        let (a, b) = kv.split_once('=').unwrap();
                        let b: u64 = b.parse().unwrap();
                        let e = nums.entry(a.to_string()).or_default();
                        if a.starts_with("max_") {
                            *e = (*e).max(b);
                        } else {
                            *e += b;
                        }
                    }
                }
                "I" => {
                    let (n, x) = r.split_once(' ').unwrap();
                    *inc.entry(x.to_string()).or_default() += n.parse::<u64>().unwrap();
                }
                "C" => {
                    let (n, x) = r.split_once(' ').unwrap();
                    *cov.entry(x.to_string()).or_default() += n.parse::<u64>().unwrap();
                }
                "K" => {
                    let (n, x) = r.split_once(' ').unwrap();
                    *sites.entry(x.to_string()).or_default() += n.parse::<u64>().unwrap();
                }
                "B" => bts.push(r.to_string()),
                "F" => {
                    funcs.insert(r.to_string());
                }
                "V" => {
                    let p: Vec<&str> = r.split('\t').collect();
                    viol.push((p[0].into(), p[1].into(), p[2].into(), vec![]));
                    cur_v = true;
                }
                "P" => {
                    samples.push((vec![], vec![]));
                    cur_v = false;
                }
                "i" => {
                    let p: Vec<&str> = r.splitn(3, ' ').collect();
                    let x = (p[2].to_string(), p[0].parse().unwrap(), p[1].parse().unwrap());
                    if cur_v {
                        viol.last_mut().unwrap().3.push(x);
                    } else {
                        samples.last_mut().unwrap().0.push(x);
                    }
                }
                "l" => samples.last_mut().unwrap().1.push(r.parse().unwrap()),
                _ => {}
            }
        }
    }
    let g = |k: &str| nums.get(k).copied().unwrap_or(0);
    let exhaustive = crashed == 0 && g("unexplored") == 0 && g("incomplete") == 0 && g("q_unknown") == 0 && viol.is_empty();
    let mut seen = BTreeSet::new();
    let v: Vec<String> = viol
        .iter()
        .filter(|v| seen.insert((v.0.clone(), v.1.clone())))
        .map(|(k, ms, bt, i)| format!("{{\"kind\":{},\"msg\":{},\"bt\":{},\"inputs\":{}}}", js(k), js(ms), js(bt), js_inputs(i)))
        .collect();
    let sm: Vec<String> = samples
        .iter()
        .map(|(i, l)| {
            let l: Vec<String> = l.iter().map(|x| format!("\"{}\"", x)).collect();
            format!("{{\"inputs\":{},\"log\":[{}]}}", js_inputs(i), l.join(","))
        })
        .collect();
    let kv = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    let fl: Vec<String> = funcs.iter().map(|x| js(x)).collect();
    let bl: Vec<String> = bts.iter().take(5).map(|x| js(x)).collect();
    format!(
        "{{\"entry\":{},\"exhaustive\":{},\"crashed\":{},\"wall_s\":{:.2},\"stats\":{{{}}},\"incomplete\":{{{}}},\"incomplete_at\":[{}],\"fork_sites\":{{{}}},\"covers\":{{{}}},\"violations\":[{}],\"samples\":[{}],\"functions\":[{}]}}",
        js(entry), exhaustive, crashed, t0.elapsed().as_secs_f64(), kv(&nums), kv(&inc), bl.join(","), kv(&sites), kv(&cov), v.join(","), sm.join(","), fl.join(",")
    )
}

trait SpawnHack {
    fn spawn_scoped_hack<F: FnOnce()>(self, f: F) -> bool;
}
impl SpawnHack for std::thread::Builder {
    fn spawn_scoped_hack<F: FnOnce()>(self, f: F) -> bool {
        struct W<T>(T);
        unsafe impl<T> Send for W<T> {}
        let w = W(f);
        std::thread::scope(|s| {
            self.spawn_scoped(s, move || {
                let w = w;
                (w.0)()
            })
            .unwrap()
            .join()
            .is_ok()
        })
    }
}

fn main() {
    let mut o = Opts {
        ll: String::new(),
        entries: vec![],
        jobs: 8,
        out: "/tmp/rsym.json".into(),
        max_steps: 20_000_000,
        samples: 8,
        verbose: false,
        stop_on_found: 4,
        prof: false,
        grace: 8.0,
    };
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--ll" => o.ll = a.next().unwrap(),
            "--entry" => {
                let s = a.next().unwrap();
                let (n, t) = s.split_once(':').unwrap_or((&s, "60"));
                o.entries.push((n.to_string(), t.parse().unwrap()));
            }
            "--jobs" => o.jobs = a.next().unwrap().parse().unwrap(),
            "--out" => o.out = a.next().unwrap(),
            "--max-steps" => o.max_steps = a.next().unwrap().parse().unwrap(),
            "--samples" => o.samples = a.next().unwrap().parse().unwrap(),
            "--stop-on-found" => o.stop_on_found = a.next().unwrap().parse().unwrap(),
            "--grace" => o.grace = a.next().unwrap().parse().unwrap(),
            "-v" => o.verbose = true,
            "--prof" => o.prof = true,
            _ => panic!("unknown option {}", x),
        }
    }
    let t = Instant::now();
    let m = ir::Module::parse(std::fs::read(&o.ll).expect("cannot read IR"));
    eprintln!("loaded {} functions in {:.2}s", m.funcs.len(), t.elapsed().as_secs_f64());
    let mut res = vec![];
    for (e, s) in &o.entries {
        if !m.fmap.contains_key(e) {
            eprintln!("entry {} not found", e);
            std::process::exit(2);
        }
        let r = run_entry(&m, &o, e, *s);
        res.push(r);
        std::fs::write(&o.out, format!("[{}]", res.join(",\n"))).unwrap();
    }
}
