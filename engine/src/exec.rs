//! Symbolic execution of a WebAssembly module.
use crate::expr::*;
use crate::mem::*;
use crate::wasm::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

pub struct Cfg {
    pub out: String,
    pub procs: i64,
    pub time: u64,
    pub rlimit: u32,
    pub samples: usize,
    pub dump: usize,
    pub trace: bool,
    pub show: bool,
    pub prof: bool,
    pub max_instr: u64,
    /// seconds to go on after the first violation
    pub after: u64,
    pub stop_after: i64,
}

#[derive(Clone, Copy)]
struct Val {
    c: u64,
    e: E,
}
impl Val {
    #[inline]
    fn k(c: u64) -> Val {
        Val { c, e: 0 }
    }
}

#[derive(Clone, Copy)]
struct Frame {
    func: u32,
    pc: u32,
    base: u32,
    ob: u32,
}

#[derive(Clone)]
enum Log {
    U(E, u64), // expression or constant
    C(u32),
    Arr(u64, u32),
    Bytes(Vec<u32>), // variable ids
    Obs(u32, Val),
    Cover(u32),
    Note(String),
}

#[derive(Clone)]
struct State {
    st: Vec<Val>,
    fr: Vec<Frame>,
    globals: Vec<Val>,
    mem: Mem,
    stable: Mem,
    pc: Rc<Vec<E>>,
    refined: Refined,
    pending: E,
    model: Rc<Model>,
    log: Vec<Log>,
    allow_trap: bool,
    instrs: u64,
    arena_len: usize,
    nodes_at: usize,
}

enum Stop {
    Trap(String),
    End,
    Incomplete(String),
}
type R<T> = Result<T, Stop>;

struct Shared {
    tokens: AtomicI64,
    viol: [AtomicI64; 512],
    first_viol: AtomicU64,
}

#[derive(Default)]
struct Res {
    paths: u64,
    ends: u64,
    allowed_traps: u64,
    infeasible: u64,
    instrs: u64,
    forks: u64,
    checks: u64,
    checks_triv: u64,
    checks_solver: u64,
    check_ids: BTreeMap<u32, u64>,
    covers: BTreeMap<u32, u64>,
    notes: BTreeSet<String>,
    incomplete: BTreeMap<String, u64>,
    viols: Vec<String>,
    viol_keys: HashMap<String, u32>,
    samples: Vec<String>,
    nodes: u64,
    assumes: u64,
}

pub struct Exec {
    m: Module,
    cfg: Cfg,
    ctx: Ctx,
    ar: Arena,
    work: Vec<State>,
    res: Res,
    job: String,
    job_idx: usize,
    sh: &'static Shared,
    deadline: std::time::Instant,
    t0: std::time::Instant,
    used: Vec<bool>,
    kind: Vec<u8>, // 0 normal, 1 panic, 2 hash_one
    kids: Vec<i32>,
    prof: HashMap<(u32, u32), (u64, u64)>,
    cur: (u32, u32),
    sample_skip: u64,
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn getpid() -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn run_jobs(m: Module, cfg: Cfg, jobs: Vec<String>) {
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    sh.tokens.store(cfg.procs, Ordering::SeqCst);
    let t0 = std::time::Instant::now();
    let deadline = t0 + std::time::Duration::from_secs(cfg.time);
    let mut kind = vec![0u8; m.funcs.len()];
    for (i, f) in m.funcs.iter().enumerate() {
        let n = &f.name;
        if n.contains("4core9panicking")
            || (n.contains("3std9panicking") && (n.contains("begin_panic") || n.contains("panic_handler") || n.contains("rust_panic") || n.contains("default_hook")))
            || n.contains("rust_begin_unwind")
        {
            kind[i] = 1;
        } else if n.contains("BuildHasher8hash_one") && !n.contains("hash_oneRTymE") {
            kind[i] = 2;
        }
    }
    let nf = m.funcs.len();
    let mut ctx = Ctx::new(cfg.rlimit);
    ctx.slow_ms = std::env::var("SYM_SLOW_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    ctx.dump_left = cfg.dump;
    ctx.deadline = deadline;
    if let Some(x) = std::env::var("SYM_QUERY_S").ok().and_then(|x| x.parse().ok()) {
        ctx.query_s = x;
    }
    crate::expr::install_alarm();
    let mut ex = Exec {
        m,
        ctx,
        ar: Arena::default(),
        work: vec![],
        res: Res::default(),
        job: String::new(),
        job_idx: 0,
        sh,
        deadline,
        t0,
        used: vec![false; nf],
        kind,
        kids: vec![],
        prof: HashMap::new(),
        cur: (0, 0),
        sample_skip: 0,
        cfg,
    };
    let mut kids = vec![];
    for (i, j) in jobs.iter().enumerate() {
        while !take(sh) {
            std::thread::sleep(std::time::Duration::from_millis(3));
        }
        let Some(&f) = ex.m.exports.get(j) else {
            eprintln!("no job {j}");
            std::process::exit(2)
        };
        let p = unsafe { fork() };
        if p == 0 {
            unsafe {
                prctl(1, 9, 0, 0, 0); // die with the parent
                crate::expr::arm(ex.deadline);
            }
            ex.job = j.clone();
            ex.job_idx = i % 512;
            ex.start(f);
            ex.finish_process();
        }
        kids.push((p, j.clone()));
    }
    let mut bad = false;
    for (k, j) in kids {
        let mut s = 0;
        // a worker that does not end by itself is ended, and all below it
        while unsafe { waitpid(k, &mut s, 1) } == 0 {
            let v = sh.first_viol.load(Ordering::SeqCst);
            if std::time::Instant::now() > deadline + std::time::Duration::from_secs(40)
                || (v != 0 && t0.elapsed().as_secs() > v + ex.cfg.after + 40)
            {
                unsafe { kill(k, 9) };
            }
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
        if s != 0 {
            bad = true;
            if s & 0x7f != 0 {
                let why = if s == 14 { "solver time: worker ended".to_string() } else { format!("worker lost (status {s})") };
                let _ = std::fs::write(format!("{}/{j}-{k}-lost.json", ex.cfg.out), format!("{{\"job\":{},\"incomplete\":{{\"{why}\":1}}}}", js(&j)));
            }
        }
    }
    std::process::exit(if bad { 3 } else { 0 });
}

fn take(sh: &Shared) -> bool {
    if sh.tokens.fetch_sub(1, Ordering::SeqCst) > 0 {
        true
    } else {
        sh.tokens.fetch_add(1, Ordering::SeqCst);
        false
    }
}

fn demangle(n: &str) -> String {
    // legible enough: the identifiers of the v0 path
    let b = n.as_bytes();
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' && !(i > 0 && (b[i - 1] == b's')) {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if l > 1 && j + l <= b.len() {
                out.push(n[j..j + l].to_string());
                i = j + l;
                continue;
            }
            i = j;
        } else if b[i] == b's' || b[i] == b'C' {
            // disambiguator: s base62 _
            if b[i] == b's' {
                let mut j = i + 1;
                while j < b.len() && b[j] != b'_' {
                    j += 1;
                }
                i = j + 1;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    out.join("::")
}

impl Exec {
    fn start(&mut self, f: u32) {
        let mut mem = Mem::new(self.m.mem_min as u64 * 65536);
        for (o, d) in &self.m.data {
            mem.write_conc(&self.ar, *o as u64, d);
        }
        let mut s = State {
            st: vec![],
            fr: vec![],
            globals: self.m.globals.iter().map(|&g| Val::k(g)).collect(),
            mem,
            stable: Mem::new(0),
            pc: Default::default(),
            refined: Default::default(),
            pending: 0,
            model: Rc::new(Model::default()),
            log: vec![],
            allow_trap: false,
            instrs: 0,
            arena_len: 0,
            nodes_at: 0,
        };
        self.enter(&mut s, f);
        self.work.push(s);
        while let Some(mut s) = self.work.pop() {
            if self.late() {
                self.inc("time limit".into());
                break;
            }
            if self.sh.viol[self.job_idx].load(Ordering::SeqCst) > self.cfg.stop_after {
                self.inc("stopped after many violations".into());
                break;
            }
            self.ar.regs.truncate(s.arena_len);
            self.ar.memo.clear();
            self.ctx.set_refined(s.refined.clone());
            self.ctx.cur_pc = s.pc.clone();
        self.ctx.cur_model = s.model.clone();
            if s.pending != 0 {
                let p = s.pending;
                s.pending = 0;
                self.ctx.refine(p);
                s.refined = self.ctx.refined.clone();
            }
            self.run_path(s);
        }
    }

    fn inc(&mut self, why: String) {
        *self.res.incomplete.entry(why).or_insert(0) += 1;
    }

    fn give_away(&mut self) {
        if self.work.is_empty() || self.sh.tokens.load(Ordering::Relaxed) <= 0 {
            return;
        }
        if !take(self.sh) {
            return;
        }
        let s = self.work.remove(0);
        let p = unsafe { fork() };
        if p == 0 {
            unsafe {
                prctl(1, 9, 0, 0, 0);
                crate::expr::arm(self.deadline);
            }
            self.work = vec![];
            self.res = Res::default();
            self.kids = vec![];
            self.ctx.stat = Stat::default();
            self.prof.clear();
            self.used.fill(false);
            let nodes0 = self.ctx.nodes.len();
            let _ = nodes0;
            self.work.push(s);
            // run to completion
            while let Some(mut s) = self.work.pop() {
                if self.late() {
                    self.inc("time limit".into());
                    break;
                }
                if self.sh.viol[self.job_idx].load(Ordering::SeqCst) > self.cfg.stop_after {
                    self.inc("stopped after many violations".into());
                    break;
                }
                self.ar.regs.truncate(s.arena_len);
                self.ar.memo.clear();
                self.ctx.set_refined(s.refined.clone());
            self.ctx.cur_pc = s.pc.clone();
        self.ctx.cur_model = s.model.clone();
                if s.pending != 0 {
                    let p = s.pending;
                    s.pending = 0;
                    self.ctx.refine(p);
                    s.refined = self.ctx.refined.clone();
                }
                self.run_path(s);
            }
            self.finish_process();
        }
        self.kids.push(p);
    }

    fn finish_process(&mut self) -> ! {
        let r = &self.res;
        let s = &self.ctx.stat;
        let mut o = String::from("{");
        let mut kv = |k: &str, v: String| {
            if o.len() > 1 {
                o.push(',');
            }
            o.push_str(&format!("\"{k}\":{v}"));
        };
        kv("job", js(&self.job));
        kv("paths", r.paths.to_string());
        kv("completed", r.ends.to_string());
        kv("allowed_traps", r.allowed_traps.to_string());
        kv("infeasible", r.infeasible.to_string());
        kv("instrs", r.instrs.to_string());
        kv("forks", r.forks.to_string());
        kv("checks", r.checks.to_string());
        kv("checks_trivial", r.checks_triv.to_string());
        kv("checks_solver", r.checks_solver.to_string());
        kv("assumes", r.assumes.to_string());
        let m: Vec<String> = r.check_ids.iter().map(|(a, b)| format!("\"{a}\":{b}")).collect();
        kv("check_ids", format!("{{{}}}", m.join(",")));
        let m: Vec<String> = r.covers.iter().map(|(a, b)| format!("\"{a}\":{b}")).collect();
        kv("covers", format!("{{{}}}", m.join(",")));
        kv("queries", s.queries.to_string());
        kv("sat", s.sat.to_string());
        kv("unsat", s.unsat.to_string());
        kv("unknown", s.unknown.to_string());
        kv("int_queries", s.ints.to_string());
        kv("cached", s.cached.to_string());
        kv("solver_s", format!("{:.4}", s.solver_ns as f64 / 1e9));
        kv("max_query_s", format!("{:.4}", s.max_ns as f64 / 1e9));
        kv("nodes", self.ctx.nodes.len().to_string());
        let fns: Vec<String> = self.used.iter().enumerate().filter(|x| *x.1).map(|x| js(&demangle(&self.m.funcs[x.0].name))).collect();
        kv("functions", format!("[{}]", fns.join(",")));
        let m: Vec<String> = r.incomplete.iter().map(|(a, b)| format!("{}:{b}", js(a))).collect();
        kv("incomplete", format!("{{{}}}", m.join(",")));
        kv("violations", format!("[{}]", r.viols.join(",")));
        kv("samples", format!("[{}]", r.samples.join(",")));
        let m: Vec<String> = r.notes.iter().map(|a| js(a)).collect();
        kv("notes", format!("[{}]", m.join(",")));
        o.push('}');
        let pid = unsafe { getpid() };
        let tmp = format!("{}/.{}-{pid}", self.cfg.out, self.job);
        let fin = format!("{}/{}-{pid}.json", self.cfg.out, self.job);
        let mut ok = std::fs::write(&tmp, o).is_ok() && std::fs::rename(&tmp, &fin).is_ok();
        if self.cfg.prof {
            let mut v: Vec<_> = self.prof.iter().map(|(k, v)| (*v, *k)).collect();
            v.sort();
            v.reverse();
            for ((n, ns), (f, pc)) in v.iter().take(25) {
                eprintln!("[{pid}] {n} queries {:.3}s {} @{pc}", *ns as f64 / 1e9, demangle(&self.m.funcs[*f as usize].name));
            }
        }
        self.sh.tokens.fetch_add(1, Ordering::SeqCst);
        for k in &self.kids {
            let mut s = 0;
            unsafe { waitpid(*k, &mut s, 0) };
            if s != 0 {
                ok = false;
                // a lost child means lost paths
                let _ = std::fs::write(format!("{}/{}-{k}-lost.json", self.cfg.out, self.job), format!("{{\"job\":{},\"incomplete\":{{\"{}\":1}}}}", js(&self.job), if s == 14 { "solver time: worker ended".to_string() } else { format!("worker lost (status {s})") }));
            }
        }
        let _ = ok;
        unsafe { _exit(if ok { 0 } else { 3 }) }
    }

    // ---- paths
    fn run_path(&mut self, mut s: State) {
        let i0 = s.instrs;
        let r = self.exec(&mut s);
        self.res.instrs += s.instrs - i0;
        match r {
            Ok(()) => {
                self.res.paths += 1;
                self.res.ends += 1;
                self.sample(&s, false);
            }
            Err(Stop::End) => {
                self.res.infeasible += 1;
            }
            Err(Stop::Incomplete(w)) => {
                self.res.paths += 1;
                let f = self.stack_names(&s);
                if self.cfg.trace {
                    eprintln!("incomplete: {w} at {f}");
                }
                self.inc(format!("{w} at {f}"));
            }
            Err(Stop::Trap(w)) => {
                self.res.paths += 1;
                if s.allow_trap {
                    self.res.allowed_traps += 1;
                    self.sample(&s, true);
                } else {
                    let f = self.stack_names(&s);
                    self.violation(&s, "trap", 0, &format!("{w}: {f}"), s.model.clone());
                }
            }
        }
    }

    fn stack_names(&self, s: &State) -> String {
        let v: Vec<String> = s
            .fr
            .iter()
            .rev()
            .filter(|f| {
                let n = &self.m.funcs[f.func as usize].name;
                n.contains("stable_fs") || n.contains("stable_structures") || n.contains("harness") || !n.starts_with("_R")
            })
            .take(6)
            .map(|f| demangle(&self.m.funcs[f.func as usize].name))
            .collect();
        v.join(" <- ")
    }

    fn val_under(&self, v: &Val, m: &Model) -> u64 {
        if v.e == 0 {
            v.c
        } else {
            self.ctx.eval(v.e, m)
        }
    }

    fn inputs(&self, s: &State, m: &Model) -> String {
        let mut o = vec![];
        for l in &s.log {
            match l {
                Log::U(e, c) => {
                    let v = if *e == 0 { *c } else { self.ctx.eval(*e, m) };
                    o.push(format!("\"u {v}\""));
                }
                Log::C(v) => o.push(format!("\"c {v}\"")),
                Log::Arr(len, a) => {
                    let mut t = format!("b {len}");
                    if let Some(x) = m.arrs.get(a) {
                        let mut k: Vec<_> = x.iter().collect();
                        k.sort();
                        for (i, v) in k {
                            if i < len && *v != 0 {
                                t.push_str(&format!(" {i}:{v}"));
                            }
                        }
                    }
                    o.push(format!("\"{t}\""));
                }
                Log::Bytes(ids) => {
                    let mut t = format!("b {}", ids.len());
                    for (i, id) in ids.iter().enumerate() {
                        let v = m.vars.get(id).copied().unwrap_or(0);
                        if v != 0 {
                            t.push_str(&format!(" {i}:{v}"));
                        }
                    }
                    o.push(format!("\"{t}\""));
                }
                _ => {}
            }
        }
        format!("[{}]", o.join(","))
    }
    fn outputs(&self, s: &State, m: &Model) -> String {
        let mut o = vec![];
        for l in &s.log {
            match l {
                Log::Obs(id, v) => o.push(format!("\"o {id} {}\"", self.val_under(v, m))),
                Log::Cover(c) => o.push(format!("\"cover {c}\"")),
                Log::Note(t) => o.push(js(&format!("note {t}"))),
                _ => {}
            }
        }
        format!("[{}]", o.join(","))
    }

    fn sample(&mut self, s: &State, trap: bool) {
        // keep a spread of the paths: always the first ones, then thin out
        self.sample_skip += 1;
        let n = self.sample_skip;
        if self.res.samples.len() >= self.cfg.samples {
            if n & (n - 1) != 0 || self.cfg.samples == 0 {
                return;
            }
            let k = (n.trailing_zeros() as usize) % self.cfg.samples;
            self.res.samples.remove(k);
        }
        let m = s.model.clone();
        let t = format!("{{\"inputs\":{},\"outputs\":{},\"trap\":{}}}", self.inputs(s, &m), self.outputs(s, &m), trap);
        self.res.samples.push(t);
    }

    fn violation(&mut self, s: &State, kind: &str, id: u32, what: &str, m: Rc<Model>) {
        self.sh.viol[self.job_idx].fetch_add(1, Ordering::SeqCst);
        let key = format!("{kind} {id} {what}");
        let n = self.res.viol_keys.entry(key).or_insert(0);
        *n += 1;
        if *n > 4 {
            return;
        }
        if self.cfg.trace {
            eprintln!("violation {kind} {id} {what}");
        }
        let t = format!(
            "{{\"kind\":\"{kind}\",\"id\":{id},\"what\":{},\"inputs\":{},\"outputs\":{}}}",
            js(what),
            self.inputs(s, &m),
            self.outputs(s, &m)
        );
        // known at once, whatever becomes of this worker
        let pid = unsafe { getpid() };
        let c = self.res.viol_keys.values().sum::<u32>();
        let tmp = format!("{}/.v-{}-{pid}-{c}", self.cfg.out, self.job);
        let fin = format!("{}/{}-{pid}-v{c}.json", self.cfg.out, self.job);
        if std::fs::write(&tmp, format!("{{\"job\":{},\"violations\":[{t}]}}", js(&self.job))).is_err() || std::fs::rename(&tmp, &fin).is_err() {
            self.res.viols.push(t);
        }
        let now = self.t0.elapsed().as_secs() + 1;
        let _ = self.sh.first_viol.compare_exchange(0, now, Ordering::SeqCst, Ordering::SeqCst);
    }

    /// the time is over, or a violation was found a while ago
    fn late(&self) -> bool {
        if std::time::Instant::now() > self.deadline {
            return true;
        }
        let v = self.sh.first_viol.load(Ordering::Relaxed);
        v != 0 && self.t0.elapsed().as_secs() > v + self.cfg.after
    }

    // ---- solver
    /// model of pc and c, merged with the old model outside the slice
    fn query(&mut self, s: &State, c: E) -> Sat {
        if let Some(k) = self.ctx.as_const(c) {
            if k == 0 {
                return Sat::Unsat;
            }
        }
        let q = self.ctx.slice(&s.pc, c);
        if self.cfg.show {
            let x = self.stack_names(s);
            eprintln!("query pc={} {} :: {}", s.pc.len(), self.ctx.show(c, 6).chars().take(300).collect::<String>(), x);
        }
        let t0 = self.ctx.stat.solver_ns;
        let r = self.ctx.check_sat(&q);
        if self.cfg.prof {
            let e = self.prof.entry(self.cur).or_insert((0, 0));
            e.0 += 1;
            e.1 += self.ctx.stat.solver_ns - t0;
        }
        match r {
            Sat::Sat(m) => {
                let mut n = (*s.model).clone();
                for (k, v) in m.vars {
                    n.vars.insert(k, v);
                }
                for (k, v) in m.arrs {
                    n.arrs.insert(k, v);
                }
                if true {
                    for &x in s.pc.iter() {
                        assert_eq!(self.ctx.eval(x, &n), 1, "model does not satisfy the path");
                    }
                }
                Sat::Sat(n)
            }
            x => x,
        }
    }

    fn add_pc(&mut self, s: &mut State, c: E) {
        if self.ctx.as_const(c).is_some() {
            return;
        }
        if !s.pc.contains(&c) {
            Rc::make_mut(&mut s.pc).push(c);
        }
        self.ctx.cur_pc = s.pc.clone();
        self.ctx.cur_model = s.model.clone();
        let before = self.ctx.iv_epoch();
        self.ctx.refine(c);
        if self.ctx.iv_epoch() != before {
            for i in 0..s.pc.len() {
                self.ctx.refine(s.pc[i]);
            }
        }
        s.refined = self.ctx.refined.clone();
    }

    /// truth of a condition on this path; the other outcome, if possible, is queued
    fn decide(&mut self, s: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.ctx.as_const(c) {
            return Ok(k == 1);
        }
        let (l, h) = self.ctx.iv(c);
        if l == 1 {
            return Ok(true);
        }
        if h == 0 {
            return Ok(false);
        }
        let mv = self.ctx.eval(c, &s.model) == 1;
        let neg = self.ctx.not(c);
        let (this, other) = if mv { (c, neg) } else { (neg, c) };
        match self.query(s, other) {
            Sat::Unsat => {
                self.ctx.refine(this);
                s.refined = self.ctx.refined.clone();
                Ok(mv)
            }
            Sat::Unknown => {
                let f = self.stack_names(s);
                self.inc(format!("solver gave up on a branch at {f}"));
                self.add_pc(s, this);
                Ok(mv)
            }
            Sat::Sat(m) => {
                self.res.forks += 1;
                if self.cfg.show {
                    let x = self.stack_names(s);
                    eprintln!("FORK {} {} :: {}", s.fr.last().unwrap().pc, x, self.ctx.show(this, 5).chars().take(200).collect::<String>());
                }
                let mut o = s.clone();
                let fl = o.fr.len() - 1;
                o.fr[fl].pc -= 1;
                o.instrs -= 1;
                o.model = Rc::new(m);
                Rc::make_mut(&mut o.pc).push(other);
                o.pending = other;
                o.arena_len = self.ar.regs.len();
                self.work.push(o);
                self.add_pc(s, this);
                // may hand queued states to other processes
                self.give_away();
                if self.late() {
                    return Err(Stop::Incomplete("time limit".into()));
                }
                Ok(mv)
            }
        }
    }
    fn concretize(&mut self, s: &mut State, v: Val, w: u8) -> R<u64> {
        if v.e == 0 {
            return Ok(v.c);
        }
        let (l, h) = self.ctx.iv(v.e);
        if l == h {
            return Ok(l);
        }
        let ve = self.ex(v, w);
        let c = self.ctx.eval(ve, &s.model);
        let k = self.ctx.konst(c, w);
        let q = self.ctx.eq(ve, k);
        let r = self.decide(s, q)?;
        if !r {
            return Err(Stop::Incomplete("internal: model mismatch".into()));
        }
        Ok(c)
    }
    /// selects between non-constant, wide values are split
    fn split_select(&mut self, a: Val, b: Val) -> bool {
        let mut big = false;
        for v in [a, b] {
            if v.e != 0 {
                big |= self.ctx.iv(v.e).1 > 255;
            }
        }
        big
    }
    fn to_bool(&mut self, v: Val) -> E {
        if v.e == 0 {
            return self.ctx.konst((v.c != 0) as u64, 1);
        }
        let w = self.ctx.w(v.e);
        let z = self.ctx.konst(0, w);
        let q = self.ctx.eq(v.e, z);
        self.ctx.not(q)
    }
    #[inline]
    fn ex(&mut self, v: Val, w: u8) -> E {
        if v.e == 0 {
            self.ctx.konst(v.c, w)
        } else {
            let have = self.ctx.w(v.e);
            if have == w {
                v.e
            } else if have < w {
                self.ctx.zext(v.e, w)
            } else {
                self.ctx.trunc(v.e, w)
            }
        }
    }
    #[inline]
    fn mk(&mut self, e: E) -> Val {
        match self.ctx.as_const(e) {
            Some(c) => Val::k(c),
            None => {
                let (l, h) = self.ctx.iv(e);
                if l == h {
                    Val::k(l)
                } else {
                    Val { c: 0, e }
                }
            }
        }
    }
    fn addr64(&mut self, v: Val, imm: u64) -> E {
        // linear memory address (32 bit) + offset as a 64-bit expression
        if v.e == 0 {
            return self.ctx.konst(v.c + imm, 64);
        }
        let w = self.ctx.w(v.e);
        let a = if w < 64 { self.ctx.zext(v.e, 64) } else { v.e };
        if imm == 0 {
            a
        } else {
            let k = self.ctx.konst(imm, 64);
            self.ctx.add(a, k)
        }
    }

    fn enter(&mut self, s: &mut State, f: u32) {
        self.used[f as usize] = true;
        let fun = &self.m.funcs[f as usize];
        let np = self.m.types[fun.ty as usize].params.len();
        let base = s.st.len() - np;
        let nl = fun.nlocals as usize;
        s.st.resize(base + nl, Val::k(0));
        s.fr.push(Frame { func: f, pc: 0, base: base as u32, ob: (base + nl) as u32 });
    }

    fn bounds(&mut self, s: &mut State, stable: bool, a: E, n: E) -> R<()> {
        let size = if stable { s.stable.size } else { s.mem.size };
        let end = self.ctx.add(a, n);
        let (_, ah) = self.ctx.iv(a);
        let (_, nh) = self.ctx.iv(n);
        if (ah as u128) + (nh as u128) <= size as u128 {
            return Ok(());
        }
        let k = self.ctx.konst(size, 64);
        let c1 = self.ctx.ule(a, k);
        let c2 = self.ctx.ule(end, k);
        let c3 = self.ctx.ule(a, end);
        let c = self.ctx.band(c1, c2);
        let c = self.ctx.band(c, c3);
        if !self.decide(s, c)? {
            return Err(Stop::Trap("memory access out of bounds".into()));
        }
        Ok(())
    }
    /// solver-tightened upper bound
    fn upper(&mut self, s: &mut State, e: E, lo: u64, hi: u64) -> R<u64> {
        let (mut l, mut h) = (lo, hi); // answer in [l, h]
        l = l.max(self.ctx.eval(e, &s.model));
        if l < h {
            let k = self.ctx.konst(h, 64);
            let c = self.ctx.ule(k, e);
            match self.query(s, c) {
                Sat::Unsat => h -= 1,
                Sat::Sat(_) => return Ok(h),
                Sat::Unknown => {}
            }
        }
        while l < h {
            let mid = l + (h - l) / 2;
            let k = self.ctx.konst(mid, 64);
            let c = self.ctx.ult(k, e);
            match self.query(s, c) {
                Sat::Unsat => h = mid,
                Sat::Sat(m) => l = self.ctx.eval(e, &m).max(mid + 1),
                Sat::Unknown => return Err(Stop::Incomplete("solver gave up on a bound".into())),
            }
            if h - l < 8 {
                break;
            }
        }
        let k = self.ctx.konst(h, 64);
        let c = self.ctx.ule(e, k);
        self.ctx.refine(c);
        s.refined = self.ctx.refined.clone();
        Ok(h)
    }
    fn lower(&mut self, s: &mut State, e: E, lo: u64, hi: u64) -> R<u64> {
        let (mut l, mut h) = (lo, hi);
        h = h.min(self.ctx.eval(e, &s.model));
        if l < h {
            let k = self.ctx.konst(l, 64);
            let c = self.ctx.ule(e, k);
            match self.query(s, c) {
                Sat::Unsat => l += 1,
                Sat::Sat(_) => return Ok(l),
                Sat::Unknown => {}
            }
        }
        while l < h {
            let mid = l + (h - l) / 2;
            let k = self.ctx.konst(mid, 64);
            let c = self.ctx.ule(e, k);
            match self.query(s, c) {
                Sat::Unsat => l = mid + 1,
                Sat::Sat(m) => h = self.ctx.eval(e, &m).min(mid),
                Sat::Unknown => return Err(Stop::Incomplete("solver gave up on a bound".into())),
            }
            if h - l < 8 {
                break;
            }
        }
        let k = self.ctx.konst(l, 64);
        let c = self.ctx.ule(k, e);
        self.ctx.refine(c);
        s.refined = self.ctx.refined.clone();
        Ok(l)
    }
    fn extent(&mut self, s: &mut State, off: E, len: E) -> R<(u64, u64)> {
        let end = self.ctx.add(off, len);
        let (mut lo, oh) = self.ctx.iv(off);
        let (el, mut hi) = self.ctx.iv(end);
        if hi - lo > 64 {
            lo = self.lower(s, off, lo, oh)?;
            hi = self.upper(s, end, el.max(lo), hi)?;
        }
        if hi - lo > 256 << 20 {
            return Err(Stop::Incomplete("symbolic extent too wide".into()));
        }
        Ok((lo, hi))
    }

    /// bulk copy between memories
    fn copy(&mut self, s: &mut State, d_st: bool, d: E, s_st: bool, f: E, n: E) -> R<()> {
        self.bounds(s, s_st, f, n)?;
        self.bounds(s, d_st, d, n)?;
        let (_, nh) = self.ctx.iv(n);
        if nh == 0 {
            return Ok(());
        }
        let c = |x: &Exec, e: E| x.ctx.as_const(e);
        if let (Some(dc), Some(fc), Some(nc)) = (c(self, d), c(self, f), c(self, n)) {
            let src = if s_st { s.stable.clone() } else { s.mem.clone() };
            let dst = if d_st { &mut s.stable } else { &mut s.mem };
            Mem::copy_conc(dst, &mut self.ctx, &mut self.ar, dc, &src, fc, nc);
            return Ok(());
        }
        let (lo, hi) = self.extent(s, d, n)?;
        let src = if s_st { s.stable.clone() } else { s.mem.clone() };
        let sr = if let (Some(fc), true) = (c(self, f), nh <= 32) {
            let mut v = vec![];
            let sz = src.size;
            for i in 0..nh {
                v.push(if fc + i < sz { src.byte(&mut self.ctx, &mut self.ar, fc + i) } else { self.ctx.konst(0, 8) });
            }
            if self.ctx.stuck.take().is_some() { Src::Snap(src, f) } else { Src::Vals(v) }
        } else {
            Src::Snap(src, f)
        };
        let dst = if d_st { &mut s.stable } else { &mut s.mem };
        dst.add_region(&mut self.ctx, &mut self.ar, d, n, lo, hi, sr);
        Ok(())
    }

    /// an address range too irregular to read symbolically is split into cases
    fn unstick(&mut self, s: &mut State) -> R<bool> {
        let Some((a, l, h)) = self.ctx.stuck.take() else { return Ok(false) };
        if self.cfg.trace {
            eprintln!("split {} in {l}..{h} at {}", self.ctx.show(a, 4), self.stack_names(s));
        }
        let k = self.ctx.konst(l + (h - l) / 2, 64);
        let q = self.ctx.ule(a, k);
        self.decide(s, q)?;
        Ok(true)
    }

    fn load(&mut self, s: &mut State, a: Val, imm: u64, n: usize) -> R<Val> {
        // returns the raw n*8-bit value, zero-extended when concrete
        let ae = self.addr64(a, imm);
        let ne = self.ctx.konst(n as u64, 64);
        self.bounds(s, false, ae, ne)?;
        let (l, h) = self.ctx.iv(ae);
        let caddr = if l == h { Some(l) } else { None };
        if let Some(ad) = caddr {
            if let Some(v) = s.mem.load_conc(&self.ar, ad, n) {
                return Ok(Val::k(v));
            }
            for _ in 0..24 {
                let mut e = s.mem.byte(&mut self.ctx, &mut self.ar, ad);
                for i in 1..n {
                    let b = s.mem.byte(&mut self.ctx, &mut self.ar, ad + i as u64);
                    e = self.ctx.concat(b, e);
                }
                if !self.unstick(s)? {
                    return Ok(self.mk(e));
                }
            }
            return Err(Stop::Incomplete("memory contents have no compact form".into()));
        }
        if n == 1 || h - l > 65536 {
            let mut e = 0;
            let mut ok = true;
            for i in 0..n {
                let k = self.ctx.konst(i as u64, 64);
                let ai = self.ctx.add(ae, k);
                let hh = (h + i as u64).min(s.mem.size - 1);
                match s.mem.sym_byte(&mut self.ctx, &mut self.ar, ai, l + i as u64, hh, 0) {
                    Some(b) => e = if i == 0 { b } else { self.ctx.concat(b, e) },
                    None => {
                        ok = false;
                        self.ctx.stuck = None;
                        break;
                    }
                }
            }
            if ok {
                return Ok(Val { c: 0, e });
            }
        }
        if self.cfg.trace {
            let iv = self.ctx.iv(ae);
            eprintln!("concretize address {} in {:?} at {}", self.ctx.show(ae, 6), iv, self.stack_names(s));
        }
        let ad = self.concretize(s, Val { c: 0, e: ae }, 64)?;
        self.load(s, Val::k(ad), 0, n)
    }
    fn store(&mut self, s: &mut State, a: Val, imm: u64, n: usize, v: Val, vw: u8) -> R<()> {
        let ae = self.addr64(a, imm);
        let ne = self.ctx.konst(n as u64, 64);
        self.bounds(s, false, ae, ne)?;
        let (l, h) = self.ctx.iv(ae);
        if l == h {
            if v.e == 0 {
                s.mem.store_conc(&self.ar, l, n, v.c);
            } else {
                let ve = self.ex(v, vw);
                for i in 0..n {
                    let b = self.ctx.extract(ve, (8 * i) as u8, 8);
                    s.mem.store_byte(&self.ctx, &self.ar, l + i as u64, b);
                }
            }
            return Ok(());
        }
        let mut vals = vec![];
        let ve = self.ex(v, vw);
        for i in 0..n {
            vals.push(self.ctx.extract(ve, (8 * i) as u8, 8));
        }
        let (lo, hi) = self.extent(s, ae, ne)?;
        s.mem.add_region(&mut self.ctx, &mut self.ar, ae, ne, lo, hi, Src::Vals(vals));
        Ok(())
    }

    fn exec(&mut self, s: &mut State) -> R<()> {
        // rebindable cursor into the current function
        macro_rules! pop {
            () => {
                s.st.pop().unwrap()
            };
        }
        let mut fi = s.fr.len() - 1;
        let mut code: *const Ins = self.m.funcs[s.fr[fi].func as usize].code.as_ptr();
        macro_rules! resync {
            () => {
                fi = s.fr.len() - 1;
                code = self.m.funcs[s.fr[fi].func as usize].code.as_ptr();
            };
        }
        macro_rules! branch {
            ($t:expr, $ar:expr, $h:expr) => {{
                let to = s.fr[fi].ob as usize + $h as usize;
                let n = s.st.len();
                let ar = $ar as usize;
                if n - ar != to {
                    for i in 0..ar {
                        s.st[to + i] = s.st[n - ar + i];
                    }
                    s.st.truncate(to + ar);
                }
                s.fr[fi].pc = $t;
            }};
        }
        loop {
            let pc = s.fr[fi].pc;
            let ins = unsafe { *code.add(pc as usize) };
            s.fr[fi].pc = pc + 1;
            s.instrs += 1;
            if s.instrs & 0x3fff == 0 {
                if self.late() {
                    return Err(Stop::Incomplete("time limit".into()));
                }
                if s.instrs > self.cfg.max_instr {
                    return Err(Stop::Incomplete("instruction limit on a path".into()));
                }
            }
            match ins.op {
                0x00 => return Err(Stop::Trap("unreachable".into())),
                0x20 => {
                    let v = s.st[s.fr[fi].base as usize + ins.a as usize];
                    s.st.push(v);
                }
                0x21 => {
                    let v = pop!();
                    let b = s.fr[fi].base as usize + ins.a as usize;
                    s.st[b] = v;
                }
                0x22 => {
                    let v = *s.st.last().unwrap();
                    let b = s.fr[fi].base as usize + ins.a as usize;
                    s.st[b] = v;
                }
                0x23 => {
                    let v = s.globals[ins.a as usize];
                    s.st.push(v);
                }
                0x24 => {
                    let v = pop!();
                    s.globals[ins.a as usize] = v;
                }
                0x41 => s.st.push(Val::k(ins.imm)),
                0x1a => {
                    pop!();
                }
                0x1b => {
                    let n = s.st.len();
                    let c = s.st[n - 1];
                    let (a, b) = (s.st[n - 3], s.st[n - 2]);
                    let r = if c.e == 0 {
                        if c.c != 0 {
                            a
                        } else {
                            b
                        }
                    } else {
                        let wa = if a.e != 0 { self.ctx.w(a.e) } else { 0 };
                        let wb = if b.e != 0 { self.ctx.w(b.e) } else { 0 };
                        let w = if wa.max(wb) > 0 {
                            wa.max(wb)
                        } else if a.c > u32::MAX as u64 || b.c > u32::MAX as u64 {
                            64
                        } else {
                            0
                        };
                        let cb = self.to_bool(c);
                        if (a.e != 0 || b.e != 0) && w == 0 || self.split_select(a, b) {
                            // keeps the path condition a conjunction of linear constraints
                            self.cur = (s.fr[fi].func, pc);
                            let t = self.decide(s, cb)?;
                            s.st.truncate(n - 3);
                            s.st.push(if t { a } else { b });
                            continue;
                        }
                        // both concrete and below 2^32: the type is not recorded, and ex() widens on demand
                        let w = if w == 0 { 32 } else { w };
                        let (x, y) = (self.ex(a, w), self.ex(b, w));
                        let e = self.ctx.ite(cb, x, y);
                        self.mk(e)
                    };
                    s.st.truncate(n - 3);
                    s.st.push(r);
                }
                OP_BRIF | OP_BRIFZ => {
                    let c = *s.st.last().unwrap();
                    let t = if c.e == 0 {
                        c.c != 0
                    } else {
                        self.cur = (s.fr[fi].func, pc);
                        let b = self.to_bool(c);
                        self.decide(s, b)?
                    };
                    pop!();
                    if ins.op == OP_BRIF {
                        if t {
                            branch!(ins.a, ins.b, ins.imm);
                        }
                    } else if !t {
                        s.fr[fi].pc = ins.a;
                    }
                }
                OP_JMP => s.fr[fi].pc = ins.a,
                OP_BR => branch!(ins.a, ins.b, ins.imm),
                OP_BRTABLE => {
                    let v = *s.st.last().unwrap();
                    let nt = self.m.funcs[s.fr[fi].func as usize].brtabs[ins.a as usize].len();
                    let i = if v.e == 0 {
                        v.c
                    } else {
                        self.cur = (s.fr[fi].func, pc);
                        let w = self.ctx.w(v.e);
                        let k = self.ctx.konst(nt as u64 - 1, w);
                        let c = self.ctx.ult(v.e, k);
                        if self.decide(s, c)? {
                            // group by target: decide each distinct target
                            let tab = self.m.funcs[s.fr[fi].func as usize].brtabs[ins.a as usize].clone();
                            let mv = self.ctx.eval(v.e, &s.model);
                            let tgt = tab[mv as usize];
                            let mut cond = self.ctx.f();
                            for (j, t) in tab[..nt - 1].iter().enumerate() {
                                if *t == tgt {
                                    let je = self.ctx.konst(j as u64, w);
                                    let q = self.ctx.eq(v.e, je);
                                    cond = self.ctx.bor(cond, q);
                                }
                            }
                            self.decide(s, cond)?;
                            mv
                        } else {
                            nt as u64 - 1
                        }
                    };
                    pop!();
                    let i = (i as usize).min(nt - 1);
                    let (t, ar, h) = self.m.funcs[s.fr[fi].func as usize].brtabs[ins.a as usize][i];
                    branch!(t, ar, h);
                }
                OP_RET => {
                    let f = s.fr.pop().unwrap();
                    let nr = self.m.types[self.m.funcs[f.func as usize].ty as usize].results.len();
                    let n = s.st.len();
                    let b = f.base as usize;
                    for i in 0..nr {
                        s.st[b + i] = s.st[n - nr + i];
                    }
                    s.st.truncate(b + nr);
                    if s.fr.is_empty() {
                        return Ok(());
                    }
                    resync!();
                }
                0x10 | 0x11 => {
                    let f = if ins.op == 0x10 {
                        ins.a
                    } else {
                        let v = *s.st.last().unwrap();
                        self.cur = (s.fr[fi].func, pc);
                        let i = self.concretize(s, v, 32)? as usize;
                        let f = self.m.table.get(i).copied().unwrap_or(u32::MAX);
                        if f == u32::MAX {
                            return Err(Stop::Trap("bad indirect call".into()));
                        }
                        let t1 = &self.m.types[ins.a as usize];
                        let t2 = &self.m.types[self.m.funcs[f as usize].ty as usize];
                        if t1 != t2 {
                            return Err(Stop::Trap("indirect call type mismatch".into()));
                        }
                        pop!();
                        f
                    };
                    match self.kind[f as usize] {
                        1 => return Err(Stop::Trap(format!("panic in {}", demangle(&self.m.funcs[f as usize].name)))),
                        2 => {
                            let t = &self.m.types[self.m.funcs[f as usize].ty as usize];
                            let n = s.st.len() - t.params.len();
                            s.st.truncate(n);
                            s.st.push(Val::k(0x5bd1e995_9d1b54a3));
                            self.used[f as usize] = true;
                            continue;
                        }
                        _ => {}
                    }
                    if (f as usize) < self.m.nimports {
                        self.cur = (s.fr[fi].func, pc);
                        self.import(s, f)?;
                    } else {
                        if s.fr.len() > 20000 {
                            return Err(Stop::Trap("stack overflow".into()));
                        }
                        self.enter(s, f);
                        resync!();
                    }
                }
                0x28..=0x35 => {
                    let a = *s.st.last().unwrap();
                    let n = match ins.op {
                        0x28 | 0x2a | 0x34 | 0x35 => 4,
                        0x29 | 0x2b => 8,
                        0x2c | 0x2d | 0x30 | 0x31 => 1,
                        _ => 2,
                    };
                    let mut v = None;
                    if a.e == 0 {
                        let ad = a.c + ins.imm;
                        if ad + n as u64 > s.mem.size {
                            return Err(Stop::Trap("memory access out of bounds".into()));
                        }
                        v = s.mem.load_conc(&self.ar, ad, n).map(Val::k);
                    }
                    let v = match v {
                        Some(v) => v,
                        None => {
                            self.cur = (s.fr[fi].func, pc);
                            self.load(s, a, ins.imm, n)?
                        }
                    };
                    let is64 = matches!(ins.op, 0x29 | 0x2b | 0x30..=0x35);
                    let signed = matches!(ins.op, 0x2c | 0x2e | 0x30 | 0x32 | 0x34);
                    let r = if v.e == 0 {
                        let mut c = v.c;
                        if signed {
                            let sh = 64 - 8 * n as u32;
                            c = (((c << sh) as i64) >> sh) as u64;
                            if !is64 {
                                c &= 0xffff_ffff;
                            }
                        }
                        Val::k(c)
                    } else {
                        let w = if is64 { 64 } else { 32 };
                        let e = if signed { self.ctx.sext(v.e, w) } else { self.ctx.zext(v.e, w) };
                        self.mk(e)
                    };
                    pop!();
                    s.st.push(r);
                }
                0x36..=0x3e => {
                    let n = s.st.len();
                    let (a, v) = (s.st[n - 2], s.st[n - 1]);
                    let sz = match ins.op {
                        0x36 | 0x38 | 0x3e => 4,
                        0x37 | 0x39 => 8,
                        0x3a | 0x3c => 1,
                        _ => 2,
                    };
                    if a.e == 0 && v.e == 0 {
                        let ad = a.c + ins.imm;
                        if ad + sz as u64 > s.mem.size {
                            return Err(Stop::Trap("memory access out of bounds".into()));
                        }
                        s.mem.store_conc(&self.ar, ad, sz, v.c);
                    } else {
                        self.cur = (s.fr[fi].func, pc);
                        let vw = if matches!(ins.op, 0x37 | 0x39 | 0x3c..=0x3e) { 64 } else { 32 };
                        self.store(s, a, ins.imm, sz, v, vw)?;
                    }
                    s.st.truncate(n - 2);
                }
                0x3f => s.st.push(Val::k(s.mem.size / 65536)),
                0x40 => {
                    let v = *s.st.last().unwrap();
                    let n = self.concretize(s, v, 32)?;
                    pop!();
                    let old = s.mem.size / 65536;
                    if old + n > 32768 {
                        s.st.push(Val::k(u32::MAX as u64));
                    } else {
                        s.mem.size += n * 65536;
                        s.st.push(Val::k(old));
                    }
                }
                0x10a => {
                    // memory.copy dst src n
                    let n = s.st.len();
                    let (d, f, c) = (s.st[n - 3], s.st[n - 2], s.st[n - 1]);
                    self.cur = (s.fr[fi].func, pc);
                    let (d, f, c) = (self.addr64(d, 0), self.addr64(f, 0), self.addr64(c, 0));
                    self.copy(s, false, d, false, f, c)?;
                    s.st.truncate(n - 3);
                }
                0x10b => {
                    let n = s.st.len();
                    let (d, v, c) = (s.st[n - 3], s.st[n - 2], s.st[n - 1]);
                    self.cur = (s.fr[fi].func, pc);
                    let (de, ce) = (self.addr64(d, 0), self.addr64(c, 0));
                    self.bounds(s, false, de, ce)?;
                    if d.e == 0 && v.e == 0 && c.e == 0 {
                        s.mem.fill_conc(&self.ar, d.c, c.c, v.c as u8);
                    } else {
                        let ve = self.ex(v, 32);
                        let b = self.ctx.trunc(ve, 8);
                        let (lo, hi) = self.extent(s, de, ce)?;
                        s.mem.add_region(&mut self.ctx, &mut self.ar, de, ce, lo, hi, Src::Fill(b));
                    }
                    s.st.truncate(n - 3);
                }
                0x45..=0xc4 => {
                    let op = ins.op;
                    let unary = matches!(op, 0x45 | 0x50 | 0x67..=0x69 | 0x79..=0x7b | 0x8b..=0x91 | 0x99..=0x9f | 0xa7..=0xc4);
                    if unary {
                        let a = *s.st.last().unwrap();
                        let r = if a.e == 0 {
                            match un_conc(op, a.c) {
                                Some(r) => Val::k(r),
                                None => return Err(Stop::Incomplete(format!("unsupported operation {op:#x}"))),
                            }
                        } else {
                            self.cur = (s.fr[fi].func, pc);
                            self.un_sym(op, a.e)?
                        };
                        *s.st.last_mut().unwrap() = r;
                    } else {
                        let n = s.st.len();
                        let (a, b) = (s.st[n - 2], s.st[n - 1]);
                        let r = if a.e == 0 && b.e == 0 {
                            match bin_conc(op, a.c, b.c) {
                                Ok(r) => Val::k(r),
                                Err(true) => return Err(Stop::Trap("division trap".into())),
                                Err(false) => return Err(Stop::Incomplete(format!("unsupported operation {op:#x}"))),
                            }
                        } else {
                            self.cur = (s.fr[fi].func, pc);
                            self.bin_sym(s, op, a, b)?
                        };
                        s.st.truncate(n - 2);
                        s.st.push(r);
                    }
                }
                x => return Err(Stop::Incomplete(format!("unsupported opcode {x:#x}"))),
            }
        }
    }

    fn un_sym(&mut self, op: u16, a: E) -> R<Val> {
        let want: u8 = match op {
            0x79..=0x7b | 0xa7 | 0xc2..=0xc4 => 64,
            0x67..=0x69 | 0xac | 0xad | 0xc0 | 0xc1 => 32,
            _ => 0,
        };
        let a = if want != 0 { self.ex(Val { c: 0, e: a }, want) } else { a };
        let c = &mut self.ctx;
        let w = c.w(a);
        let e = match op {
            0x45 | 0x50 => {
                let z = c.konst(0, w);
                let q = c.eq(a, z);
                c.zext(q, 32)
            }
            0x67 | 0x79 => {
                // clz
                let mut r = c.konst(w as u64, w);
                for i in 0..w {
                    // highest set bit is i
                    let lo = c.konst(1u64 << i, w);
                    let q = c.ule(lo, a);
                    let v = c.konst((w - 1 - i) as u64, w);
                    r = c.ite(q, v, r);
                }
                r
            }
            0x68 | 0x7a => {
                let mut r = c.konst(w as u64, w);
                for i in (0..w).rev() {
                    let b = c.extract(a, i, 1);
                    let v = c.konst(i as u64, w);
                    r = c.ite(b, v, r);
                }
                r
            }
            0x69 | 0x7b => {
                let mut r = c.konst(0, w);
                for i in 0..w {
                    let b = c.extract(a, i, 1);
                    let b = c.zext(b, w);
                    r = c.add(r, b);
                }
                r
            }
            0xa7 => c.trunc(a, 32),
            0xac => c.sext(a, 64),
            0xad => c.zext(a, 64),
            0xc0 => {
                let x = c.trunc(a, 8);
                c.sext(x, 32)
            }
            0xc1 => {
                let x = c.trunc(a, 16);
                c.sext(x, 32)
            }
            0xc2 => {
                let x = c.trunc(a, 8);
                c.sext(x, 64)
            }
            0xc3 => {
                let x = c.trunc(a, 16);
                c.sext(x, 64)
            }
            0xc4 => {
                let x = c.trunc(a, 32);
                c.sext(x, 64)
            }
            0xbc..=0xbf => a,
            _ => return Err(Stop::Incomplete(format!("unsupported symbolic operation {op:#x}"))),
        };
        Ok(self.mk(e))
    }

    fn bin_sym(&mut self, s: &mut State, op: u16, a: Val, b: Val) -> R<Val> {
        let w: u8 = match op {
            0x46..=0x4f | 0x6a..=0x78 => 32,
            0x51..=0x5a | 0x7c..=0x8a => 64,
            _ => return Err(Stop::Incomplete(format!("unsupported symbolic operation {op:#x}"))),
        };
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        // comparison index 0..9
        let cmp = match op {
            0x46..=0x4f => Some(op - 0x46),
            0x51..=0x5a => Some(op - 0x51),
            _ => None,
        };
        if let Some(k) = cmp {
            let c = &mut self.ctx;
            let q = match k {
                0 => c.eq(x, y),
                1 => {
                    let e = c.eq(x, y);
                    c.not(e)
                }
                2 => c.slt(x, y),
                3 => c.ult(x, y),
                4 => c.slt(y, x),
                5 => c.ult(y, x),
                6 => c.sle(x, y),
                7 => c.ule(x, y),
                8 => c.sle(y, x),
                _ => c.ule(y, x),
            };
            let e = c.zext(q, 32);
            return Ok(self.mk(e));
        }
        let k = if op <= 0x78 { op - 0x6a } else { op - 0x7c };
        let e = match k {
            0 => self.ctx.add(x, y),
            1 => self.ctx.sub(x, y),
            2 => self.ctx.mul(x, y),
            3..=6 => {
                let z = self.ctx.konst(0, w);
                let q = self.ctx.eq(y, z);
                if self.decide(s, q)? {
                    return Err(Stop::Trap("division by zero".into()));
                }
                match k {
                    3 | 5 => {
                        let hx = self.ctx.iv(x).1 >> (w - 1);
                        let hy = self.ctx.iv(y).1 >> (w - 1);
                        if hx == 0 && hy == 0 {
                            if k == 3 {
                                self.ctx.udiv(x, y)
                            } else {
                                self.ctx.urem(x, y)
                            }
                        } else {
                            if k == 3 {
                                let m1 = self.ctx.konst(mask(w), w);
                                let mn = self.ctx.konst(1u64 << (w - 1), w);
                                let q1 = self.ctx.eq(y, m1);
                                let q2 = self.ctx.eq(x, mn);
                                let q = self.ctx.band(q1, q2);
                                if self.decide(s, q)? {
                                    return Err(Stop::Trap("division overflow".into()));
                                }
                            }
                            self.ctx.bin_raw(if k == 3 { Op::SDiv } else { Op::SRem }, x, y)
                        }
                    }
                    4 => match self.split_quotient(s, x, y)? {
                        Some(q) => self.ctx.konst(q, w),
                        None => self.ctx.udiv(x, y),
                    },
                    _ => self.ctx.urem(x, y),
                }
            }
            7 => self.ctx.and(x, y),
            8 => self.ctx.or(x, y),
            9 => self.ctx.xor(x, y),
            10 | 11 | 12 => {
                let m = self.ctx.konst(w as u64 - 1, w);
                let y = self.ctx.and(y, m);
                match k {
                    10 => self.ctx.shl(x, y),
                    11 => self.ctx.ashr(x, y),
                    _ => {
                        let d = self.ctx.konst(4096, w);
                        let q = if self.ctx.as_const(y) == Some(12) { self.split_quotient(s, x, d)? } else { None };
                        match q {
                            Some(q) => self.ctx.konst(q, w),
                            None => self.ctx.lshr(x, y),
                        }
                    }
                }
            }
            _ => {
                // rotates
                let n = self.concretize(s, b, w)? % w as u64;
                if n == 0 {
                    x
                } else {
                    let n = if k == 13 { n } else { w as u64 - n };
                    // rotl n
                    let hi = self.ctx.extract(x, 0, w - n as u8);
                    let lo = self.ctx.extract(x, w - n as u8, n as u8);
                    self.ctx.concat(hi, lo)
                }
            }
        };
        Ok(self.mk(e))
    }

    /// chunk numbers: a quotient with few possible values is split into cases, which keeps the
    /// path condition linear and the keys derived from it concrete
    fn split_quotient(&mut self, s: &mut State, x: E, y: E) -> R<Option<u64>> {
        let Some(d) = self.ctx.as_const(y) else { return Ok(None) };
        if d < 4096 {
            return Ok(None);
        }
        let (lo, hi) = self.ctx.iv(x);
        if hi / d - lo / d > 40 {
            return Ok(None);
        }
        let c = self.ctx.eval(x, &s.model) / d;
        let w = self.ctx.w(x);
        if c < hi / d {
            let k = self.ctx.konst((c + 1) * d, w);
            let q = self.ctx.ult(x, k);
            if !self.decide(s, q)? {
                return Err(Stop::Incomplete("quotient split".into()));
            }
        }
        if c > lo / d {
            let k = self.ctx.konst(c * d, w);
            let q = self.ctx.ule(k, x);
            if !self.decide(s, q)? {
                return Err(Stop::Incomplete("quotient split".into()));
            }
        }
        Ok(Some(c))
    }

    fn import(&mut self, s: &mut State, f: u32) -> R<()> {
        let (md, nm) = self.m.funcs[f as usize].import.clone().unwrap();
        let np = self.m.types[self.m.funcs[f as usize].ty as usize].params.len();
        let n = s.st.len();
        let args: Vec<Val> = s.st[n - np..].to_vec();
        let mut ret: Option<Val> = None;
        match (md.as_str(), nm.as_str()) {
            ("ic0", "stable64_size") => ret = Some(Val::k(s.stable.size / 65536)),
            ("ic0", "stable64_grow") => {
                let k = self.concretize(s, args[0], 64)?;
                let old = s.stable.size / 65536;
                if k > 1 << 20 || old + k > 1 << 17 {
                    return Err(Stop::Incomplete("stable memory beyond 8 GiB".into()));
                }
                s.stable.size += k * 65536;
                ret = Some(Val::k(old));
            }
            ("ic0", "stable64_write") => {
                let (o, p, l) = (self.ex(args[0], 64), self.ex(args[1], 64), self.ex(args[2], 64));
                self.copy(s, true, o, false, p, l)?;
            }
            ("ic0", "stable64_read") => {
                let (p, o, l) = (self.ex(args[0], 64), self.ex(args[1], 64), self.ex(args[2], 64));
                self.copy(s, false, p, true, o, l)?;
            }
            ("ic0", "trap") => return Err(Stop::Trap("ic0.trap".into())),
            ("ic0", "debug_print") => {}
            ("sym", "u64") => {
                let (lo, hi) = (args[0].c, args[1].c);
                if args[0].e != 0 || args[1].e != 0 {
                    return Err(Stop::Incomplete("harness: symbolic range".into()));
                }
                if lo > hi {
                    return Err(Stop::Incomplete("harness: empty range".into()));
                }
                if lo == hi {
                    s.log.push(Log::U(0, lo));
                    ret = Some(Val::k(lo));
                } else {
                    let (_, e) = self.ctx.new_var(64, lo, hi);
                    s.log.push(Log::U(e, 0));
                    ret = Some(Val { c: 0, e });
                }
            }
            ("sym", "choose") => {
                let k = args[0].c as u32;
                s.st.truncate(n - np);
                for i in (1..k).rev() {
                    let mut o = s.clone();
                    o.st.push(Val::k(i as u64));
                    o.log.push(Log::C(i));
                    o.arena_len = self.ar.regs.len();
                    self.res.forks += 1;
                    self.work.push(o);
                }
                s.st.push(Val::k(0));
                s.log.push(Log::C(0));
                self.give_away();
                return Ok(());
            }
            ("sym", "bytes") => {
                let (p, l) = (self.concretize(s, args[0], 32)?, self.concretize(s, args[1], 32)?);
                if p + l > s.mem.size {
                    return Err(Stop::Trap("memory access out of bounds".into()));
                }
                if l <= 64 {
                    let mut ids = vec![];
                    for i in 0..l {
                        let (id, e) = self.ctx.new_var(8, 0, 255);
                        ids.push(id);
                        s.mem.store_byte(&self.ctx, &self.ar, p + i, e);
                    }
                    s.log.push(Log::Bytes(ids));
                } else {
                    let a = self.ctx.narr;
                    self.ctx.narr += 1;
                    let (oe, le) = (self.ctx.konst(p, 64), self.ctx.konst(l, 64));
                    s.mem.add_region(&mut self.ctx, &mut self.ar, oe, le, p, p + l, Src::Arr(a, 0));
                    s.log.push(Log::Arr(l, a));
                }
            }
            ("sym", "assume") => {
                self.res.assumes += 1;
                let c = self.to_bool(args[0]);
                match self.ctx.as_const(c) {
                    Some(1) => {}
                    Some(_) => return Err(Stop::End),
                    None => {
                        if self.ctx.eval(c, &s.model) != 1 {
                            match self.query(s, c) {
                                Sat::Sat(m) => {
                                    s.model = Rc::new(m);
                                    self.ctx.cur_model = s.model.clone();
                                }
                                Sat::Unsat => return Err(Stop::End),
                                Sat::Unknown => return Err(Stop::Incomplete("solver gave up on an assumption".into())),
                            }
                        }
                        self.add_pc(s, c);
                    }
                }
            }
            ("sym", "check") => {
                let id = args[1].c as u32;
                self.res.checks += 1;
                *self.res.check_ids.entry(id).or_insert(0) += 1;
                let c = self.to_bool(args[0]);
                let (l, h) = self.ctx.iv(c);
                if l == 1 {
                    self.res.checks_triv += 1;
                } else if h == 0 {
                    let f = self.stack_names(s);
                    let _ = f;
                    let m = s.model.clone();
                    self.violation(s, "check", id, "", m);
                    // the native run goes on after a failed check; so do we
                } else {
                    self.res.checks_solver += 1;
                    let neg = self.ctx.not(c);
                    let mut holds_possible = true;
                    if self.ctx.eval(c, &s.model) != 1 {
                        let m = s.model.clone();
                        self.violation(s, "check", id, "", m);
                        match self.query(s, c) {
                            Sat::Sat(m) => {
                                    s.model = Rc::new(m);
                                    self.ctx.cur_model = s.model.clone();
                                }
                            Sat::Unsat => holds_possible = false,
                            Sat::Unknown => holds_possible = false,
                        }
                    } else {
                        match self.query(s, neg) {
                            Sat::Unsat => {
                                // implied by the path: only the intervals learn from it
                                self.ctx.refine(c);
                                s.refined = self.ctx.refined.clone();
                                s.st.truncate(n - np);
                                return Ok(());
                            }
                            Sat::Sat(m) => self.violation(s, "check", id, "", Rc::new(m)),
                            Sat::Unknown => self.inc(format!("solver gave up on check {id}")),
                        }
                    }
                    if !holds_possible {
                        return Err(Stop::End);
                    }
                    self.add_pc(s, c);
                }
            }
            ("sym", "cover") => {
                let id = args[0].c as u32;
                *self.res.covers.entry(id).or_insert(0) += 1;
                s.log.push(Log::Cover(id));
            }
            ("sym", "observe") => s.log.push(Log::Obs(args[0].c as u32, args[1])),
            ("sym", "ite") => {
                let c = self.to_bool(args[0]);
                let (x, y) = (self.ex(args[1], 64), self.ex(args[2], 64));
                let e = self.ctx.ite(c, x, y);
                ret = Some(self.mk(e));
            }
            ("sym", "byte") => {
                // byte at a possibly symbolic index of a buffer, 0 outside it
                let (p, l) = (self.concretize(s, args[0], 32)?, self.concretize(s, args[1], 32)?);
                let i = self.ex(args[2], 64);
                let le = self.ctx.konst(l, 64);
                let c = self.ctx.ult(i, le);
                if l == 0 || self.ctx.iv(c).1 == 0 {
                    ret = Some(Val::k(0));
                } else {
                    let mut tries = 0;
                    let b = loop {
                        let pe = self.ctx.konst(p, 64);
                        let a = self.ctx.add(pe, i);
                        let (il, ih) = self.ctx.iv(i);
                        let (lo, hi) = (p + il.min(l - 1), p + ih.min(l - 1));
                        if let Some(b) = s.mem.sym_byte(&mut self.ctx, &mut self.ar, a, lo, hi, c) {
                            break b;
                        }
                        tries += 1;
                        if tries > 24 || !self.unstick(s)? {
                            return Err(Stop::Incomplete("harness: buffer contents have no compact form".into()));
                        }
                    };
                    let b = self.ctx.zext(b, 64);
                    let z = self.ctx.konst(0, 64);
                    let e = self.ctx.ite(c, b, z);
                    ret = Some(self.mk(e));
                }
            }
            ("sym", "concretize") => {
                let v = self.concretize(s, args[0], 64)?;
                ret = Some(Val::k(v));
            }
            ("sym", "upper") => {
                let mut v = if args[0].e == 0 { args[0].c } else { self.ctx.iv(args[0].e).1 };
                if v > 1 << 22 && args[0].e != 0 {
                    // no useful bound known
                    v = self.concretize(s, args[0], 64)?;
                }
                ret = Some(Val::k(v));
            }
            ("sym", "allow_trap") => s.allow_trap = args[0].c != 0,
            ("sym", "note") => {
                let t = s.mem.read_conc_vec(&self.ar, args[0].c, args[1].c);
                let t = String::from_utf8_lossy(&t.unwrap_or_default()).to_string();
                if self.res.notes.len() < 200 {
                    self.res.notes.insert(t.clone());
                }
                s.log.push(Log::Note(t));
            }
            _ => return Err(Stop::Incomplete(format!("import {md}.{nm}"))),
        }
        s.st.truncate(n - np);
        if let Some(r) = ret {
            s.st.push(r);
        }
        Ok(())
    }
}

fn un_conc(op: u16, a: u64) -> Option<u64> {
    Some(match op {
        0x45 => (a as u32 == 0) as u64,
        0x50 => (a == 0) as u64,
        0x67 => (a as u32).leading_zeros() as u64,
        0x68 => (a as u32).trailing_zeros() as u64,
        0x69 => (a as u32).count_ones() as u64,
        0x79 => a.leading_zeros() as u64,
        0x7a => a.trailing_zeros() as u64,
        0x7b => a.count_ones() as u64,
        0xa7 => a as u32 as u64,
        0xac => a as u32 as i32 as i64 as u64,
        0xad => a as u32 as u64,
        0xbc..=0xbf => a,
        0xc0 => a as u8 as i8 as i32 as u32 as u64,
        0xc1 => a as u16 as i16 as i32 as u32 as u64,
        0xc2 => a as u8 as i8 as i64 as u64,
        0xc3 => a as u16 as i16 as i64 as u64,
        0xc4 => a as u32 as i32 as i64 as u64,
        _ => return None,
    })
}

fn bin_conc(op: u16, a: u64, b: u64) -> Result<u64, bool> {
    let (x, y) = (a as u32, b as u32);
    let (sx, sy) = (x as i32, y as i32);
    let (sa, sb) = (a as i64, b as i64);
    Ok(match op {
        0x46 => (x == y) as u64,
        0x47 => (x != y) as u64,
        0x48 => (sx < sy) as u64,
        0x49 => (x < y) as u64,
        0x4a => (sx > sy) as u64,
        0x4b => (x > y) as u64,
        0x4c => (sx <= sy) as u64,
        0x4d => (x <= y) as u64,
        0x4e => (sx >= sy) as u64,
        0x4f => (x >= y) as u64,
        0x51 => (a == b) as u64,
        0x52 => (a != b) as u64,
        0x53 => (sa < sb) as u64,
        0x54 => (a < b) as u64,
        0x55 => (sa > sb) as u64,
        0x56 => (a > b) as u64,
        0x57 => (sa <= sb) as u64,
        0x58 => (a <= b) as u64,
        0x59 => (sa >= sb) as u64,
        0x5a => (a >= b) as u64,
        0x6a => x.wrapping_add(y) as u64,
        0x6b => x.wrapping_sub(y) as u64,
        0x6c => x.wrapping_mul(y) as u64,
        0x6d => {
            if y == 0 || (sx == i32::MIN && sy == -1) {
                return Err(true);
            }
            (sx / sy) as u32 as u64
        }
        0x6e => {
            if y == 0 {
                return Err(true);
            }
            (x / y) as u64
        }
        0x6f => {
            if y == 0 {
                return Err(true);
            }
            sx.wrapping_rem(sy) as u32 as u64
        }
        0x70 => {
            if y == 0 {
                return Err(true);
            }
            (x % y) as u64
        }
        0x71 => (x & y) as u64,
        0x72 => (x | y) as u64,
        0x73 => (x ^ y) as u64,
        0x74 => x.wrapping_shl(y) as u64,
        0x75 => sx.wrapping_shr(y) as u32 as u64,
        0x76 => x.wrapping_shr(y) as u64,
        0x77 => x.rotate_left(y & 31) as u64,
        0x78 => x.rotate_right(y & 31) as u64,
        0x7c => a.wrapping_add(b),
        0x7d => a.wrapping_sub(b),
        0x7e => a.wrapping_mul(b),
        0x7f => {
            if b == 0 || (sa == i64::MIN && sb == -1) {
                return Err(true);
            }
            (sa / sb) as u64
        }
        0x80 => {
            if b == 0 {
                return Err(true);
            }
            a / b
        }
        0x81 => {
            if b == 0 {
                return Err(true);
            }
            sa.wrapping_rem(sb) as u64
        }
        0x82 => {
            if b == 0 {
                return Err(true);
            }
            a % b
        }
        0x83 => a & b,
        0x84 => a | b,
        0x85 => a ^ b,
        0x86 => a.wrapping_shl(b as u32),
        0x87 => sa.wrapping_shr(b as u32) as u64,
        0x88 => a.wrapping_shr(b as u32),
        0x89 => a.rotate_left((b & 63) as u32),
        0x8a => a.rotate_right((b & 63) as u32),
        _ => return Err(false),
    })
}
