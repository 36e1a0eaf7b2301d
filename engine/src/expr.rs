//! Hash-consed bit-vector expressions, simplifier, intervals, solver interface.
use crate::z3::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32; // 0 = none
/// indices of data arrays are below 2^ARRBITS wherever their value matters
pub const ARRBITS: u8 = 24;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Sel, // imm = array, a = index (64)
    Add,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Not, // width 1
    Ite, // a cond, b then, imm else
    ZExt,
    SExt,
    Extract, // imm = lo
    Concat,  // a hi, b lo
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub imm: u64,
}

#[derive(Clone, Default, Debug)]
pub struct Model {
    pub vars: HashMap<u32, u64>,
    pub arrs: HashMap<u32, HashMap<u64, u8>>,
}

#[derive(Clone)]
pub struct VarInfo {
    pub w: u8,
    pub lo: u64,
    pub hi: u64,
}

pub enum Sat {
    Sat(Model),
    Unsat,
    Unknown,
}

type FxMap<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}

pub type Refined = Rc<FxMap<E, (u64, u64)>>;

pub struct Ctx {
    /// address over whose range a byte had no compact form
    pub stuck: Option<(E, u64, u64)>,
    pub nodes: Vec<Node>,
    map: FxMap<Node, E>,
    st_iv: Vec<(u64, u64)>, // static interval
    pub vars: Vec<VarInfo>,
    pub narr: u32,
    pub refined: Refined,
    cur_iv: FxMap<E, (u64, u64)>,
    pub epoch: usize,
    pub cur_pc: Rc<Vec<E>>,
    pub cur_model: Rc<Model>,
    // solver
    z: P,
    asts: Vec<P>,
    narrow: FxMap<(E, u8), P>,
    ints: FxMap<E, Option<P>>,
    congs: FxMap<(E, u8), Option<(P, i128, i128)>>,
    intsort: P,
    ivars: Vec<P>,
    iarrs: Vec<P>,
    bvsort: [P; 65],
    arrdecl: Vec<P>,
    vardecl: Vec<P>,
    supp: Vec<Option<Rc<Vec<u32>>>>, // support: vars as id*2, arrays as id*2+1
    cache: HashMap<Vec<E>, Option<Rc<Model>>>,
    pub stat: Stat,
    pub rlimit: u32,
    pub slow_ms: u64,
    pub query_s: u32,
    pub deadline: std::time::Instant,
    isolver: P,
    isolver_uses: u32,
    pub dump: Option<std::fs::File>,
    pub dump_left: usize,
}

#[derive(Default, Clone)]
pub struct Stat {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub ints: u64,
    pub solver_ns: u64,
    pub max_ns: u64,
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn sext(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

static mut Z3_ERR: bool = false;
static mut ALARM_CTX: P = std::ptr::null_mut();
static mut ALARM_N: u32 = 0;

extern "C" {
    fn alarm(s: u32) -> u32;
    fn signal(n: i32, h: usize) -> usize;
    fn sigaction(n: i32, a: *const SigAction, o: *mut SigAction) -> i32;
    fn raise(n: i32) -> i32;
}

#[repr(C)]
struct SigAction {
    handler: extern "C" fn(i32),
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

/// a query over its time is interrupted; one that ignores that ends the worker (reported by its parent)
extern "C" fn on_alarm(_: i32) {
    unsafe {
        ALARM_N += 1;
        if ALARM_CTX.is_null() || ALARM_N > 3 {
            signal(14, 0);
            raise(14);
            return;
        }
        alarm(8);
        Z3_interrupt(ALARM_CTX);
    }
}

pub fn install_alarm() {
    unsafe {
        let a = SigAction { handler: on_alarm, mask: [0; 16], flags: 0x4000_0000, restorer: 0 };
        sigaction(14, &a, std::ptr::null_mut());
    }
}

/// a worker stuck outside the solver well beyond the deadline is ended
pub fn arm(deadline: std::time::Instant) {
    unsafe {
        alarm(deadline.saturating_duration_since(std::time::Instant::now()).as_secs() as u32 + 15);
    }
}

unsafe fn timed_check(z: P, s: P, secs: u32, deadline: std::time::Instant) -> std::os::raw::c_int {
    ALARM_N = 0;
    ALARM_CTX = z;
    alarm(secs);
    let r = Z3_solver_check(z, s);
    ALARM_CTX = std::ptr::null_mut();
    arm(deadline);
    r
}

extern "C" fn z3_err(c: P, e: i32) {
    unsafe {
        let s = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error {e}: {}", s.to_string_lossy());
        Z3_ERR = true;
    }
}

impl Ctx {
    pub fn new(rlimit: u32) -> Ctx {
        unsafe {
            let cfg = Z3_mk_config();
            let z = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(z, Some(z3_err));
            let mut bvsort = [std::ptr::null_mut(); 65];
            for w in 1..=64u32 {
                bvsort[w as usize] = Z3_mk_bv_sort(z, w);
                Z3_inc_ref(z, Z3_sort_to_ast(z, bvsort[w as usize]));
            }
            let mut c = Ctx {
            stuck: None,
                nodes: vec![],
                map: Default::default(),
                st_iv: vec![],
                vars: vec![],
                narr: 0,
                refined: Default::default(),
                cur_iv: Default::default(),
                epoch: 0,
                cur_pc: Default::default(),
                cur_model: Default::default(),
                z,
                asts: vec![],
                narrow: Default::default(),
                ints: Default::default(),
                congs: Default::default(),
                intsort: {
                    let i = Z3_mk_int_sort(z);
                    Z3_inc_ref(z, Z3_sort_to_ast(z, i));
                    i
                },
                ivars: vec![],
                iarrs: vec![],
                bvsort,
                arrdecl: vec![],
                vardecl: vec![],
                supp: vec![],
                cache: HashMap::new(),
                stat: Stat::default(),
                rlimit,
                slow_ms: 0,
                query_s: 10,
                deadline: std::time::Instant::now(),
                isolver: std::ptr::null_mut(),
                isolver_uses: 0,
                dump: None,
                dump_left: 0,
            };
            // node 0 is a dummy
            c.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, imm: 0 });
            c.st_iv.push((0, 0));
            c
        }
    }

    // ---- state switching
    pub fn set_refined(&mut self, r: Refined) {
        if !Rc::ptr_eq(&r, &self.refined) {
            self.refined = r;
            self.cur_iv.clear();
            self.epoch += 1;
        }
    }

    pub fn iv_epoch(&self) -> usize {
        self.epoch
    }
    fn raw(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        let iv = self.static_iv(&n);
        self.nodes.push(n);
        self.st_iv.push(iv);
        self.map.insert(n, e);
        e
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    pub fn konst(&mut self, v: u64, w: u8) -> E {
        self.raw(Node { op: Op::Const, w, a: 0, b: 0, imm: v & mask(w) })
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u64> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.imm)
        } else {
            None
        }
    }
    pub fn new_var(&mut self, w: u8, lo: u64, hi: u64) -> (u32, E) {
        // as few bits as the range needs
        let id = self.vars.len() as u32;
        let vw = (64 - hi.leading_zeros() as u8).clamp(2, 64).min(w);
        self.vars.push(VarInfo { w: vw, lo, hi });
        let e = self.raw(Node { op: Op::Var, w: vw, a: 0, b: 0, imm: id as u64 });
        let e = self.zext(e, w);
        (id, e)
    }
    pub fn var_expr(&mut self, id: u32) -> E {
        let w = self.vars[id as usize].w;
        self.raw(Node { op: Op::Var, w, a: 0, b: 0, imm: id as u64 })
    }
    pub fn sel(&mut self, arr: u32, idx: E) -> E {
        self.raw(Node { op: Op::Sel, w: 8, a: idx, b: 0, imm: arr as u64 })
    }
    pub fn t(&mut self) -> E {
        self.konst(1, 1)
    }
    pub fn f(&mut self) -> E {
        self.konst(0, 1)
    }

    // ---- intervals
    fn node_iv(&self, n: &Node, get: &dyn Fn(E) -> (u64, u64)) -> (u64, u64) {
        let m = mask(n.w);
        let full = (0, m);
        match n.op {
            Op::Const => (n.imm, n.imm),
            Op::Var => {
                let v = &self.vars[n.imm as usize];
                (v.lo, v.hi)
            }
            Op::Sel => full,
            Op::Add => {
                // linear sum, signed coefficients
                let mut terms = vec![];
                let k = self.lin_of_node(n, &mut terms);
                self.lin_iv(&terms, k, n.w, get).unwrap_or(full)
            }
            Op::Mul => {
                let (al, ah) = get(n.a);
                let (bl, bh) = get(n.b);
                if (ah as u128) * (bh as u128) <= m as u128 {
                    (al * bl, ah * bh)
                } else {
                    full
                }
            }
            Op::UDiv => {
                let (al, ah) = get(n.a);
                let (bl, bh) = get(n.b);
                if bl == 0 {
                    full
                } else {
                    (al / bh, ah / bl)
                }
            }
            Op::URem => {
                let (_, ah) = get(n.a);
                let (bl, bh) = get(n.b);
                if bl == 0 {
                    full
                } else {
                    (0, ah.min(bh - 1))
                }
            }
            Op::SDiv | Op::SRem => full,
            Op::And => {
                let (_, ah) = get(n.a);
                let (_, bh) = get(n.b);
                (0, ah.min(bh))
            }
            Op::Or | Op::Xor => {
                let (al, ah) = get(n.a);
                let (bl, bh) = get(n.b);
                let top = ah | bh;
                let hi = if top == 0 { 0 } else { u64::MAX >> top.leading_zeros() };
                (if n.op == Op::Or { al.max(bl) } else { 0 }, hi & m)
            }
            Op::Shl => {
                let (al, ah) = get(n.a);
                let (bl, bh) = get(n.b);
                if bh < n.w as u64 && (ah as u128) << bh <= m as u128 {
                    (al << bl, ah << bh)
                } else {
                    full
                }
            }
            Op::LShr => {
                let (al, ah) = get(n.a);
                let (bl, bh) = get(n.b);
                let lo = if bh >= 64 { 0 } else { al >> bh };
                let hi = if bl >= 64 { 0 } else { ah >> bl };
                (lo, hi)
            }
            Op::AShr => full,
            Op::Eq | Op::Not => (0, 1),
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let (al, ah) = get(n.a);
                let (bl, bh) = get(n.b);
                match n.op {
                    Op::Ult => {
                        if ah < bl {
                            return (1, 1);
                        }
                        if al >= bh {
                            return (0, 0);
                        }
                    }
                    Op::Ule => {
                        if ah <= bl {
                            return (1, 1);
                        }
                        if al > bh {
                            return (0, 0);
                        }
                    }
                    _ => {}
                }
                (0, 1)
            }
            Op::Ite => {
                let (cl, ch) = get(n.a);
                let t = get(n.b);
                let f = get(n.imm as E);
                if cl == 1 {
                    return t;
                }
                if ch == 0 {
                    return f;
                }
                let c = self.n(n.a);
                let mut r = (t.0.min(f.0), t.1.max(f.1));
                // min / max shapes
                if c.op == Op::Ult || c.op == Op::Ule {
                    if (c.a, c.b) == (n.b, n.imm as E) {
                        r = (t.0.min(f.0), t.1.min(f.1));
                    } else if (c.b, c.a) == (n.b, n.imm as E) {
                        r = (t.0.max(f.0), t.1.max(f.1));
                    }
                }
                r
            }
            Op::ZExt => get(n.a),
            Op::SExt => {
                let aw = self.w(n.a);
                let (l, h) = get(n.a);
                if h < (1u64 << (aw - 1)) {
                    (l, h)
                } else {
                    full
                }
            }
            Op::Extract => {
                let (l, h) = get(n.a);
                if n.imm == 0 && h <= m {
                    (l, h)
                } else if n.imm > 0 && (h >> n.imm) <= m {
                    (l >> n.imm, h >> n.imm)
                } else if n.imm == 0 && (l & !m) == (h & !m) {
                    (l & m, h & m)
                } else {
                    full
                }
            }
            Op::Concat => {
                let bw = self.w(n.b);
                let (al, ah) = get(n.a);
                let (bl, bh) = get(n.b);
                if al == ah {
                    ((al << bw) | bl, (ah << bw) | bh)
                } else {
                    (al << bw, (ah << bw) | mask(bw))
                }
            }
        }
    }
    fn static_iv(&self, n: &Node) -> (u64, u64) {
        self.node_iv(n, &|e| self.st_iv[e as usize])
    }
    /// interval under the current path's refinements
    pub fn iv(&mut self, e: E) -> (u64, u64) {
        if self.refined.is_empty() {
            return self.st_iv[e as usize];
        }
        self.iv_rec(e, 0)
    }
    fn iv_rec(&mut self, e: E, depth: u32) -> (u64, u64) {
        let s = self.st_iv[e as usize];
        if s.0 == s.1 {
            return s;
        }
        if let Some(&r) = self.cur_iv.get(&e) {
            return r;
        }
        if depth > 60 {
            return s;
        }
        let n = self.n(e);
        // children first
        let mut kids: Vec<E> = vec![];
        match n.op {
            Op::Const | Op::Var => {}
            Op::Add => {
                let mut t = vec![];
                self.lin_of_node(&n, &mut t);
                for x in t {
                    kids.push(x.0)
                }
            }
            Op::Ite => {
                kids.push(n.a);
                kids.push(n.b);
                kids.push(n.imm as E);
            }
            _ => {
                if n.a != 0 {
                    kids.push(n.a)
                }
                if n.b != 0 {
                    kids.push(n.b)
                }
            }
        }
        let mut vals: Vec<(E, (u64, u64))> = Vec::with_capacity(kids.len());
        for k in kids {
            let v = self.iv_rec(k, depth + 1);
            vals.push((k, v));
        }
        let st = &self.st_iv;
        let get = |x: E| vals.iter().find(|y| y.0 == x).map(|y| y.1).unwrap_or(st[x as usize]);
        let mut r = self.node_iv(&n, &get);
        r = (r.0.max(s.0), r.1.min(s.1));
        if let Some(&q) = self.refined.get(&e) {
            r = (r.0.max(q.0), r.1.min(q.1));
        }
        if r.0 > r.1 {
            r = s; // contradictory: path infeasible; be conservative
        }
        self.cur_iv.insert(e, r);
        r
    }

    // ---- linear forms
    fn lin_of_node(&self, n: &Node, out: &mut Vec<(E, u64)>) -> u64 {
        // n.op == Add
        let mut k = 0u64;
        let mut st = vec![(n.a, 1u64), (n.b, 1u64)];
        while let Some((e, c)) = st.pop() {
            let x = self.n(e);
            match x.op {
                Op::Const => k = k.wrapping_add(x.imm.wrapping_mul(c)),
                Op::Add => {
                    st.push((x.a, c));
                    st.push((x.b, c));
                }
                Op::Mul => {
                    if let Some(v) = self.as_const(x.b) {
                        st.push((x.a, c.wrapping_mul(v)));
                    } else {
                        out.push((e, c));
                    }
                }
                _ => out.push((e, c)),
            }
        }
        k & mask(n.w)
    }
    fn lin(&self, e: E, c: u64, out: &mut Vec<(E, u64)>, k: &mut u64) {
        let x = self.n(e);
        match x.op {
            Op::Const => *k = k.wrapping_add(x.imm.wrapping_mul(c)),
            Op::Add => {
                self.lin(x.a, c, out, k);
                self.lin(x.b, c, out, k);
            }
            Op::Mul => {
                if let Some(v) = self.as_const(x.b) {
                    self.lin(x.a, c.wrapping_mul(v), out, k);
                } else {
                    out.push((e, c));
                }
            }
            _ => out.push((e, c)),
        }
    }
    fn lin_norm(&self, out: &mut Vec<(E, u64)>, w: u8) {
        out.sort_by_key(|x| x.0);
        let mut r: Vec<(E, u64)> = Vec::with_capacity(out.len());
        for &(e, c) in out.iter() {
            if let Some(l) = r.last_mut() {
                if l.0 == e {
                    l.1 = l.1.wrapping_add(c) & mask(w);
                    continue;
                }
            }
            r.push((e, c & mask(w)));
        }
        r.retain(|x| x.1 != 0);
        *out = r;
    }
    fn lin_range(&self, t: &[(E, u64)], k: u64, w: u8, get: &dyn Fn(E) -> (u64, u64)) -> (i128, i128) {
        let mut l = sext(k, w) as i128;
        let mut h = l;
        for &(e, c) in t {
            let c = sext(c, w) as i128;
            let (a, b) = get(e);
            let (a, b) = if c >= 0 { (a, b) } else { (b, a) };
            l = l.saturating_add(c.saturating_mul(a as i128));
            h = h.saturating_add(c.saturating_mul(b as i128));
        }
        const BIG: i128 = 1 << 120;
        if l < -BIG || h > BIG {
            return (-BIG, BIG);
        }
        (l, h)
    }
    fn lin_iv(&self, t: &[(E, u64)], k: u64, w: u8, get: &dyn Fn(E) -> (u64, u64)) -> Option<(u64, u64)> {
        let (l, h) = self.lin_range(t, k, w, get);
        let sz = 1i128 << w;
        let ql = l.div_euclid(sz);
        let qh = h.div_euclid(sz);
        if ql == qh {
            Some(((l - ql * sz) as u64, (h - qh * sz) as u64))
        } else {
            None
        }
    }
    fn build_lin(&mut self, mut t: Vec<(E, u64)>, k: u64, w: u8) -> E {
        self.lin_norm(&mut t, w);
        let k = k & mask(w);
        if t.is_empty() {
            return self.konst(k, w);
        }
        // ite with constants: push a lone ite's constant arms? (kept simple)
        let mut acc: E = 0;
        for (e, c) in t {
            let x = if c == 1 {
                e
            } else {
                let ce = self.konst(c, w);
                self.raw(Node { op: Op::Mul, w, a: e, b: ce, imm: 0 })
            };
            acc = if acc == 0 { x } else { self.raw(Node { op: Op::Add, w, a: acc, b: x, imm: 0 }) };
        }
        if k != 0 {
            let ke = self.konst(k, w);
            acc = self.raw(Node { op: Op::Add, w, a: acc, b: ke, imm: 0 });
        }
        self.iv_const(acc)
    }
    /// replace by a constant if the interval is a single value
    fn iv_const(&mut self, e: E) -> E {
        let (l, h) = self.iv(e);
        if l == h && self.n(e).op != Op::Const {
            let w = self.w(e);
            return self.konst(l, w);
        }
        e
    }

    // ---- constructors
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let mut t = vec![];
        let mut k = 0;
        self.lin(a, 1, &mut t, &mut k);
        self.lin(b, 1, &mut t, &mut k);
        self.build_lin(t, k, w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        // x - ite(c, y, z): push inside when it cancels
        let nb = self.n(b);
        if nb.op == Op::Ite && (nb.b == a || nb.imm as E == a) {
            let x = self.sub(a, nb.b);
            let y = self.sub(a, nb.imm as E);
            return self.ite(nb.a, x, y);
        }
        let mut t = vec![];
        let mut k = 0;
        self.lin(a, 1, &mut t, &mut k);
        self.lin(b, u64::MAX, &mut t, &mut k);
        self.build_lin(t, k, w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.as_const(b) {
            let mut t = vec![];
            let mut k = 0;
            self.lin(a, c, &mut t, &mut k);
            return self.build_lin(t, k, w);
        }
        if self.as_const(a).is_some() {
            return self.mul(b, a);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        let e = self.raw(Node { op: Op::Mul, w, a, b, imm: 0 });
        self.iv_const(e)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.as_const(b) {
            if c.is_power_of_two() {
                let s = self.konst(c.trailing_zeros() as u64, w);
                return self.lshr(a, s);
            }
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if y != 0 {
                return self.konst(x / y, w);
            }
        }
        let e = self.raw(Node { op: Op::UDiv, w, a, b, imm: 0 });
        self.iv_const(e)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.as_const(b) {
            if c.is_power_of_two() {
                let s = self.konst(c - 1, w);
                return self.and(a, s);
            }
        }
        let e = self.raw(Node { op: Op::URem, w, a, b, imm: 0 });
        self.iv_const(e)
    }
    pub fn bin_raw(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        let e = self.raw(Node { op, w, a, b, imm: 0 });
        self.iv_const(e)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.band(a, b);
        }
        if a == b {
            return a;
        }
        if self.as_const(a).is_some() {
            if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
                return self.konst(x & y, w);
            }
            return self.and(b, a);
        }
        if let Some(c) = self.as_const(b) {
            if c == 0 {
                return b;
            }
            if c == mask(w) {
                return a;
            }
            let (_, hi) = self.iv(a);
            // only the bits a can have
            let poss = if hi == 0 { 0 } else { u64::MAX >> hi.leading_zeros() };
            if c & poss != c {
                let ce = self.konst(c & poss, w);
                return self.and(a, ce);
            }
            // low mask
            if (c & (c.wrapping_add(1))) == 0 {
                let k = 64 - c.leading_zeros() as u8;
                if hi <= c {
                    return a;
                }
                let x = self.trunc(a, k);
                return self.zext(x, w);
            }
            let n = self.n(a);
            if n.op == Op::And {
                if let Some(d) = self.as_const(n.b) {
                    let ce = self.konst(c & d, w);
                    return self.and(n.a, ce);
                }
            }
            // mask clearing low bits: a - (a & low)
            let low = !c & mask(w);
            if low & (low.wrapping_add(1)) == 0 {
                let le = self.konst(low, w);
                let x = self.and(a, le);
                return self.sub(a, x);
            }
            // one run of bits
            let lo = c.trailing_zeros();
            let run = c >> lo;
            if run & (run.wrapping_add(1)) == 0 {
                let k = 64 - run.leading_zeros() as u8;
                let x = self.extract(a, lo as u8, k);
                let x = self.zext(x, w);
                let m = self.konst(1u64 << lo, w);
                return self.mul(x, m);
            }
            if n.op == Op::ZExt {
                let aw = self.w(n.a);
                if aw == 1 {
                    if c & 1 == 1 {
                        return a;
                    }
                    return self.konst(0, w);
                }
                let ce = self.konst(c, aw);
                let x = self.and(n.a, ce);
                return self.zext(x, w);
            }
            if n.op == Op::Ite && self.as_const(n.b).is_some() && self.as_const(n.imm as E).is_some() {
                let x = self.and(n.b, b);
                let y = self.and(n.imm as E, b);
                return self.ite(n.a, x, y);
            }
        }
        // booleans widened
        if let (Some(x), Some(y)) = (self.as_bool01(a), self.as_bool01(b)) {
            let r = self.band(x, y);
            return self.zext(r, w);
        }
        let (a, b) = if self.as_const(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.bin_raw(Op::And, a, b)
    }
    fn as_bool01(&self, e: E) -> Option<E> {
        let n = self.n(e);
        if n.op == Op::ZExt && self.w(n.a) == 1 {
            Some(n.a)
        } else {
            None
        }
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.bor(a, b);
        }
        if a == b {
            return a;
        }
        if self.as_const(a).is_some() {
            if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
                return self.konst(x | y, w);
            }
            return self.or(b, a);
        }
        if let Some(c) = self.as_const(b) {
            if c == 0 {
                return a;
            }
            if c == mask(w) {
                return b;
            }
        }
        if let (Some(x), Some(y)) = (self.as_bool01(a), self.as_bool01(b)) {
            let r = self.bor(x, y);
            return self.zext(r, w);
        }
        // disjoint pieces: recognise byte assembly
        if let Some(e) = self.or_concat(a, b) {
            return e;
        }
        if let Some(e) = self.or_concat(b, a) {
            return e;
        }
        let (a, b) = if self.as_const(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.bin_raw(Op::Or, a, b)
    }
    // hi has its low k bits zero, lo < 2^k  =>  concat
    fn or_concat(&mut self, hi: E, lo: E) -> Option<E> {
        let (_, lh) = self.iv(lo);
        let n = self.n(hi);
        let w = n.w;
        let (src, k) = match n.op {
            Op::Mul => {
                let c = self.as_const(n.b)?;
                if !c.is_power_of_two() {
                    return None;
                }
                (n.a, c.trailing_zeros() as u8)
            }
            Op::Shl => (n.a, self.as_const(n.b)? as u8),
            Op::Concat => {
                if self.as_const(n.b) != Some(0) {
                    return None;
                }
                let k = self.w(n.b);
                if k >= 64 || lh >> k != 0 {
                    return None;
                }
                let l = self.trunc(lo, k);
                return Some(self.concat(n.a, l));
            }
            _ => return None,
        };
        if k == 0 || k >= w || (lh >> k) != 0 {
            return None;
        }
        let h = self.trunc(src, w - k);
        let l = self.trunc(lo, k);
        Some(self.concat(h, l))
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(0, w);
        }
        if w == 1 {
            if let Some(c) = self.as_const(b) {
                return if c == 0 { a } else { self.not(a) };
            }
            if let Some(c) = self.as_const(a) {
                return if c == 0 { b } else { self.not(b) };
            }
            let nb = self.not(b);
            return self.ite(a, nb, b);
        }
        if self.as_const(a).is_some() {
            if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
                return self.konst(x ^ y, w);
            }
            return self.xor(b, a);
        }
        if let Some(c) = self.as_const(b) {
            if c == 0 {
                return a;
            }
            if c == mask(w) {
                // ~a = -a - 1
                let m1 = self.konst(mask(w), w);
                return self.sub(m1, a);
            }
            if c == 1 {
                if let Some(x) = self.as_bool01(a) {
                    let nx = self.not(x);
                    return self.zext(nx, w);
                }
            }
        }
        if let (Some(x), Some(y)) = (self.as_bool01(a), self.as_bool01(b)) {
            let r = self.xor(x, y);
            return self.zext(r, w);
        }
        let (a, b) = if self.as_const(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.bin_raw(Op::Xor, a, b)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            let s = s % w as u64;
            let c = self.konst(1u64 << s, w);
            return self.mul(a, c);
        }
        self.bin_raw(Op::Shl, a, b)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            let s = s % w as u64;
            if s == 0 {
                return a;
            }
            if let Some(v) = self.as_const(a) {
                return self.konst(v >> s, w);
            }
            let (l, h) = self.iv(a);
            if l >> s == h >> s {
                return self.konst(l >> s, w);
            }
            // split linear form
            let mut t = vec![];
            let mut k = 0u64;
            self.lin(a, 1, &mut t, &mut k);
            self.lin_norm(&mut t, w);
            k &= mask(w);
            if t.len() + (k != 0) as usize > 1 || (t.len() == 1 && t[0].1 != 1) {
                let m = mask(s as u8);
                let (hi_t, lo_t): (Vec<_>, Vec<_>) = t.iter().partition(|x| x.1 & m == 0);
                let klo = k & m;
                let khi = k & !m;
                let ivs: Vec<(E, (u64, u64))> = t.iter().map(|x| (x.0, self.iv(x.0))).collect();
                let get = |x: E| ivs.iter().find(|y| y.0 == x).unwrap().1;
                let (tl, th) = self.lin_range(&t, k, w, &get);
                let (ll, lh) = self.lin_range(&lo_t, klo, 64, &get);
                // klo is non-negative; coefficients of lo_t are taken signed at width w
                let lo_ok = ll >= 0 && lh < (1i128 << s) && lo_t.iter().all(|x| sext(x.1, w) >= 0);
                if lo_ok && tl >= 0 && th < (1i128 << w) && hi_t.iter().all(|x| sext(x.1, w) >= 0) {
                    let t2: Vec<(E, u64)> = hi_t.iter().map(|x| (x.0, x.1 >> s)).collect();
                    return self.build_lin(t2, khi >> s, w);
                }
            }
            let n = self.n(a);
            if n.op == Op::LShr {
                if let Some(s2) = self.as_const(n.b) {
                    if s + s2 >= w as u64 {
                        return self.konst(0, w);
                    }
                    let se = self.konst(s + s2, w);
                    return self.lshr(n.a, se);
                }
            }
            if n.op == Op::ZExt && self.w(n.a) > 1 {
                let aw = self.w(n.a);
                if s >= aw as u64 {
                    return self.konst(0, w);
                }
                let se = self.konst(s, aw);
                let x = self.lshr(n.a, se);
                return self.zext(x, w);
            }
            if n.op == Op::Concat && self.w(n.b) as u64 <= s {
                let bw = self.w(n.b);
                let aw = self.w(n.a);
                let x = if s == bw as u64 { n.a } else { self.extract(n.a, (s as u8) - bw, aw - (s as u8 - bw)) };
                return self.zext(x, w);
            }
            if n.op == Op::Ite && (self.as_const(n.b).is_some() || self.as_const(n.imm as E).is_some()) {
                let x = self.lshr(n.b, b);
                let y = self.lshr(n.imm as E, b);
                return self.ite(n.a, x, y);
            }
        }
        self.bin_raw(Op::LShr, a, b)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (_, h) = self.iv(a);
        if h >> (w - 1) == 0 {
            return self.lshr(a, b);
        }
        self.bin_raw(Op::AShr, a, b)
    }
    pub fn not(&mut self, a: E) -> E {
        if let Some(c) = self.as_const(a) {
            return self.konst(c ^ 1, 1);
        }
        let n = self.n(a);
        match n.op {
            Op::Not => n.a,
            Op::Ult => self.raw(Node { op: Op::Ule, w: 1, a: n.b, b: n.a, imm: 0 }),
            Op::Ule => self.raw(Node { op: Op::Ult, w: 1, a: n.b, b: n.a, imm: 0 }),
            Op::Slt => self.raw(Node { op: Op::Sle, w: 1, a: n.b, b: n.a, imm: 0 }),
            Op::Sle => self.raw(Node { op: Op::Slt, w: 1, a: n.b, b: n.a, imm: 0 }),
            _ => self.raw(Node { op: Op::Not, w: 1, a, b: 0, imm: 0 }),
        }
    }
    pub fn band(&mut self, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(c) = self.as_const(a) {
            return if c == 0 { a } else { b };
        }
        if let Some(c) = self.as_const(b) {
            return if c == 0 { b } else { a };
        }
        let nb = self.not(b);
        if nb == a {
            return self.f();
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Node { op: Op::And, w: 1, a, b, imm: 0 })
    }
    pub fn bor(&mut self, a: E, b: E) -> E {
        let x = self.not(a);
        let y = self.not(b);
        if let Some(c) = self.as_const(a) {
            return if c == 1 { a } else { b };
        }
        if let Some(c) = self.as_const(b) {
            return if c == 1 { b } else { a };
        }
        if a == b {
            return a;
        }
        if x == b || y == a {
            return self.t();
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Node { op: Op::Or, w: 1, a, b, imm: 0 })
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.t();
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst((x == y) as u64, 1);
        }
        if self.as_const(a).is_some() {
            return self.eq(b, a);
        }
        let w = self.w(a);
        if w == 1 {
            if let Some(c) = self.as_const(b) {
                return if c == 1 { a } else { self.not(a) };
            }
            let nb = self.not(b);
            return self.ite(a, b, nb);
        }
        let (al, ah) = self.iv(a);
        let (bl, bh) = self.iv(b);
        if ah < bl || bh < al {
            return self.f();
        }
        if let Some(c) = self.as_const(b) {
            let n = self.n(a);
            match n.op {
                Op::ZExt => {
                    let aw = self.w(n.a);
                    if c > mask(aw) {
                        return self.f();
                    }
                    let ce = self.konst(c, aw);
                    return self.eq(n.a, ce);
                }
                Op::Ite => {
                    let x = self.as_const(n.b);
                    let y = self.as_const(n.imm as E);
                    if x.is_some() || y.is_some() {
                        let p = self.eq(n.b, b);
                        let q = self.eq(n.imm as E, b);
                        return self.ite(n.a, p, q);
                    }
                }
                Op::Add => {
                    if let Some(k) = self.as_const(n.b) {
                        let ce = self.konst(c.wrapping_sub(k), w);
                        return self.eq(n.a, ce);
                    }
                }
                Op::Concat => {
                    let bw = self.w(n.b);
                    let aw = self.w(n.a);
                    let ch = self.konst(c >> bw, aw);
                    let cl = self.konst(c & mask(bw), bw);
                    let p = self.eq(n.a, ch);
                    let q = self.eq(n.b, cl);
                    return self.band(p, q);
                }
                _ => {}
            }
        } else {
            // difference form
            let d = self.sub(a, b);
            if let Some(c) = self.as_const(d) {
                return self.konst((c == 0) as u64, 1);
            }
        }
        let (a, b) = if self.as_const(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.raw(Node { op: Op::Eq, w: 1, a, b, imm: 0 })
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f();
        }
        let (al, ah) = self.iv(a);
        let (bl, bh) = self.iv(b);
        if ah < bl {
            return self.t();
        }
        if al >= bh {
            return self.f();
        }
        if bl == bh && bl == 1 {
            let z = self.konst(0, self.w(a));
            return self.eq(a, z);
        }
        if al == ah && al == 0 {
            let z = self.konst(0, self.w(a));
            let x = self.eq(b, z);
            return self.not(x);
        }
        if let Some(r) = self.cmp_shift(a, b) {
            return self.ult(r.0, r.1);
        }
        self.cmp_fold(Op::Ult, a, b)
    }
    fn cmp_fold(&mut self, op: Op, a: E, b: E) -> E {
        let na = self.n(a);
        let nb = self.n(b);
        if na.op == Op::ZExt && self.w(na.a) > 1 {
            let aw = self.w(na.a);
            if nb.op == Op::ZExt && self.w(nb.a) == aw {
                return self.raw(Node { op, w: 1, a: na.a, b: nb.a, imm: 0 });
            }
            if let Some(c) = self.as_const(b) {
                if c <= mask(aw) {
                    let ce = self.konst(c, aw);
                    return self.raw(Node { op, w: 1, a: na.a, b: ce, imm: 0 });
                }
            }
        }
        if nb.op == Op::ZExt && self.w(nb.a) > 1 {
            let bw = self.w(nb.a);
            if let Some(c) = self.as_const(a) {
                if c <= mask(bw) {
                    let ce = self.konst(c, bw);
                    return self.raw(Node { op, w: 1, a: ce, b: nb.a, imm: 0 });
                }
            }
        }
        self.raw(Node { op, w: 1, a, b, imm: 0 })
    }
    // cancel common terms of two non-wrapping sums
    fn cmp_shift(&mut self, a: E, b: E) -> Option<(E, E)> {
        if self.n(a).op != Op::Add && self.n(b).op != Op::Add {
            return None;
        }
        let w = self.w(a);
        let (mut ta, mut ka, mut tb, mut kb) = (vec![], 0, vec![], 0);
        self.lin(a, 1, &mut ta, &mut ka);
        self.lin(b, 1, &mut tb, &mut kb);
        self.lin_norm(&mut ta, w);
        self.lin_norm(&mut tb, w);
        ka &= mask(w);
        kb &= mask(w);
        let common = ta.iter().any(|x| tb.iter().any(|y| y.0 == x.0));
        if !common && (ka == 0 || kb == 0) {
            return None;
        }
        let mut ivs: Vec<(E, (u64, u64))> = vec![];
        for x in ta.iter().chain(tb.iter()) {
            let v = self.iv(x.0);
            ivs.push((x.0, v));
        }
        let get = |x: E| ivs.iter().find(|y| y.0 == x).unwrap().1;
        let (al, ah) = self.lin_range(&ta, ka, w, &get);
        let (bl, bh) = self.lin_range(&tb, kb, w, &get);
        if al < 0 || bl < 0 || ah >= 1i128 << w || bh >= 1i128 << w {
            return None;
        }
        // d = b - a as integers; move negatives to the other side
        let mut d: Vec<(E, i128)> = vec![];
        for x in &tb {
            d.push((x.0, sext(x.1, w) as i128));
        }
        for x in &ta {
            let c = sext(x.1, w) as i128;
            if let Some(y) = d.iter_mut().find(|y| y.0 == x.0) {
                y.1 -= c;
            } else {
                d.push((x.0, -c));
            }
        }
        let dk = sext(kb, w) as i128 - sext(ka, w) as i128;
        // the total integer difference range
        let mut lo = dk;
        let mut hi = dk;
        for (e, c) in &d {
            let (l, h) = get(*e);
            if *c >= 0 {
                lo += c * l as i128;
                hi += c * h as i128;
            } else {
                lo += c * h as i128;
                hi += c * l as i128;
            }
        }
        if lo > 0 {
            // a < b surely
            let z = self.konst(0, w);
            let o = self.konst(1, w);
            return Some((z, o));
        }
        if hi < 0 {
            let z = self.konst(0, w);
            let o = self.konst(1, w);
            return Some((o, z));
        }
        let (mut l, mut r) = (vec![], vec![]);
        let (mut lk, mut rk) = (0u64, 0u64);
        for (e, c) in &d {
            if *c > 0 {
                r.push((*e, *c as u64));
            } else if *c < 0 {
                l.push((*e, (-*c) as u64));
            }
        }
        if dk >= 0 {
            rk = dk as u64
        } else {
            lk = (-dk) as u64
        }
        let (rl, rh) = self.lin_range(&r, rk, 64, &get);
        let (ll, lh) = self.lin_range(&l, lk, 64, &get);
        if rl < 0 || ll < 0 || rh >= 1i128 << w || lh >= 1i128 << w {
            return None;
        }
        let x = self.build_lin(l, lk, w);
        let y = self.build_lin(r, rk, w);
        if x == a && y == b {
            return None;
        }
        // progress check: fewer terms
        Some((x, y))
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.f();
        }
        let (_, ah) = self.iv(a);
        let (_, bh) = self.iv(b);
        let half = 1u64 << (w - 1);
        if ah < half && bh < half {
            return self.ult(a, b);
        }
        let (al, _) = self.iv(a);
        let (bl, _) = self.iv(b);
        if al >= half && bh < half {
            return self.t();
        }
        if bl >= half && ah < half {
            return self.f();
        }
        if al >= half && bl >= half {
            return self.ult(a, b);
        }
        self.raw(Node { op: Op::Slt, w: 1, a, b, imm: 0 })
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.as_const(c) {
            return if v == 1 { a } else { b };
        }
        let civ = self.iv(c);
        if civ.0 == 1 {
            return a;
        }
        if civ.1 == 0 {
            return b;
        }
        if a == b {
            return a;
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            if let Some(x) = self.as_const(a) {
                if x == 1 {
                    return self.bor(c, b);
                }
                let n = self.not(c);
                return self.band(n, b);
            }
            if let Some(y) = self.as_const(b) {
                if y == 0 {
                    return self.band(c, a);
                }
                let n = self.not(c);
                return self.bor(n, a);
            }
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.imm as E);
        }
        if w > 1 && self.as_const(a) == Some(1) && self.as_const(b) == Some(0) {
            return self.zext(c, w);
        }
        if w > 1 && self.as_const(a) == Some(0) && self.as_const(b) == Some(1) {
            let n = self.not(c);
            return self.zext(n, w);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.ite(c, na.a, nb.a);
            return self.zext(x, w);
        }
        let e = self.raw(Node { op: Op::Ite, w, a: c, b: a, imm: b as u64 });
        self.iv_const(e)
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if let Some(v) = self.as_const(a) {
            return self.konst(v, w);
        }
        match n.op {
            Op::ZExt => return self.zext(n.a, w),
            Op::Extract if n.imm == 0 => {
                let (_, h) = self.iv(n.a);
                if h <= mask(n.w) {
                    let aw = self.w(n.a);
                    return if aw == w {
                        n.a
                    } else if aw < w {
                        self.zext(n.a, w)
                    } else {
                        self.trunc(n.a, w)
                    };
                }
            }
            Op::Ite if n.w > 1 => {
                // only push when both arms simplify
                let simple = |c: &Ctx, e: E| matches!(c.n(e).op, Op::Const | Op::ZExt | Op::Extract | Op::Ite | Op::Add);
                let konst = self.as_const(n.b).is_some() || self.as_const(n.imm as E).is_some();
                if konst && simple(self, n.b) && simple(self, n.imm as E) {
                    let x = self.zext(n.b, w);
                    let y = self.zext(n.imm as E, w);
                    let r = self.ite(n.a, x, y);
                    let (p, q) = (self.iv(a), self.iv(r));
                    if q.0 >= p.0 && q.1 <= p.1 {
                        return r;
                    }
                }
            }
            Op::Add => {
                // distribute when the sum does not wrap
                let mut t = vec![];
                let mut k = 0;
                self.lin(a, 1, &mut t, &mut k);
                self.lin_norm(&mut t, n.w);
                k &= mask(n.w);
                let ivs: Vec<(E, (u64, u64))> = t.iter().map(|x| (x.0, self.iv(x.0))).collect();
                let get = |x: E| ivs.iter().find(|y| y.0 == x).unwrap().1;
                let (l, h) = self.lin_range(&t, k, n.w, &get);
                if l >= 0 && h < 1i128 << n.w {
                    let t2: Vec<(E, u64)> = t
                        .iter()
                        .map(|x| {
                            let e = self.zext(x.0, w);
                            (e, sext(x.1, n.w) as u64)
                        })
                        .collect();
                    let mut t3 = vec![];
                    let mut k3 = sext(k, n.w) as u64;
                    for (e, c) in t2 {
                        self.lin(e, c, &mut t3, &mut k3);
                    }
                    let r = self.build_lin(t3, k3, w);
                    let (p, q) = (self.iv(a), self.iv(r));
                    if q.0 >= p.0 && q.1 <= p.1 {
                        return r;
                    }
                }
            }
            _ => {}
        }
        let e = self.raw(Node { op: Op::ZExt, w, a, b: 0, imm: 0 });
        self.iv_const(e)
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if let Some(v) = self.as_const(a) {
            return self.konst(sext(v, n.w) as u64, w);
        }
        if n.w > 1 {
            let (_, h) = self.iv(a);
            if h < 1u64 << (n.w - 1) {
                return self.zext(a, w);
            }
        }
        let e = self.raw(Node { op: Op::SExt, w, a, b: 0, imm: 0 });
        self.iv_const(e)
    }
    /// low w bits
    pub fn trunc(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if let Some(v) = self.as_const(a) {
            return self.konst(v, w);
        }
        match n.op {
            Op::ZExt | Op::SExt => {
                let aw = self.w(n.a);
                return if aw == w {
                    n.a
                } else if aw > w {
                    self.trunc(n.a, w)
                } else if n.op == Op::ZExt {
                    self.zext(n.a, w)
                } else {
                    self.sext(n.a, w)
                };
            }
            Op::Add => {
                let mut t = vec![];
                let mut k = 0;
                self.lin(a, 1, &mut t, &mut k);
                // drop the terms that vanish modulo 2^w before recursing
                let mut t2 = vec![];
                let mut k2 = k & mask(w);
                for (e, c) in t {
                    let c = c & mask(w);
                    if c == 0 {
                        continue;
                    }
                    let x = self.trunc(e, w);
                    self.lin(x, c, &mut t2, &mut k2);
                }
                return self.build_lin(t2, k2, w);
            }
            Op::Mul => {
                let x = self.trunc(n.a, w);
                let y = self.trunc(n.b, w);
                return self.mul(x, y);
            }
            Op::And => {
                let x = self.trunc(n.a, w);
                let y = self.trunc(n.b, w);
                return self.and(x, y);
            }
            Op::Or => {
                let x = self.trunc(n.a, w);
                let y = self.trunc(n.b, w);
                return self.or(x, y);
            }
            Op::Ite => {
                let x = self.trunc(n.b, w);
                let y = self.trunc(n.imm as E, w);
                return self.ite(n.a, x, y);
            }
            Op::Concat => {
                let bw = self.w(n.b);
                if bw == w {
                    return n.b;
                }
                if bw > w {
                    return self.trunc(n.b, w);
                }
                let x = self.trunc(n.a, w - bw);
                return self.concat(x, n.b);
            }
            Op::Extract => {
                return self.extract(n.a, n.imm as u8, w);
            }
            _ => {}
        }
        if w == 1 {
            // keep booleans boolean: bit 0
            let e = self.raw(Node { op: Op::Extract, w: 1, a, b: 0, imm: 0 });
            return self.iv_const(e);
        }
        let e = self.raw(Node { op: Op::Extract, w, a, b: 0, imm: 0 });
        self.iv_const(e)
    }
    /// extract without pushing through arithmetic (used for memory bytes)
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let n = self.n(a);
        if lo == 0 && n.w == w {
            return a;
        }
        if let Some(v) = self.as_const(a) {
            return self.konst(v >> lo, w);
        }
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.imm as u8, w),
            Op::Concat => {
                let bw = self.w(n.b);
                if lo >= bw {
                    return self.extract(n.a, lo - bw, w);
                }
                if lo + w <= bw {
                    return self.extract(n.b, lo, w);
                }
            }
            Op::ZExt => {
                let aw = self.w(n.a);
                if lo >= aw {
                    return self.konst(0, w);
                }
                if lo + w <= aw {
                    return self.extract(n.a, lo, w);
                }
                if aw > 1 || lo == 0 {
                    let x = self.extract(n.a, lo, aw - lo);
                    return self.zext(x, w);
                }
            }
            _ => {}
        }
        let (l, h) = self.iv(a);
        if lo > 0 && (l >> lo) == (h >> lo) {
            return self.konst(l >> lo, w);
        }
        let e = self.raw(Node { op: Op::Extract, w, a, b: 0, imm: lo as u64 });
        self.iv_const(e)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let nh = self.n(hi);
        let nl = self.n(lo);
        let w = nh.w + nl.w;
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.konst((nh.imm << nl.w) | nl.imm, w);
        }
        if nh.op == Op::Const && nh.imm == 0 {
            return self.zext(lo, w);
        }
        if nh.op == Op::Extract {
            if nl.op == Op::Extract && nl.a == nh.a && nl.imm + nl.w as u64 == nh.imm {
                return self.extract(nl.a, nl.imm as u8, w);
            }
            if nl.op == Op::Concat {
                // hi : (m : l) with hi, m adjacent
                let m = self.n(nl.a);
                if m.op == Op::Extract && m.a == nh.a && m.imm + m.w as u64 == nh.imm {
                    let x = self.extract(m.a, m.imm as u8, m.w + nh.w);
                    return self.concat(x, nl.b);
                }
            }
            // zext(extract?) : low part of a zero-extended source
            if nl.op == Op::ZExt {
                // handled by intervals only
            }
        }
        if nh.op == Op::ZExt && nl.op == Op::Extract {
            let i = self.n(nh.a);
            if i.op == Op::Extract && i.a == nl.a && nl.imm + nl.w as u64 == i.imm {
                let x = self.extract(nl.a, nl.imm as u8, nl.w + i.w);
                return self.zext(x, w);
            }
        }
        // (extract hi of x) : trunc(x) where the low part was simplified: compare with x's own low part
        if nh.op == Op::Extract && nh.imm == nl.w as u64 {
            let x = nh.a;
            let low = self.extract(x, 0, nl.w);
            if low == lo {
                return self.extract(x, 0, w);
            }
        }
        let e = self.raw(Node { op: Op::Concat, w, a: hi, b: lo, imm: 0 });
        self.iv_const(e)
    }

    // ---- refinement
    /// cond holds on this path from now on: tighten intervals
    pub fn refine(&mut self, cond: E) {
        let n = self.n(cond);
        match n.op {
            Op::And if n.w == 1 => {
                self.refine(n.a);
                self.refine(n.b);
            }
            Op::Ult => {
                let (al, ah) = self.iv(n.a);
                let (bl, bh) = self.iv(n.b);
                if bh > 0 && ah > bh - 1 {
                    self.tighten(n.a, al, bh - 1, 0);
                }
                if al < u64::MAX && bl < al + 1 {
                    self.tighten(n.b, al + 1, bh, 0);
                }
            }
            Op::Ule => {
                let (al, ah) = self.iv(n.a);
                let (bl, bh) = self.iv(n.b);
                if ah > bh {
                    self.tighten(n.a, al, bh, 0);
                }
                if bl < al {
                    self.tighten(n.b, al, bh, 0);
                }
            }
            Op::Eq => {
                let (al, ah) = self.iv(n.a);
                let (bl, bh) = self.iv(n.b);
                let l = al.max(bl);
                let h = ah.min(bh);
                if l <= h {
                    if (l, h) != (al, ah) {
                        self.tighten(n.a, l, h, 0);
                    }
                    if (l, h) != (bl, bh) {
                        self.tighten(n.b, l, h, 0);
                    }
                }
            }
            Op::Not => {
                let x = self.n(n.a);
                if x.op == Op::Eq {
                    if let Some(c) = self.as_const(x.b) {
                        let (l, h) = self.iv(x.a);
                        if l == c && l < h {
                            self.tighten(x.a, l + 1, h, 0);
                        } else if h == c && l < h {
                            self.tighten(x.a, l, h - 1, 0);
                        }
                    }
                } else if x.op == Op::Or && x.w == 1 {
                    let p = self.not(x.a);
                    let q = self.not(x.b);
                    self.refine(p);
                    self.refine(q);
                }
                self.tighten(n.a, 0, 0, 0);
            }
            _ => {}
        }
        self.tighten(cond, 1, 1, 0);
        // the negated form is a different node
        let nc = self.not(cond);
        self.tighten(nc, 0, 0, 0);
    }
    fn tighten(&mut self, e: E, l: u64, h: u64, depth: u32) {
        if self.n(e).op == Op::Const || l > h {
            return;
        }
        let cur = self.iv(e);
        let nl = l.max(cur.0);
        let nh = h.min(cur.1);
        if nl > nh || (nl, nh) == cur {
            return;
        }
        Rc::make_mut(&mut self.refined).insert(e, (nl, nh));
        self.cur_iv.clear();
        self.epoch += 1;
        if depth > 12 {
            return;
        }
        let n = self.n(e);
        match n.op {
            Op::ZExt => self.tighten(n.a, nl, nh.min(mask(self.w(n.a))), depth + 1),
            Op::Extract if n.imm == 0 => {
                let (_, ah) = self.iv(n.a);
                if ah <= mask(n.w) {
                    self.tighten(n.a, nl, nh, depth + 1);
                }
            }
            Op::LShr => {
                if let Some(s) = self.as_const(n.b) {
                    if s < 64 {
                        let hi = (((nh as u128) << s) | mask(s as u8) as u128).min(mask(n.w) as u128) as u64;
                        self.tighten(n.a, nl << s, hi, depth + 1);
                    }
                }
            }
            Op::Add => {
                let mut t = vec![];
                let mut k = 0;
                self.lin(e, 1, &mut t, &mut k);
                self.lin_norm(&mut t, n.w);
                k &= mask(n.w);
                let ivs: Vec<(E, (u64, u64))> = t.iter().map(|x| (x.0, self.iv(x.0))).collect();
                let get = |x: E| ivs.iter().find(|y| y.0 == x).unwrap().1;
                let (sl, sh) = self.lin_range(&t, k, n.w, &get);
                if sl >= 0 && sh < 1i128 << n.w {
                    for i in 0..t.len() {
                        let c = sext(t[i].1, n.w) as i128;
                        // range of the rest
                        let mut rest = t.clone();
                        rest.remove(i);
                        let (rl, rh) = self.lin_range(&rest, k, n.w, &get);
                        let (xl, xh) = get(t[i].0);
                        let (mut l2, mut h2) = (xl as i128, xh as i128);
                        if c > 0 {
                            l2 = l2.max((nl as i128 - rh).div_euclid(c) + ((nl as i128 - rh).rem_euclid(c) != 0) as i128);
                            h2 = h2.min((nh as i128 - rl).div_euclid(c));
                        } else {
                            let d = -c;
                            // rest - d*x in [nl,nh] => x in [(rest-nh)/d, (rest-nl)/d]
                            l2 = l2.max((rl - nh as i128).div_euclid(d) + ((rl - nh as i128).rem_euclid(d) != 0) as i128);
                            h2 = h2.min((rh - nl as i128).div_euclid(d));
                        }
                        if l2 <= h2 && l2 >= 0 && h2 <= u64::MAX as i128 {
                            self.tighten(t[i].0, l2 as u64, h2 as u64, depth + 1);
                        }
                    }
                }
            }
            Op::Mul => {
                if let Some(c) = self.as_const(n.b) {
                    let (_, ah) = self.iv(n.a);
                    if c > 0 && (ah as u128) * (c as u128) <= mask(n.w) as u128 {
                        self.tighten(n.a, nl.div_ceil(c), nh / c, depth + 1);
                    }
                }
            }
            _ => {}
        }
    }

    // ---- evaluation
    pub fn eval(&self, e: E, m: &Model) -> u64 {
        let mut memo: FxMap<E, u64> = Default::default();
        self.eval_m(e, m, &mut memo)
    }
    pub fn eval_m(&self, e: E, m: &Model, memo: &mut FxMap<E, u64>) -> u64 {
        let n = self.n(e);
        if n.op == Op::Const {
            return n.imm;
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let w = n.w;
        let mk = mask(w);
        macro_rules! a {
            () => {
                self.eval_m(n.a, m, memo)
            };
        }
        macro_rules! b {
            () => {
                self.eval_m(n.b, m, memo)
            };
        }
        let v = match n.op {
            Op::Const => n.imm,
            Op::Var => m.vars.get(&(n.imm as u32)).copied().unwrap_or(self.vars[n.imm as usize].lo),
            Op::Sel => {
                let i = a!();
                m.arrs.get(&(n.imm as u32)).and_then(|x| x.get(&i)).copied().unwrap_or(0) as u64
            }
            Op::Add => a!().wrapping_add(b!()) & mk,
            Op::Mul => a!().wrapping_mul(b!()) & mk,
            Op::UDiv => {
                let (x, y) = (a!(), b!());
                if y == 0 {
                    mk
                } else {
                    x / y
                }
            }
            Op::URem => {
                let (x, y) = (a!(), b!());
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (x, y) = (sext(a!(), w), sext(b!(), w));
                if y == 0 {
                    if x >= 0 {
                        mk
                    } else {
                        1
                    }
                } else {
                    (x.wrapping_div(y) as u64) & mk
                }
            }
            Op::SRem => {
                let (x, y) = (sext(a!(), w), sext(b!(), w));
                if y == 0 {
                    (x as u64) & mk
                } else {
                    (x.wrapping_rem(y) as u64) & mk
                }
            }
            Op::And => a!() & b!(),
            Op::Or => a!() | b!(),
            Op::Xor => a!() ^ b!(),
            Op::Shl => {
                let (x, y) = (a!(), b!());
                if y >= w as u64 {
                    0
                } else {
                    (x << y) & mk
                }
            }
            Op::LShr => {
                let (x, y) = (a!(), b!());
                if y >= w as u64 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let (x, y) = (sext(a!(), w), b!());
                let y = y.min(w as u64 - 1);
                ((x >> y) as u64) & mk
            }
            Op::Eq => (a!() == b!()) as u64,
            Op::Ult => (a!() < b!()) as u64,
            Op::Ule => (a!() <= b!()) as u64,
            Op::Slt => {
                let aw = self.w(n.a);
                (sext(a!(), aw) < sext(b!(), aw)) as u64
            }
            Op::Sle => {
                let aw = self.w(n.a);
                (sext(a!(), aw) <= sext(b!(), aw)) as u64
            }
            Op::Not => a!() ^ 1,
            Op::Ite => {
                if a!() == 1 {
                    b!()
                } else {
                    self.eval_m(n.imm as E, m, memo)
                }
            }
            Op::ZExt => a!(),
            Op::SExt => (sext(a!(), self.w(n.a)) as u64) & mk,
            Op::Extract => (a!() >> n.imm) & mk,
            Op::Concat => (a!() << self.w(n.b)) | b!(),
        };
        memo.insert(e, v);
        v
    }

    // ---- support sets
    pub fn support(&mut self, e: E) -> Rc<Vec<u32>> {
        if self.supp.len() <= e as usize {
            self.supp.resize(self.nodes.len().max(e as usize + 1), None);
        }
        if let Some(s) = &self.supp[e as usize] {
            return s.clone();
        }
        let n = self.n(e);
        let mut v: Vec<u32> = vec![];
        match n.op {
            Op::Const => {}
            Op::Var => v.push(n.imm as u32 * 2),
            _ => {
                if n.op == Op::Sel {
                    v.push(n.imm as u32 * 2 + 1);
                }
                if n.a != 0 {
                    v.extend(self.support(n.a).iter());
                }
                if n.b != 0 {
                    v.extend(self.support(n.b).iter());
                }
                if n.op == Op::Ite {
                    v.extend(self.support(n.imm as E).iter());
                }
            }
        }
        v.sort();
        v.dedup();
        let r = Rc::new(v);
        if self.supp.len() <= e as usize {
            self.supp.resize(self.nodes.len(), None);
        }
        self.supp[e as usize] = Some(r.clone());
        r
    }

    // ---- z3
    fn z3v(&mut self, id: u32) -> P {
        unsafe {
            while self.vardecl.len() <= id as usize {
                let i = self.vardecl.len();
                let nm = std::ffi::CString::new(format!("v{i}")).unwrap();
                let s = Z3_mk_string_symbol(self.z, nm.as_ptr());
                let a = Z3_mk_const(self.z, s, self.bvsort[self.vars[i].w as usize]);
                Z3_inc_ref(self.z, a);
                self.vardecl.push(a);
            }
            self.vardecl[id as usize]
        }
    }
    fn z3arr(&mut self, id: u32) -> P {
        unsafe {
            while self.arrdecl.len() <= id as usize {
                let i = self.arrdecl.len();
                let nm = std::ffi::CString::new(format!("a{i}")).unwrap();
                let s = Z3_mk_string_symbol(self.z, nm.as_ptr());
                let dom = [self.bvsort[ARRBITS as usize]];
                let d = Z3_mk_func_decl(self.z, s, 1, dom.as_ptr(), self.bvsort[8]);
                Z3_inc_ref(self.z, Z3_func_decl_to_ast(self.z, d));
                self.arrdecl.push(d);
            }
            self.arrdecl[id as usize]
        }
    }
    /// translation of the low k bits of e (2 <= k <= width)
    fn nar(&mut self, e: E, k: u8) -> P {
        let n = self.n(e);
        if n.w == k {
            return self.ast(e);
        }
        if let Some(&p) = self.narrow.get(&(e, k)) {
            return p;
        }
        let z = self.z;
        unsafe {
            let r = match n.op {
                Op::Const => Z3_mk_unsigned_int64(z, n.imm & mask(k), self.bvsort[k as usize]),
                Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor => {
                    let a = self.nar(n.a, k);
                    let b = self.nar(n.b, k);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(z, a, b),
                        Op::Mul => Z3_mk_bvmul(z, a, b),
                        Op::And => Z3_mk_bvand(z, a, b),
                        Op::Or => Z3_mk_bvor(z, a, b),
                        _ => Z3_mk_bvxor(z, a, b),
                    }
                }
                Op::Ite => {
                    let c = self.ast(n.a);
                    let a = self.nar(n.b, k);
                    let b = self.nar(n.imm as E, k);
                    Z3_mk_ite(z, c, a, b)
                }
                Op::Extract if n.imm == 0 => self.nar(n.a, k),
                Op::ZExt if self.w(n.a) > 1 => {
                    let aw = self.w(n.a);
                    if aw >= k {
                        self.nar(n.a, k)
                    } else {
                        let a = self.ast(n.a);
                        Z3_mk_zero_ext(z, (k - aw) as u32, a)
                    }
                }
                Op::SExt if self.w(n.a) > 1 => {
                    let aw = self.w(n.a);
                    if aw >= k {
                        self.nar(n.a, k)
                    } else {
                        let a = self.ast(n.a);
                        Z3_mk_sign_ext(z, (k - aw) as u32, a)
                    }
                }
                Op::Concat if self.w(n.b) >= k => self.nar(n.b, k),
                Op::UDiv | Op::URem | Op::LShr if self.st_iv[n.a as usize].1 <= mask(k) && self.st_iv[n.b as usize].1 <= mask(k) => {
                    let a = self.nar(n.a, k);
                    let b = self.nar(n.b, k);
                    // a zero divisor differs between widths: keep the wide form unless excluded
                    if n.op != Op::LShr && self.st_iv[n.b as usize].0 == 0 {
                        let x = self.ast(e);
                        Z3_mk_extract(z, k as u32 - 1, 0, x)
                    } else {
                        match n.op {
                            Op::UDiv => Z3_mk_bvudiv(z, a, b),
                            Op::URem => Z3_mk_bvurem(z, a, b),
                            _ => Z3_mk_bvlshr(z, a, b),
                        }
                    }
                }
                _ => {
                    let x = self.ast(e);
                    Z3_mk_extract(z, k as u32 - 1, 0, x)
                }
            };
            Z3_inc_ref(z, r);
            self.narrow.insert((e, k), r);
            r
        }
    }
    fn bits2(&self, a: E, b: E) -> u8 {
        let h = self.st_iv[a as usize].1.max(self.st_iv[b as usize].1);
        (64 - h.leading_zeros() as u8).max(2)
    }
    pub fn ast(&mut self, e: E) -> P {
        if self.asts.len() <= e as usize {
            self.asts.resize(self.nodes.len(), std::ptr::null_mut());
        }
        let p = self.asts[e as usize];
        if !p.is_null() {
            return p;
        }
        let n = self.n(e);
        let z = self.z;
        unsafe {
            let r = match n.op {
                Op::Const => {
                    if n.w == 1 {
                        if n.imm == 1 {
                            Z3_mk_true(z)
                        } else {
                            Z3_mk_false(z)
                        }
                    } else {
                        Z3_mk_unsigned_int64(z, n.imm, self.bvsort[n.w as usize])
                    }
                }
                Op::Var => self.z3v(n.imm as u32),
                Op::Sel => {
                    let d = self.z3arr(n.imm as u32);
                    let i = [self.nar(n.a, ARRBITS)];
                    Z3_mk_app(z, d, 1, i.as_ptr())
                }
                Op::Not => {
                    let a = self.ast(n.a);
                    Z3_mk_not(z, a)
                }
                Op::Ite => {
                    let c = self.ast(n.a);
                    let a = self.ast(n.b);
                    let b = self.ast(n.imm as E);
                    Z3_mk_ite(z, c, a, b)
                }
                Op::ZExt | Op::SExt => {
                    let aw = self.w(n.a);
                    let a = self.ast(n.a);
                    if aw == 1 {
                        let one = if n.op == Op::ZExt { 1 } else { mask(n.w) };
                        let o = Z3_mk_unsigned_int64(z, one, self.bvsort[n.w as usize]);
                        Z3_inc_ref(z, o);
                        let zr = Z3_mk_unsigned_int64(z, 0, self.bvsort[n.w as usize]);
                        Z3_inc_ref(z, zr);
                        Z3_mk_ite(z, a, o, zr)
                    } else if n.op == Op::ZExt {
                        Z3_mk_zero_ext(z, (n.w - aw) as u32, a)
                    } else {
                        Z3_mk_sign_ext(z, (n.w - aw) as u32, a)
                    }
                }
                Op::Extract => {
                    let a = self.ast(n.a);
                    let x = Z3_mk_extract(z, n.imm as u32 + n.w as u32 - 1, n.imm as u32, a);
                    if n.w == 1 {
                        Z3_inc_ref(z, x);
                        let o = Z3_mk_unsigned_int64(z, 1, self.bvsort[1]);
                        Z3_inc_ref(z, o);
                        Z3_mk_eq(z, x, o)
                    } else {
                        x
                    }
                }
                Op::Eq | Op::Ult | Op::Ule if self.w(n.a) > 2 && self.bits2(n.a, n.b) < self.w(n.a) => {
                    let k = self.bits2(n.a, n.b);
                    let a = self.nar(n.a, k);
                    let b = self.nar(n.b, k);
                    match n.op {
                        Op::Eq => Z3_mk_eq(z, a, b),
                        Op::Ult => Z3_mk_bvult(z, a, b),
                        _ => Z3_mk_bvule(z, a, b),
                    }
                }
                _ => {
                    let a = self.ast(n.a);
                    let b = self.ast(n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(z, a, b),
                        Op::Mul => Z3_mk_bvmul(z, a, b),
                        Op::UDiv => Z3_mk_bvudiv(z, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(z, a, b),
                        Op::URem => Z3_mk_bvurem(z, a, b),
                        Op::SRem => Z3_mk_bvsrem(z, a, b),
                        Op::And => {
                            if n.w == 1 {
                                Z3_mk_and(z, 2, [a, b].as_ptr())
                            } else {
                                Z3_mk_bvand(z, a, b)
                            }
                        }
                        Op::Or => {
                            if n.w == 1 {
                                Z3_mk_or(z, 2, [a, b].as_ptr())
                            } else {
                                Z3_mk_bvor(z, a, b)
                            }
                        }
                        Op::Xor => Z3_mk_bvxor(z, a, b),
                        Op::Shl => Z3_mk_bvshl(z, a, b),
                        Op::LShr => Z3_mk_bvlshr(z, a, b),
                        Op::AShr => Z3_mk_bvashr(z, a, b),
                        Op::Eq => Z3_mk_eq(z, a, b),
                        Op::Ult => Z3_mk_bvult(z, a, b),
                        Op::Ule => Z3_mk_bvule(z, a, b),
                        Op::Slt => Z3_mk_bvslt(z, a, b),
                        Op::Sle => Z3_mk_bvsle(z, a, b),
                        Op::Concat => Z3_mk_concat(z, a, b),
                        _ => unreachable!(),
                    }
                }
            };
            Z3_inc_ref(z, r);
            if self.asts.len() <= e as usize {
                self.asts.resize(self.nodes.len(), std::ptr::null_mut());
            }
            self.asts[e as usize] = r;
            r
        }
    }
    fn ik(&mut self, v: i128) -> P {
        unsafe {
            let t = std::ffi::CString::new(v.to_string()).unwrap();
            let p = Z3_mk_numeral(self.z, t.as_ptr(), self.intsort);
            Z3_inc_ref(self.z, p);
            p
        }
    }
    fn ivar(&mut self, id: u32) -> P {
        unsafe {
            while self.ivars.len() <= id as usize {
                let nm = std::ffi::CString::new(format!("i{}", self.ivars.len())).unwrap();
                let s = Z3_mk_string_symbol(self.z, nm.as_ptr());
                let a = Z3_mk_const(self.z, s, self.intsort);
                Z3_inc_ref(self.z, a);
                self.ivars.push(a);
            }
            self.ivars[id as usize]
        }
    }
    fn iarr(&mut self, id: u32) -> P {
        unsafe {
            while self.iarrs.len() <= id as usize {
                let nm = std::ffi::CString::new(format!("ia{}", self.iarrs.len())).unwrap();
                let s = Z3_mk_string_symbol(self.z, nm.as_ptr());
                let dom = [self.intsort];
                let d = Z3_mk_func_decl(self.z, s, 1, dom.as_ptr(), self.intsort);
                Z3_inc_ref(self.z, Z3_func_decl_to_ast(self.z, d));
                self.iarrs.push(d);
            }
            self.iarrs[id as usize]
        }
    }
    /// the unsigned value of e as an integer term (a Bool term for width 1), exactly; None if not linear
    fn int(&mut self, e: E) -> Option<P> {
        if let Some(&r) = self.ints.get(&e) {
            return r;
        }
        let r = self.int_new(e);
        if r.is_none() && std::env::var("INTDBG").is_ok() {
            eprintln!("not linear: {} {:?}", self.show(e, 4), self.st_iv[e as usize]);
        }
        if let Some(p) = r {
            unsafe { Z3_inc_ref(self.z, p) };
        }
        self.ints.insert(e, r);
        r
    }
    fn int_new(&mut self, e: E) -> Option<P> {
        let n = self.n(e);
        let z = self.z;
        unsafe {
            Some(match n.op {
                Op::Const => {
                    if n.w == 1 {
                        if n.imm == 1 {
                            Z3_mk_true(z)
                        } else {
                            Z3_mk_false(z)
                        }
                    } else {
                        self.ik(n.imm as i128)
                    }
                }
                Op::Var => self.ivar(n.imm as u32),
                Op::Sel => {
                    let i = self.int(n.a)?;
                    let d = self.iarr(n.imm as u32);
                    Z3_mk_app(z, d, 1, [i].as_ptr())
                }
                Op::Add | Op::Mul => {
                    let c = self.cong(e, n.w)?;
                    self.reduce(c, n.w)
                }
                Op::Not => {
                    let a = self.int(n.a)?;
                    Z3_mk_not(z, a)
                }
                Op::And | Op::Or if n.w == 1 => {
                    let a = self.int(n.a)?;
                    let b = self.int(n.b)?;
                    if n.op == Op::And {
                        Z3_mk_and(z, 2, [a, b].as_ptr())
                    } else {
                        Z3_mk_or(z, 2, [a, b].as_ptr())
                    }
                }
                Op::Ite => {
                    let c = self.int(n.a)?;
                    let a = self.int(n.b)?;
                    let b = self.int(n.imm as E)?;
                    Z3_mk_ite(z, c, a, b)
                }
                Op::Eq => {
                    let a = self.int(n.a)?;
                    let b = self.int(n.b)?;
                    Z3_mk_eq(z, a, b)
                }
                Op::Ult | Op::Ule => {
                    let a = self.int(n.a)?;
                    let b = self.int(n.b)?;
                    if n.op == Op::Ult {
                        Z3_mk_lt(z, a, b)
                    } else {
                        Z3_mk_le(z, a, b)
                    }
                }
                Op::Slt | Op::Sle => {
                    let aw = self.w(n.a);
                    let mut v = [z; 2];
                    for (i, x) in [n.a, n.b].into_iter().enumerate() {
                        let p = self.int(x)?;
                        let hf = self.ik(1i128 << (aw - 1));
                        let c = Z3_mk_lt(z, p, hf);
                        Z3_inc_ref(z, c);
                        let mk = self.ik(-(1i128 << aw));
                        let q = Z3_mk_add(z, 2, [p, mk].as_ptr());
                        Z3_inc_ref(z, q);
                        let r = Z3_mk_ite(z, c, p, q);
                        Z3_inc_ref(z, r);
                        v[i] = r;
                    }
                    if n.op == Op::Slt {
                        Z3_mk_lt(z, v[0], v[1])
                    } else {
                        Z3_mk_le(z, v[0], v[1])
                    }
                }
                Op::ZExt => {
                    let a = self.int(n.a)?;
                    if self.w(n.a) == 1 {
                        let o = self.ik(1);
                        let zr = self.ik(0);
                        Z3_mk_ite(z, a, o, zr)
                    } else {
                        a
                    }
                }
                Op::SExt if self.w(n.a) > 1 => {
                    let aw = self.w(n.a);
                    let p = self.int(n.a)?;
                    let hf = self.ik(1i128 << (aw - 1));
                    let c = Z3_mk_lt(z, p, hf);
                    Z3_inc_ref(z, c);
                    let mk = self.ik((1i128 << n.w) - (1i128 << aw));
                    let q = Z3_mk_add(z, 2, [p, mk].as_ptr());
                    Z3_inc_ref(z, q);
                    Z3_mk_ite(z, c, p, q)
                }
                Op::Extract => {
                    let lo = n.imm as u8;
                    let (_, h) = self.st_iv[n.a as usize];
                    let mut r = if (h >> lo) <= mask(n.w) {
                        self.int(n.a)?
                    } else {
                        let c = self.cong(n.a, lo + n.w)?;
                        self.reduce(c, lo + n.w)
                    };
                    if lo > 0 {
                        let d = self.ik(1i128 << lo);
                        r = Z3_mk_div(z, r, d);
                        Z3_inc_ref(z, r);
                    }
                    if n.w == 1 {
                        let o = self.ik(1);
                        r = Z3_mk_eq(z, r, o);
                    }
                    r
                }
                Op::Concat => {
                    let bw = self.w(n.b);
                    if bw == 1 || self.w(n.a) == 1 {
                        return None;
                    }
                    let a = self.int(n.a)?;
                    let b = self.int(n.b)?;
                    let k = self.ik(1i128 << bw);
                    let q = Z3_mk_mul(z, 2, [k, a].as_ptr());
                    Z3_inc_ref(z, q);
                    Z3_mk_add(z, 2, [q, b].as_ptr())
                }
                Op::UDiv | Op::URem => {
                    let c = self.as_const(n.b)?;
                    if c == 0 {
                        return None;
                    }
                    let a = self.int(n.a)?;
                    let k = self.ik(c as i128);
                    if n.op == Op::UDiv {
                        Z3_mk_div(z, a, k)
                    } else {
                        Z3_mk_mod(z, a, k)
                    }
                }
                Op::LShr => {
                    let c = self.as_const(n.b)?;
                    let a = self.int(n.a)?;
                    if c >= n.w as u64 {
                        return None;
                    }
                    let k = self.ik(1i128 << c);
                    Z3_mk_div(z, a, k)
                }
                _ => return None,
            })
        }
    }
    /// an integer term equal to e modulo 2^w, and its range
    fn cong(&mut self, e: E, w: u8) -> Option<(P, i128, i128)> {
        if let Some(&r) = self.congs.get(&(e, w)) {
            return r;
        }
        let r = self.cong_new(e, w);
        if let Some((p, _, _)) = r {
            unsafe { Z3_inc_ref(self.z, p) };
        }
        self.congs.insert((e, w), r);
        r
    }
    fn cong_new(&mut self, e: E, w: u8) -> Option<(P, i128, i128)> {
        let n = self.n(e);
        let z = self.z;
        if n.w >= w && w > 1 {
            match n.op {
                Op::Const => {
                    let k = sext(n.imm & mask(w), w) as i128;
                    return Some((self.ik(k), k, k));
                }
                Op::Add | Op::Mul => {
                    let mut t = vec![];
                    let mut k = 0u64;
                    self.lin(e, 1, &mut t, &mut k);
                    self.lin_norm(&mut t, w);
                    k &= mask(w);
                    if t.len() == 1 && t[0].0 == e {
                        return None; // nonlinear
                    }
                    let ks = sext(k, w) as i128;
                    let mut args = vec![];
                    let (mut l, mut h) = (ks, ks);
                    for &(x, c) in &t {
                        let (p, a, b) = self.cong(x, w)?;
                        let c = sext(c, w) as i128;
                        let (a, b) = if c >= 0 { (a, b) } else { (b, a) };
                        l = l.saturating_add(c.saturating_mul(a));
                        h = h.saturating_add(c.saturating_mul(b));
                        if c == 1 {
                            args.push(p);
                        } else {
                            let ck = self.ik(c);
                            unsafe {
                                let q = Z3_mk_mul(z, 2, [ck, p].as_ptr());
                                Z3_inc_ref(z, q);
                                args.push(q);
                            }
                        }
                    }
                    if l < -(1 << 100) || h > 1 << 100 {
                        return None;
                    }
                    // the representative of k that brings the sum closest to 0..2^w
                    let m = 1i128 << w;
                    let mut ks = ks;
                    let sh = -l.div_euclid(m) * m;
                    if h - l < m && sh != 0 && h + sh < m {
                        l += sh;
                        h += sh;
                        ks += sh;
                    }
                    if ks != 0 || args.is_empty() {
                        args.push(self.ik(ks));
                    }
                    let s = if args.len() == 1 { args[0] } else { unsafe { Z3_mk_add(z, args.len() as u32, args.as_ptr()) } };
                    return Some((s, l, h));
                }
                Op::Ite => {
                    let c = self.int(n.a)?;
                    let (a, al, ah) = self.cong(n.b, w)?;
                    let (b, bl, bh) = self.cong(n.imm as E, w)?;
                    return Some((unsafe { Z3_mk_ite(z, c, a, b) }, al.min(bl), ah.max(bh)));
                }
                Op::ZExt | Op::SExt if w <= self.w(n.a) => return self.cong(n.a, w),
                Op::Extract if n.imm == 0 => return self.cong(n.a, w),
                Op::Concat if w <= self.w(n.b) => return self.cong(n.b, w),
                _ => {}
            }
        }
        let (l, h) = self.st_iv[e as usize];
        Some((self.int(e)?, l as i128, h as i128))
    }
    /// the value in 0..2^w of a term with the given range
    fn reduce(&mut self, t: (P, i128, i128), w: u8) -> P {
        let r = self.reduce_new(t, w);
        unsafe { Z3_inc_ref(self.z, r) };
        r
    }
    fn reduce_new(&mut self, (s, l, h): (P, i128, i128), w: u8) -> P {
        let z = self.z;
        let m = 1i128 << w;
        unsafe {
            if l >= 0 && h < m {
                return s;
            }
            // the sum is known up to one wrap
            let q = l.div_euclid(m);
            if h.div_euclid(m) <= q + 1 {
                let mut s = s;
                if q != 0 {
                    let k = self.ik(-q * m);
                    s = Z3_mk_add(z, 2, [s, k].as_ptr());
                    Z3_inc_ref(z, s);
                }
                if h.div_euclid(m) == q {
                    return s;
                }
                let mk = self.ik(m);
                let nm = self.ik(-m);
                let s2 = Z3_mk_add(z, 2, [s, nm].as_ptr());
                Z3_inc_ref(z, s2);
                let c = Z3_mk_lt(z, s, mk);
                Z3_inc_ref(z, c);
                return Z3_mk_ite(z, c, s, s2);
            }
            let mk = self.ik(m);
            Z3_mk_mod(z, s, mk)
        }
    }
    fn check_sat_int(&mut self, cons: &[E], simple: bool, lim: u32) -> Option<Sat> {
        unsafe {
            let z = self.z;
            let mut ps = vec![];
            for &c in cons {
                ps.push(self.int(c)?);
            }
            let mut sup: Vec<u32> = vec![];
            for &c in cons {
                sup.extend(self.support(c).iter());
            }
            sup.sort();
            sup.dedup();
            let mut sels = vec![];
            let mut seen = Default::default();
            for &c in cons {
                self.collect_sels(c, &mut seen, &mut sels);
            }
            let s = if simple {
                if self.isolver.is_null() || self.isolver_uses > 2000 {
                    if !self.isolver.is_null() {
                        Z3_solver_dec_ref(z, self.isolver);
                    }
                    self.isolver = self.new_solver("", lim);
                    self.isolver_uses = 0;
                }
                self.isolver_uses += 1;
                Z3_solver_push(z, self.isolver);
                self.isolver
            } else {
                self.new_solver(if sels.is_empty() { "QF_LIA" } else { "QF_UFLIA" }, lim)
            };
            for a in ps {
                Z3_solver_assert(z, s, a);
            }
            let mut rng: Vec<(P, u64, u64)> = vec![];
            for &v in sup.iter().filter(|x| *x & 1 == 0) {
                let vi = self.vars[v as usize / 2].clone();
                let x = self.ivar(v / 2);
                rng.push((x, vi.lo, vi.hi));
            }
            for &e in &sels {
                let x = self.int(e)?;
                rng.push((x, 0, 255));
            }
            for (x, lo, hi) in rng {
                let l = self.ik(lo as i128);
                let h = self.ik(hi as i128);
                let c = Z3_mk_le(z, l, x);
                Z3_inc_ref(z, c);
                Z3_solver_assert(z, s, c);
                let c = Z3_mk_le(z, x, h);
                Z3_inc_ref(z, c);
                Z3_solver_assert(z, s, c);
            }
            if self.dump_left > 0 {
                if self.dump.is_none() {
                    self.dump = std::fs::File::create(format!("/tmp/dump-{}.smt2", std::process::id())).ok();
                }
                if let Some(f) = &mut self.dump {
                    use std::io::Write;
                    let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(z, s));
                    let _ = f.write_all(b";;QUERY int\n");
                    let _ = f.write_all(t.to_bytes());
                }
            }
            let r = timed_check(z, s, self.query_s.min(self.deadline.saturating_duration_since(std::time::Instant::now()).as_secs() as u32 + 3), self.deadline);
            if self.dump_left > 0 {
                self.dump_left -= 1;
                if let Some(f) = &mut self.dump {
                    use std::io::Write;
                    let _ = f.write_all(format!("\n;;RESULT {r}\n").as_bytes());
                }
            }
            let res = if Z3_ERR {
                Z3_ERR = false;
                None
            } else if r == -1 {
                Some(Sat::Unsat)
            } else if r == 0 {
                None
            } else {
                let m = Z3_solver_get_model(z, s);
                Z3_model_inc_ref(z, m);
                let mut out = Model::default();
                let get = |x: P| -> Option<u64> {
                    let mut val: P = std::ptr::null_mut();
                    if Z3_model_eval(z, m, x, true, &mut val) {
                        Z3_inc_ref(z, val);
                        let mut u = 0;
                        if Z3_get_numeral_uint64(z, val, &mut u) {
                            return Some(u);
                        }
                    }
                    None
                };
                let mut good = true;
                for &v in sup.iter() {
                    if v & 1 == 0 {
                        let x = self.ivar(v / 2);
                        match get(x) {
                            Some(u) => {
                                out.vars.insert(v / 2, u);
                            }
                            None => good = false,
                        }
                    } else {
                        out.arrs.insert(v / 2, HashMap::new());
                    }
                }
                for e in sels {
                    let n = self.n(e);
                    let i = self.int(n.a)?;
                    let x = self.int(e)?;
                    match (get(i), get(x)) {
                        (Some(i), Some(v)) => {
                            out.arrs.entry(n.imm as u32).or_default().insert(i, v as u8);
                        }
                        _ => good = false,
                    }
                }
                Z3_model_dec_ref(z, m);
                if good && cons.iter().all(|&c| self.eval(c, &out) == 1) {
                    Some(Sat::Sat(out))
                } else {
                    None
                }
            };
            if simple && r == 0 {
                // interrupted: start over with a fresh one
                Z3_solver_dec_ref(z, s);
                self.isolver = std::ptr::null_mut();
            } else if simple {
                Z3_solver_pop(z, s, 1);
            } else {
                Z3_solver_dec_ref(z, s);
            }
            res
        }
    }
    /// a solver with the resource limit set; the plain incremental one for an empty logic
    unsafe fn new_solver(&mut self, logic: &str, lim: u32) -> P {
        let z = self.z;
        let l = std::ffi::CString::new(logic).unwrap();
        let s = if logic.is_empty() { Z3_mk_simple_solver(z) } else { Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, l.as_ptr())) };
        Z3_solver_inc_ref(z, s);
        let p = Z3_mk_params(z);
        Z3_params_inc_ref(z, p);
        let tn = std::ffi::CString::new("rlimit").unwrap();
        Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, tn.as_ptr()), lim);
        Z3_solver_set_params(z, s, p);
        Z3_params_dec_ref(z, p);
        s
    }
    fn collect_sels(&self, e: E, seen: &mut FxMap<E, ()>, out: &mut Vec<E>) {
        if seen.insert(e, ()).is_some() {
            return;
        }
        let n = self.n(e);
        match n.op {
            Op::Const | Op::Var => return,
            Op::Sel => out.push(e),
            _ => {}
        }
        if n.a != 0 {
            self.collect_sels(n.a, seen, out);
        }
        if n.b != 0 {
            self.collect_sels(n.b, seen, out);
        }
        if n.op == Op::Ite {
            self.collect_sels(n.imm as E, seen, out);
        }
    }
    /// the constraints related to c, followed by c
    pub fn slice(&mut self, pc: &[E], c: E) -> Vec<E> {
        let mut set: std::collections::HashSet<u32> = self.support(c).iter().copied().collect();
        let sup: Vec<Rc<Vec<u32>>> = pc.iter().map(|&p| self.support(p)).collect();
        let mut inn = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !inn[i] && sup[i].iter().any(|v| set.contains(v)) {
                    inn[i] = true;
                    ch = true;
                    set.extend(sup[i].iter().copied());
                }
            }
            if !ch {
                break;
            }
        }
        let mut r: Vec<E> = (0..pc.len()).filter(|&i| inn[i]).map(|i| pc[i]).collect();
        r.push(c);
        r
    }
    /// can c hold on the current path
    pub fn path_sat(&mut self, c: E) -> Sat {
        if self.as_const(c) == Some(0) {
            return Sat::Unsat;
        }
        let m = self.cur_model.clone();
        if self.eval(c, &m) == 1 {
            return Sat::Sat((*m).clone());
        }
        let pc = self.cur_pc.clone();
        let q = self.slice(&pc, c);
        self.check_sat(&q)
    }
    /// satisfiability of the conjunction; variables' declared ranges are added
    pub fn check_sat(&mut self, cons: &[E]) -> Sat {
        let mut key: Vec<E> = cons.to_vec();
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.stat.cached += 1;
            return match r {
                Some(m) => Sat::Sat((**m).clone()),
                None => Sat::Unsat,
            };
        }
        let t0 = std::time::Instant::now();
        let r = self.ladder(&key);
        let dt = t0.elapsed().as_nanos() as u64;
        if self.slow_ms > 0 && dt > self.slow_ms * 1_000_000 {
            self.dump_left = 3;
            let _ = self.ladder(&key);
            self.dump_left = 0;
        }
        self.stat.queries += 1;
        self.stat.solver_ns += dt;
        self.stat.max_ns = self.stat.max_ns.max(dt);
        match &r {
            Sat::Sat(m) => {
                self.stat.sat += 1;
                self.cache.insert(key, Some(Rc::new(m.clone())));
            }
            Sat::Unsat => {
                self.stat.unsat += 1;
                self.cache.insert(key, None);
            }
            Sat::Unknown => self.stat.unknown += 1,
        }
        r
    }
    /// integer arithmetic first, then bit vectors; small budgets in different assertion orders
    /// before the full one (a query's difficulty varies a lot with the order)
    fn ladder(&mut self, key: &[E]) -> Sat {
        let full = self.rlimit;
        let mut k = key.to_vec();
        for (int, simple, lim) in [
            (true, true, 60_000),
            (true, false, 3_000_000),
            (false, false, 4_000_000),
            (true, false, 2_000_000),
            (false, false, full),
        ] {
            let lim = lim.min(full);
            let t0 = std::time::Instant::now();
            let r = if int { self.check_sat_int(&k, simple, lim) } else { Some(self.check_sat_z3(&k, lim)) };
            if self.slow_ms > 0 && !simple {
                eprintln!("LADDER {int} {lim} {} {:.3}", matches!(r, Some(Sat::Sat(_) | Sat::Unsat)), t0.elapsed().as_secs_f64());
            }
            match r {
                Some(Sat::Unknown) | None => {}
                Some(r) => {
                    self.stat.ints += int as u64;
                    return r;
                }
            }
            if !simple {
                let h = k.len() / 3;
                k.rotate_left(h);
                k.reverse();
            }
        }
        Sat::Unknown
    }
    fn check_sat_z3(&mut self, cons: &[E], lim: u32) -> Sat {
        unsafe {
            let z = self.z;
            let mut sup: Vec<u32> = vec![];
            for &c in cons {
                sup.extend(self.support(c).iter());
            }
            sup.sort();
            sup.dedup();
            let has_arr = sup.iter().any(|x| x & 1 == 1);
            let s = self.new_solver(if has_arr { "QF_UFBV" } else { "QF_BV" }, lim);
            for &c in cons {
                let a = self.ast(c);
                Z3_solver_assert(z, s, a);
            }
            for &v in sup.iter().filter(|x| *x & 1 == 0) {
                let id = v / 2;
                let vi = self.vars[id as usize].clone();
                let x = self.z3v(id);
                if vi.lo > 0 {
                    let l = Z3_mk_unsigned_int64(z, vi.lo, self.bvsort[vi.w as usize]);
                    Z3_inc_ref(z, l);
                    let c = Z3_mk_bvule(z, l, x);
                    Z3_inc_ref(z, c);
                    Z3_solver_assert(z, s, c);
                }
                if vi.hi < mask(vi.w) {
                    let h = Z3_mk_unsigned_int64(z, vi.hi, self.bvsort[vi.w as usize]);
                    Z3_inc_ref(z, h);
                    let c = Z3_mk_bvule(z, x, h);
                    Z3_inc_ref(z, c);
                    Z3_solver_assert(z, s, c);
                }
            }
            if self.dump_left > 0 {
                if self.dump.is_none() {
                    self.dump = std::fs::File::create(format!("/tmp/dump-{}.smt2", std::process::id())).ok();
                }
                if let Some(f) = &mut self.dump {
                    use std::io::Write;
                    let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(z, s));
                    let _ = f.write_all(b";;QUERY\n");
                    let _ = f.write_all(t.to_bytes());
                }
            }
            let r = timed_check(z, s, self.query_s.min(self.deadline.saturating_duration_since(std::time::Instant::now()).as_secs() as u32 + 3), self.deadline);
            if self.dump_left > 0 {
                self.dump_left -= 1;
                if let Some(f) = &mut self.dump {
                    use std::io::Write;
                    let _ = f.write_all(format!("\n;;RESULT {r}\n").as_bytes());
                }
            }
            let res = if Z3_ERR {
                Z3_ERR = false;
                Sat::Unknown
            } else if r == -1 {
                Sat::Unsat
            } else if r == 0 {
                Sat::Unknown
            } else {
                let m = Z3_solver_get_model(z, s);
                Z3_model_inc_ref(z, m);
                let mut out = Model::default();
                for &v in sup.iter().filter(|x| *x & 1 == 0) {
                    let x = self.z3v(v / 2);
                    let mut val: P = std::ptr::null_mut();
                    if Z3_model_eval(z, m, x, true, &mut val) {
                        Z3_inc_ref(z, val);
                        let mut u = 0;
                        Z3_get_numeral_uint64(z, val, &mut u);
                        out.vars.insert(v / 2, u);
                    }
                }
                let mut sels = vec![];
                let mut seen = Default::default();
                for &c in cons {
                    self.collect_sels(c, &mut seen, &mut sels);
                }
                for &v in sup.iter().filter(|x| *x & 1 == 1) {
                    out.arrs.insert(v / 2, HashMap::new());
                }
                for e in sels {
                    let n = self.n(e);
                    let ia = self.nar(n.a, ARRBITS);
                    let va = self.ast(e);
                    let mut iv: P = std::ptr::null_mut();
                    let mut vv: P = std::ptr::null_mut();
                    if Z3_model_eval(z, m, ia, true, &mut iv) && Z3_model_eval(z, m, va, true, &mut vv) {
                        Z3_inc_ref(z, iv);
                        Z3_inc_ref(z, vv);
                        let (mut i, mut v) = (0, 0);
                        Z3_get_numeral_uint64(z, iv, &mut i);
                        Z3_get_numeral_uint64(z, vv, &mut v);
                        out.arrs.entry(n.imm as u32).or_default().insert(i, v as u8);
                    }
                }
                Z3_model_dec_ref(z, m);
                if cons.iter().all(|&c| self.eval(c, &out) == 1) {
                    Sat::Sat(out)
                } else {
                    Sat::Unknown
                }
            };
            Z3_solver_dec_ref(z, s);
            res
        }
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{}", n.imm),
            Op::Var => format!("v{}", n.imm),
            _ if depth == 0 => "..".to_string(),
            Op::Sel => format!("a{}[{}]", n.imm, self.show(n.a, depth - 1)),
            Op::Extract => format!("{}[{}:{}]", self.show(n.a, depth - 1), n.imm as u32 + n.w as u32 - 1, n.imm),
            Op::Ite => format!("(if {} {} {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.imm as E, depth - 1)),
            _ => {
                if n.b != 0 {
                    format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1))
                } else {
                    format!("({:?}{} {})", n.op, n.w, self.show(n.a, depth - 1))
                }
            }
        }
    }
}
