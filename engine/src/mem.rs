//! Memory with lazily applied symbolic updates.
//! A byte is its concrete/symbolic base value overwritten by the regions (symbolic-extent
//! updates) recorded after it was stored, in order.
use crate::expr::*;
use std::rc::Rc;

pub const PS: u64 = 4096;
const CH: usize = 256; // pages per chunk

#[derive(Clone)]
pub struct Ext {
    sym: Vec<E>,   // PS entries, 0 = concrete
    seq: Vec<u32>, // number of regions that existed when the byte was stored
    regs: Vec<u32>,
    nsym: u32,
}
#[derive(Clone)]
pub struct Page {
    data: Box<[u8; PS as usize]>,
    ext: Option<Box<Ext>>,
}
type Chunk = Vec<Option<Rc<Page>>>;

#[derive(Clone, Default)]
pub struct Mem {
    chunks: Rc<Vec<Option<Rc<Chunk>>>>,
    pub size: u64, // bytes
}

pub enum Src {
    Fill(E),
    Arr(u32, u64), // array, delta
    Snap(Mem, E),  // memory, source base (64 bit)
    Vals(Vec<E>),
}
pub struct Region {
    pub off: E,
    pub len: E,
    pub end: E,
    pub lo: u64,
    pub hi: u64, // exclusive
    pub src: Src,
}

#[derive(Default)]
pub struct Arena {
    pub regs: Vec<Rc<Region>>,
    pub memo: std::collections::HashMap<(u32, E, E, u64, u64), E>,
    pub memo_key: usize,
    pub reg_reads: u64,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Base {
    C(u8),
    S(E),
    Arr(u32, u64), // value at address A is arr[A + delta]
    Any,
}

impl Page {
    fn new() -> Page {
        Page { data: Box::new([0; PS as usize]), ext: None }
    }
    fn ext(&mut self) -> &mut Ext {
        if self.ext.is_none() {
            self.ext = Some(Box::new(Ext { sym: vec![0; PS as usize], seq: vec![0; PS as usize], regs: vec![], nsym: 0 }));
        }
        self.ext.as_mut().unwrap()
    }
}

impl Mem {
    pub fn new(size: u64) -> Mem {
        Mem { chunks: Rc::new(vec![]), size }
    }
    #[inline]
    fn page(&self, p: u64) -> Option<&Page> {
        match self.chunks.get(p as usize / CH) {
            Some(Some(c)) => c[p as usize % CH].as_deref(),
            _ => None,
        }
    }
    fn page_mut(&mut self, p: u64) -> &mut Page {
        let cs = Rc::make_mut(&mut self.chunks);
        let ci = p as usize / CH;
        if cs.len() <= ci {
            cs.resize(ci + 1, None);
        }
        let c = cs[ci].get_or_insert_with(|| Rc::new(vec![None; CH]));
        let c = Rc::make_mut(c);
        let pg = c[p as usize % CH].get_or_insert_with(|| Rc::new(Page::new()));
        Rc::make_mut(pg)
    }
    /// n <= 8 concrete bytes, None if any is not plainly concrete
    #[inline]
    pub fn load_conc(&self, ar: &Arena, a: u64, n: usize) -> Option<u64> {
        let o = (a % PS) as usize;
        if o + n > PS as usize {
            let mut v = 0u64;
            for i in 0..n {
                v |= self.load_conc(ar, a + i as u64, 1)? << (8 * i);
            }
            return Some(v);
        }
        match self.page(a / PS) {
            None => Some(0),
            Some(p) => {
                if p.ext.is_some() {
                    return self.load_ext(ar, p, a, n);
                }
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&p.data[o..o + n]);
                Some(u64::from_le_bytes(b))
            }
        }
    }
    fn load_ext(&self, ar: &Arena, p: &Page, a: u64, n: usize) -> Option<u64> {
        let o = (a % PS) as usize;
        let x = p.ext.as_ref().unwrap();
        let last = x.regs.last().copied();
        let mut v = 0u64;
        for i in 0..n {
            if x.sym[o + i] != 0 {
                return None;
            }
            if let Some(l) = last {
                let b = a + i as u64;
                if l >= x.seq[o + i]
                    && x.regs.iter().any(|&r| r >= x.seq[o + i] && ar.regs[r as usize].lo <= b && b < ar.regs[r as usize].hi)
                {
                    return None;
                }
            }
            v |= (p.data[o + i] as u64) << (8 * i);
        }
        Some(v)
    }
    #[inline]
    pub fn store_conc(&mut self, ar: &Arena, a: u64, n: usize, v: u64) {
        let o = (a % PS) as usize;
        if o + n > PS as usize {
            for i in 0..n {
                self.store_conc(ar, a + i as u64, 1, (v >> (8 * i)) & 255);
            }
            return;
        }
        let p = self.page_mut(a / PS);
        p.data[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
        if let Some(x) = &mut p.ext {
            for i in o..o + n {
                if x.sym[i] != 0 {
                    x.sym[i] = 0;
                    x.nsym -= 1;
                }
            }
            if !x.regs.is_empty() {
                let s = ar.regs.len() as u32;
                x.seq[o..o + n].fill(s);
            } else if x.nsym == 0 {
                p.ext = None;
            }
        }
    }
    pub fn store_byte(&mut self, ctx: &Ctx, ar: &Arena, a: u64, e: E) {
        if let Some(c) = ctx.as_const(e) {
            return self.store_conc(ar, a, 1, c);
        }
        let o = (a % PS) as usize;
        let p = self.page_mut(a / PS);
        let x = p.ext();
        if x.sym[o] == 0 {
            x.nsym += 1;
        }
        x.sym[o] = e;
        if !x.regs.is_empty() {
            x.seq[o] = ar.regs.len() as u32;
        }
    }
    /// value of one byte at a concrete address
    pub fn byte(&self, ctx: &mut Ctx, ar: &mut Arena, a: u64) -> E {
        let Some(p) = self.page(a / PS) else { return ctx.konst(0, 8) };
        let o = (a % PS) as usize;
        let Some(x) = &p.ext else { return ctx.konst(p.data[o] as u64, 8) };
        let base = if x.sym[o] != 0 { x.sym[o] } else { ctx.konst(p.data[o] as u64, 8) };
        let seq = x.seq[o];
        let ids: Vec<u32> = x.regs.iter().copied().filter(|&r| r >= seq).collect();
        let ae = ctx.konst(a, 64);
        match fold_regs(ctx, ar, &ids, ae, a, a, Some(base), 0) {
            Some(e) => e,
            // the caller looks at ctx.stuck
            None => {
                assert!(ctx.stuck.is_some(), "no value and no reason");
                ctx.konst(0, 8)
            }
        }
    }
    /// is any byte of [a, a+len) possibly covered by a region newer than it
    fn reg_bounds(&self, ar: &Arena, a: u64, len: u64) -> Vec<(u64, u64)> {
        let mut out: Vec<(u64, u64)> = vec![];
        let mut last: Vec<u32> = vec![];
        for p in a / PS..(a + len).div_ceil(PS) {
            if let Some(pg) = self.page(p) {
                if let Some(x) = &pg.ext {
                    for &r in &x.regs {
                        if last.contains(&r) {
                            continue;
                        }
                        last.push(r);
                        let g = &ar.regs[r as usize];
                        let lo = g.lo.max(a);
                        let hi = g.hi.min(a + len);
                        if lo < hi {
                            // any byte older than the region?
                            let mut l = None;
                            let mut h = 0;
                            for b in lo..hi {
                                let s = self.page(b / PS).and_then(|q| q.ext.as_ref()).map(|e| e.seq[(b % PS) as usize]).unwrap_or(0);
                                if s <= r {
                                    l.get_or_insert(b);
                                    h = b + 1;
                                }
                            }
                            if let Some(l) = l {
                                out.push((l, h));
                            }
                        }
                    }
                }
            }
        }
        out.sort();
        let mut m: Vec<(u64, u64)> = vec![];
        for (l, h) in out {
            if let Some(t) = m.last_mut() {
                if l <= t.1 {
                    t.1 = t.1.max(h);
                    continue;
                }
            }
            m.push((l, h));
        }
        m
    }
    /// byte at a symbolic address known to lie in [lo, hi]; None if it has no compact form
    pub fn sym_byte(&self, ctx: &mut Ctx, ar: &mut Arena, addr: E, lo: u64, hi: u64, guard: E) -> Option<E> {
        if let Some(c) = ctx.as_const(addr).or(if lo == hi { Some(lo) } else { None }) {
            let e = self.byte(ctx, ar, c);
            return if ctx.stuck.is_some() { None } else { Some(e) };
        }
        if hi - lo > (1 << 26) {
            ctx.stuck = Some((addr, lo, hi));
            return None;
        }
        // union of regions touching the range
        let mut ids: Vec<u32> = vec![];
        for p in lo / PS..=hi / PS {
            if let Some(x) = self.page(p).and_then(|q| q.ext.as_ref()) {
                for &r in &x.regs {
                    let g = &ar.regs[r as usize];
                    if g.lo <= hi && g.hi > lo {
                        ids.push(r);
                    }
                }
            }
        }
        ids.sort();
        ids.dedup();
        // definite cover bounds
        let def: Vec<(u64, u64)> = ids
            .iter()
            .map(|&r| {
                let g = ar.regs[r as usize].clone();
                let (_, oh) = ctx.iv(g.off);
                let (el, _) = ctx.iv(g.end);
                (oh, el)
            })
            .collect();
        // runs
        let mut runs: Vec<(u64, usize, Base)> = vec![]; // start, first newer region, base
        let push = |runs: &mut Vec<(u64, usize, Base)>, s: u64, k: usize, b: Base| {
            if let Some(l) = runs.last_mut() {
                if l.1 == k {
                    match (l.2, b) {
                        (x, y) if x == y => return,
                        (_, Base::Any) => return,
                        (Base::Any, y) => {
                            l.2 = y;
                            return;
                        }
                        _ => {}
                    }
                }
            }
            runs.push((s, k, b));
        };
        let mut a = lo;
        while a <= hi {
            let p = a / PS;
            let pe = ((p + 1) * PS - 1).min(hi);
            match self.page(p) {
                None => {
                    // cover check for the whole stretch
                    let any = def.iter().any(|d| d.0 <= a && d.1 > pe);
                    push(&mut runs, a, 0, if any { Base::Any } else { Base::C(0) });
                }
                Some(pg) => match &pg.ext {
                    None => {
                        for x in a..=pe {
                            push(&mut runs, x, 0, Base::C(pg.data[(x % PS) as usize]));
                        }
                    }
                    Some(e) => {
                        for x in a..=pe {
                            let o = (x % PS) as usize;
                            let s = e.seq[o];
                            let k = if s == 0 { 0 } else { ids.partition_point(|&r| r < s) };
                            let any = (k..ids.len()).any(|i| def[i].0 <= x && def[i].1 > x);
                            let b = if any {
                                Base::Any
                            } else if e.sym[o] != 0 {
                                let n = ctx.n(e.sym[o]);
                                match n.op {
                                    Op::Sel if ctx.as_const(n.a).is_some() => {
                                        Base::Arr(n.imm as u32, ctx.as_const(n.a).unwrap().wrapping_sub(x))
                                    }
                                    _ => Base::S(e.sym[o]),
                                }
                            } else {
                                Base::C(pg.data[o])
                            };
                            push(&mut runs, x, k, b);
                        }
                    }
                },
            }
            if runs.len() > 600 {
                break;
            }
            a = pe + 1;
        }
        if runs.len() > 3 {
            // the address is often confined to one object, relationally rather than by intervals
            let mut cand: Vec<(u64, u64)> = def.iter().filter(|d| d.0 < d.1 && d.0 <= hi && d.1 > lo && !(d.0 <= lo && d.1 > hi)).map(|d| (d.0.max(lo), (d.1 - 1).min(hi))).collect();
            cand.sort_by_key(|d| d.1 - d.0);
            cand.dedup();
            for (l, h) in cand.into_iter().rev().take(3) {
                if confined(ctx, addr, l, h, guard) {
                    return self.sym_byte(ctx, ar, addr, l, h, guard);
                }
            }
        }
        if runs.len() > 600 {
            // tighten by bisection
            let Some((l, h)) = bisect(ctx, addr, lo, hi, guard) else {
                ctx.stuck = Some((addr, lo, hi));
                return None;
            };
            if l > h {
                return Some(ctx.konst(0, 8));
            }
            if (l, h) == (lo, hi) || h - l > (hi - lo) * 3 / 4 {
                if std::env::var("SYMDBG").is_ok() {
                    eprintln!("runs: addr {} iv {:?} lo {lo} hi {hi} ids {:?}", ctx.show(addr, 5), ctx.iv(addr), ids.iter().map(|&r| (ar.regs[r as usize].lo, ar.regs[r as usize].hi)).collect::<Vec<_>>());
                }
                ctx.stuck = Some((addr, l, h));
                return None;
            }
            return self.sym_byte(ctx, ar, addr, l, h, guard);
        }
        // value per run, grouped by k
        let mut vals: Vec<(u64, E)> = vec![];
        let mut i = 0;
        while i < runs.len() {
            let k = runs[i].1;
            let mut j = i;
            while j < runs.len() && runs[j].1 == k {
                j += 1;
            }
            let start = runs[i].0;
            let end = if j < runs.len() { runs[j].0 - 1 } else { hi };
            let parts: Vec<(u64, E)> = runs[i..j]
                .iter()
                .map(|r| {
                    let v = match r.2 {
                        Base::C(c) => ctx.konst(c as u64, 8),
                        Base::S(e) => e,
                        Base::Arr(arr, d) => {
                            let de = ctx.konst(d, 64);
                            let ix = ctx.add(addr, de);
                            ctx.sel(arr, ix)
                        }
                        Base::Any => ctx.konst(0, 8),
                    };
                    (r.0, v)
                })
                .collect();
            let only_any = j == i + 1 && runs[i].2 == Base::Any;
            let base = tree(ctx, addr, &parts);
            let v = fold_regs(ctx, ar, &ids[k..], addr, start, end, if only_any { None } else { Some(base) }, guard)?;
            vals.push((start, v));
            i = j;
        }
        Some(tree(ctx, addr, &vals))
    }
    pub fn add_region(&mut self, ctx: &mut Ctx, ar: &mut Arena, off: E, len: E, lo: u64, hi: u64, src: Src) {
        if hi <= lo {
            return;
        }
        let end = ctx.add(off, len);
        let id = ar.regs.len() as u32;
        let (_, oh) = ctx.iv(off);
        let (el, _) = ctx.iv(end);
        ar.regs.push(Rc::new(Region { off, len, end, lo, hi, src }));
        for p in lo / PS..hi.div_ceil(PS) {
            let pg = self.page_mut(p);
            let full = oh <= p * PS && el >= (p + 1) * PS;
            let x = pg.ext();
            if full {
                x.regs.clear();
                x.sym.fill(0);
                x.nsym = 0;
                x.seq.fill(0);
            }
            x.regs.push(id);
        }
    }
    fn put_raw(&mut self, ar: &Arena, a: u64, bytes: &[u8]) {
        let mut i = 0;
        while i < bytes.len() {
            let o = ((a + i as u64) % PS) as usize;
            let n = (PS as usize - o).min(bytes.len() - i);
            let p = self.page_mut((a + i as u64) / PS);
            p.data[o..o + n].copy_from_slice(&bytes[i..i + n]);
            if let Some(x) = &mut p.ext {
                for q in o..o + n {
                    if x.sym[q] != 0 {
                        x.sym[q] = 0;
                        x.nsym -= 1;
                    }
                }
                if x.regs.is_empty() {
                    if x.nsym == 0 {
                        p.ext = None;
                    }
                } else {
                    x.seq[o..o + n].fill(ar.regs.len() as u32);
                }
            }
            i += n;
        }
    }
    pub fn fill_conc(&mut self, ar: &Arena, a: u64, len: u64, v: u8) {
        self.put_raw(ar, a, &vec![v; len as usize]);
    }
    pub fn write_conc(&mut self, ar: &Arena, a: u64, b: &[u8]) {
        self.put_raw(ar, a, b);
    }
    fn copy_bytes(dst: &mut Mem, ctx: &mut Ctx, ar: &mut Arena, d: u64, src: &Mem, s: u64, len: u64) {
        // no relevant regions in the source range
        let mut i = 0;
        while i < len {
            let o = ((s + i) % PS) as usize;
            let n = (PS - o as u64).min(len - i) as usize;
            match src.page((s + i) / PS) {
                None => dst.put_raw(ar, d + i, &vec![0u8; n]),
                Some(p) => {
                    dst.put_raw(ar, d + i, &p.data[o..o + n]);
                    if let Some(x) = &p.ext {
                        if x.nsym > 0 {
                            for q in 0..n {
                                if x.sym[o + q] != 0 {
                                    dst.store_byte(ctx, ar, d + i + q as u64, x.sym[o + q]);
                                }
                            }
                        }
                    }
                }
            }
            i += n as u64;
        }
    }
    /// copy with a concrete extent
    pub fn copy_conc(dst: &mut Mem, ctx: &mut Ctx, ar: &mut Arena, d: u64, src: &Mem, s: u64, len: u64) {
        if len == 0 {
            return;
        }
        let rb = src.reg_bounds(ar, s, len);
        if rb.is_empty() {
            return Self::copy_bytes(dst, ctx, ar, d, src, s, len);
        }
        let mut at = s;
        for (l, h) in rb {
            if l > at {
                Self::copy_bytes(dst, ctx, ar, d + (at - s), src, at, l - at);
            }
            if h - l <= 16 {
                for b in l..h {
                    let e = src.byte(ctx, ar, b);
                    dst.store_byte(ctx, ar, d + (b - s), e);
                }
            }
            if h - l > 16 || ctx.stuck.take().is_some() {
                let off = ctx.konst(d + (l - s), 64);
                let len = ctx.konst(h - l, 64);
                let base = ctx.konst(l, 64);
                dst.add_region(ctx, ar, off, len, d + (l - s), d + (h - s), Src::Snap(src.clone(), base));
            }
            at = h;
        }
        if at < s + len {
            Self::copy_bytes(dst, ctx, ar, d + (at - s), src, at, s + len - at);
        }
    }
    pub fn read_conc_vec(&self, ar: &Arena, a: u64, len: u64) -> Option<Vec<u8>> {
        let mut v = Vec::with_capacity(len as usize);
        for i in 0..len {
            v.push(self.load_conc(ar, a + i, 1)? as u8);
        }
        Some(v)
    }
}

fn tree(ctx: &mut Ctx, addr: E, parts: &[(u64, E)]) -> E {
    if parts.len() == 1 {
        return parts[0].1;
    }
    let m = parts.len() / 2;
    let l = tree(ctx, addr, &parts[..m]);
    let r = tree(ctx, addr, &parts[m..]);
    if l == r {
        return l;
    }
    let b = ctx.konst(parts[m].0, 64);
    let c = ctx.ult(addr, b);
    ctx.ite(c, l, r)
}

/// apply the regions (ascending ids) to the base at the address
fn fold_regs(ctx: &mut Ctx, ar: &mut Arena, ids: &[u32], addr: E, lo: u64, hi: u64, base: Option<E>, guard: E) -> Option<E> {
    let mut pend: Vec<(E, E)> = vec![];
    let mut last: Option<E> = None;
    for &r in ids.iter().rev() {
        let g = ar.regs[r as usize].clone();
        if g.lo > hi || g.hi <= lo {
            continue;
        }
        let c1 = ctx.ule(g.off, addr);
        let c2 = ctx.ult(addr, g.end);
        let c = ctx.band(c1, c2);
        let k = ctx.as_const(c);
        if k == Some(0) {
            continue;
        }
        let iv = ctx.iv(c);
        if iv.1 == 0 {
            continue;
        }
        let sure = iv.0 == 1;
        let g2 = if guard == 0 { c } else { ctx.band(c, guard) };
        let v = src_byte(ctx, ar, r, &g, addr, lo, hi, g2)?;
        if sure {
            last = Some(v);
            break;
        }
        pend.push((c, v));
    }
    let mut v = match last {
        Some(v) => v,
        None => match base {
            Some(b) => b,
            // fully covered by construction: the oldest pending one decides
            None => {
                if let Some((_, v)) = pend.pop() {
                    v
                } else {
                    ctx.konst(0, 8)
                }
            }
        },
    };
    for (c, x) in pend.into_iter().rev() {
        v = ctx.ite(c, x, v);
    }
    Some(v)
}

fn src_byte(ctx: &mut Ctx, ar: &mut Arena, id: u32, g: &Rc<Region>, addr: E, lo: u64, hi: u64, guard: E) -> Option<E> {
    match &g.src {
        Src::Fill(e) => Some(*e),
        Src::Arr(a, d) => {
            let mut i = ctx.sub(addr, g.off);
            if *d != 0 {
                let de = ctx.konst(*d, 64);
                i = ctx.add(i, de);
            }
            Some(ctx.sel(*a, i))
        }
        Src::Vals(v) => {
            let i = ctx.sub(addr, g.off);
            if let Some(c) = ctx.as_const(i) {
                if (c as usize) < v.len() {
                    return Some(v[c as usize]);
                }
                return Some(ctx.konst(0, 8));
            }
            let mut r = v[v.len() - 1];
            for k in (0..v.len() - 1).rev() {
                let ke = ctx.konst(k as u64, 64);
                let c = ctx.eq(i, ke);
                r = ctx.ite(c, v[k], r);
            }
            Some(r)
        }
        Src::Snap(m, base) => {
            let i = ctx.sub(addr, g.off);
            let a = ctx.add(*base, i);
            if ar.memo_key != ctx.iv_epoch() {
                ar.memo.clear();
                ar.memo_key = ctx.iv_epoch();
            }
            // possible source range
            let (bl, _) = ctx.iv(*base);
            let be = ctx.add(*base, g.len);
            let (_, bh) = ctx.iv(be);
            let (al, ah) = ctx.iv(a);
            let mut l = bl;
            let mut h = bh.saturating_sub(1);
            if al >= l && al <= h {
                l = al;
            }
            if ah <= h && ah >= l {
                h = ah;
            }
            // relative to the destination range when base - off is a constant
            let dd = ctx.sub(*base, g.off);
            if let Some(d) = ctx.as_const(dd) {
                let (x, y) = (lo.wrapping_add(d), hi.wrapping_add(d));
                if x <= y {
                    l = l.max(x);
                    h = h.min(y);
                }
            }
            if l > h {
                return Some(ctx.konst(0, 8)); // cannot be inside
            }
            // the value is only meant under the guard and within the range
            let key = (id, a, guard, l, h);
            if let Some(&e) = ar.memo.get(&key) {
                return Some(e);
            }
            ar.reg_reads += 1;
            let v = if let Some(c) = ctx.as_const(a) {
                if c < l || c > h {
                    return Some(ctx.konst(0, 8));
                }
                m.byte(ctx, ar, c)
            } else {
                m.sym_byte(ctx, ar, a, l, h, guard)?
            };
            if ctx.stuck.is_some() {
                return None;
            }
            ar.memo.insert(key, v);
            Some(v)
        }
    }
}

/// does the guard confine the address to [l, h] on the current path
fn confined(ctx: &mut Ctx, addr: E, l: u64, h: u64, guard: E) -> bool {
    let (le, he) = (ctx.konst(l, 64), ctx.konst(h, 64));
    let c1 = ctx.ult(addr, le);
    let c2 = ctx.ult(he, addr);
    let mut c = ctx.bor(c1, c2);
    if guard != 0 {
        c = ctx.band(c, guard);
    }
    matches!(ctx.path_sat(c), Sat::Unsat)
}

fn bisect(ctx: &mut Ctx, addr: E, lo: u64, hi: u64, guard: E) -> Option<(u64, u64)> {
    let (mut l, mut h) = (lo, hi);
    // largest l with addr >= l always, to a granularity
    let g = if guard == 0 { ctx.t() } else { guard };
    let step = ((hi - lo) / 64).max(16);
    let (mut a, mut b) = (lo, hi);
    while b > a && b - a > step {
        let m = a + (b - a) / 2;
        let me = ctx.konst(m, 64);
        let c = ctx.ult(addr, me);
        let c = ctx.band(c, g);
        match ctx.path_sat(c) {
            Sat::Unsat => a = m,
            Sat::Sat(_) => b = m,
            Sat::Unknown => return None,
        }
    }
    l = l.max(a);
    let (mut a, mut b) = (l, hi);
    while b > a && b - a > step {
        let m = a + (b - a) / 2;
        let me = ctx.konst(m, 64);
        let c = ctx.ult(me, addr);
        let c = ctx.band(c, g);
        match ctx.path_sat(c) {
            Sat::Unsat => b = m,
            Sat::Sat(_) => a = m,
            Sat::Unknown => return None,
        }
    }
    h = h.min(b);
    Some((l, h))
}
