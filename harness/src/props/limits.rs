//! Size limits (C16), vectored transfers (C23), storage settings (C25).
use super::*;
use stable_fs::storage::types::MAX_FILE_SIZE;

/// contents and metadata are what they were
fn unchanged(e: &mut Env, fd: Fd, g: &Ghost, before: &Metadata, id: u32) {
    check(same_meta(before, &e.fs.metadata(fd).unwrap()), id);
    probe(e, fd, g, id + 1);
}

fn limited(k: u32) {
    let (mut e, cs) = env_of(k);
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 3 * cs));
    sym_write(&mut e, fd, &mut g, 1, cs, cs as usize, 1);
    let m0 = e.fs.metadata(fd).unwrap();
    // the limit itself, above and below the size
    let lim = offset(2, cs);
    let ok = e.fs.set_file_size_limit(fd, lim).is_ok();
    check(ok == (g.size <= lim), 2);
    if !ok {
        unchanged(&mut e, fd, &g, &m0, 3);
        cover(1);
        return;
    }
    let m1 = e.fs.metadata(fd).unwrap();
    check(and(m1.maximum_size_allowed == Some(lim), and(m1.size == g.size, same_rest(&m0, &m1))), 7);
    match choose(3) {
        0 => {
            // any offset
            // (legacy chunks are looked up one by one)
            let o = if k == 1 { offset(3, cs) } else { any(0, u64::MAX) };
            let l = any(1, 3000);
            let d = arbitrary(3000);
            let w = e.fs.write_vec_with_offset(fd, &[SrcBuf { buf: d.as_ptr(), len: l as usize }], o);
            let fits = and(o <= lim, l <= lim.wrapping_sub(o));
            if fits {
                check(w == Ok(l), 10);
                g.write(o, l, &d);
                let m2 = e.fs.metadata(fd).unwrap();
                check(and(same_rest(&m1, &m2), same_limit(&m1, &m2)), 11);
                probe(&mut e, fd, &g, 12);
                cover(2);
            } else {
                check(w.is_err(), 15);
                unchanged(&mut e, fd, &g, &m1, 16);
                cover(3);
            }
        }
        1 => {
            let n = any(0, u64::MAX);
            let r = e.fs.set_file_size(fd, n);
            check(r.is_ok() == (n <= lim), 20);
            if r.is_ok() {
                g.resize(n);
                let m2 = e.fs.metadata(fd).unwrap();
                check(and(same_rest(&m1, &m2), same_limit(&m1, &m2)), 21);
                probe(&mut e, fd, &g, 22);
                cover(4);
            } else {
                unchanged(&mut e, fd, &g, &m1, 25);
                cover(5);
            }
        }
        _ => {
            // another limit
            let n = any(0, u64::MAX);
            let r = e.fs.set_file_size_limit(fd, n);
            check(r.is_ok() == (g.size <= n), 30);
            if r.is_ok() {
                check(e.fs.metadata(fd).unwrap().maximum_size_allowed == Some(n), 31);
                probe(&mut e, fd, &g, 32);
            } else {
                unchanged(&mut e, fd, &g, &m1, 35);
            }
            cover(6);
        }
    }
    // reading stays within the size and the limit
    let o = if k == 1 { offset(3, cs) } else { any(0, u64::MAX) };
    let mut b = arbitrary(2000);
    let old = b.clone();
    let l = any(0, 2000);
    let n = e.fs.read_vec_with_offset(fd, &[DstBuf { buf: b.as_mut_ptr(), len: l as usize }], o).unwrap();
    check(n == g.expect(o, l), 40);
    check(g.matches(o, n, &b, &old), 41);
}

pub fn c16_limit() {
    limited(0);
}
pub fn c16_limit_v1() {
    limited(1);
}
pub fn c16_limit_transient() {
    limited(2);
}

/// a limited file hosted by a mounted memory
fn mounted(k: u32, span: u64) {
    let (mut e, _) = env_of(k);
    let m = VectorMemory::default();
    e.fs.mount_memory_file("a", Box::new(m), MountedFileSizePolicy::MemoryPages).unwrap();
    let fd = e.open("a").unwrap();
    let mut g = Ghost::new(any(0, span + 4000));
    sym_write(&mut e, fd, &mut g, 1, span / 2, 2000, 1);
    let m0 = e.fs.metadata(fd).unwrap();
    let lim = any(0, span);
    let ok = e.fs.set_file_size_limit(fd, lim).is_ok();
    check(ok == (g.size <= lim), 2);
    assume(ok);
    let m1 = e.fs.metadata(fd).unwrap();
    check(and(m1.size == m0.size, same_rest(&m0, &m1)), 3);
    if choose(2) == 0 {
        let o = any(0, u64::MAX);
        let l = any(1, 3000);
        let d = arbitrary(3000);
        let w = e.fs.write_vec_with_offset(fd, &[SrcBuf { buf: d.as_ptr(), len: l as usize }], o);
        let fits = and(o <= lim, l <= lim.wrapping_sub(o));
        if fits {
            check(w == Ok(l), 10);
            g.write(o, l, &d);
            probe(&mut e, fd, &g, 12);
            cover(1);
        } else {
            check(w.is_err(), 15);
            unchanged(&mut e, fd, &g, &m1, 16);
            cover(2);
        }
    } else {
        let n = any(0, u64::MAX);
        let r = e.fs.set_file_size(fd, n);
        check(r.is_ok() == (n <= lim), 20);
        if r.is_err() {
            unchanged(&mut e, fd, &g, &m1, 25);
            cover(3);
        } else {
            check(e.size(fd) == n, 26);
            cover(4);
        }
    }
}

pub fn c16_mounted() {
    mounted(0, 140_000);
}
pub fn c16_mounted_transient() {
    mounted(2, 9000);
}

/// around the largest possible file
fn maximum(k: u32) {
    let (mut e, _) = env_of(k);
    let fd = e.create("a");
    let mut g = Ghost::new(MAX_FILE_SIZE - any(0, 20_000));
    let m0 = e.fs.metadata(fd).unwrap();
    let n = any(0, u64::MAX);
    let r = e.fs.set_file_size(fd, n);
    check(r.is_ok() == (n <= MAX_FILE_SIZE), 1);
    if r.is_ok() {
        g.resize(n);
    } else {
        check(same_meta(&m0, &e.fs.metadata(fd).unwrap()), 2);
    }
    if choose(2) == 0 {
        // a limit above the maximum changes nothing
        let _ = e.fs.set_file_size_limit(fd, any(MAX_FILE_SIZE, u64::MAX));
    }
    let m1 = e.fs.metadata(fd).unwrap();
    let o = (MAX_FILE_SIZE - 20_000).wrapping_add(choose(5) as u64 * 8192).wrapping_add(any(0, 8191));
    let d = arbitrary(5000);
    let l = any(1, 5000);
    let w = e.fs.write_vec_with_offset(fd, &[SrcBuf { buf: d.as_ptr(), len: l as usize }], o);
    if o + l <= MAX_FILE_SIZE {
        check(w == Ok(l), 10);
        g.write(o, l, &d);
        cover(1);
    } else {
        check(w.is_err(), 11);
        check(same_meta(&m1, &e.fs.metadata(fd).unwrap()), 12);
        cover(2);
    }
    probe(&mut e, fd, &g, 13);
}
pub fn c16_max() {
    maximum(0);
}
pub fn c16_max_v1() {
    maximum(1);
}
pub fn c16_max_transient() {
    maximum(2);
}

// ---- C23

fn vectored(k: u32, cap: usize) {
    let (mut e, cs) = env_of(k);
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 3 * cs));
    sym_write(&mut e, fd, &mut g, 1, cs, cap, 1);
    let append = choose(2) == 1;
    if append {
        let mut st = e.fs.get_stat(fd).unwrap().1;
        st.flags = FdFlags::APPEND;
        e.fs.set_stat(fd, st).unwrap();
    }
    let cur = any(0, cs);
    e.seek(fd, cur);
    let d: Vec<Vec<u8>> = (0..3).map(|_| arbitrary(cap)).collect();
    let l: Vec<u64> = (0..3).map(|_| any(0, cap as u64)).collect();
    let v: Vec<SrcBuf> = (0..3).map(|i| SrcBuf { buf: d[i].as_ptr(), len: l[i] as usize }).collect();
    let at = choose(2) == 1;
    let pos;
    let n;
    if at {
        let o = offset(2, cs);
        pos = if append { g.size } else { o };
        n = e.fs.write_vec_with_offset(fd, &v, o);
    } else {
        pos = if append { g.size } else { cur };
        n = e.fs.write_vec(fd, &v);
    }
    let total = l[0] + l[1] + l[2];
    check(n == Ok(total), 2);
    check(e.fs.tell(fd).unwrap() == if at { cur } else { pos + total }, 3);
    let mut o = pos;
    for i in 0..3 {
        g.write(o, l[i], &d[i]);
        o += l[i];
    }
    probe(&mut e, fd, &g, 4);
    cover(1 + at as u32);
}

fn scattered(k: u32, cap: usize) {
    let (mut e, cs) = env_of(k);
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 2 * cs));
    sym_write(&mut e, fd, &mut g, 2, cs, cap, 1);
    let cur = offset(2, cs);
    e.seek(fd, cur);
    let mut b: Vec<Vec<u8>> = (0..3).map(|_| arbitrary(cap)).collect();
    let old = b.clone();
    let l: Vec<u64> = (0..3).map(|_| any(0, cap as u64)).collect();
    let v: Vec<DstBuf> = (0..3).map(|i| DstBuf { buf: b[i].as_mut_ptr(), len: l[i] as usize }).collect();
    let at = choose(2) == 1;
    let (pos, n) = if at {
        let o = offset(2, cs);
        (o, e.fs.read_vec_with_offset(fd, &v, o).unwrap())
    } else {
        (cur, e.fs.read_vec(fd, &v).unwrap())
    };
    let total = l[0] + l[1] + l[2];
    let want = g.expect(pos, total);
    check(n == want, 2);
    check(e.fs.tell(fd).unwrap() == ite(at, cur, pos + want), 3);
    let mut o = pos;
    let mut left = want;
    for i in 0..3 {
        let here = min(left, l[i]);
        check(g.matches(o, here, &b[i], &old[i]), 4 + i as u32);
        o += l[i];
        left -= here;
    }
    cover(1 + at as u32);
}

/// the whole buffers before the one that would pass the limit are stored
fn vectored_limit(k: u32, cap: usize) {
    let (mut e, cs) = env_of(k);
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 3 * cs));
    sym_write(&mut e, fd, &mut g, 1, cs, cap, 1);
    let lim = any(1, 2 * cs);
    assume(g.size <= lim);
    e.fs.set_file_size_limit(fd, lim).unwrap();
    let append = choose(2) == 1;
    if append {
        let mut st = e.fs.get_stat(fd).unwrap().1;
        st.flags = FdFlags::APPEND;
        e.fs.set_stat(fd, st).unwrap();
    }
    let cur = any(0, cs);
    assume(cur <= lim);
    e.seek(fd, cur);
    let m0 = e.fs.metadata(fd).unwrap();
    let d: Vec<Vec<u8>> = (0..3).map(|_| arbitrary(cap)).collect();
    let l: Vec<u64> = (0..3).map(|_| any(1, cap as u64)).collect();
    let v: Vec<SrcBuf> = (0..3).map(|i| SrcBuf { buf: d[i].as_ptr(), len: l[i] as usize }).collect();
    let at = choose(2) == 1;
    let pos = if append { g.size } else { cur };
    let n = if at { e.fs.write_vec_with_offset(fd, &v, pos) } else { e.fs.write_vec(fd, &v) };
    let total = l[0] + l[1] + l[2];
    let mut fits = 0;
    let mut o = pos;
    for i in 0..3 {
        if o + l[i] > lim {
            break;
        }
        g.write(o, l[i], &d[i]);
        o += l[i];
        fits += 1;
    }
    if fits == 3 {
        check(n == Ok(total), 2);
        check(e.fs.tell(fd).unwrap() == if at { cur } else { pos + total }, 3);
    } else {
        check(n.is_err(), 4);
        check(e.fs.tell(fd) == Ok(cur), 5);
    }
    let m = e.fs.metadata(fd).unwrap();
    check(and(m.size == g.size, and(same_rest(&m0, &m), same_limit(&m0, &m))), 6);
    probe(&mut e, fd, &g, 7);
    cover(1 + fits);
}
pub fn c23_limit() {
    vectored_limit(0, 3000);
}
pub fn c23_limit_v1() {
    vectored_limit(1, 2000);
}
pub fn c23_limit_transient() {
    vectored_limit(2, 2500);
}

pub fn c23_write() {
    vectored(0, 3000);
}
pub fn c23_write_v1() {
    vectored(1, 2500);
}
pub fn c23_write_transient() {
    vectored(2, 2500);
}
pub fn c23_read() {
    scattered(0, 6000);
}
pub fn c23_read_v1() {
    scattered(1, 2500);
}
pub fn c23_read_transient() {
    scattered(2, 2500);
}

// ---- C25

/// the chunk size is refused once something is stored, and remembered
pub fn c25_chunk_size() {
    let mut e = Env::stable();
    let mut want = 16384usize;
    if choose(2) == 1 {
        let c = SIZES[choose(5) as usize];
        check(e.fs.storage.set_chunk_size(c).is_ok(), 1);
        want = c as usize;
        check(e.fs.storage.chunk_size() == want, 2);
    }
    if choose(2) == 1 {
        e.upgrade();
        check(e.fs.storage.chunk_size() == want, 3);
        let c = SIZES[choose(5) as usize];
        check(e.fs.storage.set_chunk_size(c).is_ok(), 4);
        want = c as usize;
    }
    let cs = want as u64;
    let what = choose(3);
    let mut g = Ghost::new(any(0, 2 * cs));
    if what == 0 {
        let r = e.root();
        e.fs.mkdir(r, "d", FdStat::default(), 0).unwrap();
    } else {
        let fd = e.create("a");
        if what == 2 {
            sym_write(&mut e, fd, &mut g, 1, cs, 3000, 5);
        }
    }
    let c = SIZES[choose(5) as usize];
    let r = e.fs.storage.set_chunk_size(c);
    check(r.is_ok() == (c as usize == want), 6);
    check(e.fs.storage.chunk_size() == want, 7);
    e.upgrade();
    check(e.fs.storage.chunk_size() == want, 8);
    let r = e.fs.storage.set_chunk_size(c);
    check(r.is_ok() == (c as usize == want), 9);
    check(e.fs.storage.chunk_size() == want, 10);
    if what > 0 {
        let fd = e.open("a").unwrap();
        probe(&mut e, fd, &g, 11);
        sym_write(&mut e, fd, &mut g, 1, cs, 3000, 14);
        probe(&mut e, fd, &g, 15);
    }
    cover(1 + what);
}

/// files of both formats side by side
fn mixed(cap: usize, deep: bool) {
    let mut e = Env::stable();
    let c1 = 4096;
    let c2 = 16384;
    let first = choose(2) == 1;
    let ty = |x: bool| if x { ChunkType::V1 } else { ChunkType::V2 };
    e.fs.storage.set_chunk_type(ty(first));
    let a = e.create("a");
    let ca = if first { c1 } else { c2 };
    let mut g = Ghost::new(any(0, 2 * ca));
    sym_write(&mut e, a, &mut g, 1, ca, cap, 1);
    e.fs.storage.set_chunk_type(ty(!first));
    let b = e.create("b");
    let cb = if first { c2 } else { c1 };
    let mut h = Ghost::new(any(0, 2 * cb));
    sym_write(&mut e, b, &mut h, 1, cb, cap, 2);
    // the older file under the new default
    match choose(2) {
        0 => sym_write(&mut e, a, &mut g, 2, ca, cap, 3),
        _ => {
            let n = offset(2, ca);
            check(e.fs.set_file_size(a, n).is_ok(), 4);
            g.resize(n);
        }
    }
    if deep {
        sym_write(&mut e, a, &mut g, 1, ca, cap, 5);
    }
    let (mut a, mut b) = (a, b);
    if choose(2) == 1 {
        e.upgrade();
        a = e.open("a").unwrap();
        b = e.open("b").unwrap();
        sym_write(&mut e, b, &mut h, 1, cb, cap, 6);
    }
    check(e.fs.metadata(a).unwrap().chunk_type == Some(ty(first)), 7);
    check(e.fs.metadata(b).unwrap().chunk_type == Some(ty(!first)), 8);
    probe(&mut e, a, &g, 10);
    probe(&mut e, b, &h, 13);
    cover(1);
}
pub fn c25_mixed() {
    mixed(1500, false);
}
pub fn c25_mixed_deep() {
    mixed(5000, true);
}
