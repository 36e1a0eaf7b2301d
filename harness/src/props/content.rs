//! What is read is what was written (C01, C02, C03, C05, C06, C07, C16, C23, C25).
use super::*;

const CS: u64 = 16384;

/// two writes and a read anywhere in three chunks, lengths up to 2.4 chunks
pub fn c01_two_writes() {
    let mut e = Env::stable();
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 6 * CS));
    sym_write(&mut e, fd, &mut g, 2, CS, 40000, 1);
    sym_write(&mut e, fd, &mut g, 3, CS, 40000, 2);
    check(e.size(fd) == g.size, 3);
    sym_read(&mut e, fd, &g, 3, CS, 40000, 4);
    cover(1);
}

/// a read between overlapping writes, and the whole file afterwards
pub fn c01_overwrite() {
    let mut e = Env::stable();
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 4 * CS));
    sym_write(&mut e, fd, &mut g, 1, CS, 20000, 1);
    sym_read(&mut e, fd, &g, 2, CS, 20000, 2);
    sym_write(&mut e, fd, &mut g, 2, CS, 20000, 4);
    sym_write(&mut e, fd, &mut g, 2, CS, 20000, 5);
    check(e.size(fd) == g.size, 6);
    read_at(&mut e, fd, &g, 0, 80000, 80000, 7);
    cover(1);
}

/// consecutive writes and reads through the cursor
pub fn c01_cursor() {
    let mut e = Env::stable();
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 3 * CS));
    let mut pos = offset(1, CS);
    e.seek(fd, pos);
    for i in 0..3 {
        let d = arbitrary(12000);
        let l = any(0, 12000);
        let n = e.fs.write(fd, &d[..l as usize]).unwrap();
        check(n == l, 1 + i);
        g.write(pos, l, &d);
        pos += l;
    }
    check(e.size(fd) == g.size, 4);
    let mut pos = offset(2, CS);
    e.seek(fd, pos);
    for _ in 0..2 {
        let mut buf = arbitrary(20000);
        let old = buf.clone();
        let l = any(0, 20000);
        let n = e.fs.read(fd, &mut buf[..l as usize]).unwrap();
        check(n == g.expect(pos, l), 5);
        check(g.matches(pos, n, &buf, &old), 6);
        pos += n;
    }
    cover(1);
}

/// every chunk size
pub fn c01_chunk_sizes() {
    let mut e = Env::stable();
    let cs = SIZES[choose(5) as usize];
    e.fs.storage.set_chunk_size(cs).unwrap();
    let cs = cs as u64;
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 4 * cs));
    let cap = cs as usize + 1000;
    sym_write(&mut e, fd, &mut g, 2, cs, cap, 1);
    sym_write(&mut e, fd, &mut g, 2, cs, cap, 2);
    check(e.size(fd) == g.size, 3);
    sym_read(&mut e, fd, &g, 2, cs, cap, 4);
    cover(1);
}

/// widely separated chunks: the window of the chunk pointer cache (100 and 1024 chunks)
fn sparse(n: u32) {
    const AT: [u64; 7] = [0, 100, 101, 1024, 99, 300, 1025];
    let mut e = Env::stable();
    let fd = e.create("a");
    let base = AT[choose(n) as usize] * CS;
    let mut g = Ghost::new(base + any(0, 3 * CS));
    for i in 0..2 {
        let d = arbitrary(1000);
        let o = AT[choose(n) as usize] * CS + any(0, CS - 1);
        let l = any(1, 1000);
        write_at(&mut e, fd, o, l, &d, 1 + i);
        g.write(o, l, &d);
    }
    check(e.size(fd) == g.size, 3);
    probe(&mut e, fd, &g, 4);
    let o = base + any(0, CS - 1);
    let l = any(0, 20000);
    read_at(&mut e, fd, &g, o, l, 20000, 7);
    cover(1);
}
pub fn c01_sparse() {
    sparse(4);
}
pub fn c01_sparse_deep() {
    sparse(7);
}

const C1: u64 = 4096;

fn resize(e: &mut Env, fd: Fd, g: &mut Ghost, n: u64, id: u32) {
    check(e.fs.set_file_size(fd, n).is_ok(), id);
    g.resize(n);
}

// ---- C02

fn legacy_writes(chunks: u32, cap: usize) {
    let mut e = Env::v1();
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 6 * C1));
    sym_write(&mut e, fd, &mut g, 2, C1, cap, 1);
    sym_write(&mut e, fd, &mut g, chunks, C1, cap, 2);
    check(e.size(fd) == g.size, 3);
    sym_read(&mut e, fd, &g, chunks, C1, cap, 4);
    cover(1);
}
pub fn c02_two_writes() {
    legacy_writes(2, 4500);
}
pub fn c02_two_writes_deep() {
    legacy_writes(3, 9000);
}

fn legacy_overwrite(cap: usize, third: bool) {
    let mut e = Env::v1();
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 4 * C1));
    sym_write(&mut e, fd, &mut g, 1, C1, cap, 1);
    if third {
        sym_read(&mut e, fd, &g, 2, C1, cap, 2);
        sym_write(&mut e, fd, &mut g, 2, C1, cap, 4);
    }
    sym_write(&mut e, fd, &mut g, 2, C1, cap, 5);
    check(e.size(fd) == g.size, 6);
    read_at(&mut e, fd, &g, 0, 20000, 20000, 7);
    cover(1);
}
pub fn c02_overwrite() {
    legacy_overwrite(5000, false);
}
pub fn c02_overwrite_deep() {
    legacy_overwrite(5000, true);
}

fn legacy_sparse(n: u32) {
    const AT: [u64; 5] = [0, 7, 256, 1, 255];
    let mut e = Env::v1();
    let fd = e.create("a");
    let base = AT[choose(n) as usize] * C1;
    let mut g = Ghost::new(base + any(0, 3 * C1));
    for i in 0..2 {
        let d = arbitrary(600);
        let o = AT[choose(n) as usize] * C1 + any(0, C1 - 1);
        let l = any(1, 600);
        write_at(&mut e, fd, o, l, &d, 1 + i);
        g.write(o, l, &d);
    }
    check(e.size(fd) == g.size, 3);
    probe(&mut e, fd, &g, 4);
    let o = base + any(0, C1 - 1);
    let l = any(0, 5000);
    read_at(&mut e, fd, &g, o, l, 5000, 7);
    cover(1);
}
pub fn c02_sparse() {
    legacy_sparse(3);
}
pub fn c02_sparse_deep() {
    legacy_sparse(5);
}

// ---- C03

pub fn c03_two_writes() {
    let mut e = Env::transient();
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 6 * C1));
    sym_write(&mut e, fd, &mut g, 2, C1, 9000, 1);
    sym_write(&mut e, fd, &mut g, 3, C1, 9000, 2);
    check(e.size(fd) == g.size, 3);
    sym_read(&mut e, fd, &g, 3, C1, 9000, 4);
    cover(1);
}

/// write, two size changes, write, one byte
pub fn c03_resize() {
    let mut e = Env::transient();
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 5 * C1));
    sym_write(&mut e, fd, &mut g, 2, C1, 9000, 1);
    let n = offset(4, C1);
    resize(&mut e, fd, &mut g, n, 2);
    check(e.size(fd) == g.size, 3);
    let n = offset(4, C1);
    resize(&mut e, fd, &mut g, n, 4);
    probe(&mut e, fd, &g, 5);
    cover(1);
}

/// what comes back after shrinking and writing again
pub fn c03_rewrite() {
    let mut e = Env::transient();
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 4 * C1));
    let d = arbitrary(3 * C1 as usize);
    write_at(&mut e, fd, 0, 3 * C1, &d, 1);
    g.write(0, 3 * C1, &d);
    if choose(2) == 0 {
        let n = offset(3, C1);
        resize(&mut e, fd, &mut g, n, 2);
    } else {
        let r = e.root();
        let f2 = e.fs.open(r, "a", FdStat::default(), OpenFlags::TRUNCATE, 0).unwrap();
        e.fs.close(f2).unwrap();
        g.resize(0);
    }
    sym_write(&mut e, fd, &mut g, 3, C1, 3000, 3);
    check(e.size(fd) == g.size, 4);
    sym_read(&mut e, fd, &g, 3, C1, 6000, 5);
    cover(1);
}

/// size limits of the in-memory storage
pub fn c03_limit() {
    let mut e = Env::transient();
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 5 * C1));
    sym_write(&mut e, fd, &mut g, 1, C1, 5000, 1);
    let lim = offset(3, C1);
    let r = e.fs.set_file_size_limit(fd, lim);
    check(r.is_ok() == (g.size <= lim), 2);
    let d = arbitrary(5000);
    let o = offset(3, C1);
    let l = any(0, 5000);
    e.seek(fd, o);
    let w = e.fs.write(fd, &d[..l as usize]);
    if r.is_ok() && l > 0 && o + l > lim {
        check(w == Err(Error::FileTooLarge), 3);
    } else {
        check(w == Ok(l), 4);
        g.write(o, l, &d);
    }
    probe(&mut e, fd, &g, 5);
    cover(1);
}

// ---- C05

fn two_resizes(mut e: Env, cs: u64, cap: usize) {
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 4 * cs));
    sym_write(&mut e, fd, &mut g, 2, cs, cap, 1);
    let n = offset(3, cs);
    resize(&mut e, fd, &mut g, n, 2);
    check(e.size(fd) == g.size, 3);
    let n = offset(4, cs);
    resize(&mut e, fd, &mut g, n, 4);
    probe(&mut e, fd, &g, 5);
    cover(1);
}

fn shrink_rewrite(mut e: Env, cs: u64, span: u32) {
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 4 * cs));
    let d = arbitrary(3 * cs as usize);
    let l0 = 2 * cs + any(0, cs);
    write_at(&mut e, fd, 0, l0, &d, 1);
    g.write(0, l0, &d);
    let n = offset(3, cs);
    resize(&mut e, fd, &mut g, n, 2);
    sym_write(&mut e, fd, &mut g, span, cs, 3000, 3);
    check(e.size(fd) == g.size, 4);
    if span == 3 {
        sym_read(&mut e, fd, &g, span, cs, cs as usize + 1000, 5);
    } else {
        probe(&mut e, fd, &g, 5);
    }
    cover(1);
}

pub fn c05_resize() {
    two_resizes(Env::stable(), CS, 40000);
}
pub fn c05_resize_v1() {
    two_resizes(Env::v1(), C1, 9000);
}
pub fn c05_rewrite() {
    shrink_rewrite(Env::stable(), CS, 3);
}
pub fn c05_rewrite_v1() {
    shrink_rewrite(Env::v1(), C1, 2);
}
pub fn c05_rewrite_v1_deep() {
    shrink_rewrite(Env::v1(), C1, 3);
}
pub fn c05_sizes() {
    let cs = SIZES[choose(5) as usize];
    two_resizes(Env::sized(cs), cs as u64, 3000);
}
pub fn c05_sizes_deep() {
    let cs = SIZES[choose(5) as usize];
    two_resizes(Env::sized(cs), cs as u64, cs as usize + 2000);
}
pub fn c05_rewrite_sizes() {
    let cs = SIZES[choose(5) as usize];
    shrink_rewrite(Env::sized(cs), cs as u64, 2);
}
pub fn c05_rewrite_sizes_deep() {
    let cs = SIZES[choose(5) as usize];
    shrink_rewrite(Env::sized(cs), cs as u64, 3);
}

/// files written before the format was recorded in the metadata
pub fn c05_legacy() {
    let mut e = Env::v1();
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 3 * C1));
    let mut m = e.fs.metadata(fd).unwrap();
    m.chunk_type = None;
    e.fs.set_metadata(fd, m).unwrap();
    sym_write(&mut e, fd, &mut g, 1, C1, 9000, 1);
    if g.size > 0 {
        // the default format of new files is not the format of this one
        e.fs.storage.set_chunk_type(ChunkType::V2);
    }
    assume(g.size > 0);
    let n = offset(3, C1);
    assume(n > 0);
    resize(&mut e, fd, &mut g, n, 2);
    probe(&mut e, fd, &g, 3);
    sym_write(&mut e, fd, &mut g, 2, C1, 3000, 6);
    probe(&mut e, fd, &g, 7);
    cover(1);
}

/// truncation on open, with the file open elsewhere
pub fn c05_truncate() {
    let k = choose(2);
    let mut e = if k == 0 { Env::stable() } else { Env::v1() };
    let cs = if k == 0 { CS } else { C1 };
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 3 * cs));
    sym_write(&mut e, fd, &mut g, 1, cs, 2 * cs as usize, 1);
    let r = e.root();
    let f2 = e.fs.open(r, "a", FdStat::default(), OpenFlags::TRUNCATE, 0).unwrap();
    g.resize(0);
    check(e.size(fd) == 0, 2);
    sym_write(&mut e, f2, &mut g, 2, cs, 3000, 3);
    probe(&mut e, fd, &g, 4);
    let n = offset(3, cs);
    resize(&mut e, f2, &mut g, n, 7);
    probe(&mut e, f2, &g, 8);
    cover(1);
}

// ---- C06

/// an arbitrary operation on one file
fn disturb(e: &mut Env, fd: Fd, cs: u64, cap: usize) {
    match choose(3) {
        0 => {
            let d = arbitrary(cap);
            let o = offset(2, cs);
            let l = any(0, cap as u64);
            e.seek(fd, o);
            e.fs.write(fd, &d[..l as usize]).unwrap();
        }
        1 => {
            let n = offset(2, cs);
            e.fs.set_file_size(fd, n).unwrap();
        }
        _ => {
            let r = e.root();
            let f = e.fs.open(r, "a", FdStat::default(), OpenFlags::TRUNCATE, 0).unwrap();
            e.fs.close(f).unwrap();
        }
    }
}

fn two_files(mut e: Env, cs: u64, cap: usize, second: bool) {
    let a = e.create("a");
    let b = e.create("b");
    let mut g = Ghost::new(any(0, 3 * cs));
    disturb(&mut e, a, cs, cap);
    sym_write(&mut e, b, &mut g, 2, cs, cap, 1);
    let before = e.fs.metadata(b).unwrap();
    disturb(&mut e, a, cs, cap);
    if second {
        disturb(&mut e, a, cs, cap);
    }
    check(same_meta(&before, &e.fs.metadata(b).unwrap()), 2);
    probe(&mut e, b, &g, 3);
    cover(1);
}
pub fn c06_high() {
    two_files(Env::numbered((1 << [8, 16, 24, 32, 48][choose(5) as usize]) - 1), CS, 17000, false);
}
pub fn c06_two_files() {
    two_files(Env::stable(), CS, 17000, false);
}
pub fn c06_two_files_deep() {
    two_files(Env::stable(), CS, 17000, true);
}
pub fn c06_two_files_v1() {
    two_files(Env::v1(), C1, 4200, false);
}
pub fn c06_transient() {
    two_files(Env::transient(), C1, 4200, false);
}
pub fn c06_transient_deep() {
    two_files(Env::transient(), C1, 4200, true);
}

/// removal and creation in between: chunks move from file to file
fn remove_grow(v1: bool, span: u32) {
    let mut e = if v1 { Env::v1() } else { Env::stable() };
    let cs = if v1 { C1 } else { CS };
    let r = e.root();
    let a = e.create("a");
    let b = e.create("b");
    let mut g = Ghost::new(any(0, 3 * cs));
    let d = arbitrary(2 * cs as usize);
    let la = any(0, 2 * cs);
    write_at(&mut e, a, 0, la, &d, 1);
    sym_write(&mut e, b, &mut g, 2, cs, 3000, 1);
    e.fs.close(a).unwrap();
    e.fs.remove_file(r, "a").unwrap();
    // the other file grows into what was freed
    sym_write(&mut e, b, &mut g, 2, cs, 3000, 2);
    let c = e.create("c");
    let mut h = Ghost::new(any(0, 3 * cs));
    sym_write(&mut e, c, &mut h, span, cs, 3000, 3);
    if choose(2) == 0 {
        probe(&mut e, b, &g, 4);
    } else {
        probe(&mut e, c, &h, 7);
    }
    cover(1);
}
pub fn c06_remove() {
    remove_grow(false, 1);
}
pub fn c06_remove_v1() {
    remove_grow(true, 1);
}
pub fn c06_remove_deep() {
    remove_grow(false, 2);
}

// ---- C07

fn fill_file(e: &mut Env, name: &str, cs: u64, chunks: u64) -> Fd {
    let f = e.create(name);
    let d = arbitrary((chunks * cs) as usize);
    let l = any(0, chunks * cs);
    e.fs.write(f, &d[..l as usize]).unwrap();
    f
}

fn reuse(mut e: Env, cs: u64, chunks: u64, span: u32) {
    let a = fill_file(&mut e, "a", cs, chunks);
    let r = e.root();
    match choose(3) {
        0 => {
            e.fs.close(a).unwrap();
            e.fs.remove_file(r, "a").unwrap();
        }
        1 => {
            let n = offset(chunks as u32, cs);
            let s = e.size(a);
            e.fs.set_file_size(a, min(s, n)).unwrap();
        }
        _ => {
            e.fs.open(r, "a", FdStat::default(), OpenFlags::TRUNCATE, 0).unwrap();
        }
    }
    let b = e.create("b");
    let mut g = Ghost::new(any(0, 4 * cs));
    sym_write(&mut e, b, &mut g, 3, cs, 2000, 1);
    if span > 1 {
        sym_write(&mut e, b, &mut g, span, cs, 2000, 5);
    }
    let n = offset(span + 1, cs);
    resize(&mut e, b, &mut g, n, 6);
    probe(&mut e, b, &g, 7);
    cover(1);
}
pub fn c07_reuse() {
    reuse(Env::stable(), CS, 2, 1);
}
pub fn c07_reuse_deep() {
    reuse(Env::stable(), CS, 2, 2);
}
pub fn c07_reuse_v1() {
    reuse(Env::v1(), C1, 2, 1);
}
pub fn c07_reuse_v1_deep() {
    reuse(Env::v1(), C1, 2, 2);
}
pub fn c07_reuse_transient() {
    reuse(Env::transient(), C1, 2, 1);
}
pub fn c07_reuse_transient_deep() {
    reuse(Env::transient(), C1, 2, 2);
}
pub fn c07_reuse_sizes() {
    let cs = SIZES[4 * choose(2) as usize];
    reuse(Env::sized(cs), cs as u64, 1, 1);
}
pub fn c07_reuse_sizes_deep() {
    let cs = SIZES[choose(5) as usize];
    reuse(Env::sized(cs), cs as u64, 1, 2);
}

/// space given back by one file, taken by another, and the first grows again
fn give_back(mut e: Env, cs: u64, len: usize, which: u32) {
    let r = e.root();
    let a = e.create("a");
    let b = e.create("b");
    let d = arbitrary(2 * cs as usize);
    let mut g = Ghost::new(any(0, 3 * cs));
    let l = any(0, 2 * cs);
    write_at(&mut e, a, 0, l, &d, 1);
    g.write(0, l, &d);
    let a = match choose(2) {
        0 => {
            let n = any(0, 2 * cs);
            resize(&mut e, a, &mut g, n, 2);
            a
        }
        _ => {
            e.fs.close(a).unwrap();
            g.resize(0);
            e.fs.open(r, "a", FdStat::default(), OpenFlags::TRUNCATE, 0).unwrap()
        }
    };
    let db = arbitrary(2 * cs as usize);
    let mut h = Ghost::new(any(0, 3 * cs));
    let lb = any(0, 2 * cs);
    write_at(&mut e, b, 0, lb, &db, 3);
    h.write(0, lb, &db);
    sym_write(&mut e, a, &mut g, 2, cs, len, 4);
    if which == 0 {
        probe(&mut e, b, &h, 5);
    } else {
        probe(&mut e, a, &g, 8);
    }
    cover(1);
}
pub fn c06_give_back() {
    give_back(Env::stable(), CS, 1000, 0);
}
pub fn c06_give_back_v1() {
    give_back(Env::v1(), C1, 500, 0);
}
pub fn c07_give_back() {
    give_back(Env::stable(), CS, 1000, 1);
}
pub fn c07_give_back_v1() {
    give_back(Env::v1(), C1, 500, 1);
}

/// several removed files of different kinds, then growth by size only
fn grow_only(span: u32) {
    let mut e = Env::stable();
    let r = e.root();
    let a = fill_file(&mut e, "a", CS, 1);
    e.fs.mkdir(r, "d", FdStat::default(), any(0, u64::MAX)).unwrap();
    let b = e.create("b");
    e.fs.set_accessed_time(b, any(0, u64::MAX)).unwrap();
    let mut g = Ghost::new(any(0, 4 * CS));
    sym_write(&mut e, b, &mut g, 1, CS, 2000, 1);
    e.fs.close(a).unwrap();
    e.fs.remove_file(r, "a").unwrap();
    e.fs.remove_dir(r, "d").unwrap();
    let n = offset(span, CS);
    resize(&mut e, b, &mut g, n, 2);
    if span > 2 {
        probe(&mut e, b, &g, 3);
    }
    let n = offset(span, CS);
    resize(&mut e, b, &mut g, n, 6);
    sym_write(&mut e, b, &mut g, span, CS, 2000, 7);
    probe(&mut e, b, &g, 8);
    cover(1);
}
pub fn c07_grow() {
    grow_only(2);
}
pub fn c07_grow_deep() {
    grow_only(4);
}
