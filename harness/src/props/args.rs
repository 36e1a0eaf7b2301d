//! No argument makes the library trap (C26).
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use super::*;
use ic_stable_structures::Memory;

/// arbitrary text of n bytes (ASCII, any byte but the first alphabet restriction of UTF-8)
pub fn text(n: usize) -> String {
    if MIXED.load(Relaxed) {
        return characters(n);
    }
    let v: Vec<u8> = (0..n).map(|_| any(0, 127) as u8).collect();
    unsafe { String::from_utf8_unchecked(v) }
}

static MIXED: AtomicBool = AtomicBool::new(false);

/// texts are of characters of any length in UTF-8
pub fn mixed() {
    MIXED.store(true, Relaxed);
}
fn characters(n: usize) -> String {
    let mut v = vec![];
    for _ in 0..n {
        match choose(4) {
            0 => v.push(any(0, 127) as u8),
            1 => v.extend([any(0xc2, 0xdf) as u8, any(0x80, 0xbf) as u8]),
            2 => v.extend([any(0xe1, 0xec) as u8, any(0x80, 0xbf) as u8, any(0x80, 0xbf) as u8]),
            _ => v.extend([any(0xf1, 0xf3) as u8, any(0x80, 0xbf) as u8, any(0x80, 0xbf) as u8, any(0x80, 0xbf) as u8]),
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}

fn any_fd() -> Fd {
    any(0, u32::MAX as u64) as Fd
}

/// offsets and sizes: near the start, past the cached window, around 4 GiB, around the maximum, beyond it
fn far() -> u64 {
    use stable_fs::storage::types::MAX_FILE_SIZE;
    match choose(5) {
        0 => any(0, 40_000),
        1 => 101 * 16384 + any(0, 20_000),
        2 => (1 << 32) - 5000 + any(0, 10_000),
        3 => MAX_FILE_SIZE - 20_000 + any(0, 30_000),
        _ => any(MAX_FILE_SIZE + 1, u64::MAX),
    }
}

/// files of all kinds, open and closed, with limits and sizes
fn world(k: u32) -> Env {
    let (mut e, _) = env_of(k);
    let r = e.root();
    let a = e.create("a");
    e.fs.write(a, &[1; 20]).unwrap();
    let d = e.fs.create_open_directory(r, "d", FdStat::default(), 0).unwrap();
    let f = e.fs.open(d, "f", FdStat::default(), OpenFlags::CREATE, 0).unwrap();
    e.seek(f, 20_000);
    e.fs.write(f, &[2; 100]).unwrap();
    e.fs.set_file_size_limit(f, 60_000).unwrap();
    let m = VectorMemory::default();
    m.grow(1);
    e.fs.mount_memory_file("m", Box::new(m), MountedFileSizePolicy::MemoryPages).unwrap();
    let c = e.create("c");
    e.fs.close(c).unwrap();
    e
}

/// the world without the mounted file open: mounted memory may be exhausted, which is not what this is about
fn numeric(e: &mut Env, op: u32, last: bool) {
    let big = || if last { any(0, u64::MAX) } else { far() };
    let mut b = [3u8; 700];
    match op {
        0 => {
            let (f, l) = (any_fd(), any(0, 700) as usize);
            let _ = e.fs.read(f, &mut b[..l]);
        }
        1 => {
            let (f, l) = (any_fd(), any(0, 700) as usize);
            let _ = e.fs.write(f, &b[..l]);
        }
        2 => {
            let (f, l, o) = (any_fd(), any(0, 700) as usize, far());
            let v = [DstBuf { buf: b.as_mut_ptr(), len: l }, DstBuf { buf: b.as_mut_ptr(), len: 5 }];
            let _ = e.fs.read_vec_with_offset(f, &v, o);
        }
        3 => {
            let (f, l, o) = (any_fd(), any(0, 700) as usize, far());
            let v = [SrcBuf { buf: b.as_ptr(), len: l }, SrcBuf { buf: b.as_ptr(), len: 5 }];
            let _ = e.fs.write_vec_with_offset(f, &v, o);
        }
        4 => {
            let (f, o) = (any_fd(), big());
            let w = [Whence::SET, Whence::CUR, Whence::END][choose(3) as usize];
            let _ = e.fs.seek(f, o as i64, w);
        }
        5 => {
            let (f, n) = (any_fd(), big());
            let _ = e.fs.set_file_size(f, n);
        }
        6 => {
            let (f, n) = (any_fd(), big());
            let _ = e.fs.set_file_size_limit(f, n);
        }
        7 => {
            let _ = e.fs.close(any_fd());
        }
        8 => {
            let (f, t) = (any_fd(), any_fd());
            let _ = e.fs.renumber(f, t);
        }
        9 => {
            let (f, a, m, bits) = (any_fd(), any(0, u64::MAX), any(0, u64::MAX), any(0, u16::MAX as u64));
            let _ = e.fs.set_stat(f, FdStat { flags: FdFlags::from_bits_retain(bits as u16), rights_base: a, rights_inheriting: m });
        }
        10 => {
            let (f, t) = (any_fd(), any(0, u64::MAX));
            let _ = e.fs.set_accessed_time(f, t);
        }
        11 => {
            let (f, t) = (any_fd(), any(0, u64::MAX));
            let _ = e.fs.set_modified_time(f, t);
        }
        12 => {
            let (f, i) = (any_fd(), any(0, u32::MAX as u64) as u32);
            let mut n = 0;
            let _ = e.fs.with_direntries(f, Some(i), &mut |_, _| {
                n += 1;
                true
            });
        }
        13 => {
            let (f, i) = (any_fd(), any(0, u32::MAX as u64) as u32);
            let _ = e.fs.get_direntry(f, i);
        }
        14 => {
            let _ = e.fs.tell(any_fd());
        }
        15 => {
            let _ = e.fs.metadata(any_fd());
        }
        16 => {
            let _ = e.fs.get_stat(any_fd());
        }
        17 => {
            let _ = e.fs.flush(any_fd());
        }
        18 => {
            let (f, o, l) = (any_fd(), any(0, u64::MAX), any(0, u64::MAX));
            let _ = e.fs.advice(f, o, l, Advice::Normal);
            let _ = e.fs.allocate(f, o, l);
        }
        19 => {
            let _ = e.fs.metadata_from_node(any(0, u64::MAX));
        }
        _ => {
            let f = any_fd();
            let _ = e.fs.with_direntries(f, None, &mut |_, _| true);
        }
    }
}
const NUM: u32 = 21;

/// after a call the file system still works
fn alive(e: &mut Env) {
    let r = e.root();
    let fd = e.fs.open(r, "zzzzz", FdStat::default(), OpenFlags::CREATE, 0).unwrap();
    check(e.fs.write(fd, &[9; 10]) == Ok(10), 90);
    let mut b = [0; 10];
    e.seek(fd, 0);
    check(e.fs.read(fd, &mut b) == Ok(10) && b == [9; 10], 91);
    e.fs.close(fd).unwrap();
    e.fs.remove_file(r, "zzzzz").unwrap();
    cover(1);
}

fn numbers(k: u32, first: u32) {
    let mut e = world(k);
    if first > 0 {
        numeric(&mut e, choose(first), false);
    }
    numeric(&mut e, choose(NUM), true);
    alive(&mut e);
}
pub fn c26_numbers() {
    numbers(0, 0);
}
pub fn c26_numbers_v1() {
    numbers(1, 0);
}
pub fn c26_numbers_transient() {
    numbers(2, 0);
}
pub fn c26_pairs() {
    numbers(0, 10);
}
pub fn c26_pairs_v1() {
    numbers(1, 10);
}
pub fn c26_pairs_transient() {
    numbers(2, 10);
}

/// sizes first, then every transfer: the cursor, the size and the limit are all arbitrary
fn edges(k: u32) {
    let (mut e, _) = env_of(k);
    let fd = e.create("a");
    let d = arbitrary(300);
    if choose(2) == 1 {
        let n = far();
        let _ = e.fs.set_file_size_limit(fd, n);
    }
    let n = far();
    let _ = e.fs.set_file_size(fd, n);
    let cur = far();
    let _ = e.fs.seek(fd, cur as i64, Whence::SET);
    if choose(2) == 1 {
        let mut s = e.fs.get_stat(fd).unwrap().1;
        s.flags = FdFlags::APPEND;
        e.fs.set_stat(fd, s).unwrap();
    }
    let l = any(0, 300) as usize;
    let mut b = [0u8; 300];
    match choose(6) {
        0 => {
            let _ = e.fs.read(fd, &mut b[..l]);
        }
        1 => {
            let _ = e.fs.write(fd, &d[..l]);
        }
        2 => {
            let _ = e.fs.read_vec(fd, &[DstBuf { buf: b.as_mut_ptr(), len: l }, DstBuf { buf: b.as_mut_ptr(), len: l }]);
        }
        3 => {
            let _ = e.fs.write_vec(fd, &[SrcBuf { buf: d.as_ptr(), len: l }, SrcBuf { buf: d.as_ptr(), len: l }]);
        }
        4 => {
            let _ = e.fs.set_file_size(fd, any(0, u64::MAX));
        }
        _ => {
            let r = e.root();
            let _ = e.fs.open(r, "a", FdStat::default(), OpenFlags::TRUNCATE, 0);
        }
    }
    alive(&mut e);
}
pub fn c26_edges() {
    edges(0);
}
pub fn c26_edges_v1() {
    edges(1);
}
pub fn c26_edges_transient() {
    edges(2);
}

/// calls that take paths, with any text of n bytes
fn paths(k: u32, n: usize) {
    let mut e = world(k);
    let r = e.root();
    let d = any(3, 6) as Fd;
    let _ = r;
    let p = text(n);
    match choose(12) {
        0 => {
            let _ = e.fs.open(d, &p, FdStat::default(), OpenFlags::from_bits_truncate(any(0, 15) as u16), any(0, u64::MAX));
        }
        1 => {
            let _ = e.fs.mkdir(d, &p, FdStat::default(), any(0, u64::MAX));
        }
        2 => {
            let _ = e.fs.create_open_directory(d, &p, FdStat::default(), 0);
        }
        3 => {
            let _ = e.fs.remove_file(d, &p);
        }
        4 => {
            let _ = e.fs.remove_dir(d, &p);
        }
        5 => {
            let _ = e.fs.remove_recursive(d, &p);
        }
        6 => {
            let _ = e.fs.open_metadata(d, &p);
        }
        7 => {
            let _ = e.fs.mount_memory_file(&p, Box::new(VectorMemory::default()), MountedFileSizePolicy::PreviousOrMemoryPages);
        }
        8 => {
            let _ = e.fs.init_memory_file(&p);
        }
        9 => {
            let _ = e.fs.store_memory_file(&p);
        }
        10 => {
            let _ = e.fs.unmount_memory_file(&p);
        }
        _ => {
            let q = ["a", "d", "d/f", "c", "", ".", "..", "x/y"][choose(8) as usize];
            let (s, t) = if choose(2) == 0 { (p.as_str(), q) } else { (q, p.as_str()) };
            if choose(2) == 0 {
                let _ = e.fs.rename(3, s, d, t);
            } else {
                let _ = e.fs.create_hard_link(3, s, d, t);
            }
        }
    }
    alive(&mut e);
}
pub fn c26_paths() {
    let n = choose(4) as usize;
    paths(0, n);
}
pub fn c26_paths_transient() {
    let n = choose(3) as usize;
    paths(2, n);
}
pub fn c26_utf8() {
    mixed();
    paths(2 * choose(2), 2);
}
pub fn c26_paths_deep() {
    paths(0, 4);
}

/// a descriptor kept while its file is removed through another name, renamed, mounted or unmounted
pub fn c26_stale() {
    let k = choose(3);
    let mut e = world(k);
    let r = e.root();
    let a = e.open("a").unwrap();
    let m = e.open("m").unwrap();
    match choose(8) {
        0 => {
            let _ = e.fs.remove_file(r, "a");
        }
        1 => {
            let _ = e.fs.unmount_memory_file("m");
        }
        2 => {
            let _ = e.fs.mount_memory_file("a", Box::new(VectorMemory::default()), MountedFileSizePolicy::Explicit(any(0, 60_000)));
        }
        3 => {
            let _ = e.fs.rename(r, "c", r, "a");
        }
        4 => {
            let _ = e.fs.remove_recursive(r, "d");
        }
        5 => {
            let _ = e.fs.rename(r, "d", r, "c/x");
        }
        6 => {
            let f = any_fd();
            let _ = e.fs.close(f);
            let _ = e.fs.remove_file(r, "a");
        }
        _ => {
            let (f, t) = (any_fd(), any_fd());
            let _ = e.fs.renumber(f, t);
            let _ = e.fs.remove_recursive(r, "d");
            let _ = e.fs.remove_file(r, "a");
        }
    }
    let f = any_fd();
    let mut b = [0u8; 50];
    match choose(8) {
        0 => {
            let _ = e.fs.read(f, &mut b);
        }
        1 => {
            let _ = e.fs.write(f, &b);
        }
        2 => {
            let _ = e.fs.metadata(f);
        }
        3 => {
            let _ = e.fs.with_direntries(f, None, &mut |_, _| true);
        }
        4 => {
            let _ = e.fs.open(f, "x", FdStat::default(), OpenFlags::CREATE, 0);
        }
        5 => {
            let _ = e.fs.remove_recursive(f, "f");
        }
        6 => {
            let _ = e.fs.set_file_size(f, any(0, 60_000));
        }
        _ => {
            let _ = e.fs.close(f);
        }
    }
    let _ = (a, m);
    alive(&mut e);
}
