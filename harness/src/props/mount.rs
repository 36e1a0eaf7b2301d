//! Files hosted by a mounted memory (C04).
use super::*;
use ic_stable_structures::Memory;

const PAGE: u64 = 65536;

/// what a memory holds at one position
fn mem_byte(m: &VectorMemory, p: u64) -> u64 {
    let mut b = [0u8; 1];
    let size = m.size() * PAGE;
    if p < size {
        m.read(p, &mut b);
    }
    b[0] as u64
}

fn memory(pages: u64) -> VectorMemory {
    let m = VectorMemory::default();
    if pages > 0 {
        m.grow(pages);
        m.write(0, &arbitrary((pages * PAGE) as usize));
    }
    m
}

/// a host file with content, a memory with content mounted over it
fn host(k: u32) -> (Env, Fd, Ghost) {
    let (mut e, cs) = env_of(k);
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 2 * cs));
    sym_write(&mut e, fd, &mut g, 1, cs, 5000, 1);
    (e, fd, g)
}

/// attributes given while the memory is mounted
fn stamp(e: &mut Env, fd: Fd) -> (u64, u64) {
    let (m, a) = (any(0, u64::MAX), any(0, u64::MAX));
    e.fs.set_modified_time(fd, m).unwrap();
    e.fs.set_accessed_time(fd, a).unwrap();
    (m, a)
}

/// the mounted file and its memory agree; the host file is not touched
fn transfers(k: u32) {
    let (mut e, fd, g) = host(k);
    let m0 = e.fs.metadata(fd).unwrap();
    let pages = choose(2) as u64;
    let m = memory(pages);
    let n = any(0, 2 * PAGE);
    let how = choose(3);
    let policy = match how {
        0 => MountedFileSizePolicy::PreviousOrZero,
        1 => MountedFileSizePolicy::MemoryPages,
        _ => MountedFileSizePolicy::Explicit(n),
    };
    let p = any(0, 2 * PAGE);
    let mut h = Ghost::new(p);
    h.val = mem_byte(&m, p);
    h.size = match how {
        0 => 0,
        1 => pages * PAGE,
        _ => n,
    };
    e.fs.mount_memory_file("a", Box::new(m.clone()), policy).unwrap();
    check(e.size(fd) == h.size, 2);
    // content of the memory shows up to the size
    read_mem(&mut e, fd, &h, 3);
    // a write reaches the memory
    let d = arbitrary(3000);
    let o = any(0, PAGE + 2000);
    let l = any(0, 3000);
    let f2 = if choose(2) == 0 { fd } else { e.open("/a".trim_start_matches('/')).unwrap() };
    write_at(&mut e, f2, o, l, &d, 5);
    let val = h.val;
    h.write(o, l, &d);
    let inside = and(p >= o, p < o + l);
    let want = ite(inside, byte(&d, p.wrapping_sub(o)), val);
    check(mem_byte(&m, p) == want, 7);
    check(e.size(fd) == h.size, 8);
    read_mem(&mut e, fd, &h, 9);
    stamp(&mut e, fd);
    // the host file is back unchanged
    e.fs.unmount_memory_file("a").unwrap();
    check(same_meta(&m0, &e.fs.metadata(fd).unwrap()), 11);
    probe(&mut e, fd, &g, 12);
    // and is what is written now
    let d = arbitrary(500);
    write_at(&mut e, fd, 7, 500, &d, 15);
    check(mem_byte(&m, p) == want, 16);
    cover(1 + how);
}

/// a read of the mounted file at any place
fn read_mem(e: &mut Env, fd: Fd, h: &Ghost, id: u32) {
    let mut b = arbitrary(2000);
    let old = b.clone();
    let o = any(0, 2 * PAGE);
    let l = any(0, 2000);
    e.seek(fd, o);
    let n = e.fs.read(fd, &mut b[..l as usize]).unwrap();
    check(n == h.expect(o, l), id);
    check(h.matches(o, n, &b, &old), id + 1);
}

pub fn c04_transfers() {
    transfers(0);
}
pub fn c04_transfers_transient() {
    transfers(2);
}

/// storing: the host file becomes the memory's content up to the size
fn store(k: u32) {
    let (mut e, fd, g) = host(k);
    let m = memory(1);
    let p = any(0, 2 * PAGE);
    let n = any(0, 9000);
    let small = choose(3);
    if small == 2 {
        // the host file has a limit, the memory gets larger than that
        let lim = any(0, 9000);
        assume(lim >= g.size);
        e.fs.set_file_size_limit(fd, lim).unwrap();
    }
    let host0 = e.fs.metadata(fd).unwrap();
    if small == 2 {
        e.fs.mount_memory_file("a", Box::new(m.clone()), MountedFileSizePolicy::Explicit(0)).unwrap();
        e.fs.set_file_size_limit(fd, 2 * PAGE).unwrap();
        e.fs.set_file_size(fd, n).unwrap();
    } else {
        e.fs.mount_memory_file("a", Box::new(m.clone()), MountedFileSizePolicy::Explicit(n)).unwrap();
    }
    if small == 1 {
        let lim = any(0, 2 * PAGE);
        assume(lim >= n);
        e.fs.set_file_size_limit(fd, lim).unwrap();
    }
    stamp(&mut e, fd);
    let m1 = e.fs.metadata(fd).unwrap();
    let v = mem_byte(&m, p);
    check(e.fs.store_memory_file("a").is_ok(), 2);
    // still mounted, the memory as it was
    check(e.fs.storage.is_mounted(m1.node), 3);
    check(same_meta(&m1, &e.fs.metadata(fd).unwrap()), 4);
    check(mem_byte(&m, p) == v, 5);
    let mut b = [0u8; 1];
    e.seek(fd, p);
    check(e.fs.read(fd, &mut b).unwrap() == ite(p < n, 1, 0), 6);
    check(b[0] as u64 == ite(p < n, v, 0), 7);
    e.fs.unmount_memory_file("a").unwrap();
    let mut g = Ghost::new(p);
    g.val = v;
    g.size = n;
    probe(&mut e, fd, &g, 8);
    // its attributes are stored with it
    check(same_rest(&m1, &e.fs.metadata(fd).unwrap()), 11);
    // nothing above the stored size comes back
    let grow = n + any(0, 5000);
    check(e.fs.set_file_size(fd, grow).is_ok() == (e.fs.metadata(fd).unwrap().maximum_size_allowed.is_none_or(|x| grow <= x)), 12);
    g.val = ite(p < n, v, 0);
    g.size = e.size(fd);
    probe(&mut e, fd, &g, 13);
    cover(1 + small);
}
/// storing over a long host file, also from pages nothing was written to
fn store_long(k: u32) {
    let (mut e, _) = env_of(k);
    let fd = e.create("a");
    let d = arbitrary(300);
    let o = PAGE - 150 + any(0, 4000);
    write_at(&mut e, fd, o, 300, &d, 1);
    let m = memory(choose(2) as u64);
    m.grow(2);
    let p = any(0, 2 * PAGE);
    let n = PAGE + any(0, 5000);
    let v = mem_byte(&m, p);
    e.fs.mount_memory_file("a", Box::new(m.clone()), MountedFileSizePolicy::Explicit(n)).unwrap();
    check(e.fs.store_memory_file("a").is_ok(), 2);
    check(mem_byte(&m, p) == v, 3);
    e.fs.unmount_memory_file("a").unwrap();
    let mut g = Ghost::new(p);
    g.val = v;
    g.size = n;
    probe(&mut e, fd, &g, 4);
    // and back into another memory
    let m = memory(choose(2) as u64);
    let old = mem_byte(&m, p);
    e.fs.mount_memory_file("a", Box::new(m.clone()), MountedFileSizePolicy::PreviousOrZero).unwrap();
    check(e.fs.init_memory_file("a").is_ok(), 7);
    check(mem_byte(&m, p) == ite(p < n, v, old), 8);
    cover(1);
}
pub fn c04_long() {
    store_long(0);
}
pub fn c04_long_v1() {
    store_long(1);
}
pub fn c04_long_transient() {
    store_long(2);
}
pub fn c04_store() {
    store(0);
}
pub fn c04_store_v1() {
    store(1);
}
pub fn c04_store_transient() {
    store(2);
}

/// initialising: the memory becomes the host file's content up to the size
fn init(k: u32) {
    let (mut e, fd, g) = host(k);
    let host0 = e.fs.metadata(fd).unwrap();
    let m = memory(choose(2) as u64);
    let p = g.p;
    let old = mem_byte(&m, p);
    e.fs.mount_memory_file("a", Box::new(m.clone()), MountedFileSizePolicy::MemoryPages).unwrap();
    check(e.fs.init_memory_file("a").is_ok(), 2);
    check(e.fs.storage.is_mounted(host0.node), 3);
    check(e.size(fd) == g.size, 4);
    check(mem_byte(&m, p) == ite(p < g.size, g.val, old), 5);
    probe(&mut e, fd, &g, 6);
    e.fs.unmount_memory_file("a").unwrap();
    check(same_meta(&host0, &e.fs.metadata(fd).unwrap()), 9);
    probe(&mut e, fd, &g, 10);
    cover(1);
}
pub fn c04_init() {
    init(0);
}
pub fn c04_init_v1() {
    init(1);
}
pub fn c04_init_transient() {
    init(2);
}

/// resizing and truncating the mounted file; mounting again, after an upgrade as well
pub fn c04_remount() {
    let (mut e, fd, g) = host(0);
    let host0 = e.fs.metadata(fd).unwrap();
    let m = memory(1);
    let p = any(0, 2 * PAGE);
    let v = mem_byte(&m, p);
    let n = any(0, 2 * PAGE);
    e.fs.mount_memory_file("a", Box::new(m.clone()), MountedFileSizePolicy::MemoryPages).unwrap();
    // a second mount is refused
    check(e.fs.mount_memory_file("a", Box::new(VectorMemory::default()), MountedFileSizePolicy::PreviousOrZero).is_err(), 2);
    e.fs.set_file_size(fd, n).unwrap();
    check(e.size(fd) == n, 3);
    check(mem_byte(&m, p) == v, 4);
    let mut b = [0u8; 1];
    e.seek(fd, p);
    check(e.fs.read(fd, &mut b).unwrap() == ite(p < n, 1, 0), 5);
    check(b[0] as u64 == ite(p < n, v, 0), 6);
    let pages = m.size();
    let times = stamp(&mut e, fd);
    let mut fd = fd;
    if choose(2) == 0 {
        e.fs.unmount_memory_file("a").unwrap();
    } else {
        // the memory is gone with the heap, the host file is not
        e.upgrade();
        fd = e.open("a").unwrap();
    }
    check(same_meta(&host0, &e.fs.metadata(fd).unwrap()), 7);
    probe(&mut e, fd, &g, 8);
    let policy = if choose(2) == 0 { MountedFileSizePolicy::PreviousOrZero } else { MountedFileSizePolicy::PreviousOrMemoryPages };
    let zero = matches!(policy, MountedFileSizePolicy::PreviousOrZero);
    e.fs.mount_memory_file("a", Box::new(m.clone()), policy).unwrap();
    let want = ite(n <= pages * PAGE, n, if zero { 0 } else { pages * PAGE });
    check(e.size(fd) == want, 11);
    // the times it had are remembered with the size
    let x = e.fs.metadata(fd).unwrap();
    check(and(x.times.modified == times.0, x.times.accessed == times.1), 21);
    let mut h = Ghost::new(p);
    h.val = v;
    h.size = want;
    probe(&mut e, fd, &h, 12);
    // a refused mount leaves the other file as it was
    let big = any(stable_fs::storage::types::MAX_FILE_SIZE + 1, u64::MAX);
    check(e.fs.mount_memory_file("b", Box::new(VectorMemory::default()), MountedFileSizePolicy::Explicit(big)).is_err(), 15);
    let f = e.open("b").unwrap();
    let fm = e.fs.metadata(f).unwrap();
    check(!e.fs.storage.is_mounted(fm.node), 16);
    check(fm.size == 0, 17);
    // mounting does not affect removal of the host's descriptor
    e.fs.close(fd).unwrap();
    let r = e.root();
    check(e.fs.remove_file(r, "a").is_err(), 18);
    check(e.fs.unmount_memory_file("a").is_ok(), 19);
    check(e.fs.unmount_memory_file("a").is_err(), 20);
    let fd = e.open("a").unwrap();
    check(same_meta(&host0, &e.fs.metadata(fd).unwrap()), 22);
    probe(&mut e, fd, &g, 23);
    cover(1);
}

/// two mounted files
pub fn c04_two() {
    let (mut e, cs) = env_of(choose(2) * 2);
    let (m, n) = (memory(1), memory(1));
    let p = any(0, 2 * PAGE);
    let v = mem_byte(&n, p);
    e.fs.mount_memory_file("a", Box::new(m.clone()), MountedFileSizePolicy::PreviousOrZero).unwrap();
    e.fs.mount_memory_file("b", Box::new(n.clone()), MountedFileSizePolicy::MemoryPages).unwrap();
    let a = e.open("a").unwrap();
    let b = e.open("b").unwrap();
    let mb = e.fs.metadata(b).unwrap();
    let mut g = Ghost::new(any(0, 2 * cs));
    g.val = mem_byte(&m, g.p);
    sym_write(&mut e, a, &mut g, 1, cs, 3000, 1);
    probe(&mut e, a, &g, 2);
    check(mem_byte(&m, g.p) == g.val, 5);
    check(mem_byte(&n, p) == v, 6);
    check(same_meta(&mb, &e.fs.metadata(b).unwrap()), 7);
    e.fs.unmount_memory_file("a").unwrap();
    check(e.size(a) == 0, 8);
    let mut h = Ghost::new(p);
    h.val = v;
    h.size = PAGE;
    probe(&mut e, b, &h, 9);
    cover(1);
}
