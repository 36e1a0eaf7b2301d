//! Upgrades, attributes and node numbers: C08, C17, C20.
use super::names::*;
use super::tree::*;
use super::*;

// ---- C08

/// one operation and its arguments
pub struct Act {
    op: u32,
    o: u64,
    l: u64,
    v: u64,
    d: Vec<u8>,
}

const ACTS: u32 = 19;

pub fn draw(cs: u64, second: bool) -> Act {
    // the last step only uses what depends on caches and remembered numbers
    let op = if second { [0, 1, 3, 7, 8, 11, 13, 18][choose(8) as usize] } else { choose(ACTS) };
    let mut a = Act { op, o: 0, l: 0, v: 0, d: vec![] };
    match op {
        0 => {
            a.d = arbitrary(1500);
            a.o = offset(if second { 1 } else { 2 }, cs);
            a.l = any(0, 1500);
        }
        1 => a.o = offset(2, cs),
        3 | 4 | 11 | 15 | 16 | 17 => a.v = any(1 << 33, 1 << 62),
        12 => a.v = any(0, u64::MAX),
        13 => {
            a.d = arbitrary(100);
            a.o = any(0, 70000);
        }
        _ => {}
    }
    a
}

/// stands for the result of an operation in comparisons
fn outcome<T>(r: Result<T, Error>, mut f: impl FnMut(T) -> u64) -> u64 {
    match r {
        Ok(v) => f(v),
        Err(x) => (1 << 63) + x as u32 as u64,
    }
}

fn with_file(e: &mut Env, path: &str, f: impl FnOnce(&mut Env, Fd) -> u64) -> u64 {
    let Ok(fd) = e.open(path) else {
        return 1 << 62;
    };
    let r = f(e, fd);
    e.fs.close(fd).unwrap();
    r
}

pub fn act(e: &mut Env, a: &Act) -> u64 {
    let r = e.root();
    match a.op {
        0 => with_file(e, "a", |e, fd| {
            e.seek(fd, a.o);
            outcome(e.fs.write(fd, &a.d[..a.l as usize]), |n| n)
        }),
        1 => with_file(e, "a", |e, fd| outcome(e.fs.set_file_size(fd, a.o), |_| 0)),
        2 => match e.fs.open(r, "a", FdStat::default(), OpenFlags::TRUNCATE, 0) {
            Ok(fd) => {
                e.fs.close(fd).unwrap();
                0
            }
            Err(_) => 1,
        },
        3 => {
            let x = e.fs.open(r, "x/n", FdStat::default(), OpenFlags::CREATE, a.v);
            outcome(x, |fd| {
                let n = e.fs.write(fd, b"new").unwrap();
                e.fs.close(fd).unwrap();
                n
            })
        }
        4 => outcome(e.fs.mkdir(r, "d/y", FdStat::default(), a.v), |_| 0),
        5 => outcome(e.fs.remove_file(r, "c"), |_| 0),
        6 => outcome(e.fs.remove_file(r, "d/l"), |_| 0),
        7 => outcome(e.fs.remove_recursive(r, "d"), |_| 0),
        8 => {
            let x = e.fs.rename(r, "a", r, "c");
            outcome(x, |fd| {
                e.fs.close(fd).unwrap();
                0
            })
        }
        9 => {
            let x = e.fs.rename(r, "d", r, "z");
            outcome(x, |fd| {
                e.fs.close(fd).unwrap();
                0
            })
        }
        10 => {
            let x = e.fs.create_hard_link(r, "c", r, "d/k");
            outcome(x, |fd| {
                e.fs.close(fd).unwrap();
                0
            })
        }
        11 => with_file(e, "c", |e, fd| outcome(e.fs.set_accessed_time(fd, a.v), |_| 0)),
        12 => with_file(e, "a", |e, fd| outcome(e.fs.set_file_size_limit(fd, a.v), |_| 0)),
        13 => {
            // the size and the times while mounted are remembered for the next mount
            let m = VectorMemory::default();
            let x = e.fs.mount_memory_file("c", Box::new(m), MountedFileSizePolicy::PreviousOrZero);
            let n = with_file(e, "c", |e, fd| {
                e.seek(fd, a.o);
                e.fs.set_modified_time(fd, a.o).unwrap();
                outcome(e.fs.write(fd, &a.d), |n| n)
            });
            outcome(x, |_| 0) + n
        }
        14 => outcome(e.fs.remove_dir(r, "d/e"), |_| 0),
        15 => with_file(e, "d", |e, fd| outcome(e.fs.set_modified_time(fd, a.v), |_| 0)),
        16 => outcome(e.fs.set_accessed_time(r, a.v), |_| 0),
        17 => {
            let m = e.fs.open_metadata(r, "c");
            let Ok(mut m) = m else { return 1 };
            m.times.created = a.v;
            m.times.modified = a.v;
            m.maximum_size_allowed = None;
            with_file(e, "c", |e, fd| outcome(e.fs.set_metadata(fd, m), |_| 0))
        }
        _ => {
            // mounted again over a larger memory: the remembered size and times
            let m = VectorMemory::default();
            use ic_stable_structures::Memory;
            m.grow(2);
            let x = e.fs.mount_memory_file("c", Box::new(m), MountedFileSizePolicy::PreviousOrMemoryPages);
            with_file(e, "c", |e, fd| {
                let m = e.fs.metadata(fd).unwrap();
                outcome(x, |_| m.size ^ (m.times.modified << 1))
            })
        }
    }
}

/// the end of an upgrade for the system that is not upgraded: mounts are gone
pub fn settle(e: &mut Env) {
    let _ = e.fs.unmount_memory_file("c");
}

/// the same history with and without upgrades in between
fn twin(v1: bool, steps: u32, deep: bool) {
    let mm = Rc::new(Manager::init(DefaultMemoryImpl::default()));
    let mut x = Env::managed(&mm, 0);
    let mut y = Env::managed(&mm, 10);
    let cs = if v1 { 4096 } else { 16384 };
    let big = arbitrary(cs as usize + 500);
    let stamp = any(1 << 33, 1 << 62);
    for e in [&mut x, &mut y] {
        if v1 {
            e.fs.storage.set_chunk_type(ChunkType::V1);
        }
        let r = e.root();
        for (p, data) in [("a", &big[..]), ("c", b"cc"), ("d/b", b"b")] {
            let fd = e.fs.open(r, p, FdStat::default(), OpenFlags::CREATE, stamp).unwrap();
            e.fs.write(fd, data).unwrap();
            e.fs.close(fd).unwrap();
        }
        e.fs.mkdir(r, "d/e", FdStat::default(), stamp).unwrap();
        let l = e.fs.create_hard_link(r, "a", r, "d/l").unwrap();
        e.fs.close(l).unwrap();
    }
    let p = any(0, 3 * cs);
    for i in 0..steps {
        let a = draw(cs, i > 0 && !deep);
        let rx = act(&mut x, &a);
        let ry = act(&mut y, &a);
        check(rx == ry, 1 + i);
        settle(&mut x);
        if i > 0 && i + 1 == steps && (a.op == 13 || a.op == 18) && choose(2) == 1 {
            // the end of the mount is an operation as well
            settle(&mut y);
        } else {
            y.upgrade();
        }
        if v1 {
            y.fs.storage.set_chunk_type(ChunkType::V1);
        }
    }
    let (sx, sy) = (look(&mut x), look(&mut y));
    same_seen(&sx, &sy, 10);
    for f in ["a", "d/l", "c"] {
        let mut out = [[0xa5u8; 1]; 2];
        let mut n = [0; 2];
        for (i, e) in [&mut x, &mut y].into_iter().enumerate() {
            let Ok(fd) = e.open(f) else { continue };
            e.seek(fd, p);
            n[i] = 1 + e.fs.read(fd, &mut out[i]).unwrap();
            e.fs.close(fd).unwrap();
        }
        check(n[0] == n[1], 15);
        check(out[0][0] == out[1][0], 16);
        observe(15, n[1]);
    }
    // the same space is left: new files and folders take the same memory
    let more = arbitrary(40);
    for e in [&mut x, &mut y] {
        for f in ["n1", "q/n2"] {
            let fd = e.create(f);
            for c in 0..2 {
                write_at(e, fd, 5 + c * cs, 40, &more, 17);
            }
            e.fs.close(fd).unwrap();
        }
    }
    let (px, py) = (x.pages(), y.pages());
    for i in 0..10 {
        check(px[i] == py[i], 18);
    }
    let (nx, ny) = (x.fs.open_metadata(x.root(), "q/n2").unwrap(), y.fs.open_metadata(y.root(), "q/n2").unwrap());
    check(nx.node == ny.node, 19);
    cover(1);
}
pub fn c08_one() {
    twin(false, 1, false);
}
pub fn c08_one_v1() {
    twin(true, 1, false);
}
pub fn c08_two() {
    twin(false, 2, false);
}
pub fn c08_two_v1() {
    twin(true, 2, false);
}
pub fn c08_two_deep() {
    twin(false, 2, true);
}
pub fn c08_two_v1_deep() {
    twin(true, 2, true);
}
pub fn c08_three_deep() {
    twin(false, 3, false);
}

// ---- C17

fn setters(k: u32) {
    let (mut e, cs) = env_of(k);
    let r = e.root();
    let stamp = any(0, u64::MAX);
    for (p, data) in [("a", b"aa"), ("d/b", b"bb")] {
        let fd = e.fs.open(r, p, FdStat::default(), OpenFlags::CREATE, stamp).unwrap();
        e.fs.write(fd, data).unwrap();
        e.fs.close(fd).unwrap();
    }
    let l = e.fs.create_hard_link(r, "a", r, "d/l").unwrap();
    let mut g = Ghost::new(any(2, 2 * cs));
    g.size = 2;
    sym_write(&mut e, l, &mut g, 1, cs, 1000, 1);
    // a may have been given every other attribute before
    if choose(2) == 1 {
        e.fs.set_accessed_time(l, any(0, u64::MAX)).unwrap();
        e.fs.set_modified_time(l, any(0, u64::MAX)).unwrap();
        e.fs.set_file_size_limit(l, any(1 << 20, u64::MAX)).unwrap();
    }
    let other = e.open("a").unwrap();
    e.seek(other, 1);
    let path = ["a", "d/l", "d/b", "d", ""][choose(5) as usize];
    let fd = e.open(path).unwrap();
    let file = path != "d" && path != "";
    let before = look(&mut e);
    let target = e.fs.metadata(fd).unwrap();
    let mut want = target.clone();
    let v = any(0, u64::MAX);
    let (_, st) = e.fs.get_stat(fd).unwrap();
    let (_, st2) = e.fs.get_stat(other).unwrap();
    let mut stat = st;
    match choose(7) {
        0 => {
            check(e.fs.set_accessed_time(fd, v).is_ok(), 2);
            want.times.accessed = v;
            cover(1);
        }
        1 => {
            check(e.fs.set_modified_time(fd, v).is_ok(), 3);
            want.times.modified = v;
            cover(2);
        }
        2 => {
            let ok = e.fs.set_file_size_limit(fd, v).is_ok();
            check(ok == and(file, v >= target.size), 4);
            if ok {
                want.maximum_size_allowed = Some(v);
                cover(3);
            }
        }
        3 => {
            let n = offset(2, cs);
            let ok = e.fs.set_file_size(fd, n).is_ok();
            let lim = target.maximum_size_allowed.unwrap_or(u64::MAX);
            check(ok == and(file, n <= lim), 5);
            if ok {
                want.size = n;
                if path != "d/b" {
                    g.resize(n);
                }
                cover(4);
            }
        }
        4 => {
            stat.rights_base = v;
            stat.rights_inheriting = any(0, u64::MAX);
            stat.flags = FdFlags::from_bits_truncate(choose(32) as u16);
            let bad = !file && (stat.flags.contains(FdFlags::APPEND) || stat.flags.contains(FdFlags::NONBLOCK));
            let ok = e.fs.set_stat(fd, stat).is_ok();
            check(ok == !bad, 6);
            if !ok {
                stat = st;
            }
            cover(5);
        }
        5 => {
            // all at once
            want.times.accessed = v;
            want.times.modified = any(0, u64::MAX);
            if file {
                want.size = offset(2, cs);
                want.maximum_size_allowed = if choose(2) == 0 { None } else { Some(any(4 * cs, u64::MAX)) };
                if path != "d/b" {
                    g.resize(want.size);
                }
            }
            check(e.fs.set_metadata(fd, want.clone()).is_ok(), 7);
            cover(6);
        }
        _ => {
            // another kind of object, or another number
            let mut m = target.clone();
            m.times.accessed = v;
            if choose(2) == 0 {
                m.file_type = if file { FileType::Directory } else { FileType::RegularFile };
            } else {
                m.node = v;
                assume(v != target.node);
            }
            check(e.fs.set_metadata(fd, m).is_err(), 8);
            cover(7);
        }
    }
    let (_, now) = e.fs.get_stat(fd).unwrap();
    check(and(now.rights_base == stat.rights_base, now.rights_inheriting == stat.rights_inheriting), 9);
    check(now.flags == stat.flags, 10);
    let (_, now2) = e.fs.get_stat(other).unwrap();
    check(now2.rights_base == st2.rights_base && now2.flags == st2.flags, 11);
    check(e.fs.tell(other) == Ok(1), 12);
    check(same_meta(&e.fs.metadata(fd).unwrap(), &want), 13);
    let resized = want.size != target.size;
    for again in 0..2 {
        let after = look(&mut e);
        check(after.list.len() == before.list.len(), 14);
        for (x, y) in before.list.iter().zip(&after.list) {
            check(eq(x.0.as_bytes(), y.0.as_bytes()), 15);
            if x.1.node == target.node {
                check(same_meta(&y.1, &want), 16);
            } else {
                check(same_meta(&x.1, &y.1), 17);
                check(and(x.3 == y.3, eq(&x.2, &y.2)), 18);
            }
            if !resized {
                check(and(x.3 == y.3, eq(&x.2, &y.2)), 19);
            }
        }
        let a = e.open("a").unwrap();
        probe(&mut e, a, &g, 20);
        if k == 2 || again == 1 {
            break;
        }
        e.upgrade();
    }
}
pub fn c17_set() {
    setters(0);
}
pub fn c17_set_v1() {
    setters(1);
}
pub fn c17_set_transient() {
    setters(2);
}

/// the same while a memory is mounted: the attributes of the file below stay
fn mounted_setters(k: u32) {
    let (mut e, _) = env_of(k);
    let a = e.create("a");
    e.fs.write(a, b"xyz").unwrap();
    e.fs.set_modified_time(a, any(0, u64::MAX)).unwrap();
    let m0 = e.fs.metadata(a).unwrap();
    let m = VectorMemory::default();
    e.fs.mount_memory_file("a", Box::new(m.clone()), MountedFileSizePolicy::Explicit(any(0, 70000))).unwrap();
    let mut want = e.fs.metadata(a).unwrap();
    for _ in 0..2 {
        let v = any(0, u64::MAX);
        match choose(4) {
            0 => {
                e.fs.set_accessed_time(a, v).unwrap();
                want.times.accessed = v;
            }
            1 => {
                e.fs.set_modified_time(a, v).unwrap();
                want.times.modified = v;
            }
            2 => {
                let ok = e.fs.set_file_size_limit(a, v).is_ok();
                check(ok == (v >= want.size), 1);
                if ok {
                    want.maximum_size_allowed = Some(v);
                }
            }
            _ => {
                let n = any(0, 70000);
                let ok = e.fs.set_file_size(a, n).is_ok();
                check(ok == (n <= want.maximum_size_allowed.unwrap_or(u64::MAX)), 2);
                if ok {
                    want.size = n;
                }
            }
        }
        check(same_meta(&e.fs.metadata(a).unwrap(), &want), 3);
    }
    e.fs.unmount_memory_file("a").unwrap();
    check(same_meta(&e.fs.metadata(a).unwrap(), &m0), 4);
    let mut b = [0u8; 4];
    e.seek(a, 0);
    check(e.fs.read(a, &mut b) == Ok(3) && &b[..3] == b"xyz", 5);
    // and those of the mounted file are back on the next mount, also after an upgrade
    let a = if k == 0 {
        e.upgrade();
        e.open("a").unwrap()
    } else {
        a
    };
    check(same_meta(&e.fs.metadata(a).unwrap(), &m0), 6);
    use ic_stable_structures::Memory;
    m.grow(2);
    e.fs.mount_memory_file("a", Box::new(m), MountedFileSizePolicy::PreviousOrZero).unwrap();
    check(same_meta(&e.fs.metadata(a).unwrap(), &want), 7);
    cover(1);
}
pub fn c17_mounted() {
    mounted_setters(0);
}
pub fn c17_mounted_transient() {
    mounted_setters(2);
}

// ---- C20

fn numbers(k: u32, steps: u32) {
    let (mut e, mut t) = linked(k);
    let r = e.root();
    t.verify(&mut e, 10);
    for i in 0..steps {
        let tm = any(1 << 33, 1 << 62);
        // any one-letter name
        let x = [letter()];
        let px = text_of(&x);
        match choose(9) {
            0 => {
                let w = t.create(0, &x, false, tm);
                let g = e.fs.open(r, &px, FdStat::default(), OpenFlags::CREATE | OpenFlags::EXCLUSIVE, tm);
                check(g.is_ok() == w.is_ok(), 30);
                if let Ok(fd) = g {
                    e.fs.close(fd).unwrap();
                    cover(1);
                }
            }
            1 => {
                // with the folders on the way
                let q = [x[0].clone(), n("q"), n("r")];
                let w = t.create(0, &q, true, tm);
                let g = e.fs.mkdir(r, &text_of(&q), FdStat::default(), tm);
                check(g.is_ok() == w.is_ok(), 31);
                if g.is_ok() {
                    cover(2);
                }
            }
            2 => {
                let w = t.remove(0, &x, false);
                check(e.fs.remove_file(r, &px).is_ok() == w.is_ok(), 32);
            }
            3 => {
                let w = t.remove_recursive(0, &x);
                check(e.fs.remove_recursive(r, &px).is_ok() == w.is_ok(), 33);
            }
            4 => {
                let to = [n("c")];
                let w = t.rename(0, &x, 0, &to);
                let g = e.fs.rename(r, &px, r, "c");
                check(g.is_ok() == w.is_ok(), 34);
                if let Ok(fd) = g {
                    e.fs.close(fd).unwrap();
                }
            }
            5 => {
                let w = t.rename(0, &[n("d")], 0, &x);
                let g = e.fs.rename(r, "d", r, &px);
                check(g.is_ok() == w.is_ok(), 35);
                if let Ok(fd) = g {
                    e.fs.close(fd).unwrap();
                    cover(3);
                }
            }
            6 => {
                let w = t.link(0, &[n("c")], 0, &x);
                let g = e.fs.create_hard_link(r, "c", r, &px);
                check(g.is_ok() == w.is_ok(), 36);
                if let Ok(fd) = g {
                    e.fs.close(fd).unwrap();
                }
            }
            7 => {
                if k != 2 {
                    e.upgrade();
                }
            }
            _ => {
                let w = t.find(0, &x).is_some_and(|o| !t.objs[o].dir);
                let g = e.fs.mount_memory_file(&px, Box::new(VectorMemory::default()), MountedFileSizePolicy::PreviousOrZero);
                check(!w || g.is_ok(), 37);
                if w && g.is_ok() {
                    let fd = e.open(&px).unwrap();
                    let o = t.find(0, &x).unwrap();
                    check(e.fs.metadata(fd).unwrap().node == t.objs[o].node || t.objs[o].node == u64::MAX, 38);
                    e.fs.close(fd).unwrap();
                    e.fs.unmount_memory_file(&px).unwrap();
                    cover(5);
                } else if g.is_ok() {
                    // a new file was made to hold the memory
                    let _ = t.create(0, &x, false, 0);
                    e.fs.unmount_memory_file(&px).unwrap();
                }
            }
        }
        t.verify(&mut e, 40 + 20 * i);
    }
    // descriptors report the number of the name they were opened by
    for i in 0..t.ents.len() {
        let o = t.ents[i].2;
        for mut p in t.paths(t.ents[i].0) {
            p.push(t.ents[i].1.clone());
            let fd = e.open(&text_of(&p)).unwrap();
            check(e.fs.metadata(fd).unwrap().node == t.objs[o].node, 5);
            e.fs.close(fd).unwrap();
        }
    }
    cover(4);
}
pub fn c20_numbers() {
    numbers(0, 2);
}
/// very many objects have been there before
pub fn c20_high() {
    let (mut e, mut t) = linked_in(Env::many_numbers());
    t.verify(&mut e, 40);
    let r = e.root();
    let x = [letter()];
    let tm = any(1 << 33, 1 << 62);
    let w = t.create(0, &x, false, tm);
    let g = e.fs.open(r, &text_of(&x), FdStat::default(), OpenFlags::CREATE | OpenFlags::EXCLUSIVE, tm);
    check(g.is_ok() == w.is_ok(), 10);
    if let Ok(fd) = g {
        e.fs.close(fd).unwrap();
        cover(2);
    }
    t.verify(&mut e, 60);
    e.upgrade();
    t.make(&mut e, &[n("!")], true);
    t.verify(&mut e, 80);
    t.verify_content(&mut e, 100);
    let y = [letter()];
    let w = t.remove_recursive(0, &y);
    check(e.fs.remove_recursive(r, &text_of(&y)).is_ok() == w.is_ok(), 11);
    t.verify(&mut e, 120);
    t.verify_content(&mut e, 140);
    cover(1);
}
pub fn c20_numbers_transient() {
    numbers(2, 3);
}
pub fn c20_three_deep() {
    numbers(0, 3);
}
