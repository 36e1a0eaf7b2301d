//! Cursors (C09), descriptors (C10), rights (C18), open flags (C19).
use super::*;

// ---- C09

fn whence(k: u32) -> Whence {
    match k {
        0 => Whence::SET,
        1 => Whence::CUR,
        _ => Whence::END,
    }
}

/// where a seek must lead, and whether it may
fn target(k: u32, cur: u64, size: u64, delta: u64) -> (bool, u64) {
    let base = match k {
        0 => 0,
        1 => cur,
        _ => size,
    };
    let r = base.wrapping_add(delta);
    // the position of SET is signed
    let neg = (delta as i64) < 0;
    let down = and(base >= 0u64.wrapping_sub(delta), k != 0);
    let ok = ite(neg, down as u64, (r >= base) as u64) != 0;
    (ok, r)
}

/// two seeks by any delta, from any cursor the first one leads to
fn seeks(k: u32, n: u32) {
    let (mut e, cs) = env_of(k);
    let fd = e.create("a");
    let size = any(0, 3 * cs);
    e.fs.set_file_size(fd, size).unwrap();
    let mut cur = 0;
    for i in 0..n {
        let w = choose(3);
        let d = any(0, u64::MAX);
        let (ok, r) = target(w, cur, size, d);
        let res = e.fs.seek(fd, d as i64, whence(w));
        if ok {
            check(res == Ok(r), 1 + 3 * i);
            cur = r;
            cover(1);
        } else {
            check(res.is_err(), 2 + 3 * i);
            cover(2);
        }
        check(e.fs.tell(fd).unwrap() == cur, 3 + 3 * i);
        check(e.size(fd) == size, 20);
    }
    // a read from there
    let l = any(0, 1000);
    let mut b = arbitrary(1000);
    let m = e.fs.read(fd, &mut b[..l as usize]).unwrap();
    check(m == min(l, ite(cur < size, size.wrapping_sub(cur), 0)), 21);
    check(e.fs.tell(fd).unwrap() == cur + m, 22);
}
pub fn c09_seek() {
    seeks(0, 2);
}
pub fn c09_seek_transient() {
    seeks(2, 2);
}
pub fn c09_seek_deep() {
    seeks(0, 3);
}

/// every kind of transfer from any position, with two descriptors on the file
fn transfers(k: u32) {
    let (mut e, cs) = env_of(k);
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 3 * cs));
    sym_write(&mut e, fd, &mut g, 1, cs, 3000, 1);
    let other = e.open("a").unwrap();
    let oc = any(0, 2 * cs);
    e.seek(other, oc);
    let append = choose(2) == 1;
    let me = if append {
        let r = e.root();
        let f = e.fs.open(r, "a", FdStat { flags: FdFlags::APPEND, ..FdStat::default() }, OpenFlags::empty(), 0).unwrap();
        check(e.fs.tell(f).unwrap() == g.size, 2);
        f
    } else {
        fd
    };
    let mut cur = offset(2, cs);
    e.seek(me, cur);
    for i in 0..2 {
        let id = 10 + 10 * i;
        match choose(4) {
            0 => {
                let d = arbitrary(2000);
                let l = any(0, 2000);
                let n = e.fs.write(me, &d[..l as usize]).unwrap();
                check(n == l, id);
                let at = if append { g.size } else { cur };
                g.write(at, l, &d);
                cur = at + l;
                cover(1);
            }
            1 => {
                let mut b = arbitrary(2000);
                let old = b.clone();
                let l = any(0, 2000);
                let n = e.fs.read(me, &mut b[..l as usize]).unwrap();
                check(n == g.expect(cur, l), id + 1);
                check(g.matches(cur, n, &b, &old), id + 2);
                cur += n;
                cover(2);
            }
            2 => {
                let d = arbitrary(2000);
                let l = any(0, 2000);
                let o = offset(2, cs);
                let n = e.fs.write_vec_with_offset(me, &[SrcBuf { buf: d.as_ptr(), len: l as usize }], o).unwrap();
                check(n == l, id + 3);
                let at = if append { g.size } else { o };
                g.write(at, l, &d);
                cover(3);
            }
            _ => {
                let mut b = arbitrary(2000);
                let old = b.clone();
                let l = any(0, 2000);
                let o = offset(2, cs);
                let n = e.fs.read_vec_with_offset(me, &[DstBuf { buf: b.as_mut_ptr(), len: l as usize }], o).unwrap();
                check(n == g.expect(o, l), id + 4);
                check(g.matches(o, n, &b, &old), id + 5);
                cover(4);
            }
        }
        check(e.fs.tell(me).unwrap() == cur, id + 6);
    }
    check(e.fs.tell(other).unwrap() == oc, 50);
    probe(&mut e, other, &g, 51);
}
pub fn c09_transfers() {
    transfers(0);
}
pub fn c09_transfers_v1() {
    transfers(1);
}
pub fn c09_transfers_transient() {
    transfers(2);
}

/// a transfer that fails leaves the cursor where it was
pub fn c09_refused() {
    let k = choose(3);
    let (mut e, cs) = env_of(k);
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 2 * cs));
    sym_write(&mut e, fd, &mut g, 1, cs, 3000, 1);
    let lim = offset(2, cs);
    assume(lim >= g.size);
    e.fs.set_file_size_limit(fd, lim).unwrap();
    let cur = offset(3, cs);
    e.seek(fd, cur);
    let d = arbitrary(3000);
    let l = any(1, 3000);
    assume(cur + l > lim);
    check(e.fs.write(fd, &d[..l as usize]).is_err(), 2);
    check(e.fs.tell(fd).unwrap() == cur, 3);
    probe(&mut e, fd, &g, 4);
    cover(1);
}

// ---- C10

/// what the specification says is open
#[derive(Clone)]
struct Open {
    fd: u64,
    what: usize,
}

/// the object a descriptor refers to, told apart by its node number
fn refers(e: &Env, fd: Fd, node: u64) -> bool {
    match e.fs.metadata(fd) {
        Ok(m) => m.node == node,
        Err(_) => false,
    }
}

const OBJ: [&str; 4] = ["a", "b", "d", "c"];

fn same(a: u64, b: u64) -> bool {
    a == b
}

/// opens, closes and renumbers with any descriptor numbers
fn table(steps: u32, transient: bool) {
    let mut e = if transient { Env::transient() } else { Env::stable() };
    let r = e.root();
    e.fs.mkdir(r, "d", FdStat::default(), 0).unwrap();
    let mut nodes = vec![];
    for n in OBJ {
        if n != "d" {
            let f = e.create(n);
            e.fs.close(f).unwrap();
        }
        nodes.push(e.fs.open_metadata(r, n).unwrap().node);
    }
    let root_node = e.fs.metadata(r).unwrap().node;
    let mut t: Vec<Open> = vec![];
    for i in 0..steps {
        let id = 10 * i;
        match choose(3) {
            0 => {
                let what = choose(if i == 0 { 3 } else { 4 }) as usize;
                let fd = e.fs.open(r, OBJ[what], FdStat::default(), OpenFlags::empty(), 0).unwrap();
                // not open already, not the root, not one of the standard channels
                let mut fresh = and(fd as u64 != r as u64, fd > 2);
                for o in &t {
                    fresh = and(fresh, o.fd != fd as u64);
                }
                check(fresh, id + 1);
                t.push(Open { fd: fd as u64, what });
            }
            1 => {
                let fd = any(0, u32::MAX as u64);
                let res = e.fs.close(fd as Fd);
                if same(fd, r as u64) {
                    // closing the root has no effect
                } else if let Some(p) = t.iter().position(|o| same(o.fd, fd)) {
                    check(res == Ok(()), id + 2);
                    t.remove(p);
                    cover(1);
                } else {
                    check(res == Err(Error::BadFileDescriptor), id + 3);
                    cover(2);
                }
            }
            _ => {
                let from = any(0, u32::MAX as u64);
                let to = any(3, u32::MAX as u64);
                let res = e.fs.renumber(from as Fd, to as Fd);
                if same(from, to) {
                    let open = same(from, r as u64) || t.iter().any(|o| same(o.fd, from));
                    check(res.is_ok() == open, id + 4);
                } else if same(from, r as u64) || same(to, r as u64) {
                    check(res.is_err(), id + 5);
                    cover(3);
                } else if let Some(p) = t.iter().position(|o| same(o.fd, from)) {
                    let q = t.iter().position(|o| same(o.fd, to));
                    match q {
                        // a file is not renumbered over a directory
                        Some(q) if (t[p].what == 2) != (t[q].what == 2) => {
                            check(res.is_err(), id + 6);
                        }
                        Some(q) => {
                            check(res.is_ok(), id + 7);
                            t[p].fd = to;
                            t.remove(q);
                            cover(4);
                        }
                        None => {
                            check(res.is_ok(), id + 8);
                            t[p].fd = to;
                            cover(5);
                        }
                    }
                } else {
                    check(res == Err(Error::BadFileDescriptor), id + 9);
                    cover(6);
                }
            }
        }
    }
    // every open descriptor refers to its object, any other number to none
    for o in &t {
        check(refers(&e, o.fd as Fd, nodes[o.what]), 90);
    }
    check(refers(&e, r, root_node), 91);
    let f = any(3, u32::MAX as u64);
    let mut not = f != r as u64;
    for o in &t {
        not = and(not, o.fd != f);
    }
    assume(not);
    let f = f as Fd;
    let mut b = [0u8; 1];
    let e1 = match choose(6) {
        0 => e.fs.metadata(f).is_err(),
        1 => e.fs.get_stat(f).is_err(),
        2 => e.fs.read(f, &mut b) == Err(Error::BadFileDescriptor),
        3 => e.fs.write(f, &b) == Err(Error::BadFileDescriptor),
        4 => e.fs.tell(f) == Err(Error::BadFileDescriptor),
        _ => e.fs.close(f) == Err(Error::BadFileDescriptor),
    };
    check(e1, 92);
    // and one more open
    let fd = e.fs.open(r, "b", FdStat::default(), OpenFlags::empty(), 0).unwrap();
    let mut fresh = and(fd as u64 != r as u64, fd > 2);
    for o in &t {
        fresh = and(fresh, o.fd != fd as u64);
    }
    check(fresh, 93);
    check(refers(&e, fd, nodes[1]), 94);
    // removal is refused exactly for what is still open
    let open = t.iter().any(|o| o.what == 0);
    check(e.fs.remove_file(r, "a").is_ok() == !open, 95);
}
pub fn c10_table() {
    table(3, false);
}
pub fn c10_table_transient() {
    table(2, true);
}
pub fn c10_table_deep() {
    table(4, false);
}
pub fn c10_reopen() {
    // from three open descriptors
    let mut e = Env::stable();
    let r = e.root();
    let f: Vec<Fd> = ["a", "b", "c"].iter().map(|n| e.create(n)).collect();
    let n: Vec<u64> = f.iter().map(|x| e.fs.metadata(*x).unwrap().node).collect();
    let mut now: Vec<u64> = f.iter().map(|x| *x as u64).collect();
    let mut open = [true; 3];
    for i in 0..3 {
        let p = choose(3) as usize;
        if choose(2) == 0 {
            let ok = e.fs.close(now[p] as Fd).is_ok();
            // the number may meanwhile belong to another one
            let mut hit = false;
            for q in 0..3 {
                if open[q] && same(now[q], now[p]) {
                    open[q] = false;
                    hit = true;
                }
            }
            check(ok == hit, 1 + i);
        } else {
            let to = any(4, u32::MAX as u64);
            let ok = e.fs.renumber(now[p] as Fd, to as Fd).is_ok();
            let src = (0..3).find(|q| open[*q] && same(now[*q], now[p]));
            check(ok == src.is_some(), 4 + i);
            if let Some(s) = src {
                for q in 0..3 {
                    if q != s && open[q] && same(now[q], to) {
                        open[q] = false;
                    }
                }
                now[s] = to;
            }
        }
    }
    for q in 0..3 {
        if open[q] {
            check(refers(&e, now[q] as Fd, n[q]), 10);
        }
    }
    for i in 0..2 {
        let fd = e.fs.open(r, "a", FdStat::default(), OpenFlags::empty(), 0).unwrap();
        for q in 0..3 {
            if open[q] {
                check(now[q] != fd as u64, 11 + i);
                check(refers(&e, now[q] as Fd, n[q]), 13);
            }
        }
        check(refers(&e, fd, n[0]), 14);
    }
    cover(1);
}

// ---- C18

/// every data operation through a descriptor with any rights and flags
fn rights(k: u32) {
    let (mut e, cs) = env_of(k);
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 2 * cs));
    sym_write(&mut e, fd, &mut g, 1, cs, 3000, 1);
    let before = e.fs.metadata(fd).unwrap();
    let base = any(0, u64::MAX);
    let st = FdStat { flags: FdFlags::from_bits_retain(any(0, u16::MAX as u64) as u16), rights_base: base, rights_inheriting: any(0, u64::MAX) };
    let r = e.root();
    let f = match choose(3) {
        0 => e.fs.open(r, "a", st, OpenFlags::empty(), 0).unwrap(),
        1 => {
            let f = e.open("a").unwrap();
            e.fs.set_stat(f, st).unwrap();
            f
        }
        _ => {
            // created with these rights
            let f = e.fs.open(r, "n", st, OpenFlags::CREATE, 0).unwrap();
            let w = e.fs.write(f, &[1]);
            check(w.is_ok() == ((base & 64) != 0), 2);
            let mut b = [7u8];
            e.fs.seek(f, 0, Whence::SET).unwrap();
            let x = e.fs.read(f, &mut b);
            check(x.is_ok() == ((base & 2) != 0), 3);
            if x.is_err() {
                check(b[0] == 7, 4);
            }
            if w.is_err() {
                check(e.size(f) == 0, 5);
            }
            cover(1);
            return;
        }
    };
    let cur = offset(2, cs);
    e.seek(f, cur);
    let mut b = arbitrary(500);
    let old = b.clone();
    let l = any(1, 500) as usize;
    let o = offset(2, cs);
    let i = any(0, 499);
    let op = choose(8);
    let (right, ok) = match op {
        0 => (2, e.fs.read(f, &mut b[..l]).is_ok()),
        1 => (2, e.fs.read_vec(f, &[DstBuf { buf: b.as_mut_ptr(), len: l }]).is_ok()),
        2 => (2, e.fs.read_vec_with_offset(f, &[DstBuf { buf: b.as_mut_ptr(), len: l }], o).is_ok()),
        3 => (64, e.fs.write(f, &b[..l]).is_ok()),
        4 => (64, e.fs.write_vec(f, &[SrcBuf { buf: b.as_ptr(), len: l }]).is_ok()),
        5 => (64, e.fs.write_vec_with_offset(f, &[SrcBuf { buf: b.as_ptr(), len: l }], o).is_ok()),
        6 => (64, e.fs.set_file_size(f, o).is_ok()),
        _ => (64, e.fs.write_vec(f, &[SrcBuf { buf: b.as_ptr(), len: 0 }, SrcBuf { buf: b.as_ptr(), len: l }]).is_ok()),
    };
    check(ok == (base & right != 0), 10 + op);
    if !ok {
        check(e.fs.tell(f).unwrap() == cur, 20);
        check(byte(&b, i) == byte(&old, i), 21);
        check(same_meta(&before, &e.fs.metadata(f).unwrap()), 22);
        probe(&mut e, fd, &g, 23);
        cover(2);
    } else {
        cover(3);
    }
}
pub fn c18_rights() {
    rights(0);
}
pub fn c18_rights_v1() {
    rights(1);
}
pub fn c18_rights_transient() {
    rights(2);
}

// ---- C19

/// any flags on any kind of existing or missing name
fn flags(k: u32) {
    let (mut e, cs) = env_of(k);
    let r = e.root();
    e.fs.mkdir(r, "d", FdStat::default(), 5).unwrap();
    let fd = e.create("d/f");
    let mut g = Ghost::new(any(0, 2 * cs));
    sym_write(&mut e, fd, &mut g, 1, cs, 3000, 1);
    let before = e.fs.metadata(fd).unwrap();
    e.fs.close(fd).unwrap();
    let dir0 = e.fs.open_metadata(r, "d").unwrap();
    let root0 = e.fs.metadata(r).unwrap();
    let fl = any(0, 15);
    let st = FdStat { flags: FdFlags::from_bits_retain(any(0, 31) as u16), rights_base: any(0, u64::MAX), rights_inheriting: any(0, u64::MAX) };
    let t = any(0, u64::MAX);
    let what = choose(6);
    let path = ["d/f", "d", "d/n", "n", "n/m", "d/f/x"][what as usize];
    let res = e.fs.open(r, path, st, OpenFlags::from_bits_truncate(fl as u16), t);
    let create = fl & 1 != 0;
    let dir = fl & 2 != 0;
    let excl = fl & 4 != 0;
    let trunc = fl & 8 != 0;
    let mut f1 = true; // d/f as before
    match what {
        0 | 1 => {
            let ok = !(create && excl) && !(dir && what == 0);
            check(res.is_ok() == ok, 2);
            if what == 0 && ok && trunc {
                f1 = false;
            }
            if let Ok(f) = &res {
                check(e.fs.get_stat(*f).unwrap().0 == if what == 0 { FileType::RegularFile } else { FileType::Directory }, 3);
            } else {
                check(create && excl || !matches!(res, Err(Error::FileExists)), 4);
            }
        }
        2 | 3 | 4 => {
            check(res.is_ok() == create, 5);
            if let Ok(f) = &res {
                let m = e.fs.metadata(*f).unwrap();
                check((m.file_type == FileType::Directory) == dir, 6);
                check(and(m.size == 0, and(m.link_count == 1, m.maximum_size_allowed.is_none())), 7);
                check(and(m.times.created == t, and(m.times.modified == t, m.times.accessed == t)), 8);
                check(m.node != before.node && m.node != dir0.node && m.node != root0.node, 9);
            }
        }
        _ => check(res.is_err(), 10),
    }
    if let Ok(f) = &res {
        let s = e.fs.get_stat(*f).unwrap().1;
        check(and(s.rights_base == st.rights_base, s.rights_inheriting == st.rights_inheriting), 11);
        check(s.flags.bits() == st.flags.bits(), 12);
        cover(1 + what);
    }
    // what was not asked for stays
    let created = res.is_ok() && what >= 2 && create;
    let d = e.fs.open_metadata(r, "d").unwrap();
    check(and(d.size == if created && what == 2 { 2 } else { 1 }, and(same_rest(&d, &dir0), same_limit(&d, &dir0))), 13);
    let n = e.fs.metadata(r).unwrap();
    check(and(n.size == if created && (what == 3 || what == 4) { 2 } else { 1 }, same_rest(&n, &root0)), 14);
    if !created && what >= 2 {
        check(matches!(e.fs.open_metadata(r, path), Err(Error::NoSuchFileOrDirectory)), 15);
    }
    let fd = e.open("d/f").unwrap();
    let now = e.fs.metadata(fd).unwrap();
    if f1 {
        check(same_meta(&before, &now), 16);
    } else {
        check(and(same_rest(&before, &now), same_limit(&before, &now)), 17);
        g.resize(0);
    }
    probe(&mut e, fd, &g, 18);
}
pub fn c19_flags() {
    flags(0);
}
pub fn c19_flags_transient() {
    flags(2);
}

/// opening with a directory descriptor other than the root, on links and mounted files
pub fn c19_below() {
    let k = choose(2);
    let (mut e, _) = env_of(2 * k);
    let r = e.root();
    let d = e.fs.create_open_directory(r, "d", FdStat::default(), 0).unwrap();
    let a = e.fs.open(d, "a", FdStat::default(), OpenFlags::CREATE, 3).unwrap();
    e.fs.write(a, &[1, 2, 3]).unwrap();
    let l = e.fs.create_hard_link(d, "a", r, "b").unwrap();
    e.fs.close(l).unwrap();
    if choose(2) == 1 {
        e.fs.mount_memory_file("b", Box::new(VectorMemory::default()), MountedFileSizePolicy::PreviousOrZero).unwrap();
        check(e.size(a) == 0, 9);
        e.seek(a, 0);
        e.fs.write(a, &[4, 5, 6]).unwrap();
    }
    let node = e.fs.metadata(a).unwrap().node;
    let fl = any(0, 15);
    let f = OpenFlags::from_bits_truncate(fl as u16);
    let (dir, name) = match choose(4) {
        0 => (r, "b"),
        1 => (r, "d/a"),
        2 => (d, "a"),
        // a file is not a place to open names in
        _ => {
            check(e.fs.open(a, "x", FdStat::default(), f, 0).is_err(), 1);
            check(e.size(d) == 1, 2);
            cover(1);
            return;
        }
    };
    let res = e.fs.open(dir, name, FdStat::default(), f, 9);
    let ok = fl & 5 != 5 && fl & 2 == 0;
    check(res.is_ok() == ok, 3);
    if let Ok(x) = res {
        check(e.fs.metadata(x).unwrap().node == node, 4);
        check(x != a, 5);
        check(e.size(a) == if fl & 8 != 0 { 0 } else { 3 }, 6);
        cover(2);
    } else {
        check(e.size(a) == 3, 7);
        cover(3);
    }
    check(e.size(d) == 1 && e.size(r) == 2, 8);
}
