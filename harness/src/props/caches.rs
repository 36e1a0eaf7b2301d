//! The same guarantees when the bounded caches of pointers, metadata and names overflow.
use super::names::*;
use super::tree::*;
use super::*;

/// reads single bytes all over a long sparse file, which remembers 100 chunk pointers each
/// (up to its end, so it gets longer in between)
fn flood(e: &mut Env, fd: Fd, reads: u32) {
    let mut b = [0u8; 1];
    for i in 0..reads {
        let n = (i as u64 + 1) * 100 * 16384;
        if e.size(fd) < n {
            e.fs.set_file_size(fd, n).unwrap();
        }
        e.seek(fd, i as u64 * 100 * 16384);
        e.fs.read(fd, &mut b).unwrap();
    }
}

/// writes, resizes and reads of a file around the overflow of the pointer cache
fn pointers(k: u32) {
    let (mut e, cs) = env_of(k);
    let s = e.create("sparse");
    let fd = e.create("f");
    let mut g = Ghost::new(any(0, 3 * cs - 1));
    let d = arbitrary(cs as usize + 10);
    let l = any(1, cs + 10);
    write_at(&mut e, fd, 0, l, &d, 1);
    g.write(0, l, &d);
    e.fs.set_file_size(fd, 3 * cs).unwrap();
    g.resize(3 * cs);
    // remembered: what is there and what is not
    let mut b = [0u8; 1];
    for c in 0..3 {
        e.seek(fd, c * cs);
        e.fs.read(fd, &mut b).unwrap();
    }
    let full = [98, 99, 101][choose(3) as usize];
    flood(&mut e, s, full);
    match choose(3) {
        0 => {
            sym_write(&mut e, fd, &mut g, 3, cs, 300, 2);
            probe(&mut e, fd, &g, 11);
            flood(&mut e, s, 3);
            let d = arbitrary(20);
            let o = 2 * cs - 10 + any(0, 20);
            write_at(&mut e, fd, o, 20, &d, 14);
            g.write(o, 20, &d);
            cover(1);
        }
        1 => {
            let n = offset(3, cs);
            e.fs.set_file_size(fd, n).unwrap();
            g.resize(n);
            sym_write(&mut e, fd, &mut g, 2, cs, 300, 4);
            cover(2);
        }
        _ => {
            // its chunks pass to another file
            e.fs.close(fd).unwrap();
            let r = e.root();
            e.fs.remove_file(r, "f").unwrap();
            let fd = e.create("g");
            let mut h = Ghost::new(g.p);
            sym_write(&mut e, fd, &mut h, 2, cs, 300, 6);
            probe(&mut e, fd, &h, 8);
            cover(3);
            return;
        }
    }
    probe(&mut e, fd, &g, 16);
}
pub fn c01_evict() {
    pointers(0);
}

/// the cache of pointers fills up one by one
pub fn c01_full() {
    let mut e = Env::stable();
    let r = e.root();
    e.fs.mkdir(r, "p", FdStat::default(), 0).unwrap();
    let n = 120u64;
    for i in 0..n {
        let p = e.create(&format!("p/{i}"));
        e.fs.write(p, b"p").unwrap();
        e.fs.close(p).unwrap();
    }
    let s = e.create("sparse");
    let fd = e.create("f");
    e.fs.set_file_size(fd, 200 * 16384).unwrap();
    if choose(2) == 1 {
        // some of it is there already
        write_at(&mut e, fd, 50 * 16384, 1, b"x", 7);
    }
    e.upgrade();
    let s = e.open("sparse").unwrap();
    let fd = e.open("f").unwrap();
    flood(&mut e, s, [97, 98][choose(2) as usize]);
    let v = any(1, 255) as u8;
    let at = any(0, 16383);
    let mut b = [0u8];
    for i in 0..n {
        let p = e.open(&format!("p/{i}")).unwrap();
        check(e.fs.read(p, &mut b) == Ok(1), 1);
        check(b[0] == b'p', 2);
        e.fs.close(p).unwrap();
        let o = (i + 1) * 16384 + at;
        e.seek(fd, o);
        check(e.fs.read(fd, &mut b) == Ok(1), 3);
        write_at(&mut e, fd, o, 1, &[v], 4);
        e.seek(fd, o);
        check(e.fs.read(fd, &mut b) == Ok(1), 5);
        check(b[0] == v, 6);
    }
    cover(1);
}

fn many_files(e: &mut Env, n: u32, dir: &str) {
    for i in 0..n {
        let fd = e.create(&format!("{dir}{i}"));
        e.fs.close(fd).unwrap();
    }
}

/// attributes when more files are in use than metadata is remembered of
pub fn c17_many() {
    let (mut e, cs) = env_of(0);
    let f = e.create("f");
    e.fs.write(f, b"ff").unwrap();
    let l = e.fs.create_hard_link(e.root(), "f", e.root(), "l").unwrap();
    for d in 0..33 {
        many_files(&mut e, 30, &format!("d{d}/"));
    }
    let r = e.root();
    if choose(2) == 1 {
        // one more is remembered at a time
        if choose(2) == 1 {
            e.upgrade();
        }
        let fd = e.open("f").unwrap();
        let mut want = e.fs.metadata(fd).unwrap();
        let v = any(1 << 33, 1 << 61);
        for i in 0..1010u64 {
            if i < 990 {
                e.fs.open_metadata(r, &format!("d{}/{}", i / 30, i % 30)).unwrap();
            } else {
                let x = e.create(&format!("x{i}"));
                e.fs.close(x).unwrap();
            }
            if i > 940 {
                match i % 3 {
                    0 => {
                        e.fs.set_accessed_time(fd, v + i).unwrap();
                        want.times.accessed = v + i;
                    }
                    1 => {
                        e.fs.set_file_size(fd, i).unwrap();
                        want.size = i;
                    }
                    _ => {
                        e.fs.set_file_size_limit(fd, v - i).unwrap();
                        want.maximum_size_allowed = Some(v - i);
                    }
                }
                check(same_meta(&e.fs.metadata(fd).unwrap(), &want), 7);
            }
        }
        e.upgrade();
        check(same_meta(&e.fs.open_metadata(e.root(), "l").unwrap(), &want), 8);
        cover(2);
        return;
    }
    let last = e.open("d32/29").unwrap();
    // known before, known since, not known
    let (fd, path) = [(f, "l"), (last, "d32/29"), (e.open("d0/5").unwrap(), "d0/5")][choose(3) as usize];
    let mut want = e.fs.metadata(fd).unwrap();
    let v = any(1 << 33, 1 << 62);
    match choose(5) {
        0 => {
            e.fs.set_accessed_time(fd, v).unwrap();
            want.times.accessed = v;
        }
        1 => {
            e.fs.set_modified_time(fd, v).unwrap();
            want.times.modified = v;
        }
        2 => {
            e.fs.set_file_size_limit(fd, v).unwrap();
            want.maximum_size_allowed = Some(v);
        }
        3 => {
            let n = offset(2, cs);
            e.fs.set_file_size(fd, n).unwrap();
            want.size = n;
        }
        _ => {
            let x = e.fs.create_hard_link(r, path, r, "new").unwrap();
            want.link_count += 1;
            check(same_meta(&e.fs.metadata(x).unwrap(), &want), 1);
        }
    }
    for i in 0..2 {
        if i == 0 {
            check(same_meta(&e.fs.metadata(fd).unwrap(), &want), 2);
        }
        check(same_meta(&e.fs.open_metadata(r, path).unwrap(), &want), 3);
        if i == 0 {
            let _ = l;
            e.upgrade();
        }
    }
    let r = e.root();
    check(e.fs.open_metadata(r, "d7").unwrap().size == 30, 4);
    cover(1);
}

/// lookups when more names were looked up than are remembered
fn names_forgotten(k: u32) {
    let (mut e, mut t) = linked(k);
    t.verify(&mut e, 10);
    let names = [vec![n("a")], vec![n("c")], vec![n("d")], vec![n("d"), n("b")], vec![n("d"), n("e")], vec![n("d"), n("l")]];
    for p in &names {
        lookup(&mut e, &t, None, p, 0, 30);
    }
    // other spellings push them out of what is remembered, or not quite
    let r = e.root();
    let mut s = String::from("d/b");
    let spellings = [90, 110][choose(2) as usize];
    for _ in 0..spellings {
        s = format!("./{s}");
        e.fs.open_metadata(r, &s).unwrap();
    }
    let k = choose(7);
    let (want, got) = name_op(&mut e, &mut t, 2, k);
    check(want == got, 40);
    for p in &names {
        lookup(&mut e, &t, None, p, 0, 50);
    }
    check(e.fs.open_metadata(e.root(), &s).is_ok() == t.find(0, &[n("d"), n("b")]).is_some(), 55);
    t.verify(&mut e, 60);
    cover(1);
}
pub fn c15_evict_transient() {
    names_forgotten(2);
}
pub fn c15_evict() {
    names_forgotten(0);
}
