//! Names and paths: C11, C12, C13, C14, C15, C24.
use super::tree::*;
use super::*;

fn path(deep: u32, len: usize) -> Vec<Name> {
    let n = 1 + choose(deep) as usize;
    (0..n).map(|_| letters(if len == 1 { 1 } else { 1 + choose(len as u32) as usize })).collect()
}

// ---- C12

pub fn op12(e: &mut Env, t: &mut Tree, deep: u32, len: usize, id: u32) {
    let r = e.root();
    let k = choose(4);
    let p = path(deep, len);
    let s = text_of(&p);
    match k {
        0 => {
            let tm = any(1 << 33, 1 << 62);
            let want = t.create(0, &p, false, tm);
            let got = e.fs.open(r, &s, FdStat::default(), OpenFlags::CREATE | OpenFlags::EXCLUSIVE, tm);
            check(got.is_ok() == want.is_ok(), id);
            if want == Err(No::Exists) {
                check(got == Err(Error::FileExists), id + 1);
            }
            if let Ok(fd) = got {
                e.fs.close(fd).unwrap();
                cover(1);
            }
        }
        1 => {
            let tm = any(1 << 33, 1 << 62);
            let want = t.create(0, &p, true, tm);
            let got = e.fs.mkdir(r, &s, FdStat::default(), tm);
            check(got.is_ok() == want.is_ok(), id + 2);
            if want == Err(No::Exists) {
                check(got == Err(Error::FileExists), id + 3);
            }
            if got.is_ok() {
                cover(2);
            }
        }
        2 => {
            let want = t.remove(0, &p, false);
            let got = e.fs.remove_file(r, &s);
            check(got.is_ok() == want.is_ok(), id + 4);
            if want == Err(No::Absent) {
                check(got == Err(Error::NoSuchFileOrDirectory), id + 5);
            }
            if got.is_ok() {
                cover(3);
            }
        }
        _ => {
            let want = t.remove(0, &p, true);
            let got = e.fs.remove_dir(r, &s);
            check(got.is_ok() == want.is_ok(), id + 6);
            if want == Err(No::Absent) {
                check(got == Err(Error::NoSuchFileOrDirectory), id + 7);
            }
            if got.is_ok() {
                cover(4);
            }
        }
    }
}

/// a folder with a file, and a file; `sym`: of any names
fn start(k: u32, len: usize, sym: bool) -> (Env, Tree) {
    let e = env_of(k).0;
    let t = Tree::new(&e);
    let mut x = (e, t);
    let (d, f, b) = if sym { (letters(len), letters(len), letters(len)) } else { (vec![b'd'; len], vec![b'm'; len], vec![b'h'; len]) };
    assume(!eq(&d, &f));
    x.1.make(&mut x.0, &[d.clone(), b], false);
    x.1.make(&mut x.0, &[f], false);
    x
}

fn ops(k: u32, n: u32, deep: u32, len: usize, sym: bool) {
    let (mut e, mut t) = start(k, len, sym);
    for i in 0..n {
        op12(&mut e, &mut t, deep, len, 10 + 10 * i);
    }
    t.verify(&mut e, 60);
    // any other path leads nowhere
    let p = path(deep, len);
    let r = e.root();
    let s = text_of(&p);
    check(e.fs.open_metadata(r, &s).is_ok() == t.find(0, &p).is_some(), 80);
    cover(5);
}
pub fn c12_ops() {
    ops(0, 2, 2, 1, false);
}
pub fn c12_ops_transient() {
    ops(2, 2, 2, 1, true);
}
pub fn c12_ops_deep() {
    ops(0, 2, 2, 1, true);
}
pub fn c12_three_deep() {
    ops(0, 3, 2, 1, false);
}
pub fn c12_three_transient() {
    ops(2, 3, 2, 1, false);
}
pub fn c12_long() {
    ops(0, 1, 2, 2, true);
}

/// the entry made last goes, in any way, and another takes its place
fn again(k: u32) {
    let (mut e, mut t) = start(k, 1, false);
    let r = e.root();
    let mut x = if choose(2) == 1 { vec![n("d")] } else { vec![] };
    x.push(letter());
    assume(t.find(0, &x).is_none());
    let dir = choose(2) == 1;
    t.make(&mut e, &x, dir);
    let s = text_of(&x);
    match choose(if dir { 3 } else { 2 }) {
        0 => {
            let y = [n("d"), n("!")];
            t.rename(0, &x, 0, &y).unwrap();
            let fd = e.fs.rename(r, &s, r, "d/!").unwrap();
            e.fs.close(fd).unwrap();
        }
        1 => {
            t.remove(0, &x, dir).unwrap();
            check(if dir { e.fs.remove_dir(r, &s) } else { e.fs.remove_file(r, &s) } == Ok(()), 10);
        }
        _ => {
            let mut y = x.clone();
            y.push(n("w"));
            t.make(&mut e, &y, false);
            t.remove_recursive(0, &x).unwrap();
            check(e.fs.remove_recursive(r, &s) == Ok(()), 11);
        }
    }
    op12(&mut e, &mut t, 2, 1, 20);
    t.verify(&mut e, 40);
    let p = path(2, 1);
    let want = t.find(0, &p);
    let got = e.fs.open_metadata(r, &text_of(&p));
    check(got.is_ok() == want.is_some(), 60);
    if let (Ok(m), Some(o)) = (got, want) {
        check(m.node == t.objs[o].node, 61);
    }
    cover(6);
}
pub fn c12_again() {
    again(0);
}
pub fn c12_again_transient() {
    again(2);
}

// ---- C13

pub fn n(s: &str) -> Name {
    s.as_bytes().to_vec()
}

/// files a, c, d/b, the second name d/l of a, folders d and d/e
pub fn linked(k: u32) -> (Env, Tree) {
    linked_in(env_of(k).0)
}
pub fn linked_in(mut e: Env) -> (Env, Tree) {
    let mut t = Tree::new(&e);
    t.make(&mut e, &[n("a")], false);
    t.make(&mut e, &[n("c")], false);
    t.make(&mut e, &[n("d"), n("b")], false);
    t.make(&mut e, &[n("d"), n("e")], true);
    let r = e.root();
    let l = e.fs.create_hard_link(r, "a", r, "d/l").unwrap();
    e.fs.close(l).unwrap();
    t.link(0, &[n("a")], 0, &[n("d"), n("l")]).unwrap();
    (e, t)
}

/// renames or links any name to any other; the source and the target may be given relative to d
fn move_op(e: &mut Env, t: &mut Tree, deep: u32, dirs: bool, id: u32) {
    let r = e.root();
    let link = choose(2) == 1;
    let (mut from, mut to) = ((r, 0), (r, 0));
    let mut opened = None;
    if dirs {
        if let Some(o) = t.find(0, &[n("d")]) {
            let d = e.open("d").unwrap();
            t.objs[o].opens += 1;
            opened = Some((d, o));
            match choose(4) {
                0 => {}
                1 => from = (d, o),
                2 => to = (d, o),
                _ => {
                    from = (d, o);
                    to = (d, o);
                }
            }
        }
    }
    let p = path(deep, 1);
    let q = path(deep, 1);
    let (s, d) = (text_of(&p), text_of(&q));
    let (want, got) = if link {
        (t.link(from.1, &p, to.1, &q), e.fs.create_hard_link(from.0, &s, to.0, &d))
    } else {
        (t.rename(from.1, &p, to.1, &q), e.fs.rename(from.0, &s, to.0, &d))
    };
    check(got.is_ok() == want.is_ok(), id);
    if let (Ok(fd), Ok(o)) = (got, want) {
        // the descriptor returned is one of the file
        let m = e.fs.metadata(fd).unwrap();
        check(m.node == t.objs[o].node || t.objs[o].node == u64::MAX, id + 1);
        check(m.link_count == t.objs[o].links, id + 2);
        e.fs.close(fd).unwrap();
        cover(if link { 2 } else { 1 });
    }
    if let Some((d, o)) = opened {
        e.fs.close(d).unwrap();
        t.objs[o].opens -= 1;
    }
}

fn moves(k: u32, ops: u32, deep: u32, dirs: bool) {
    let (mut e, mut t) = linked(k);
    t.verify(&mut e, 10);
    // any file may be open meanwhile
    let mut open = None;
    match choose(3) {
        0 => {}
        i => {
            let f = [n("a"), n("c")][i as usize - 1].clone();
            let o = t.find(0, &[f.clone()]).unwrap();
            let fd = e.open(&text_of(&[f])).unwrap();
            t.objs[o].opens += 1;
            open = Some((fd, o));
        }
    }
    for i in 0..ops {
        move_op(&mut e, &mut t, deep, dirs, 30 + 10 * i);
    }
    t.verify(&mut e, 60);
    t.verify_content(&mut e, 80);
    if let Some((fd, o)) = open {
        // still the same file
        let m = e.fs.metadata(fd).unwrap();
        check(m.node == t.objs[o].node && m.link_count == t.objs[o].links, 90);
        let mut b = [0u8; 1];
        check(e.fs.read(fd, &mut b) == Ok(1) && b[0] as u64 == t.objs[o].byte, 91);
    }
    cover(3);
}
/// links and renames of a file that hosts a memory, before, while and after it does
fn mounted_links(k: u32) {
    let (mut e, mut t) = linked(k);
    let r = e.root();
    let host = [n("a")];
    let old = choose(2) == 1;
    if old {
        // it was mounted before, with fewer names
        e.fs.mount_memory_file("a", Box::new(VectorMemory::default()), MountedFileSizePolicy::PreviousOrZero).unwrap();
        e.fs.unmount_memory_file("a").unwrap();
    }
    let mut mounted = None;
    let when = choose(3);
    for i in 0..3 {
        if i == when {
            if let Some(o) = t.find(0, &host) {
                e.fs.mount_memory_file("a", Box::new(VectorMemory::default()), MountedFileSizePolicy::PreviousOrZero).unwrap();
                t.objs[o].mounted = true;
                mounted = Some((o, t.objs[o].size));
                t.objs[o].size = 0;
            }
        }
        if i == 2 {
            break;
        }
        let x = [letter()];
        let (w, g) = match choose(3) {
            0 => (t.link(0, &host, 0, &x).is_ok(), e.fs.create_hard_link(r, "a", r, &text_of(&x)).map(|fd| e.fs.close(fd).unwrap())),
            1 => (t.rename(0, &host, 0, &x).is_ok(), e.fs.rename(r, "a", r, &text_of(&x)).map(|fd| e.fs.close(fd).unwrap())),
            _ => {
                let y = [n("d"), letter()];
                (t.remove(0, &y, false).is_ok(), e.fs.remove_file(r, &text_of(&y)))
            }
        };
        check(g.is_ok() == w, 30 + i);
    }
    t.verify(&mut e, 40);
    if let Some((o, size)) = mounted {
        let p = t.paths(o)[0].clone();
        e.fs.unmount_memory_file(&text_of(&p)).unwrap();
        t.objs[o].mounted = false;
        t.objs[o].size = size;
        cover(1);
    }
    t.verify(&mut e, 60);
    if k != 2 {
        e.upgrade();
        t.verify(&mut e, 80);
    }
    cover(2);
}
pub fn c13_mounted() {
    mounted_links(0);
}
pub fn c13_mounted_transient() {
    mounted_links(2);
}

pub fn c13_moves() {
    moves(0, 1, 2, false);
}
pub fn c13_moves_transient() {
    moves(2, 1, 2, false);
}
pub fn c13_dirs() {
    moves(0, 1, 2, true);
}
pub fn c13_dirs_transient() {
    moves(2, 1, 3, true);
}
pub fn c13_two_transient() {
    moves(2, 2, 2, false);
}
pub fn c13_two_deep() {
    moves(0, 2, 2, false);
}
pub fn c13_deep() {
    moves(0, 1, 3, true);
}

// ---- C14

/// everything that can be observed from the root down
pub struct Seen {
    pub list: Vec<(String, Metadata, [u8; 3], u64)>,
}

fn visit(e: &mut Env, path: &str, out: &mut Seen) {
    let r = e.root();
    let m = e.fs.open_metadata(r, path).unwrap();
    let fd = e.fs.open(r, path, FdStat::default(), OpenFlags::empty(), 0).unwrap();
    let dir = m.file_type == FileType::Directory;
    let mut b = [0u8; 3];
    let mut k = 0;
    let mut names = vec![];
    if dir {
        e.fs.with_direntries(fd, Some(0), &mut |_, d| {
            names.push(unsafe { String::from_utf8_unchecked(d.name.bytes[..d.name.length as usize].to_vec()) });
            true
        })
        .unwrap();
    } else {
        k = e.fs.read(fd, &mut b).unwrap();
    }
    e.fs.close(fd).unwrap();
    out.list.push((path.to_string(), m, b, k));
    for x in names {
        let p = if path.is_empty() { x } else { format!("{path}/{x}") };
        visit(e, &p, out);
    }
}

pub fn look(e: &mut Env) -> Seen {
    let mut s = Seen { list: vec![] };
    visit(e, "", &mut s);
    s
}

pub fn same_seen(a: &Seen, b: &Seen, id: u32) {
    check(a.list.len() == b.list.len(), id);
    if a.list.len() != b.list.len() {
        return;
    }
    for (x, y) in a.list.iter().zip(&b.list) {
        check(eq(x.0.as_bytes(), y.0.as_bytes()), id + 1);
        check(same_meta(&x.1, &y.1), id + 2);
        check(and(x.3 == y.3, eq(&x.2, &y.2)), id + 3);
    }
}

/// removes, creates, links or renames with files open, mounted, linked twice, folders open
fn refused(k: u32, deep: u32) {
    let (mut e, mut t) = linked(k);
    let r = e.root();
    // any object busy in any way
    let names = [vec![n("a")], vec![n("c")], vec![n("d"), n("b")], vec![n("d")], vec![n("d"), n("e")]];
    let mut open = None;
    let mut mounted = false;
    match choose(8) {
        0 => {}
        i if i < 6 => {
            let p = &names[i as usize - 1];
            let o = t.find(0, p).unwrap();
            open = Some((e.open(&text_of(p)).unwrap(), o));
            t.objs[o].opens += 1;
        }
        i => {
            let p = &names[[0, 2][i as usize - 6]];
            let o = t.find(0, p).unwrap();
            e.fs.mount_memory_file(&text_of(p), Box::new(VectorMemory::default()), MountedFileSizePolicy::PreviousOrMemoryPages).unwrap();
            t.objs[o].mounted = true;
            mounted = true;
        }
    }
    let before = look(&mut e);
    let p = path(deep, 1);
    let s = text_of(&p);
    let mut partial = false;
    let (want, got): (Result<usize, No>, Result<(), Error>) = match choose(7) {
        0 => (t.create(0, &p, false, 7), e.fs.open(r, &s, FdStat::default(), OpenFlags::CREATE | OpenFlags::EXCLUSIVE, 7).map(|fd| e.fs.close(fd).unwrap())),
        1 => (t.create(0, &p, true, 7), e.fs.mkdir(r, &s, FdStat::default(), 7)),
        2 => (t.remove(0, &p, false).map(|_| 0), e.fs.remove_file(r, &s)),
        3 => (t.remove(0, &p, true).map(|_| 0), e.fs.remove_dir(r, &s)),
        4 => {
            let o = t.find(0, &p);
            // what is inside may be gone before the refusal
            partial = o.is_some_and(|o| t.objs[o].dir);
            (t.remove_recursive(0, &p).map(|_| 0), e.fs.remove_recursive(r, &s))
        }
        5 => {
            let q = path(deep, 1);
            let d = text_of(&q);
            (t.link(0, &p, 0, &q), e.fs.create_hard_link(r, &s, r, &d).map(|fd| e.fs.close(fd).unwrap()))
        }
        _ => {
            let q = path(deep, 1);
            let d = text_of(&q);
            (t.rename(0, &p, 0, &q), e.fs.rename(r, &s, r, &d).map(|fd| e.fs.close(fd).unwrap()))
        }
    };
    check(got.is_ok() == want.is_ok(), 1);
    if got.is_err() {
        if !partial {
            let after = look(&mut e);
            same_seen(&before, &after, 2);
        }
        cover(1);
        if want == Err(No::Busy) {
            cover(2);
        }
        if want == Err(No::NotEmpty) {
            cover(3);
        }
        if want == Err(No::Type) {
            cover(4);
        }
        if want == Err(No::Inside) {
            cover(5);
        }
        if want == Err(No::Argument) {
            cover(6);
        }
    } else {
        if !mounted {
            t.verify(&mut e, 10);
        }
        cover(7);
    }
    if let Some((fd, o)) = open {
        // what is open stays usable
        let m = e.fs.metadata(fd).unwrap();
        check(m.node == t.objs[o].node || t.objs[o].node == u64::MAX, 30);
        check((m.file_type == FileType::Directory) == t.objs[o].dir, 31);
        if !t.objs[o].dir {
            let mut b = [0u8; 1];
            check(e.fs.read(fd, &mut b) == Ok(1) && b[0] as u64 == t.objs[o].byte, 32);
        }
    }
}
pub fn c14_refused() {
    refused(0, 2);
}
pub fn c14_refused_transient() {
    refused(2, 2);
}
pub fn c14_refused_deep() {
    refused(0, 3);
}
pub fn c14_three_transient() {
    refused(2, 3);
}

/// names that cannot be created: too long, or on the way of a path
pub fn c14_names() {
    let k = choose(3);
    let (mut e, _) = linked(k);
    let r = e.root();
    let long = "x".repeat(250 + any_len() as usize);
    let p = match choose(6) {
        0 => long.clone(),
        1 => format!("y/{long}"),
        2 => format!("{long}/y"),
        3 => format!("d/y/{long}/z"),
        4 => "a/y".to_string(),
        _ => "a/y/z".to_string(),
    };
    let before = look(&mut e);
    let ok = match choose(5) {
        0 => e.fs.open(r, &p, FdStat::default(), OpenFlags::CREATE, 7).is_ok(),
        1 => e.fs.mkdir(r, &p, FdStat::default(), 7).is_ok(),
        2 => e.fs.create_hard_link(r, "c", r, &p).is_ok(),
        3 => e.fs.rename(r, "c", r, &p).is_ok(),
        _ => e.fs.rename(r, "d/e", r, &p).is_ok(),
    };
    let fits = !(p.starts_with('a') || p.split('/').any(|x| x.len() > 255));
    check(ok == fits, 1);
    if !ok {
        let after = look(&mut e);
        same_seen(&before, &after, 2);
        cover(1);
    } else {
        let m = e.fs.open_metadata(r, &p);
        check(m.is_ok(), 6);
        cover(2);
    }
}
fn any_len() -> u32 {
    choose(8)
}

// ---- C15

fn spelled(p: &[Name], v: u32) -> String {
    let s = text_of(p);
    match v {
        0 => s,
        1 => format!("./{s}"),
        2 => format!("{s}/"),
        3 => format!("d/../{s}"),
        4 => format!("{}/.//{}", text_of(&p[..1]), text_of(&p[1..])),
        _ => format!("q/x/../../{s}/."),
    }
}

/// any operation on names
fn any_op(e: &mut Env, t: &mut Tree, deep: u32) -> (bool, bool) {
    let k = choose(7);
    name_op(e, t, deep, k)
}

pub fn name_op(e: &mut Env, t: &mut Tree, deep: u32, k: u32) -> (bool, bool) {
    let r = e.root();
    let p = path(deep, 1);
    let s = text_of(&p);
    let (want, got): (Result<usize, No>, Result<(), Error>) = match k {
        0 => (t.create(0, &p, false, 7 << 40), e.fs.open(r, &s, FdStat::default(), OpenFlags::CREATE | OpenFlags::EXCLUSIVE, 7 << 40).map(|fd| e.fs.close(fd).unwrap())),
        1 => (t.create(0, &p, true, 7 << 40), e.fs.mkdir(r, &s, FdStat::default(), 7 << 40)),
        2 => (t.remove(0, &p, false).map(|_| 0), e.fs.remove_file(r, &s)),
        3 => (t.remove(0, &p, true).map(|_| 0), e.fs.remove_dir(r, &s)),
        4 => (t.remove_recursive(0, &p).map(|_| 0), e.fs.remove_recursive(r, &s)),
        5 => {
            let q = path(deep, 1);
            let d = text_of(&q);
            (t.link(0, &p, 0, &q), e.fs.create_hard_link(r, &s, r, &d).map(|fd| e.fs.close(fd).unwrap()))
        }
        _ => {
            let q = path(deep, 1);
            let d = text_of(&q);
            (t.rename(0, &p, 0, &q), e.fs.rename(r, &s, r, &d).map(|fd| e.fs.close(fd).unwrap()))
        }
    };
    (want.is_ok(), got.is_ok())
}

pub fn lookup(e: &mut Env, t: &Tree, held: Option<(Fd, usize)>, p: &[Name], v: u32, id: u32) {
    let r = e.root();
    let got = e.fs.open_metadata(r, &spelled(p, v));
    match t.find(0, p) {
        None => check(got.err() == Some(Error::NoSuchFileOrDirectory), id),
        Some(o) => check(got.is_ok_and(|m| m.node == t.objs[o].node || t.objs[o].node == u64::MAX), id + 1),
    }
    if let Some((fd, d)) = held {
        let q = &p[p.len() - 1..];
        let got = e.fs.open_metadata(fd, &spelled(q, v));
        match t.find(d, q) {
            None => check(got.err() == Some(Error::NoSuchFileOrDirectory), id + 2),
            Some(o) => check(got.is_ok_and(|m| m.node == t.objs[o].node || t.objs[o].node == u64::MAX), id + 3),
        }
    }
}

fn stale(k: u32, ops: u32, vs: u32, known: bool, all: bool, few: bool) {
    let (mut e, mut t) = linked(k);
    t.verify(&mut e, 10);
    let mut held = None;
    if choose(2) == 1 {
        let o = t.find(0, &[n("d")]).unwrap();
        t.objs[o].opens += 1;
        held = Some((e.open("d").unwrap(), o));
    }
    let v = choose(vs);
    let names = [vec![n("a")], vec![n("c")], vec![n("d")], vec![n("d"), n("b")], vec![n("d"), n("e")], vec![n("d"), n("l")]];
    for p in &names {
        lookup(&mut e, &t, held, p, v, 30);
    }
    for i in 0..ops {
        let (want, got) = if ops == 1 || all {
            any_op(&mut e, &mut t, 2)
        } else {
            // a name goes, then one comes
            let k = if i == 0 { [2, 3, 4, 6] } else { [0, 1, 5, 6] }[choose(if i == 1 && few { 2 } else { 4 }) as usize];
            name_op(&mut e, &mut t, 2, k)
        };
        check(want == got, 40);
        if known {
            for p in &names {
                lookup(&mut e, &t, held, p, v, 42);
            }
        }
    }
    for p in &names {
        lookup(&mut e, &t, held, p, v, 50);
    }
    let p = path(2, 1);
    lookup(&mut e, &t, held, &p, v, 54);
    t.verify(&mut e, 60);
    cover(1);
}
pub fn c15_lookups() {
    stale(0, 1, 1, false, true, false);
}
pub fn c15_lookups_transient() {
    stale(2, 1, 6, false, true, false);
}
pub fn c15_two_transient_deep() {
    stale(2, 2, 1, true, false, false);
}
pub fn c15_again_transient() {
    stale(2, 2, 1, true, false, true);
}
pub fn c15_spelling() {
    stale(0, 1, 6, false, true, false);
}
pub fn c15_two_deep() {
    stale(0, 2, 1, true, true, false);
}

// ---- C24

type Line = (u32, u64, Name, Option<FileType>);

fn listing(e: &Env, fd: Fd, from: Option<u32>, stop: usize) -> Vec<Line> {
    let mut v: Vec<Line> = vec![];
    e.fs.with_direntries(fd, from, &mut |i, d| {
        v.push((*i, d.node, d.name.bytes[..d.name.length as usize].to_vec(), d.entry_type));
        v.len() < stop
    })
    .unwrap();
    v
}

fn same_line(a: &Line, b: &Line) -> bool {
    a.0 == b.0 && a.1 == b.1 && eq(&a.2, &b.2) && a.3 == b.3
}

const DOT: u32 = u32::MAX - 5;
const DOTDOT: u32 = u32::MAX - 4;

fn listings(k: u32, sym: bool, changes: u32) {
    let mut e = env_of(k).0;
    let mut t = Tree::new(&e);
    let r = e.root();
    t.make(&mut e, &[n("d")], true);
    // a neighbour created in between, so that numbers are interleaved
    t.make(&mut e, &[n("x")], true);
    for i in 0..3u8 {
        let x = if sym { letter() } else { vec![b'e' + 3 * i] };
        assume(t.find(0, &[n("d"), x.clone()]).is_none());
        t.make(&mut e, &[n("d"), x], i == 1);
        t.make(&mut e, &[n("x"), vec![b'0' + i]], false);
    }
    let d = e.open("d").unwrap();
    let dn = e.fs.metadata(d).unwrap().node;
    t.verify(&mut e, 10);
    for c in 0..changes {
        let before = listing(&e, d, Some(0), 100);
        let o = t.find(0, &[n("d")]).unwrap();
        match choose(4) {
            0 => {}
            1 => {
                // any entry goes
                let names: Vec<Name> = t.ents.iter().filter(|x| x.0 == o).map(|x| x.1.clone()).collect();
                assume(!names.is_empty());
                let x = names[choose(names.len() as u32) as usize].clone();
                let p = [n("d"), x];
                t.remove_recursive(0, &p).unwrap();
                e.fs.remove_recursive(r, &text_of(&p)).unwrap();
            }
            2 => {
                // a new one of any name
                let p = [n("d"), letter()];
                assume(t.find(0, &p).is_none());
                t.make(&mut e, &p, c == 1);
            }
            _ => {
                // any entry gets another name, in this folder or from the other one
                let names: Vec<Name> = t.ents.iter().filter(|x| x.0 == o).map(|x| x.1.clone()).collect();
                assume(!names.is_empty());
                let x = if choose(2) == 0 { vec![n("d"), names[choose(names.len() as u32) as usize].clone()] } else { vec![n("x"), n("1")] };
                assume(t.find(0, &x).is_some());
                let p = [n("d"), vec![b'z']];
                let ok = t.rename(0, &x, 0, &p).is_ok();
                check(e.fs.rename(r, &text_of(&x), r, &text_of(&p)).map(|fd| e.fs.close(fd).unwrap()).is_ok() == ok, 20);
            }
        }
        // entries that stayed kept their place
        let after = listing(&e, d, Some(0), 100);
        for b in &before {
            if let Some(i) = t.ents.iter().position(|x| x.0 == o && x.1.len() == b.2.len() && eq(&x.1, &b.2)) {
                if t.objs[t.ents[i].2].node == b.1 && b.2 != [b'z'] {
                    check(after.iter().any(|a| same_line(a, b)), 21);
                }
            }
        }
    }
    t.verify(&mut e, 30);
    let all = listing(&e, d, Some(0), 100);
    for i in 1..all.len() {
        check(all[i - 1].0 < all[i].0, 45);
    }
    // from any place
    let from = match choose(14) {
        i if i < 10 => i,
        10 => any(10, DOT as u64 - 1) as u32,
        11 => DOT,
        12 => DOTDOT,
        _ => any(DOTDOT as u64 + 1, u32::MAX as u64) as u32,
    };
    let dots = if from == DOT { 2 } else if from == DOTDOT { 1 } else { 0 };
    let some = listing(&e, d, Some(from), 100);
    let mut want: Vec<&Line> = all.iter().filter(|x| dots > 0 || x.0 >= from).collect();
    check(some.len() == want.len() + dots, 46);
    for (a, b) in some[dots..].iter().zip(&want) {
        check(same_line(a, b), 47);
    }
    if dots > 0 {
        check(some[dots - 1].0 == DOTDOT && some[dots - 1].2 == b"..", 48);
        cover(2);
    }
    if dots == 2 {
        check(some[0].0 == DOT && some[0].2 == b"." && some[0].1 == dn, 49);
        cover(3);
    }
    // one by one from there, as a reader with a small buffer does
    let mut next = from;
    let mut i = 0;
    while dots == 0 {
        let one = listing(&e, d, Some(next), 1);
        if i == want.len() {
            check(one.is_empty(), 50);
            break;
        }
        check(one.len() == 1 && same_line(&one[0], want[i]), 51);
        if one.is_empty() {
            break;
        }
        next = one[0].0 + 1;
        i += 1;
    }
    // from the start
    let whole = listing(&e, d, None, 100);
    want = all.iter().collect();
    check(whole.len() == want.len() + 2, 52);
    check(whole[0].0 == DOT && whole[0].2 == b"." && whole[0].1 == dn, 53);
    check(whole[1].0 == DOTDOT && whole[1].2 == b"..", 54);
    for (a, b) in whole[2..].iter().zip(&want) {
        check(same_line(a, b), 55);
    }
    // stopping
    let k = choose(4) as usize;
    check(listing(&e, d, None, k + 1).len() == (k + 1).min(whole.len()), 56);
    // single entries
    let got = e.fs.get_direntry(d, from);
    match all.iter().find(|x| x.0 == from) {
        Some(x) => {
            check(got.is_ok_and(|g| g.node == x.1 && eq(&g.name.bytes[..g.name.length as usize], &x.2)), 57);
            cover(4);
        }
        None => check(got.is_err(), 58),
    }
    cover(1);
}
pub fn c24_listing() {
    listings(0, false, 1);
}
pub fn c24_listing_transient() {
    listings(2, true, 1);
}
pub fn c24_two_transient() {
    listings(2, false, 2);
}
pub fn c24_names_deep() {
    listings(0, true, 1);
}
pub fn c24_two_deep() {
    listings(0, false, 2);
}

/// folders that have seen very many entries
fn aged(id: u32) -> (Env, Tree) {
    let mm = Rc::new(Manager::init(DefaultMemoryImpl::default()));
    let (mut e, t) = linked_in(Env::managed(&mm, 10));
    let last = match choose(6) {
        5 => u32::MAX - 20,
        i => (1 << [8, 16, 24, 30, 31][i as usize]) - 1,
    };
    // all, or the last one of each
    e.shift_entries([1, 3][choose(2) as usize], last - 3);
    let mut t = t;
    t.verify(&mut e, id);
    (e, t)
}
pub fn c12_high() {
    let (mut e, mut t) = aged(10);
    op12(&mut e, &mut t, 2, 1, 30);
    for x in ["!", "$"] {
        t.make(&mut e, &[n(x)], false);
        if t.find(0, &[n("d")]).is_some() {
            t.make(&mut e, &[n("d"), n(x)], true);
        }
    }
    t.verify(&mut e, 60);
    let p = path(2, 1);
    let r = e.root();
    check(e.fs.open_metadata(r, &text_of(&p)).is_ok() == t.find(0, &p).is_some(), 80);
    cover(5);
}
pub fn c13_high() {
    let (mut e, mut t) = aged(10);
    move_op(&mut e, &mut t, 2, false, 30);
    t.verify(&mut e, 60);
    t.verify_content(&mut e, 80);
    cover(3);
}
pub fn c24_high() {
    let (mut e, mut t) = aged(10);
    let p = [n("d"), letter()];
    if t.find(0, &p).is_none() {
        t.make(&mut e, &p, choose(2) == 1);
    } else {
        t.remove_recursive(0, &p).unwrap();
        let r = e.root();
        check(e.fs.remove_recursive(r, &text_of(&p)) == Ok(()), 30);
    }
    for x in ["!", "$"] {
        t.make(&mut e, &[n("d"), n(x)], false);
    }
    t.verify(&mut e, 40);
    let d = e.open("d").unwrap();
    let all = listing(&e, d, Some(0), 100);
    let mut next = 0;
    for x in &all {
        let one = listing(&e, d, Some(next), 1);
        check(one.len() == 1 && same_line(&one[0], x), 60);
        check(x.0 >= next, 61);
        next = x.0 + 1;
    }
    check(listing(&e, d, Some(next), 1).is_empty(), 62);
    check(listing(&e, d, None, 100).len() == all.len() + 2, 63);
    cover(1);
}

// ---- C11

/// the components a path leads through; None: it is refused
fn walk(p: &str) -> Option<Vec<Name>> {
    let b = p.as_bytes();
    if !b.is_empty() && b[0] == b'/' {
        return None;
    }
    let mut out: Vec<Name> = vec![];
    let mut cur: Name = vec![];
    for i in 0..=b.len() {
        if i < b.len() && b[i] != b'/' {
            cur.push(b[i]);
            continue;
        }
        let c = std::mem::take(&mut cur);
        if c.is_empty() || (c.len() == 1 && c[0] == b'.') {
            continue;
        }
        if c.len() == 2 && c[0] == b'.' && c[1] == b'.' {
            out.pop()?;
            continue;
        }
        out.push(c);
    }
    Some(out)
}

/// a small tree, and any text as a path into it
fn small(k: u32) -> (Env, Tree) {
    let mut e = env_of(k).0;
    let mut t = Tree::new(&e);
    t.make(&mut e, &[n("a")], false);
    t.make(&mut e, &[n("d"), n("a")], true);
    t.make(&mut e, &[n("d"), n("a"), n("d")], false);
    (e, t)
}

fn base(e: &mut Env, t: &mut Tree) -> (Fd, usize) {
    if choose(2) == 0 {
        (e.root(), 0)
    } else {
        let o = t.find(0, &[n("d")]).unwrap();
        t.objs[o].opens += 1;
        (e.open("d").unwrap(), o)
    }
}

fn resolve(k: u32, len: usize) {
    let (mut e, mut t) = small(k);
    t.verify(&mut e, 10);
    let (fd, o) = base(&mut e, &mut t);
    resolve_in(&mut e, &t, fd, o, len);
}
fn resolve_in(e: &mut Env, t: &Tree, fd: Fd, o: usize, len: usize) {
    let p = super::args::text(len);
    let got = e.fs.open_metadata(fd, &p);
    match walk(&p) {
        None => {
            check(got.err() == Some(Error::OperationNotPermitted), 1);
            cover(1);
        }
        Some(w) => match t.find(o, &w) {
            None => {
                check(got.err() == Some(Error::NoSuchFileOrDirectory), 2);
                cover(2);
            }
            Some(x) => {
                check(got.is_ok_and(|m| m.node == t.objs[x].node), 3);
                cover(3);
            }
        },
    }
}
/// any text looked up after any other, through the root or an open folder
fn resolve_twice(k: u32, len: u32) {
    let (mut e, mut t) = small(k);
    t.verify(&mut e, 10);
    let r = e.root();
    let d = t.find(0, &[n("d")]).unwrap();
    let h = e.open("d").unwrap();
    t.objs[d].opens += 1;
    for i in 0..2 {
        let l = if i == 0 { len as usize } else { 1 + choose(len) as usize };
        let (fd, o) = [(r, 0), (h, d)][choose(2) as usize];
        resolve_in(&mut e, &t, fd, o, l);
    }
}
pub fn c15_text() {
    resolve_twice(0, 3);
}
pub fn c15_text_transient() {
    resolve_twice(2, 4);
}
pub fn c11_resolve() {
    let l = choose(5) as usize;
    resolve(0, l);
}
pub fn c11_resolve_transient() {
    let l = choose(6) as usize;
    resolve(2, l);
}
pub fn c11_six_transient() {
    resolve(2, 6);
}
pub fn c11_eight_deep() {
    resolve(2, 8);
}
pub fn c11_resolve_deep() {
    resolve(0, 5);
}

/// any text as the path of something to make, move or remove
fn effects(k: u32, len: usize) {
    let (mut e, mut t) = small(k);
    t.verify(&mut e, 10);
    let (fd, o) = base(&mut e, &mut t);
    let p = super::args::text(len);
    let before = look(&mut e);
    let w = walk(&p);
    let r = e.root();
    let c = 7 << 40;
    let empty = w.as_ref().is_some_and(|x| x.is_empty());
    let v = w.clone().unwrap_or_default();
    let named = w.is_some() && !empty;
    // a path without names leads to the folder itself, which exists, is open and has no name here
    let (want, got): (bool, Result<(), Error>) = match choose(6) {
        0 => (
            named && t.create(o, &v, false, c).is_ok(),
            e.fs.open(fd, &p, FdStat::default(), OpenFlags::CREATE | OpenFlags::EXCLUSIVE, c).map(|f| e.fs.close(f).unwrap()),
        ),
        1 => (named && t.create(o, &v, true, c).is_ok(), e.fs.mkdir(fd, &p, FdStat::default(), c)),
        2 => (named && t.remove(o, &v, false).is_ok(), e.fs.remove_file(fd, &p)),
        3 => (named && t.remove(o, &v, true).is_ok(), e.fs.remove_dir(fd, &p)),
        4 => (named && t.rename(0, &[n("a")], o, &v).is_ok(), e.fs.rename(r, "a", fd, &p).map(|f| e.fs.close(f).unwrap())),
        _ => (named && t.link(o, &v, 0, &[n("z")]).is_ok(), e.fs.create_hard_link(fd, &p, r, "z").map(|f| e.fs.close(f).unwrap())),
    };
    check(got.is_ok() == want, 1);
    if w.is_none() {
        check(got == Err(Error::OperationNotPermitted), 2);
        cover(1);
    }
    if got.is_err() {
        let after = look(&mut e);
        same_seen(&before, &after, 3);
        cover(2);
    } else {
        t.verify(&mut e, 30);
        cover(3);
    }
}
pub fn c11_effects() {
    let l = choose(4) as usize;
    effects(0, l);
}
pub fn c11_effects_transient() {
    let l = choose(5) as usize;
    effects(2, l);
}
pub fn c11_utf8() {
    super::args::mixed();
    match choose(3) {
        0 => resolve(0, 2),
        1 => resolve(2, 3),
        _ => effects(2, 2),
    }
}
pub fn c11_effects_deep() {
    effects(0, 4);
}
