//! Long files, many entries, many descriptors, names beyond ASCII.
use super::names::*;
use super::tree::*;
use super::*;

const CS: u64 = 4096;

/// long transfers over more chunks than are looked up at once
pub fn c01_big() {
    big(Env::sized(ChunkSize::CHUNK4K), 4);
}
pub fn c02_big() {
    big(Env::v1(), 1);
}
pub fn c03_big() {
    big(Env::transient(), 4);
}
fn big(mut e: Env, places: u32) {
    let fd = e.create("a");
    let top = 1030 * CS;
    let mut g = Ghost::new([1022, 0, 99, 500][choose(places) as usize] * CS + any(0, 4 * CS - 1));
    let long = choose(2) == 1;
    if long {
        // one long write
        let mut d = vec![7u8; top as usize];
        let k = [0, 99 * CS, 1022 * CS][choose(3) as usize] as usize;
        fill(&mut d[k..k + 9000]);
        let o = 13;
        write_at(&mut e, fd, o, top, &d, 1);
        g.write(o, top, &d);
    } else {
        e.fs.set_file_size(fd, top).unwrap();
        g.resize(top);
        // two short ones far apart
        for i in 0..2 {
            let at = [0, 1023, 99, 101, 1025][choose(if i == 0 { 2 } else { 5 }) as usize];
            let d = arbitrary(300);
            let o = at * CS + [100, 4000][i];
            let l = any(1, 300);
            write_at(&mut e, fd, o, l, &d, 2);
            g.write(o, l, &d);
        }
    }
    let o = 4000;
    let mut buf = vec![0xa5u8; 1032 * CS as usize];
    let old = buf.clone();
    e.seek(fd, o);
    let n = e.fs.read(fd, &mut buf).unwrap();
    check(n == g.expect(o, buf.len() as u64), 4);
    check(g.matches(o, n, &buf, &old), 5);
    probe(&mut e, fd, &g, 6);
    cover(1 + long as u32);
}

/// a long sparse file is cut anywhere and grows again
pub fn c05_sparse() {
    let k = choose(2);
    let mut e = if k == 0 { Env::sized(ChunkSize::CHUNK4K) } else { Env::v1() };
    let fd = e.create("a");
    const AT: [u64; 5] = [0, 1, 101, 1025, 3000];
    let base = AT[choose(5) as usize] * CS;
    let mut g = Ghost::new(base + any(0, CS - 1));
    let d = arbitrary(200);
    for at in AT {
        let o = at * CS + any(0, CS - 200);
        write_at(&mut e, fd, o, 200, &d, 1);
        g.write(o, 200, &d);
    }
    if choose(2) == 0 {
        e.fs.set_file_size(fd, 3500 * CS).unwrap();
        g.resize(3500 * CS);
    }
    let n = AT[choose(4) as usize] * CS + any(0, CS);
    e.fs.set_file_size(fd, n).unwrap();
    g.resize(n);
    if choose(2) == 0 {
        e.upgrade();
    }
    let fd = e.open("a").unwrap();
    e.fs.set_file_size(fd, 4000 * CS).unwrap();
    g.resize(4000 * CS);
    probe(&mut e, fd, &g, 4);
    cover(1);
}

fn unicode(k: u32, ops: u32) {
    wider(true);
    let mut e = env_of(k).0;
    let mut t = Tree::new(&e);
    let (d, f, b) = (letters(1), letters(1), letters(1));
    assume(!eq(&d, &f));
    t.make(&mut e, &[d.clone(), b], false);
    t.make(&mut e, &[f], false);
    for i in 0..ops {
        op12(&mut e, &mut t, 2, 1, 10 + 10 * i);
    }
    t.verify(&mut e, 60);
    cover(5);
}
/// names of characters beyond ASCII
pub fn c12_unicode() {
    unicode(0, 1);
}
pub fn c12_unicode_transient() {
    unicode(2, 2);
}

/// a list of free chunks that outgrows its page
pub fn c21_list() {
    use ic_stable_structures::Memory;
    const K: u64 = 20;
    let mm = Rc::new(Manager::init(DefaultMemoryImpl::default()));
    let mut e = Env::managed(&mm, 0);
    e.fs.storage.set_chunk_size(ChunkSize::CHUNK4K).unwrap();
    let r = e.root();
    let o = e.create("other");
    let mut g = Ghost::new(any(0, CS - 1));
    let d = arbitrary(100);
    write_at(&mut e, o, 50, 100, &d, 1);
    g.write(50, 100, &d);
    let fd = e.create("f");
    write_at(&mut e, fd, 0, K * CS, &vec![3u8; (K * CS) as usize], 2);
    e.fs.close(fd).unwrap();
    // as if many chunks had been used and given back since
    let list = mm.get(MemoryId::new(6));
    let many = [8155u64, 8160, 8176, 8180][choose(4) as usize];
    let word = |i: u64| {
        let mut b = [0u8; 8];
        list.read(i * 8, &mut b);
        u64::from_le_bytes(b)
    };
    let (len, top) = (word(2), word(3));
    check(len == 0, 3);
    if many > 8176 {
        list.grow(1);
    }
    for i in 0..many {
        list.write((16 + i) * 8, &(top + i * CS).to_le_bytes());
    }
    list.write(16, &many.to_le_bytes());
    list.write(24, &(top + many * CS).to_le_bytes());
    if choose(2) == 0 {
        e.upgrade();
    }
    let cut = choose(2) == 1;
    let mut first = vec![];
    for i in 0..3 {
        let f = e.open("f").unwrap();
        if cut {
            e.fs.set_file_size(f, 10).unwrap();
            e.fs.close(f).unwrap();
        } else {
            e.fs.close(f).unwrap();
            e.fs.remove_file(r, "f").unwrap();
        }
        let f = e.create("f");
        let k = K + if i == 0 { 5 } else { 0 };
        write_at(&mut e, f, 0, k * CS, &vec![4u8; (k * CS) as usize], 4);
        e.fs.close(f).unwrap();
        let now = e.pages();
        if i == 0 {
            first = now;
        } else {
            for k in 0..now.len() {
                check(now[k] == first[k], 10 + k as u32);
            }
            check(word(3) == top + many * CS, 5);
        }
    }
    // nothing was handed out twice
    let n = e.create("n");
    let mut h = Ghost::new(any(0, 3 * CS));
    sym_write(&mut e, n, &mut h, 2, CS, 100, 20);
    e.fs.set_file_size(n, 3 * CS).unwrap();
    h.resize(3 * CS);
    probe(&mut e, n, &h, 21);
    let o = e.open("other").unwrap();
    probe(&mut e, o, &g, 24);
    let f = e.open("f").unwrap();
    let mut b = [0u8];
    e.seek(f, [0, 1, 15, K - 1][choose(4) as usize] * CS + any(0, CS - 1));
    check(e.fs.read(f, &mut b) == Ok(1), 27);
    check(b[0] == 4, 28);
    cover(1);
}

/// many small buffers, most of them empty
fn many_buffers(k: u32) {
    const N: usize = 6;
    let (mut e, cs) = env_of(k);
    let fd = e.create("a");
    let mut g = Ghost::new(any(0, 2 * cs));
    let mut pos = offset(1, cs);
    e.seek(fd, pos);
    let write = choose(2) == 0;
    let d: Vec<Vec<u8>> = (0..N).map(|_| arbitrary(4)).collect();
    let l: Vec<u64> = (0..N).map(|_| any(0, 4)).collect();
    let mut total = 0;
    for i in 0..N {
        total += l[i];
    }
    if write {
        let v: Vec<SrcBuf> = (0..N).map(|i| SrcBuf { buf: d[i].as_ptr(), len: l[i] as usize }).collect();
        check(e.fs.write_vec(fd, &v) == Ok(total), 1);
        check(e.fs.tell(fd) == Ok(pos + total), 2);
        for i in 0..N {
            g.write(pos, l[i], &d[i]);
            pos += l[i];
        }
        probe(&mut e, fd, &g, 3);
    } else {
        sym_write(&mut e, fd, &mut g, 1, cs, 20, 4);
        let from = any(0, 16);
        e.seek(fd, from);
        let mut b = d.clone();
        let v: Vec<DstBuf> = (0..N).map(|i| DstBuf { buf: b[i].as_mut_ptr(), len: l[i] as usize }).collect();
        let want = g.expect(from, total);
        check(e.fs.read_vec(fd, &v) == Ok(want), 5);
        check(e.fs.tell(fd) == Ok(from + want), 6);
        let (mut o, mut left) = (from, want);
        for i in 0..N {
            let here = min(left, l[i]);
            check(g.matches(o, here, &b[i], &d[i]), 7);
            o += l[i];
            left -= here;
        }
    }
    cover(1 + write as u32);
}
pub fn c23_many() {
    many_buffers(0);
}
pub fn c23_many_v1() {
    many_buffers(1);
}
pub fn c23_many_transient() {
    many_buffers(2);
}

/// a folder of more entries than a byte counts
pub fn c24_many() {
    let k = 2 * choose(2);
    let mut e = env_of(k).0;
    let r = e.root();
    let d = e.fs.create_open_directory(r, "d", FdStat::default(), 1).unwrap();
    for i in 0..260 {
        let f = e.fs.open(d, &i.to_string(), FdStat::default(), OpenFlags::CREATE, 1).unwrap();
        e.fs.close(f).unwrap();
    }
    let mut all: Vec<String> = (0..260).map(|i| i.to_string()).collect();
    let gone = [0, 127, 255, 256, 259][choose(5) as usize];
    e.fs.remove_file(d, &all[gone]).unwrap();
    all.remove(gone);
    let c = letter();
    assume(c[0] >= b'A');
    let f = e.fs.open(d, &text_of(&[c.clone()]), FdStat::default(), OpenFlags::CREATE, 1).unwrap();
    all.push(text_of(&[c]));
    check(e.size(d) == 260, 1);
    let mut got: Vec<(u32, Vec<u8>, u64)> = vec![];
    e.fs.with_direntries(d, Some(0), &mut |i, x| {
        got.push((*i, x.name.bytes[..x.name.length as usize].to_vec(), x.node));
        true
    })
    .unwrap();
    check(got.len() == 260, 2);
    for (g, w) in got.iter().zip(&all) {
        check(eq(&g.1, w.as_bytes()), 3);
    }
    for w in got.windows(2) {
        check(w[0].0 < w[1].0, 4);
    }
    check(got[259].2 == e.fs.metadata(f).unwrap().node, 5);
    let from = [1, 128, 254, 255, 256, 258][choose(6) as usize];
    let mut i = from;
    e.fs.with_direntries(d, Some(got[from].0), &mut |_, x| {
        check(x.node == got[i].2, 6);
        i += 1;
        true
    })
    .unwrap();
    check(i == 260, 7);
    for i in [0, 126, 254, 255, 256, 258] {
        check(e.fs.open_metadata(d, &all[i]).is_ok_and(|m| m.node == got[i].2), 8);
    }
    cover(1);
}

/// a file with more names than a byte counts
pub fn c13_many() {
    let mut e = env_of(2 * choose(2)).0;
    let r = e.root();
    let a = e.create("a");
    let x = any(0, 255) as u8;
    e.fs.write(a, &[x]).unwrap();
    let node = e.fs.metadata(a).unwrap().node;
    let d = e.fs.create_open_directory(r, "d", FdStat::default(), 1).unwrap();
    let n = [255, 256, 300][choose(3) as usize];
    for i in 0..n {
        let f = e.fs.create_hard_link(r, "a", d, &i.to_string()).unwrap();
        e.fs.close(f).unwrap();
    }
    check(e.fs.metadata(a).unwrap().link_count == n + 1 && e.size(d) == n, 1);
    let y = letter();
    assume(!eq(&y, b"d"));
    let t = text_of(&[y]);
    let f = e.fs.rename(d, "254", r, &t).unwrap();
    check(e.fs.metadata(f).unwrap().node == node, 2);
    e.fs.close(f).unwrap();
    let left = if t == "a" { n } else { n + 1 };
    check(e.fs.metadata(a).unwrap().link_count == left && e.size(d) == n - 1, 3);
    e.fs.close(a).unwrap();
    if left == n + 1 {
        check(e.fs.remove_file(r, "a") == Ok(()), 4);
    }
    for i in 0..n {
        if i != 254 {
            check(e.fs.remove_file(d, &i.to_string()) == Ok(()), 5);
        }
    }
    let a = e.open(&t);
    check(a.is_ok(), 6);
    let Ok(a) = a else { return };
    let m = e.fs.metadata(a).unwrap();
    check(m.node == node && m.link_count == 1 && m.size == 1, 7);
    let mut b = [0u8; 2];
    check(e.fs.read(a, &mut b) == Ok(1) && b[0] == x, 8);
    check(e.fs.remove_file(r, &t).is_err(), 9);
    e.fs.close(a).unwrap();
    check(e.fs.remove_file(r, &t) == Ok(()), 10);
    check(e.fs.open_metadata(r, &t).is_err(), 11);
    cover(1);
}

/// a file or folder open more often than a byte counts
pub fn c14_many() {
    let mut e = env_of(2 * choose(2)).0;
    let r = e.root();
    let dir = choose(2) == 1;
    let t = text_of(&[letter()]);
    if dir {
        e.fs.mkdir(r, &t, FdStat::default(), 1).unwrap();
    } else {
        let f = e.create(&t);
        e.fs.close(f).unwrap();
    }
    let n = [255, 256, 300][choose(3) as usize];
    let mut v = vec![];
    for _ in 0..n {
        v.push(e.open(&t).unwrap());
    }
    let back = choose(2) == 1;
    let way = choose(3);
    while !v.is_empty() {
        if [300, 257, 256, 255, 254, 2, 1].contains(&v.len()) {
            let g = match way {
                0 => e.fs.remove_recursive(r, &t),
                1 if dir => e.fs.remove_dir(r, &t),
                1 => e.fs.remove_file(r, &t),
                _ => {
                    if dir {
                        e.fs.mkdir(r, "!", FdStat::default(), 1).unwrap();
                    } else {
                        let f = e.create("!");
                        e.fs.close(f).unwrap();
                    }
                    let g = e.fs.rename(r, "!", r, &t).map(|f| e.fs.close(f).unwrap());
                    check(if dir { e.fs.remove_dir(r, "!") } else { e.fs.remove_file(r, "!") } == Ok(()), 1);
                    g
                }
            };
            check(g.is_err(), 2);
            check(e.fs.metadata(v[0]).is_ok(), 3);
        }
        let f = if back { v.pop().unwrap() } else { v.remove(0) };
        e.fs.close(f).unwrap();
    }
    check(if dir { e.fs.remove_dir(r, &t) } else { e.fs.remove_file(r, &t) } == Ok(()), 4);
    cover(1);
}

/// many descriptors are opened, some closed or renumbered, and more are opened
pub fn c10_many() {
    const N: usize = 40;
    let k = choose(2);
    let mut e = env_of(2 * k).0;
    let mut names = vec![];
    for i in 0..4 {
        let s = format!("f{i}");
        let fd = e.create(&s);
        names.push((s, e.fs.metadata(fd).unwrap().node));
        e.fs.close(fd).unwrap();
    }
    let mut table: Vec<(Fd, u64)> = vec![];
    for i in 0..N {
        let (s, node) = &names[i % 4];
        table.push((e.open(s).unwrap(), *node));
    }
    // a run of them goes away
    let from = [0, 5, 31][choose(3) as usize];
    let len = [1, 9, 33][choose(3) as usize];
    let mut left = vec![];
    for (i, x) in table.iter().enumerate() {
        if i >= from && i < from + len {
            e.fs.close(x.0).unwrap();
        } else {
            left.push(*x);
        }
    }
    // one moves
    let i = [0, 5][choose(2) as usize];
    let to = match choose(3) {
        0 => table[from].0,
        1 => 90,
        _ => left[4].0,
    };
    let src = left[i].0;
    e.fs.renumber(src, to).unwrap();
    left.retain(|x| x.0 != to);
    for x in &mut left {
        if x.0 == src {
            x.0 = to;
        }
    }
    for i in 0..50 {
        let (s, node) = &names[i % 4];
        left.push((e.open(s).unwrap(), *node));
    }
    for i in 0..left.len() {
        for j in 0..i {
            check(left[i].0 != left[j].0, 1);
        }
        check(e.fs.metadata(left[i].0).is_ok_and(|m| m.node == left[i].1), 2);
    }
    cover(1);
}

// ---- beyond 32 bits

const FAR: [u64; 3] = [1 << 31, 1 << 32, 1 << 40];

/// content of a file that reaches beyond 32-bit offsets; returns where, the descriptor and the ghost
fn far_file(e: &mut Env, places: u32, id: u32) -> (u64, Fd, Ghost) {
    let fd = e.create("a");
    let b = FAR[choose(places) as usize];
    let near = choose(2) == 0;
    let mut g = Ghost::new(if near { any(0, 4000) } else { any(b - 2500, b + 2500) });
    let d = arbitrary(1000);
    let o = any(0, 3000);
    write_at(e, fd, o, 700, &d, id);
    g.write(o, 700, &d);
    let d = arbitrary(1000);
    let o = any(b - 1500, b + 500);
    let l = any(1, 1000);
    write_at(e, fd, o, l, &d, id);
    g.write(o, l, &d);
    probe(e, fd, &g, id + 1);
    (b, fd, g)
}
fn far_content(k: u32) {
    let mut e = env_of(k).0;
    let (b, fd, mut g) = far_file(&mut e, 3, 1);
    // read and write there, positional and vectored
    let mut buf = arbitrary(1200);
    let old = buf.clone();
    let (o, l) = (any(b - 1600, b + 1600), any(0, 1200));
    let n = e.fs.read_vec_with_offset(fd, &[DstBuf { buf: buf.as_mut_ptr(), len: l as usize }], o).unwrap();
    check(n == g.expect(o, l), 10);
    check(g.matches(o, n, &buf, &old), 11);
    let d = arbitrary(600);
    let o = any(b - 1600, b + 1600);
    let n = e.fs.write_vec_with_offset(fd, &[SrcBuf { buf: d.as_ptr(), len: 600 }], o).unwrap();
    check(n == 600, 12);
    g.write(o, 600, &d);
    if k != 2 && choose(2) == 1 {
        e.upgrade();
    }
    let fd = e.open("a").unwrap();
    probe(&mut e, fd, &g, 13);
    cover(1);
}
pub fn c01_far() {
    far_content(0);
}
pub fn c02_far() {
    far_content(1);
}
pub fn c03_far() {
    far_content(2);
}

/// such a file is cut near its start or its end, and grows again
fn far_cut(mut e: Env) {
    let (b, fd, mut g) = far_file(&mut e, 3, 1);
    let n = if choose(2) == 0 { any(0, 4000) } else { any(b - 1600, b + 1600) };
    e.fs.set_file_size(fd, n).unwrap();
    g.resize(n);
    probe(&mut e, fd, &g, 10);
    let n = any(b - 1600, b + 4000);
    e.fs.set_file_size(fd, n).unwrap();
    g.resize(n);
    probe(&mut e, fd, &g, 13);
    cover(1);
}
pub fn c05_far() {
    far_cut(Env::stable());
}
pub fn c05_far_v1() {
    far_cut(Env::v1());
}
pub fn c03_far_cut() {
    far_cut(Env::transient());
}

/// cursors beyond 32 bits: append, read and write, from the end and on
fn far_cursor(k: u32) {
    let mut e = env_of(k).0;
    let fd = e.create("a");
    let b = FAR[choose(2) as usize];
    let mut g = Ghost::new(any(b - 2500, b + 2500));
    let size = any(b - 1000, b + 1000);
    e.fs.set_file_size(fd, size).unwrap();
    g.resize(size);
    let append = choose(2) == 1;
    let r = e.root();
    let flags = if append { FdFlags::APPEND } else { FdFlags::empty() };
    let fd = e.fs.open(r, "a", FdStat { flags, ..FdStat::default() }, OpenFlags::empty(), 0).unwrap();
    let d = arbitrary(600);
    let l = any(1, 600);
    let back = any(0, 900);
    let p = e.fs.seek(fd, -(back as i64), Whence::END).unwrap();
    check(p == size - back, 1);
    let n = e.fs.write_vec(fd, &[SrcBuf { buf: d.as_ptr(), len: l as usize }, SrcBuf { buf: d.as_ptr(), len: 300 }]).unwrap();
    check(n == l + 300, 2);
    let at = if append { size } else { p };
    g.write(at, l, &d);
    g.write(at + l, 300, &d);
    check(e.fs.tell(fd).unwrap() == at + n, 3);
    // back, and a read
    let p = e.fs.seek(fd, -1000, Whence::CUR).unwrap();
    check(p == at + n - 1000, 4);
    let mut buf = arbitrary(1100);
    let old = buf.clone();
    let m = e.fs.read(fd, &mut buf).unwrap();
    check(m == g.expect(p, 1100), 5);
    check(g.matches(p, m, &buf, &old), 6);
    check(e.fs.tell(fd).unwrap() == p + m, 7);
    probe(&mut e, fd, &g, 8);
    cover(1 + append as u32);
}
pub fn c09_far() {
    far_cursor(0);
}
pub fn c09_far_transient() {
    far_cursor(2);
}

/// a memory of which only the start and a part far away have content
#[derive(Clone)]
struct Far {
    base: u64,
    pages: Rc<core::cell::Cell<u64>>,
    low: VectorMemory,
    high: VectorMemory,
}
impl Far {
    fn new(base: u64, pages: u64) -> Far {
        let f = Far { base, pages: Rc::new(core::cell::Cell::new(pages)), low: VectorMemory::default(), high: VectorMemory::default() };
        use ic_stable_structures::Memory;
        f.low.grow(2);
        f.high.grow(4);
        f
    }
    fn at(&self, offset: u64, len: u64) -> (&VectorMemory, u64) {
        if offset + len > self.pages.get() * 65536 {
            panic!("out of the memory");
        }
        if offset < self.base / 2 {
            (&self.low, offset)
        } else {
            (&self.high, offset - (self.base - 65536))
        }
    }
}
impl ic_stable_structures::Memory for Far {
    fn size(&self) -> u64 {
        self.pages.get()
    }
    fn grow(&self, n: u64) -> i64 {
        let old = self.pages.get();
        self.pages.set(old + n);
        old as i64
    }
    fn read(&self, offset: u64, dst: &mut [u8]) {
        let (m, o) = self.at(offset, dst.len() as u64);
        m.read(o, dst)
    }
    fn write(&self, offset: u64, src: &[u8]) {
        let (m, o) = self.at(offset, src.len() as u64);
        m.write(o, src)
    }
}

/// a mounted memory of more than 4 GiB
fn far_mount(k: u32) {
    use ic_stable_structures::Memory;
    const PAGE: u64 = 65536;
    let (mut e, _) = env_of(k);
    let b = FAR[choose(2) as usize];
    let full = choose(2) == 1;
    let m = Far::new(b, if full { b / PAGE + 2 } else { 0 });
    let fd = e.create("a");
    let policy = if full { MountedFileSizePolicy::MemoryPages } else { MountedFileSizePolicy::PreviousOrZero };
    e.fs.mount_memory_file("a", Box::new(m.clone()), policy).unwrap();
    let p = if choose(2) == 0 { any(0, 3000) } else { any(b - 3000, b + 3000) };
    let mut g = Ghost::new(p);
    g.size = if full { b + 2 * PAGE } else { 0 };
    check(e.size(fd) == g.size, 1);
    for i in 0..2 {
        let d = arbitrary(900);
        let o = if i == 0 { any(b - 2000, b + 2000) } else { any(0, 2000) };
        let l = any(1, 900);
        write_at(&mut e, fd, o, l, &d, 2);
        g.write(o, l, &d);
        check(e.size(fd) == g.size, 3);
    }
    if p < m.size() * PAGE {
        let mut at = [0u8; 1];
        m.read(p, &mut at);
        check(at[0] as u64 == g.val, 4);
    }
    // whatever the owner puts there shows
    let d = arbitrary(300);
    let o = any(b - 2000, b - 1000);
    m.write(o, &d);
    g.val = ite(and(p >= o, p < o + 300), byte(&d, p.wrapping_sub(o)), g.val);
    read_at(&mut e, fd, &g, any(b - 2500, b + 2500), any(0, 800), 800, 5);
    let n = any(b - 2000, b + 3000);
    e.fs.set_file_size(fd, n).unwrap();
    g.size = n;
    probe(&mut e, fd, &g, 8);
    cover(1 + full as u32);
}
pub fn c04_far() {
    far_mount(0);
}
pub fn c04_far_transient() {
    far_mount(2);
}
