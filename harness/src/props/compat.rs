//! File systems stored by earlier versions (C27), and the memories a file system uses (C28).
use super::meta::{Act, act, draw, settle};
use super::names::*;
use super::tree::*;
use super::*;
use ic_stable_structures::storable::Bound;
use ic_stable_structures::{BTreeMap, Cell, Memory, Storable};
use serde::Serialize;
use stable_fs::storage::types::{DirEntry, FileChunk, FileName, Header, Times};
use std::borrow::Cow;

/// metadata as earlier versions encoded it: the last one, two or no fields missing
#[derive(Clone, Serialize)]
struct Old7 {
    node: u64,
    file_type: FileType,
    link_count: u64,
    size: u64,
    times: Times,
    first_dir_entry: Option<u32>,
    last_dir_entry: Option<u32>,
}
#[derive(Clone, Serialize)]
struct Old8 {
    node: u64,
    file_type: FileType,
    link_count: u64,
    size: u64,
    times: Times,
    first_dir_entry: Option<u32>,
    last_dir_entry: Option<u32>,
    chunk_type: Option<ChunkType>,
}
#[derive(Serialize)]
struct OldEntry {
    name: FileName,
    node: u64,
    next_entry: Option<u32>,
    prev_entry: Option<u32>,
}

/// bytes of a record of any version
struct Record(Vec<u8>);
impl Record {
    fn of<T: Serialize>(x: &T) -> Record {
        let mut v = vec![];
        ciborium::ser::into_writer(x, &mut v).unwrap();
        Record(v)
    }
}
impl Storable for Record {
    fn to_bytes(&'_ self) -> Cow<'_, [u8]> {
        Cow::Borrowed(&self.0)
    }
    fn into_bytes(self) -> Vec<u8> {
        self.0
    }
    fn from_bytes(b: Cow<[u8]>) -> Self {
        Record(b.to_vec())
    }
    const BOUND: Bound = Bound::Unbounded;
}

fn record(m: &Metadata, age: u32) -> Record {
    let m = m.clone();
    match age {
        0 => Record::of(&Old7 {
            node: m.node,
            file_type: m.file_type,
            link_count: m.link_count,
            size: m.size,
            times: m.times,
            first_dir_entry: Some(1),
            last_dir_entry: Some(2),
        }),
        1 => Record::of(&Old8 {
            node: m.node,
            file_type: m.file_type,
            link_count: m.link_count,
            size: m.size,
            times: m.times,
            first_dir_entry: None,
            last_dir_entry: None,
            chunk_type: m.chunk_type,
        }),
        _ => Record::of(&m),
    }
}

/// the earlier layout, written record by record: a, c, d, d/b, the second name d/l of a, and d/e
struct Old {
    mm: Rc<Manager>,
    metas: BTreeMap<u64, Record, ic_stable_structures::memory_manager::VirtualMemory<DefaultMemoryImpl>>,
    tree: Tree,
    all: Vec<Metadata>,
}

const FIRST: u8 = 40;

/// `a` has the given size; its chunks are stored by the caller
fn old(age: u32, size: u64) -> Old {
    // entries used to have no type, and were not listed by name
    let typed = age > 0;
    let listed = age == 2;
    let mm = Rc::new(Manager::init(DefaultMemoryImpl::default()));
    let mem = |i: u8| mm.get(MemoryId::new(FIRST + i));
    let stamp = |_: u64| Times { accessed: any(1 << 33, 1 << 62), modified: any(1 << 33, 1 << 62), created: any(1 << 33, 1 << 62) };
    let _ = Cell::init(mem(0), Header { version: 1, next_node: 7 });
    let mut metas = BTreeMap::init(mem(1));
    let mut entries: BTreeMap<(u64, u32), Record, _> = BTreeMap::init(mem(2));
    let mut look: BTreeMap<(u64, FileName), u32, _> = BTreeMap::init(mem(9));
    let dir = |x: &str| x == "d" || x == "e" || x.is_empty();
    let mut all = vec![];
    // name, node, links, size, folder, index
    let objs = [("", 0u64, 1u64, 3u64), ("a", 1, 2, size), ("c", 2, 1, 0), ("d", 3, 1, 3), ("b", 4, 1, 1), ("e", 5, 1, 0)];
    for (name, node, links, size) in objs {
        let m = Metadata {
            node,
            file_type: if dir(name) { FileType::Directory } else { FileType::RegularFile },
            link_count: links,
            size,
            times: stamp(node),
            first_dir_entry: None,
            last_dir_entry: None,
            chunk_type: if dir(name) || age == 0 { None } else { Some(ChunkType::V1) },
            maximum_size_allowed: if age == 2 && name == "a" { Some(1 << 40) } else { None },
        };
        metas.insert(node, record(&m, age));
        all.push(m);
    }
    for (d, i, name, node) in [(0u64, 1u32, "a", 1u64), (0, 2, "c", 2), (0, 4, "d", 3), (3, 1, "b", 4), (3, 2, "e", 5), (3, 3, "l", 1)] {
        let x = FileName::new(name.as_bytes()).unwrap();
        let r = if typed {
            Record::of(&DirEntry { name: x.clone(), node, entry_type: Some(if dir(name) { FileType::Directory } else { FileType::RegularFile }) })
        } else {
            Record::of(&OldEntry { name: x.clone(), node, next_entry: Some(i + 1), prev_entry: None })
        };
        entries.insert((d, i), r);
        if listed {
            look.insert((d, x), i);
        }
    }
    let mut chunks: BTreeMap<(u64, u32), FileChunk, _> = BTreeMap::init(mem(3));
    let mut c = FileChunk::default();
    c.bytes[0] = b'b';
    chunks.insert((4, 0), c);
    if age == 1 {
        // the allocator of the version that introduced the other format
        let m = mem(6);
        m.grow(1);
        m.write(0, b"ALO1");
    }
    // the same for the model
    let mut t = Tree {
        objs: vec![],
        ents: vec![],
    };
    for (i, (name, node, links, size)) in objs.into_iter().enumerate() {
        t.objs.push(Obj {
            dir: dir(name),
            node,
            links,
            opens: (i == 0) as u64,
            mounted: false,
            size: if dir(name) { 0 } else { size },
            byte: if name == "b" { b'b' as u64 } else { 0 },
            created: all[i].times.created,
        });
    }
    for (d, x, o) in [(0, "a", 1), (0, "c", 2), (0, "d", 3), (3, "b", 4), (3, "e", 5), (3, "l", 1)] {
        t.ents.push((d, n(x), o));
    }
    Old { mm, metas, tree: t, all }
}

/// names of the earlier layout and any operation on them
fn old_names(ops: u32) {
    let age = choose(3);
    let Old { mm, metas, tree: mut t, .. } = old(age, 0);
    drop(metas);
    let mut e = Env::managed(&mm, FIRST);
    if choose(2) == 1 {
        t.verify(&mut e, 10);
    }
    for _ in 0..ops {
        let k = choose(7);
        let (want, got) = name_op(&mut e, &mut t, 2, k);
        check(want == got, 40);
    }
    t.verify(&mut e, 60);
    e.upgrade();
    t.verify(&mut e, 80);
    t.verify_content(&mut e, 100);
    cover(1);
}
pub fn c27_names() {
    old_names(1);
}
pub fn c27_names_deep() {
    old_names(2);
}

/// content and attributes of a file of the earlier layout
pub fn c27_content() {
    let age = choose(3);
    let size = any(1, 2 * 4096);
    let mut o = old(age, size);
    let mut g = Ghost::new(any(0, 3 * 4096));
    let d = arbitrary(2 * 4096);
    {
        let mut chunks: BTreeMap<(u64, u32), FileChunk, _> = BTreeMap::init(o.mm.get(MemoryId::new(FIRST + 3)));
        for i in 0..2 {
            let mut c = FileChunk::default();
            // nothing is stored above the size
            let from = i * 4096;
            let k = (min(max(size, from as u64), from as u64 + 4096) - from as u64) as usize;
            c.bytes[..k].copy_from_slice(&d[from..from + k]);
            chunks.insert((1, i as u32), c);
        }
    }
    g.val = ite(g.p < size, byte(&d, g.p), 0);
    g.size = size;
    let mut e = Env::managed(&o.mm, FIRST);
    let mut fd = e.open("d/l").unwrap();
    let first = &mut o.all[1];
    if age == 0 {
        // the format used to be the only one
        let m = e.fs.metadata(fd).unwrap();
        check(m.chunk_type.is_none() || m.chunk_type == Some(ChunkType::V1), 1);
    }
    let limited = age == 2;
    match choose(6) {
        0 => {
            sym_write(&mut e, fd, &mut g, 3, 4096, 200, 2);
            cover(1);
        }
        1 => {
            let n = offset(3, 4096);
            e.fs.set_file_size(fd, n).unwrap();
            g.resize(n);
            cover(2);
        }
        2 => {
            first.times.modified = any(1 << 33, 1 << 62);
            e.fs.set_modified_time(fd, first.times.modified).unwrap();
            cover(3);
        }
        3 => {
            let l = any(1 << 33, 1 << 62);
            e.fs.set_file_size_limit(fd, l).unwrap();
            first.maximum_size_allowed = Some(l);
            cover(4);
        }
        4 => {
            let m = VectorMemory::default();
            e.fs.mount_memory_file("a", Box::new(m), MountedFileSizePolicy::PreviousOrZero).unwrap();
            check(e.size(fd) == 0, 3);
            e.fs.write(fd, b"mounted").unwrap();
            e.fs.unmount_memory_file("a").unwrap();
            cover(5);
        }
        _ => {
            let _ = limited;
        }
    }
    first.size = g.size;
    for i in 0..2 {
        probe(&mut e, fd, &g, 10);
        for (path, x) in [("a", 1), ("c", 2), ("d", 3), ("d/b", 4), ("d/e", 5), ("", 0)] {
            let m = if path.is_empty() { e.fs.metadata(e.root()).unwrap() } else { e.fs.open_metadata(e.root(), path).unwrap() };
            let w = &o.all[x];
            check(and(and(m.node == w.node, m.file_type == w.file_type), and(m.link_count == w.link_count, m.size == w.size)), 13);
            check(same_time(&m, w), 14);
            check(same_limit(&m, w), 15);
        }
        if i == 0 {
            e.upgrade();
            fd = e.open("a").unwrap();
        }
    }
    cover(6);
}

/// the remembered size and times of a file that used to be mounted
pub fn c27_mounted() {
    let age = choose(3);
    let o = old(age, 0);
    let mut m = o.all[2].clone();
    m.size = any(1 << 8, 1 << 20);
    m.times = Times { accessed: any(1 << 33, 1 << 62), modified: any(1 << 33, 1 << 62), created: any(1 << 33, 1 << 62) };
    {
        let mut mounted: BTreeMap<u64, Record, _> = BTreeMap::init(o.mm.get(MemoryId::new(FIRST + 4)));
        mounted.insert(2, record(&m, age));
    }
    let mut e = Env::managed(&o.mm, FIRST);
    let r = e.root();
    let mem = VectorMemory::default();
    mem.grow(2);
    if choose(2) == 1 {
        // gone with the file
        e.fs.remove_file(r, "c").unwrap();
        let fd = e.create("c");
        e.fs.close(fd).unwrap();
        e.fs.mount_memory_file("c", Box::new(mem), MountedFileSizePolicy::PreviousOrZero).unwrap();
        check(e.fs.open_metadata(r, "c").unwrap().size == 0, 1);
        cover(1);
        return;
    }
    e.fs.mount_memory_file("c", Box::new(mem), MountedFileSizePolicy::PreviousOrZero).unwrap();
    let x = e.fs.open_metadata(r, "c").unwrap();
    check(x.size == ite(m.size <= 2 * 65536, m.size, 0), 2);
    check(same_time(&x, &m), 3);
    check(x.node == 2, 4);
    e.fs.unmount_memory_file("c").unwrap();
    let x = e.fs.open_metadata(r, "c").unwrap();
    check(x.size == 0, 5);
    check(same_time(&x, &o.all[2]), 6);
    cover(2);
}

// ---- C28

/// another file system and a foreign memory in the same manager
pub fn c28_neighbours() {
    let mm = Rc::new(Manager::init(DefaultMemoryImpl::default()));
    let first = [0u8, 1, 20, 243, 244][choose(5) as usize];
    let second = if first < 100 { first + 10 } else { first - 10 };
    let guard = mm.get(MemoryId::new(if first < 100 { first + 20 } else { first - 11 }));
    guard.grow(1);
    let d = arbitrary(100);
    let at = any(0, 65000);
    guard.write(at, &d);
    let mut y = Env::managed(&mm, second);
    let f = y.create("d/f");
    let mut g = Ghost::new(any(0, 2 * 16384));
    sym_write(&mut y, f, &mut g, 1, 16384, 500, 1);
    let mut x = Env::managed(&mm, first);
    let r = x.root();
    for p in ["a", "c", "d/b"] {
        let fd = x.fs.open(r, p, FdStat::default(), OpenFlags::CREATE, 0).unwrap();
        x.fs.write(fd, &[7; 20000]).unwrap();
        x.fs.close(fd).unwrap();
    }
    let before = look(&mut y);
    let sizes: Vec<u64> = (0..254).map(|i| mm.get(MemoryId::new(i)).size()).collect();
    let a: Act = draw(16384, false);
    act(&mut x, &a);
    if choose(2) == 1 {
        settle(&mut x);
        x.upgrade();
    }
    for i in 0..254u8 {
        if i < first || i >= first + 10 {
            check(mm.get(MemoryId::new(i)).size() == sizes[i as usize], 2);
        }
    }
    let mut b = [0u8; 1];
    let i = any(0, 99);
    guard.read(at + i, &mut b);
    check(b[0] as u64 == byte(&d, i), 3);
    for again in [false, true] {
        if again {
            y.upgrade();
        }
        let after = look(&mut y);
        same_seen(&before, &after, 4);
        let f = y.open("d/f").unwrap();
        probe(&mut y, f, &g, 14);
        y.fs.close(f).unwrap();
    }
    cover(1);
}
