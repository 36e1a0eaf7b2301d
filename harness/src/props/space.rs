//! Space given back (C21).
use super::*;
use ic_stable_structures::BTreeMap;
use stable_fs::storage::types::{DirEntry, FileChunk, FileName};

/// pages of every memory and numbers of stored records
fn used(e: &Env) -> Vec<u64> {
    let (mm, first) = e.shared.as_ref().unwrap();
    let at = |i: u8| mm.get(MemoryId::new(first + i));
    let mut v = e.pages();
    v.push(BTreeMap::<u64, Metadata, _>::init(at(1)).len());
    v.push(BTreeMap::<(u64, u32), DirEntry, _>::init(at(2)).len());
    v.push(BTreeMap::<(u64, u32), FileChunk, _>::init(at(3)).len());
    v.push(BTreeMap::<u64, Metadata, _>::init(at(4)).len());
    v.push(BTreeMap::<(u64, u32), u64, _>::init(at(5)).len());
    v.push(BTreeMap::<(u64, FileName), u32, _>::init(at(9)).len());
    v
}

struct Plan {
    how: u32,
    o: u64,
    l: u64,
    n: u64,
    d: Vec<u8>,
}

fn cycle(e: &mut Env, p: &Plan) {
    let r = e.root();
    let d = &p.d;
    let path = if p.how == 5 { "s/t/f" } else { "f" };
    let fd = e.create(path);
    write_at(e, fd, p.o, p.l, d, 1);
    match p.how {
        0 => {
            e.fs.close(fd).unwrap();
            e.fs.remove_file(r, "f").unwrap();
        }
        1 => {
            // emptied and filled again
            e.fs.close(fd).unwrap();
            let fd = e.fs.open(r, "f", FdStat::default(), OpenFlags::TRUNCATE, 0).unwrap();
            e.fs.close(fd).unwrap();
        }
        2 => {
            // cut anywhere and filled again
            e.fs.set_file_size(fd, p.n).unwrap();
            e.fs.close(fd).unwrap();
        }
        3 => {
            // replaced by another
            let g = e.create("g");
            write_at(e, g, 0, 10, &[7; 10], 2);
            e.fs.close(fd).unwrap();
            e.fs.close(g).unwrap();
            let x = e.fs.rename(r, "g", r, "f").unwrap();
            e.fs.close(x).unwrap();
        }
        4 => {
            // several names
            e.fs.close(fd).unwrap();
            let x = e.fs.create_hard_link(r, "f", r, "g").unwrap();
            e.fs.close(x).unwrap();
            e.fs.remove_file(r, "f").unwrap();
            e.fs.remove_file(r, "g").unwrap();
        }
        5 => {
            e.fs.close(fd).unwrap();
            e.fs.remove_recursive(r, "s").unwrap();
        }
        6 => {
            // hosted a memory in between
            e.fs.close(fd).unwrap();
            e.fs.mount_memory_file("f", Box::new(VectorMemory::default()), MountedFileSizePolicy::Explicit(20)).unwrap();
            e.fs.store_memory_file("f").unwrap();
            e.fs.unmount_memory_file("f").unwrap();
            e.fs.remove_file(r, "f").unwrap();
        }
        7 => {
            // a failed attempt first
            check(e.fs.remove_file(r, "f").is_err(), 3);
            e.fs.set_file_size(fd, p.n).unwrap();
            e.fs.close(fd).unwrap();
            e.fs.remove_file(r, "f").unwrap();
        }
        8 => {
            // a folder replaced, and renamed
            e.fs.close(fd).unwrap();
            e.fs.mkdir(r, "p", FdStat::default(), 1).unwrap();
            e.fs.mkdir(r, "q", FdStat::default(), 1).unwrap();
            let x = e.fs.rename(r, "p", r, "q").unwrap();
            e.fs.close(x).unwrap();
            e.fs.remove_dir(r, "q").unwrap();
            e.fs.remove_recursive(r, "f").unwrap();
        }
        _ => {
            // a link replaces another file
            let g = e.create("g");
            write_at(e, g, 0, 10, &[7; 10], 2);
            e.fs.close(fd).unwrap();
            e.fs.close(g).unwrap();
            let x = e.fs.create_hard_link(r, "g", r, "f").unwrap();
            e.fs.close(x).unwrap();
            e.fs.remove_file(r, "f").unwrap();
            e.fs.remove_file(r, "g").unwrap();
        }
    }
}

fn space(v1: bool, size: ChunkSize, cap: usize, cycles: u32) {
    let mm = Rc::new(Manager::init(DefaultMemoryImpl::default()));
    let mut e = Env::managed(&mm, 0);
    let cs = if v1 { 4096 } else { size as u64 };
    e.fs.storage.set_chunk_size(size).unwrap();
    if v1 {
        e.fs.storage.set_chunk_type(ChunkType::V1);
    }
    // something else is stored
    let fd = e.create("other");
    e.fs.write(fd, b"other").unwrap();
    e.fs.close(fd).unwrap();
    let how = choose(10);
    let up = choose(2);
    let p = Plan { how, o: offset(2, cs), l: any(0, cap as u64), n: if how == 2 || how == 7 { offset(2, cs) } else { 0 }, d: arbitrary(cap) };
    cycle(&mut e, &p);
    let mut first = used(&e);
    for k in 1..cycles {
        if up == 1 {
            e.upgrade();
            if v1 {
                e.fs.storage.set_chunk_type(ChunkType::V1);
            }
        }
        cycle(&mut e, &p);
        let now = used(&e);
        if k == 1 && (1..=3).contains(&how) {
            // what the first round left behind is now part of the file
            first = now;
            continue;
        }
        for i in 0..now.len() {
            check(now[i] <= first[i], 10 + i as u32);
        }
    }
    cover(1 + how);
}
pub fn c21_space() {
    space(false, ChunkSize::CHUNK64K, 70000, 3);
}
pub fn c21_space_v1() {
    space(true, ChunkSize::CHUNK64K, 5000, 3);
}
pub fn c21_small() {
    space(false, ChunkSize::CHUNK16K, 20000, 6);
}
