//! Stored records (C22).
use super::tree::eq;
use super::*;
use ic_stable_structures::Storable;
use stable_fs::storage::types::{DirEntry, FileChunk, FileName, Header, Times};
use std::borrow::Cow;
use std::cmp::Ordering;

fn copies<T: Storable + Clone>(x: &T, id: u32) -> [T; 2] {
    let a = x.to_bytes().into_owned();
    let b = x.clone().into_bytes();
    check(a.len() == b.len(), id);
    [T::from_bytes(Cow::Borrowed(&a)), T::from_bytes(Cow::Owned(b))]
}

pub fn c22_metadata() {
    let mut f: Vec<u64> = (0..8).map(|i| 5 + 300 * i * i * i).collect();
    let i = choose(8) as usize;
    let j = choose(8) as usize;
    assume(i <= j);
    f[i] = any(0, u64::MAX);
    f[j] = any(0, u64::MAX);
    let m = Metadata {
        node: f[0],
        file_type: [FileType::Directory, FileType::RegularFile, FileType::SymbolicLink][i % 3],
        link_count: f[1],
        size: f[2],
        times: Times { accessed: f[3], modified: f[4], created: f[5] },
        first_dir_entry: if j % 2 == 0 { None } else { Some(f[7] as u32) },
        last_dir_entry: if j % 2 == 0 { Some(f[7] as u32) } else { None },
        chunk_type: [None, Some(ChunkType::V1), Some(ChunkType::V2)][j % 3],
        maximum_size_allowed: if i == 6 || j == 6 || j % 2 == 0 { Some(f[6]) } else { None },
    };
    for c in copies(&m, 1) {
        check(same_meta(&c, &m), 2);
        check(c.first_dir_entry == m.first_dir_entry, 3);
        check(c.last_dir_entry == m.last_dir_entry, 4);
        check(c.file_type == m.file_type && c.chunk_type == m.chunk_type, 5);
        observe(1, c.node);
    }
    cover(1);
}

fn any_name(len: usize) -> FileName {
    FileName::new(&arbitrary(len)).unwrap()
}

const LENGTHS: [usize; 7] = [0, 1, 2, 3, 40, 254, 255];

pub fn c22_entry() {
    let len = LENGTHS[choose(7) as usize];
    let d = DirEntry {
        name: any_name(len),
        node: any(0, u64::MAX),
        entry_type: [None, Some(FileType::Directory), Some(FileType::RegularFile), Some(FileType::SymbolicLink)][choose(4) as usize],
    };
    let p = any(0, 254);
    for c in copies(&d, 1) {
        check(c.node == d.node, 2);
        check(c.entry_type == d.entry_type, 3);
        check(c.name.length == d.name.length, 4);
        check(byte(&c.name.bytes, p) == byte(&d.name.bytes, p), 5);
    }
    cover(1);
}

pub fn c22_header() {
    let h = Header { version: any(0, u32::MAX as u64) as u32, next_node: any(0, u64::MAX) };
    for c in copies(&h, 1) {
        check(c.version == h.version, 2);
        check(c.next_node == h.next_node, 3);
    }
    cover(1);
}

pub fn c22_name() {
    let len = LENGTHS[choose(7) as usize];
    let d = arbitrary(len);
    let x = FileName::new(&d).unwrap();
    check(x.length as usize == len, 1);
    let p = any(0, 254);
    let want = ite(p < len as u64, byte(&d, p), 0);
    check(byte(&x.bytes, p) == want, 2);
    for c in copies(&x, 3) {
        check(c.length as usize == len, 4);
        check(byte(&c.bytes, p) == want, 5);
    }
    cover(1);
}

/// at most 255 bytes
pub fn c22_too_long() {
    let len = 253 + choose(6) as usize;
    check(FileName::new(&arbitrary(len)).is_ok() == (len <= 255), 1);
    cover(1);
}

pub fn c22_chunk() {
    let mut x = FileChunk::default();
    fill(&mut x.bytes);
    let p = any(0, 4095);
    for c in copies(&x, 1) {
        check(byte(&c.bytes, p) == byte(&x.bytes, p), 2);
    }
    cover(1);
}

pub fn c22_type() {
    let v = any(0, 255) as u8;
    match FileType::try_from(v) {
        Ok(t) => {
            check(u8::from(t) == v, 1);
            cover(1);
        }
        Err(_) => {
            check(and(v != 3, and(v != 4, v != 7)), 2);
            cover(2);
        }
    }
    for t in [FileType::Directory, FileType::RegularFile, FileType::SymbolicLink] {
        check(FileType::try_from(u8::from(t)) == Ok(t), 3);
    }
}

fn rank(o: Ordering) -> u64 {
    match o {
        Ordering::Less => 0,
        Ordering::Equal => 1,
        Ordering::Greater => 2,
    }
}

/// byte-wise comparison, written down independently
fn before(a: &[u8], b: &[u8]) -> u64 {
    let mut r = if a.len() < b.len() {
        0
    } else if a.len() == b.len() {
        1
    } else {
        2
    };
    for i in (0..a.len().min(b.len())).rev() {
        r = ite(a[i] == b[i], r, ite(a[i] < b[i], 0, 2));
    }
    r
}

fn order(cap: u32) {
    let x = arbitrary(choose(cap + 1) as usize);
    let y = arbitrary(choose(cap + 1) as usize);
    let (a, b) = (FileName::new(&x).unwrap(), FileName::new(&y).unwrap());
    let want = before(&x, &y);
    check(rank(a.cmp(&b)) == want, 1);
    check(rank(a.partial_cmp(&b).unwrap()) == want, 2);
    check((a == b) == (want == 1), 3);
    check(rank(b.cmp(&a)) == 2 - want, 4);
    // as the keys of stored maps
    let (c, d) = (FileName::from_bytes(a.to_bytes()), FileName::from_bytes(b.to_bytes()));
    check(rank(c.cmp(&d)) == want, 5);
    check((c == b) == eq(&x, &y), 6);
    observe(1, rank(a.cmp(&b)));
    match want {
        0 => cover(1),
        1 => cover(2),
        _ => cover(3),
    }
}
pub fn c22_order() {
    order(3);
}
pub fn c22_order_deep() {
    order(6);
}

/// any two names of some lengths
fn order_of(a: usize, b: usize) {
    let (x, y) = (arbitrary(a), arbitrary(b));
    let (a, b) = (FileName::new(&x).unwrap(), FileName::new(&y).unwrap());
    let want = before(&x, &y);
    check(rank(a.cmp(&b)) == want, 1);
    check((a == b) == (want == 1), 2);
    check(rank(b.cmp(&a)) == 2 - want, 3);
    cover(1);
}
pub fn c22_order_any() {
    let (a, b) = [(8, 8), (9, 16), (17, 17), (40, 39), (64, 65), (255, 255)][choose(6) as usize];
    order_of(a, b);
}

/// names that differ in one byte anywhere, or in their length
pub fn c22_order_long() {
    let mut x = vec![b'n'; 255];
    let mut y = x.clone();
    let i = any(0, 254) as usize;
    let i = concretize(i as u64) as usize;
    x[i] = any(0, 255) as u8;
    y[i] = any(0, 255) as u8;
    let cut = choose(3);
    let (x, y) = match cut {
        0 => (&x[..], &y[..]),
        1 => (&x[..254], &y[..]),
        _ => (&x[..], &y[..128]),
    };
    let (a, b) = (FileName::new(x).unwrap(), FileName::new(y).unwrap());
    let want = before(x, y);
    check(rank(a.cmp(&b)) == want, 1);
    check((a == b) == (want == 1), 2);
    cover(1);
}
