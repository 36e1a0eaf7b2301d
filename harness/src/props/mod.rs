//! One function per job. Every job drives the public file-system API with symbolic arguments
//! and states what must be observed.
use crate::sym::*;
pub use ic_stable_structures::DefaultMemoryImpl;
pub use ic_stable_structures::memory_manager::{MemoryId, MemoryManager};
pub use std::rc::Rc;
pub use stable_fs::error::Error;
pub use stable_fs::fs::*;
use stable_fs::storage::stable::StableStorage;
use stable_fs::storage::transient::TransientStorage;
pub use ic_stable_structures::VectorMemory;
pub use stable_fs::storage::types::{FileType, Metadata, MountedFileSizePolicy};
pub use stable_fs::storage::Storage;

macro_rules! jobs { ($($m:ident :: $n:ident),* $(,)?) => {
    pub static JOBS: &[(&str, fn())] = &[ $((stringify!($n), $m::$n)),* ];
    #[cfg(target_arch = "wasm32")]
    mod exports { $( #[unsafe(no_mangle)] extern "C" fn $n() { super::$m::$n() } )* }
} }

pub mod args;
pub mod caches;
pub mod compat;
pub mod content;
pub mod fds;
pub mod limits;
pub mod meta;
pub mod mount;
pub mod names;
pub mod records;
pub mod space;
pub mod tree;
pub mod wide;

jobs!(
    args::c26_numbers,
    args::c26_numbers_v1,
    args::c26_numbers_transient,
    args::c26_pairs,
    args::c26_pairs_v1,
    args::c26_pairs_transient,
    args::c26_edges,
    args::c26_edges_v1,
    args::c26_edges_transient,
    args::c26_paths,
    args::c26_paths_transient,
    args::c26_utf8,
    args::c26_paths_deep,
    args::c26_stale,
    caches::c01_evict,
    caches::c01_full,
    caches::c17_many,
    caches::c15_evict_transient,
    caches::c15_evict,
    compat::c27_names,
    compat::c27_names_deep,
    compat::c27_content,
    compat::c27_mounted,
    compat::c28_neighbours,
    content::c01_two_writes,
    content::c01_overwrite,
    content::c01_cursor,
    content::c01_chunk_sizes,
    content::c01_sparse,
    content::c01_sparse_deep,
    content::c02_two_writes,
    content::c02_two_writes_deep,
    content::c02_overwrite,
    content::c02_overwrite_deep,
    content::c02_sparse,
    content::c02_sparse_deep,
    content::c03_two_writes,
    content::c03_resize,
    content::c03_rewrite,
    content::c03_limit,
    content::c05_resize,
    content::c05_resize_v1,
    content::c05_rewrite,
    content::c05_rewrite_v1,
    content::c05_rewrite_v1_deep,
    content::c05_sizes,
    content::c05_sizes_deep,
    content::c05_rewrite_sizes,
    content::c05_rewrite_sizes_deep,
    content::c05_legacy,
    content::c05_truncate,
    content::c06_high,
    content::c06_two_files,
    content::c06_two_files_deep,
    content::c06_two_files_v1,
    content::c06_transient,
    content::c06_transient_deep,
    content::c06_remove,
    content::c06_remove_v1,
    content::c06_remove_deep,
    content::c07_reuse,
    content::c07_reuse_deep,
    content::c07_reuse_v1,
    content::c07_reuse_v1_deep,
    content::c07_reuse_transient,
    content::c07_reuse_transient_deep,
    content::c07_reuse_sizes,
    content::c07_reuse_sizes_deep,
    content::c06_give_back,
    content::c06_give_back_v1,
    content::c07_give_back,
    content::c07_give_back_v1,
    content::c07_grow,
    content::c07_grow_deep,
    fds::c09_seek,
    fds::c09_seek_transient,
    fds::c09_seek_deep,
    fds::c09_transfers,
    fds::c09_transfers_v1,
    fds::c09_transfers_transient,
    fds::c09_refused,
    fds::c10_table,
    fds::c10_table_transient,
    fds::c10_table_deep,
    fds::c10_reopen,
    fds::c18_rights,
    fds::c18_rights_v1,
    fds::c18_rights_transient,
    fds::c19_flags,
    fds::c19_flags_transient,
    fds::c19_below,
    limits::c16_limit,
    limits::c16_limit_v1,
    limits::c16_limit_transient,
    limits::c16_mounted,
    limits::c16_mounted_transient,
    limits::c16_max,
    limits::c16_max_v1,
    limits::c16_max_transient,
    limits::c23_limit,
    limits::c23_limit_v1,
    limits::c23_limit_transient,
    limits::c23_write,
    limits::c23_write_v1,
    limits::c23_write_transient,
    limits::c23_read,
    limits::c23_read_v1,
    limits::c23_read_transient,
    limits::c25_chunk_size,
    limits::c25_mixed,
    limits::c25_mixed_deep,
    meta::c08_one,
    meta::c08_one_v1,
    meta::c08_two,
    meta::c08_two_v1,
    meta::c08_two_deep,
    meta::c08_two_v1_deep,
    meta::c08_three_deep,
    meta::c17_set,
    meta::c17_set_v1,
    meta::c17_set_transient,
    meta::c17_mounted,
    meta::c17_mounted_transient,
    meta::c20_numbers,
    meta::c20_high,
    meta::c20_numbers_transient,
    meta::c20_three_deep,
    mount::c04_transfers,
    mount::c04_transfers_transient,
    mount::c04_long,
    mount::c04_long_v1,
    mount::c04_long_transient,
    mount::c04_store,
    mount::c04_store_v1,
    mount::c04_store_transient,
    mount::c04_init,
    mount::c04_init_v1,
    mount::c04_init_transient,
    mount::c04_remount,
    mount::c04_two,
    names::c12_ops,
    names::c12_ops_transient,
    names::c12_ops_deep,
    names::c12_three_deep,
    names::c12_three_transient,
    names::c12_long,
    names::c12_again,
    names::c12_again_transient,
    names::c13_mounted,
    names::c13_mounted_transient,
    names::c13_moves,
    names::c13_moves_transient,
    names::c13_dirs,
    names::c13_dirs_transient,
    names::c13_two_transient,
    names::c13_two_deep,
    names::c13_deep,
    names::c14_refused,
    names::c14_refused_transient,
    names::c14_refused_deep,
    names::c14_three_transient,
    names::c14_names,
    names::c15_lookups,
    names::c15_lookups_transient,
    names::c15_two_transient_deep,
    names::c15_again_transient,
    names::c15_spelling,
    names::c15_two_deep,
    names::c24_listing,
    names::c24_listing_transient,
    names::c24_two_transient,
    names::c24_names_deep,
    names::c24_two_deep,
    names::c12_high,
    names::c13_high,
    names::c24_high,
    names::c15_text,
    names::c15_text_transient,
    names::c11_resolve,
    names::c11_resolve_transient,
    names::c11_six_transient,
    names::c11_eight_deep,
    names::c11_resolve_deep,
    names::c11_effects,
    names::c11_effects_transient,
    names::c11_utf8,
    names::c11_effects_deep,
    records::c22_metadata,
    records::c22_entry,
    records::c22_header,
    records::c22_name,
    records::c22_too_long,
    records::c22_chunk,
    records::c22_type,
    records::c22_order,
    records::c22_order_deep,
    records::c22_order_any,
    records::c22_order_long,
    space::c21_space,
    space::c21_space_v1,
    space::c21_small,
    wide::c01_big,
    wide::c02_big,
    wide::c03_big,
    wide::c05_sparse,
    wide::c12_unicode,
    wide::c12_unicode_transient,
    wide::c21_list,
    wide::c23_many,
    wide::c23_many_v1,
    wide::c23_many_transient,
    wide::c24_many,
    wide::c13_many,
    wide::c14_many,
    wide::c10_many,
    wide::c01_far,
    wide::c02_far,
    wide::c03_far,
    wide::c05_far,
    wide::c05_far_v1,
    wide::c03_far_cut,
    wide::c09_far,
    wide::c09_far_transient,
    wide::c04_far,
    wide::c04_far_transient,
);

/// the file system under test together with the memory it lives in
pub struct Env {
    pub mem: Option<DefaultMemoryImpl>,
    /// the memories of a shared manager, from the given one on
    pub shared: Option<(Rc<Manager>, u8)>,
    pub fs: FileSystem,
}

pub type Manager = MemoryManager<DefaultMemoryImpl>;

impl Env {
    pub fn stable() -> Env {
        let mem = DefaultMemoryImpl::default();
        let fs = FileSystem::new(Box::new(StableStorage::new(mem.clone()))).unwrap();
        Env { mem: Some(mem), shared: None, fs }
    }
    /// new files use the legacy format
    pub fn v1() -> Env {
        let mut e = Env::stable();
        e.fs.storage.set_chunk_type(ChunkType::V1);
        e
    }
    pub fn sized(cs: ChunkSize) -> Env {
        let mut e = Env::stable();
        e.fs.storage.set_chunk_size(cs).unwrap();
        e
    }
    pub fn managed(mm: &Rc<Manager>, first: u8) -> Env {
        let fs = FileSystem::new(Box::new(StableStorage::new_with_memory_manager(mm, first..first + 10))).unwrap();
        Env { mem: None, shared: Some((mm.clone(), first)), fs }
    }
    /// a file system that has given out all numbers below `next`
    pub fn numbered(next: u64) -> Env {
        let mm = Rc::new(Manager::init(DefaultMemoryImpl::default()));
        let mut e = Env::managed(&mm, 10);
        let mut h = ic_stable_structures::Cell::init(mm.get(MemoryId::new(10)), stable_fs::storage::types::Header { version: 1, next_node: 1 });
        let v = h.get().version;
        let _ = h.set(stable_fs::storage::types::Header { version: v, next_node: next });
        e.upgrade();
        e
    }
    /// shortly before the given number of bits is exceeded
    pub fn many_numbers() -> Env {
        let bits = [8, 16, 24, 31, 32, 40, 53, 62][choose(8) as usize];
        Env::numbered((1 << bits) - 3 + choose(2) as u64)
    }
    /// entries of folders from the given position on have seen many others come and go
    pub fn shift_entries(&mut self, from: u32, by: u32) {
        use ic_stable_structures::BTreeMap;
        use stable_fs::storage::types::{DirEntry, FileName};
        let (mm, first) = self.shared.as_ref().unwrap();
        let mut ents: BTreeMap<(u64, u32), DirEntry, _> = BTreeMap::init(mm.get(MemoryId::new(first + 2)));
        let mut look: BTreeMap<(u64, FileName), u32, _> = BTreeMap::init(mm.get(MemoryId::new(first + 9)));
        let all: Vec<_> = ents.iter().map(|x| (*x.key(), x.value())).collect();
        for ((d, i), x) in all {
            if i < from {
                continue;
            }
            ents.remove(&(d, i));
            look.insert((d, x.name.clone()), i + by);
            ents.insert((d, i + by), x);
        }
        drop((ents, look));
        self.upgrade();
    }
    /// pages of the ten memories
    pub fn pages(&self) -> Vec<u64> {
        use ic_stable_structures::Memory;
        let (mm, first) = self.shared.as_ref().unwrap();
        (0..10).map(|i| mm.get(MemoryId::new(first + i)).size()).collect()
    }
    pub fn transient() -> Env {
        let fs = FileSystem::new(Box::new(TransientStorage::new())).unwrap();
        Env { mem: None, shared: None, fs }
    }
    /// a canister upgrade: everything that lives in the heap is dropped
    pub fn upgrade(&mut self) {
        if let Some((mm, first)) = &self.shared {
            self.fs = FileSystem::new(Box::new(StableStorage::new_with_memory_manager(mm, *first..*first + 10))).unwrap();
            return;
        }
        let mem = self.mem.as_ref().unwrap().clone();
        self.fs = FileSystem::new(Box::new(StableStorage::new(mem))).unwrap();
    }
    pub fn root(&self) -> Fd {
        self.fs.root_fd()
    }
    pub fn create(&mut self, path: &str) -> Fd {
        let r = self.root();
        self.fs.open(r, path, FdStat::default(), OpenFlags::CREATE, 0).unwrap()
    }
    pub fn open(&mut self, path: &str) -> Result<Fd, Error> {
        let r = self.root();
        self.fs.open(r, path, FdStat::default(), OpenFlags::empty(), 0)
    }
    pub fn seek(&mut self, fd: Fd, pos: u64) {
        self.fs.seek(fd, pos as i64, Whence::SET).unwrap();
    }
    pub fn size(&self, fd: Fd) -> u64 {
        self.fs.metadata(fd).unwrap().size
    }
}

/// storage by kind, and its chunk size: default, legacy format, in memory
pub fn env_of(k: u32) -> (Env, u64) {
    match k {
        0 => (Env::stable(), 16384),
        1 => (Env::v1(), 4096),
        _ => (Env::transient(), 4096),
    }
}

pub fn same_time(a: &Metadata, b: &Metadata) -> bool {
    and(a.times.accessed == b.times.accessed, and(a.times.modified == b.times.modified, a.times.created == b.times.created))
}
fn opt(a: Option<u64>) -> u64 {
    a.unwrap_or(0)
}
/// everything but size and limit
pub fn same_rest(a: &Metadata, b: &Metadata) -> bool {
    let c = a.chunk_type.is_some() == b.chunk_type.is_some() && a.chunk_type == b.chunk_type;
    and(and(a.node == b.node, a.file_type == b.file_type), and(and(a.link_count == b.link_count, same_time(a, b)), c))
}
pub fn same_limit(a: &Metadata, b: &Metadata) -> bool {
    a.maximum_size_allowed.is_some() == b.maximum_size_allowed.is_some() && opt(a.maximum_size_allowed) == opt(b.maximum_size_allowed)
}
pub fn same_meta(a: &Metadata, b: &Metadata) -> bool {
    and(and(same_rest(a, b), a.size == b.size), same_limit(a, b))
}

pub const SIZES: [ChunkSize; 5] = ChunkSize::VALUES;

/// one symbolic position of a file and what the specification says is stored there
#[derive(Clone)]
pub struct Ghost {
    pub p: u64,
    pub val: u64,
    pub size: u64,
}

impl Ghost {
    pub fn new(p: u64) -> Ghost {
        Ghost { p, val: 0, size: 0 }
    }
    pub fn write(&mut self, o: u64, l: u64, d: &[u8]) {
        let inside = and(self.p >= o, self.p < o + l);
        self.val = ite(inside, byte(d, self.p.wrapping_sub(o)), self.val);
        self.size = max(self.size, ite(l > 0, o + l, 0));
    }
    pub fn resize(&mut self, n: u64) {
        self.val = ite(self.p < n, self.val, 0);
        self.size = n;
    }
    /// what a read of `len` bytes at `o` must return
    pub fn expect(&self, o: u64, len: u64) -> u64 {
        min(len, ite(o < self.size, self.size.wrapping_sub(o), 0))
    }
    /// buf (before the read: old) was filled by a read at o that returned n
    pub fn matches(&self, o: u64, n: u64, buf: &[u8], old: &[u8]) -> bool {
        let i = self.p.wrapping_sub(o);
        let inside = and(self.p >= o, self.p < o + buf.len() as u64);
        let want = ite(i < n, self.val, byte(old, i));
        implies(inside, byte(buf, i) == want)
    }
}

/// offset whose chunk number is a case split and whose position in the chunk is symbolic
pub fn offset(chunks: u32, cs: u64) -> u64 {
    choose(chunks) as u64 * cs + any(0, cs - 1)
}

pub fn write_at(e: &mut Env, fd: Fd, o: u64, l: u64, d: &[u8], id: u32) {
    e.seek(fd, o);
    let n = e.fs.write(fd, &d[..l as usize]).unwrap();
    check(n == l, id);
}

/// symbolic write: offset, length and data
pub fn sym_write(e: &mut Env, fd: Fd, g: &mut Ghost, chunks: u32, cs: u64, cap: usize, id: u32) {
    let d = arbitrary(cap);
    let o = offset(chunks, cs);
    let l = any(0, cap as u64);
    write_at(e, fd, o, l, &d, id);
    g.write(o, l, &d);
}

/// symbolic read, compared with the ghost
pub fn sym_read(e: &mut Env, fd: Fd, g: &Ghost, chunks: u32, cs: u64, cap: usize, id: u32) {
    let o = offset(chunks, cs);
    let l = any(0, cap as u64);
    read_at(e, fd, g, o, l, cap, id);
}

pub fn read_at(e: &mut Env, fd: Fd, g: &Ghost, o: u64, l: u64, cap: usize, id: u32) {
    let mut buf = arbitrary(cap);
    let old = buf.clone();
    e.seek(fd, o);
    let n = e.fs.read(fd, &mut buf[..l as usize]).unwrap();
    check(n == g.expect(o, l), id);
    check(g.matches(o, n, &buf, &old), id + 1);
    observe(id, n);
    observe(id + 1, byte(&buf, g.p.wrapping_sub(o)));
}

/// reads exactly the ghost's byte (and the size)
pub fn probe(e: &mut Env, fd: Fd, g: &Ghost, id: u32) {
    check(e.size(fd) == g.size, id);
    let mut b = [0xa5u8; 1];
    e.seek(fd, g.p);
    let n = e.fs.read(fd, &mut b).unwrap();
    check(n == ite(g.p < g.size, 1, 0), id + 1);
    check(b[0] as u64 == ite(g.p < g.size, g.val, 0xa5), id + 2);
    observe(id, n);
    observe(id + 1, b[0] as u64);
}
