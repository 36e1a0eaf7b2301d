#![allow(unused)]
use ic_stable_structures::{Memory, VectorMemory};
use stable_fs::error::Error;
use stable_fs::fs::*;
use stable_fs::storage::stable::StableStorage;
use stable_fs::storage::transient::TransientStorage;
use stable_fs::storage::types::{FileType, Metadata, MountedFileSizePolicy};
use stable_fs::storage::Storage;

fn stable(m: &VectorMemory) -> FileSystem {
    FileSystem::new(Box::new(StableStorage::new(m.clone()))).unwrap()
}
fn transient() -> FileSystem {
    FileSystem::new(Box::new(TransientStorage::new())).unwrap()
}
fn open(fs: &mut FileSystem, name: &str) -> u32 {
    let root = fs.root_fd();
    fs.open(root, name, FdStat::default(), OpenFlags::CREATE, 1).unwrap()
}
fn write_at(fs: &mut FileSystem, fd: u32, offset: u64, data: &[u8]) -> u64 {
    fs.seek(fd, offset as i64, Whence::SET).unwrap();
    fs.write(fd, data).unwrap()
}
fn read_all(fs: &mut FileSystem, fd: u32) -> Vec<u8> {
    let size = fs.metadata(fd).unwrap().size;
    let mut buf = vec![0xEEu8; size as usize];
    fs.seek(fd, 0, Whence::SET).unwrap();
    let n = fs.read(fd, &mut buf).unwrap();
    assert_eq!(n, size);
    buf
}
fn names(fs: &mut FileSystem, fd: u32) -> Vec<String> {
    let mut v = vec![];
    fs.with_direntries(fd, Some(0), &mut |_, e| {
        v.push(e.name.to_string());
        true
    })
    .unwrap();
    v
}

