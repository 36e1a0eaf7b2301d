#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept next to it so that wording is edited in one place)."""
import json, os
S="stable-fs/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],state=state or [],
        mechanism=[dict(name=a,where=S+b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p("C01","Reads return exactly what was last written (default storage)",
 "For a regular file on persistent storage in the default format, after any sequence of writes at any offsets and lengths, a read at any offset returns at every position the byte most recently written there, or zero where nothing was written below the end of file. The number of bytes read is the smaller of the buffer length and the distance to the end of file, a write reports the full length, and the file size is the largest end of any write. This holds for every configurable chunk size.",
 ["inputs","histories","configurations"],"all offsets, lengths and contents of a short history of writes and one read, for each of the 5 chunk sizes",
 "The tests use a handful of fixed offsets and lengths; the boundary arithmetic (chunk edges, holes, cached-missing chunks) depends on offset, length and chunk size together.",
 ["storage/stable.rs","storage/chunk_iterator.rs","storage/ptr_cache.rs","storage/allocator.rs","fs.rs"],
 [("StableStorage::write_chunks_v2 / read_chunks_v2","storage/stable.rs"),("ChunkV2Iterator::next","storage/chunk_iterator.rs"),("PtrCache::add_range","storage/ptr_cache.rs")],
 ["FileSystem::read/write/seek results and buffers","FileSystem::metadata size"],
 [dict(name="v2_chunk_ptr, v2_chunks",meaning="chunk pointers and chunk memory",where=S+"storage/stable.rs")])
p("C02","Reads return exactly what was last written (legacy chunk format)",
 "For a regular file on persistent storage created in the legacy chunk format, after any sequence of writes at any offsets and lengths, a read at any offset returns at every position the byte most recently written there, or zero where nothing was written below the end of file, with the exact number of bytes available up to the end of file.",
 ["inputs","histories"],"all offsets, lengths and contents of a short history of writes and one read of a legacy-format file",
 "Tests read legacy files at a few fixed positions; skipped chunks and partial first and last chunks depend on the combination of offset, length and earlier writes.",
 ["storage/stable.rs","runtime/structure_helpers.rs"],
 [("StableStorage::write_filechunk_v1 / read_chunks_v1","storage/stable.rs"),("get_chunk_infos","runtime/structure_helpers.rs")],
 ["FileSystem::read/write results and buffers"])
p("C03","Reads return exactly what was last written (in-memory storage)",
 "The in-memory (transient) storage behaves like the persistent one for file content: after any sequence of writes, size changes and size limits, a read returns at every position the byte most recently written there and still below every later end of file, or zero elsewhere below the end of file. Shrinking and growing a file never brings old bytes back.",
 ["inputs","histories"],"all offsets, lengths, sizes and contents of a short history of writes and resizes and one read on the transient storage",
 "The tests run a few fixed examples on the transient storage and none that shrinks and then grows a file there.",
 ["storage/transient.rs","runtime/structure_helpers.rs"],
 [("TransientStorage::write / read / put_metadata / resize_file","storage/transient.rs")],
 ["FileSystem::read/write results and buffers"])
p("C04","A file hosted by a mounted memory is exactly that memory",
 "While a memory is mounted over a file, bytes written to the file appear in that memory at the same offsets and reads return the memory's bytes up to the file size, for any offset and length. The content, size, limit and times of the host file underneath are untouched by this and by setting attributes meanwhile, and reappear unchanged on unmount unless stored to, and storing to or initialising from the host file copies exactly the file-size bytes in the stated direction and leaves the memory mounted.",
 ["inputs","histories","configurations"],"all offsets, lengths, contents and sizes for mount, write, read, store, initialise, unmount histories",
 "Tests mount a few fixed memories and sizes; the copy loops and the switch between mounted and host metadata depend on sizes and on the order of operations.",
 ["storage/stable.rs","storage/transient.rs","storage/metadata_provider.rs","fs.rs"],
 [("mount_node / init_mounted_memory / store_mounted_memory / write_mounted","storage/stable.rs"),("MetadataProvider (mounted metadata)","storage/metadata_provider.rs")],
 ["FileSystem::mount_memory_file, store_memory_file, init_memory_file, unmount_memory_file","Memory::read of the mounted memory"])
p("C05","Resizing keeps the bytes below the new size and zeroes what is regrown",
 "After the size of a file on persistent storage is set to any value, every byte below both the old and the new size is unchanged, and every byte above a size the file was ever shrunk to reads as zero until written again. This holds for shrinking, growing, truncating on open, any chunk size and the legacy format, also after further writes.",
 ["inputs","histories","configurations"],"all old sizes, new sizes (in particular exact chunk multiples), later writes and read positions",
 "Whether shrinking damages or leaks a byte depends on the remainder of the size modulo the chunk size; the tests try a few sizes.",
 ["storage/stable.rs","fs.rs","runtime/file.rs"],
 [("StableStorage::resize_file_internal","storage/stable.rs"),("File::truncate","runtime/file.rs")],
 ["FileSystem::set_file_size, open with TRUNCATE, read"])
p("C06","Operations on one file never change another file",
 "Writing, resizing, truncating or removing one file never changes the content, size or metadata of any other file or directory entry, for any interleaving of operations on the two files and any offsets and lengths.",
 ["inputs","histories"],"two or three files, all offsets and lengths of interleaved operations, including removal and creation of files in between",
 "Two files only collide through a chunk handed out twice or a stale cache entry, which needs a specific history that fixed examples do not contain.",
 ["storage/stable.rs","storage/allocator.rs","storage/ptr_cache.rs","storage/metadata_provider.rs"],
 [("ChunkPtrAllocator::allocate / free","storage/allocator.rs"),("MetadataProvider::remove_metadata","storage/metadata_provider.rs")],
 ["FileSystem::read and metadata of the other file"])
p("C07","Reused storage never exposes bytes of deleted or truncated files",
 "A new or extended file never shows bytes that belonged to another file that was removed or truncated earlier: any position not written through the new file reads as zero, for any pattern of partial writes into reused space.",
 ["inputs","histories"],"all contents of the removed file and all offsets and lengths of writes into files that reuse its chunks",
 "Depends on which reused chunk is only partly overwritten; tests do not look at reused chunks with partial writes.",
 ["storage/stable.rs","storage/allocator.rs","storage/metadata_provider.rs"],
 [("zero filling around a new chunk in write_chunks_v2","storage/stable.rs"),("ChunkPtrAllocator::pop_ptr","storage/allocator.rs")],
 ["FileSystem::read of a file created after a removal"])
p("C08","Everything survives an upgrade at any point",
 "Re-creating the file system over the same persistent memory after any operation of any history yields the same files, names, links, contents, sizes, times, limits, node numbers and free space as before; nothing observable may live only in runtime caches.",
 ["crash_points","histories","inputs"],"every point between operations of short histories is an upgrade point; contents, offsets and attribute values symbolic",
 "Tests upgrade at the end of a few scenarios; a value kept only in a cache shows only if the upgrade falls right after the operation that changed it.",
 ["storage/stable.rs","storage/metadata_provider.rs","storage/allocator.rs"],
 [("StableStorage::new_with_memory_manager","storage/stable.rs"),("ChunkPtrAllocator::new","storage/allocator.rs"),("MetadataProvider::put_metadata","storage/metadata_provider.rs")],
 ["all read-only operations before and after re-creation over the same memory"])
p("C09","The file cursor follows reads, writes and seeks exactly",
 "Every read and write through the cursor starts at the current position and advances it by the number of bytes transferred; a write in append mode starts at the end of file; positional reads and writes leave the cursor alone. A seek moves the cursor to base plus delta when that is a valid non-negative position and otherwise fails and leaves it where it was.",
 ["inputs","histories"],"all cursor positions, deltas (full 64-bit range), whence values, buffer lengths and flags",
 "The tests seek by small constants; overflow, negative and past-the-end deltas and the error paths are inputs they do not try.",
 ["runtime/file.rs","fs.rs"],[("File::seek / read_with_cursor","runtime/file.rs"),("FileSystem::write_vec / read_vec / *_with_offset","fs.rs")],
 ["FileSystem::seek, tell, read, write, read_vec_with_offset, write_vec_with_offset"])
p("C10","File descriptors are never shared, lost or reissued while open",
 "Opening returns a descriptor that is not open already, each open descriptor keeps referring to the file it was opened on until it is closed or renumbered, and operations on a descriptor that is not open fail with a bad-descriptor error. Renumbering moves exactly that entry, closing the target, and the root descriptor can neither be closed nor replaced.",
 ["histories","inputs"],"all histories of open, close and renumber up to a small length with arbitrary descriptor numbers",
 "The free list and the reference counts depend on the order of open, close and renumber with arbitrary numbers; tests try two or three orders.",
 ["runtime/fd.rs","fs.rs"],[("FdTable::open / close / renumber","runtime/fd.rs")],
 ["FileSystem::open, close, renumber, get_stat, metadata"],[dict(name="table, free_fds, next_fd, node_refcount",meaning="descriptor table",where=S+"runtime/fd.rs")])
p("C11","Paths resolve inside the given directory only",
 "Resolving a relative path behaves like walking its components, treating empty and '.' components as no-ops and '..' as dropping the previous component, and it never reaches above the directory it starts from. Absolute paths and paths whose '..' would climb above the starting directory are rejected with an error and have no effect.",
 ["inputs"],"all paths up to a bounded length over the separator, dot and letters, resolved against a fixed tree, for lookup and for creation",
 "The tests list about twenty example paths; the space of combinations of '/', '.', '..' and names is the input.",
 ["runtime/structure_helpers.rs","runtime/dir.rs","fs.rs"],[("get_path_parts / find_node_with_index / create_path","runtime/structure_helpers.rs")],
 ["FileSystem::open_metadata, open, mkdir"])
p("C12","The namespace behaves as a tree of names",
 "After any sequence of creating and removing files and directories, a path resolves exactly when it was created and not removed since, to the same node each time; a directory's size is its number of entries, and every directory other than the root is reachable by exactly one name.",
 ["histories","inputs"],"all short histories of create, mkdir, remove over a small symbolic set of names and directories",
 "An inconsistent lookup, count or cache entry needs a particular order of creations and removals of the same names.",
 ["runtime/structure_helpers.rs","runtime/dir.rs","storage/stable.rs","filename_cache.rs"],
 [("add_dir_entry / rm_dir_entry / create_path","runtime/structure_helpers.rs"),("put_direntry / rm_direntry / new_direntry_index","storage/stable.rs")],
 ["FileSystem::open_metadata, with_direntries, metadata"])
p("C13","Links and renames keep every file reachable and counted",
 "A hard link adds one name for the same file and raises its link count by one, removing a name lowers it by one, and the file's content stays available through every remaining name. A rename makes the file available under the new name only, with content and node unchanged and any file formerly at the new name replaced, and the link count is always the number of names; linking or renaming a name onto itself loses nothing, and a directory can never be moved into itself or below itself.",
 ["histories","inputs"],"all pairs of source and target among files, directories, existing, missing, identical and nested names, followed by lookups",
 "Source and target coinciding, existing targets and nesting are combinations the tests cover one or two of.",
 ["runtime/structure_helpers.rs","fs.rs"],[("create_hard_link","runtime/structure_helpers.rs"),("FileSystem::rename / create_hard_link","fs.rs")],
 ["FileSystem::rename, create_hard_link, open_metadata, read, metadata link_count"])
p("C14","Removal is refused when unsafe and a refused operation changes nothing",
 "Removing the last name of a file or directory that is open, a non-empty directory, a mounted file, a file as a directory or a directory as a file, fails. A create, remove, link or rename that returns an error leaves names, counts, contents and metadata as they were (a recursive removal may stop half way, having removed only what could be removed).",
 ["histories","inputs"],"all combinations of object kind, open state, mount state, link count and removing operation, comparing the tree before and after a failure",
 "Tests check the returned errors of some combinations, but not that a failed operation left everything untouched.",
 ["runtime/structure_helpers.rs","runtime/dir.rs","fs.rs"],[("rm_dir_entry / create_hard_link / create_path","runtime/structure_helpers.rs"),("Dir::remove_file / remove_dir","runtime/dir.rs")],
 ["return values, then FileSystem::open_metadata, with_direntries, read"])
p("C15","Repeated lookups never return a stale result",
 "A lookup of a path gives the same result whether or not the same path, or any other spelling of it, was looked up before: after removals, renames, re-creations and recursive removals a path resolves to the object now at that name or not at all.",
 ["histories","inputs"],"all short histories mixing lookups through different spellings and directory descriptors with removals, renames and re-creations",
 "A stale cache entry appears only if a particular spelling was looked up before a particular change; tests do not combine these.",
 ["filename_cache.rs","runtime/structure_helpers.rs","runtime/dir.rs"],[("FilenameCache","filename_cache.rs"),("find_node / rm_dir_entry","runtime/structure_helpers.rs")],
 ["FileSystem::open_metadata compared with with_direntries"])
p("C16","Size limits are enforced without side effects",
 "With a size limit set, a write of one buffer ending above the limit, and setting a size above the limit or a limit below the size, fail and change neither content, size nor limit; operations up to the limit work as without it. No file can grow past the maximum supported file size, and reading never returns bytes above the limit.",
 ["inputs","histories"],"all limits, offsets, lengths and sizes over the full 64-bit range including the overflow boundary",
 "The tests check two or three limits; off-by-one and overflow of offset plus length are single values out of 2^64.",
 ["storage/stable.rs","storage/transient.rs","fs.rs"],[("validate_metadata_update / write","storage/stable.rs"),("FileSystem::set_file_size_limit","fs.rs")],
 ["FileSystem::write, set_file_size, set_file_size_limit, metadata"])
p("C17","Setting one attribute changes that attribute only",
 "Setting the access time, modification time, size limit, size or descriptor status of an object stores exactly the given value, and leaves every other attribute and the content of this and all other objects unchanged, also when read after an upgrade. Changing the type or node number of an object through its metadata is refused.",
 ["inputs","histories"],"all 64-bit attribute values, every setter, for files and directories, mounted or not",
 "Tests set a few constants and look at the attribute they set.",
 ["fs.rs","storage/metadata_provider.rs","storage/stable.rs"],[("FileSystem::set_*","fs.rs"),("StableStorage::put_metadata","storage/stable.rs")],
 ["FileSystem::metadata, get_stat before and after, also after re-creation"])
p("C18","Descriptors without the read or write right cannot read or write",
 "A descriptor without the read right can not obtain file content and a descriptor without the write right can not change content or size, through any reading, writing or resizing operation and any combination of the other rights; such an attempt fails and changes nothing, including the cursor.",
 ["inputs","configurations"],"all rights values and flags (symbolic), every data operation",
 "Tests try one or two rights masks on one or two operations.",
 ["fs.rs"],[("rights checks in read, read_vec, write_vec, *_with_offset, set_file_size","fs.rs")],
 ["FileSystem data operations on a descriptor opened with given rights"])
p("C19","Open flags do what they say",
 "Opening with create makes the file if absent, exclusive create fails if it exists, the directory flag refuses files and truncate empties the file, for every combination of flags and every kind of existing object; a failed open changes nothing and a plain open of an existing object changes nothing.",
 ["inputs","configurations"],"all flag combinations and descriptor flags, on a missing name, file, directory, nested path",
 "The tests cover about six of the combinations.",
 ["fs.rs","runtime/dir.rs"],[("FileSystem::open / open_internal","fs.rs")],
 ["FileSystem::open, then metadata, read, with_direntries"])
p("C20","Node numbers identify one object forever",
 "Every newly created file or directory gets a node number never used before in this file system, across removals and upgrades; the number, type and creation time of an object never change while it exists, and all names and descriptors of one object report the same number.",
 ["histories","crash_points"],"all short histories of create, remove, link, rename and upgrade",
 "Reuse of a number shows only after particular create, remove and upgrade orders.",
 ["storage/stable.rs","runtime/structure_helpers.rs"],[("StableStorage::new_node","storage/stable.rs"),("create_dir_entry","runtime/structure_helpers.rs")],
 ["Metadata.node of created objects"])
p("C21","Removing and shrinking files gives their space back",
 "After files are removed, replaced or truncated, creating and writing the same amount of data again, any number of times, does not increase the memory used by the file system.",
 ["histories","inputs"],"cycles of create, write, shrink, link, rename over, remove with symbolic sizes, comparing memory in use after the first and later cycles",
 "Tests check space reuse for plain removal of a few sizes; a leak on another way of losing the last name is not covered.",
 ["storage/stable.rs","storage/allocator.rs","storage/metadata_provider.rs","runtime/structure_helpers.rs"],
 [("StableStorage::rm_file / resize_file_internal","storage/stable.rs"),("ChunkPtrAllocator::free","storage/allocator.rs"),("MetadataProvider::remove_metadata","storage/metadata_provider.rs")],
 ["sizes of the memories given to the storage"])
p("C22","Stored records decode to what was encoded, in name order",
 "Every persisted record type (metadata, directory entry, header, file name, chunk) decodes from its encoded bytes to an equal value, for all field values. Name comparison is a total order consistent with equality and with byte-wise comparison of the names.",
 ["inputs"],"all field values (64-bit numbers, optional fields, types) and all names up to a bounded length",
 "The tests round-trip one or two values.",
 ["storage/types.rs"],[("Storable for Metadata, DirEntry, Header, FileName, FileChunk","storage/types.rs"),("Ord for FileName","storage/types.rs")],
 ["to_bytes / from_bytes / cmp of the public record types"])
p("C23","Vectored transfers equal one transfer of the concatenation",
 "Writing a list of buffers has the same effect and result as writing their concatenation at the same position, and if a buffer would end above the size limit exactly the whole buffers before it are stored and the cursor stays; reading into a list of buffers fills them with the same bytes, count and cursor as one read of their total length, for all buffer lengths including empty ones and at the end of file.",
 ["inputs"],"all lengths of up to three buffers, all offsets and sizes, cursor, positional and append variants",
 "Tests use two or three fixed splits.",
 ["fs.rs"],[("FileSystem::read_vec, write_vec, read_vec_with_offset, write_vec_with_offset","fs.rs")],
 ["vectored operations compared with plain ones"])
p("C24","Directory listings are complete, ordered and resumable",
 "Listing a directory yields every entry exactly once with its right name, node and type, preceded by '.' and '..' when asked for from the start; listing again from the index of any entry yields exactly that entry and those after it, also after entries were removed and added.",
 ["histories","inputs"],"all short histories of adding and removing entries, resumption at any symbolic index",
 "Tests list fixed directories from the start or one index.",
 ["storage/stable.rs","storage/transient.rs","runtime/structure_helpers.rs"],[("with_direntries / new_direntry_index","storage/stable.rs")],
 ["FileSystem::with_direntries, get_direntry"])
p("C25","Storage settings never affect data already stored",
 "The chunk size can be changed only while nothing is stored and is otherwise refused with no effect, and is remembered across upgrades. Changing the default chunk format affects new files only: existing files of either format stay readable, writable and resizable with correct contents side by side.",
 ["configurations","histories","inputs"],"every pair of chunk sizes and formats, set before or after data exists, symbolic writes before and after, upgrade in between",
 "Tests switch format in one or two scenarios with fixed content.",
 ["storage/allocator.rs","storage/stable.rs"],[("ChunkPtrAllocator::set_chunk_size","storage/allocator.rs"),("StableStorage::use_v2 / set_chunk_type","storage/stable.rs")],
 ["Storage::set_chunk_size, chunk_size, set_chunk_type, then read"])
p("C26","No argument makes the library trap",
 "No call of the file-system API with any descriptor number, offset, length, size, delta, flags, path or renumbering target, in any reachable state, panics; invalid arguments are answered with an error.",
 ["inputs","histories"],"all values of numeric arguments over their full range and short arbitrary paths, one to three calls from representative states",
 "A panic hides at a single argument value (overflow, boundary of the last chunk, reserved descriptor) that examples do not hit.",
 ["fs.rs","runtime/fd.rs","runtime/file.rs","storage/stable.rs","storage/ptr_cache.rs"],
 [("argument checks across the API","fs.rs"),("ChunkV2Iterator::next unwrap, FdTable::open assert","storage/chunk_iterator.rs")],
 ["every public FileSystem operation"])
p("C27","Data stored by earlier versions of the library stays available",
 "A persistent memory written by an earlier version of the library opens with the names, nodes, contents, sizes, times, limits and links it holds, and every operation on it behaves as on data written by the current version, leaves the rest as it was and survives further upgrades. This covers metadata of files, folders and mounted files kept in the earlier metadata maps and encoded without newer fields, directory entries without a recorded type and without an entry in the name lookup map, files without a recorded chunk format, and the earlier allocator marker.",
 ["histories","inputs"],"memories in the earlier layouts with symbolic sizes, times and content, then every kind of operation",
 "The unit tests decode single old records; whole memories of older versions are only exercised by one canister upgrade test.",
 ["storage/metadata_provider.rs","storage/stable.rs","storage/allocator.rs","storage/types.rs","runtime/structure_helpers.rs"],
 [("MetadataProvider::get_metadata / put_metadata / remove_metadata","storage/metadata_provider.rs"),("find_entry_index slow search","runtime/structure_helpers.rs"),("StableStorage::use_v2 / chunk type of files without one","storage/stable.rs"),("ChunkPtrAllocator::new marker","storage/allocator.rs")],
 ["FileSystem over StableStorage::new_with_memory_manager on the prepared memories"])
p("C28","A file system uses only the memories it was given",
 "A file system over a range of memories of a shared memory manager reads, writes and grows only memories of that range: no operation changes the size or content of any other memory of the manager, so that several file systems and other stable structures of one canister live side by side, also across upgrades, wherever the range lies.",
 ["configurations","histories","inputs"],"two file systems and a foreign memory in one manager, any operation with symbolic arguments in one of them",
 "Tests use one file system in one manager.",
 ["storage/stable.rs"],[("StableStorage::new_with_memory_manager","storage/stable.rs")],
 ["FileSystem API of the other file system, Memory::size and read of the other memories"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
