NA = {}
K6 = {"c16_limit": 6, "c16_limit_v1": 6, "c16_limit_transient": 6, "c16_mounted": 4, "c16_mounted_transient": 4, "c16_max": 2, "c16_max_v1": 2, "c16_max_transient": 2}

prop("C01", ["c01_two_writes", "c01_overwrite", "c01_cursor", "c01_chunk_sizes", "c01_sparse", "c01_evict", "c01_full", "c01_big", "c01_far"], ["c01_sparse_deep"],
     bounds="2-3 writes and 1-2 reads of symbolic content, length (up to 40000 bytes, 2.4 chunks) and offset (any byte of 3 chunks; sparse: any byte of chunks 0, 100, 101, 1024), positional or through the cursor, 16 KiB chunks; writes, resizes and removal around the overflow of the pointer cache (10000 pointers); one write or read of 1030 chunks of 4096 bytes, with short writes in it; all 5 chunk sizes with lengths up to chunk+1000; two writes and a read with one at 2^31, 2^32 or 2^40 bytes; every position compared",
     deep="sparse offsets over 7 chunk numbers around the pointer cache window (0, 99, 100, 101, 300, 1024, 1025)")
prop("C02", ["c02_two_writes", "c02_overwrite", "c02_sparse", "c02_big", "c02_far"], ["c02_two_writes_deep", "c02_overwrite_deep", "c02_sparse_deep"],
     bounds="2 writes and 1-2 reads, symbolic content, length (up to 5000 bytes) and offset (any byte of 2 chunks of 4096; sparse chunks 0, 7, 256), legacy format; one write or read of 1030 chunks; two writes and a read with one at 2^31, 2^32 or 2^40 bytes",
     deep="3 chunks, 9000 bytes, 3 writes, sparse chunks 0, 1, 7, 255, 256")
prop("C03", ["c03_two_writes", "c03_resize", "c03_rewrite", "c03_limit", "c03_big", "c03_far", "c03_far_cut"],
     bounds="in-memory storage: 2 writes and a read, write and 2 resizes, write/shrink or truncate/write/read, write/limit/write; symbolic content, length up to 9000 bytes, offsets and sizes any byte of 3-4 chunks of 4096; one write or read of 1030 chunks; writes, a read and resizes at 2^31, 2^32 or 2^40 bytes")
prop("C04", ["c04_transfers", "c04_store", "c04_store_v1", "c04_store_transient", "c04_init", "c04_init_v1", "c04_init_transient", "c04_remount", "c04_two", "c04_long", "c04_long_v1", "c04_long_transient", "c04_far", "c04_far_transient"], ["c04_transfers_transient"],
     covers={"c04_transfers": 3, "c04_transfers_transient": 3, "c04_store": 3, "c04_store_v1": 3, "c04_store_transient": 3, "c04_far": 2, "c04_far_transient": 2},
     bounds="mount, write, resize, read, store, initialise, unmount, remount in the histories of harness/src/props/mount.rs; symbolic content, offsets, lengths and sizes over 2 pages of the memory; default, legacy and in-memory host; transfers at 2^31 and 2^32 bytes of the memory",
     deep="in-memory host storage with the long transfer history")
prop("C05", ["c05_resize", "c05_resize_v1", "c05_rewrite", "c05_rewrite_v1", "c05_sizes", "c05_rewrite_sizes", "c05_legacy", "c05_truncate", "c05_sparse", "c05_far", "c05_far_v1"],
     ["c05_rewrite_v1_deep", "c05_sizes_deep", "c05_rewrite_sizes_deep"],
     bounds="write, 2 resizes, probe; write of 2-3 chunks, resize, write, probe or read; truncate on open with a second descriptor; symbolic content, lengths, sizes and offsets over 3-4 chunks; default format with all 5 chunk sizes, legacy format, files without a recorded format; a sparse file of 3000 chunks cut at any byte of chunks 0, 1, 101, 1025 and grown again, in both formats, also after an upgrade; a file reaching 2^31, 2^32 or 2^40 bytes cut and grown near its ends",
     deep="longer writes and wider offsets")
prop("C06", ["c06_two_files", "c06_high", "c06_two_files_v1", "c06_transient", "c06_remove", "c06_remove_v1", "c06_give_back", "c06_give_back_v1"], ["c06_two_files_deep", "c06_transient_deep", "c06_remove_deep"],
     bounds="two or three files, write/resize/truncate/remove of one between writes to the other; symbolic content, offsets (2 chunks) and lengths (chunk + 100); every position of the other file and all of its metadata compared; also for files numbered 2^n - 1 and 2^n, n = 8, 16, 24, 32, 48",
     deep="a further operation in each history")
prop("C07", ["c07_reuse", "c07_reuse_v1", "c07_reuse_transient", "c07_reuse_sizes", "c07_grow", "c07_give_back", "c07_give_back_v1"],
     ["c07_reuse_deep", "c07_reuse_v1_deep", "c07_reuse_transient_deep", "c07_reuse_sizes_deep", "c07_grow_deep"],
     bounds="file of up to 2 chunks removed, shrunk or truncated, then a new file with a partial write over 3 chunks and a resize, then every position; chunk sizes 4K, 16K, 64K, legacy, in-memory",
     deep="two partial writes, all chunk sizes")
prop("C16", list(K6), covers=K6,
     bounds="write, limit, then a write at any 64-bit offset (legacy: 3 chunks), a resize to any 64-bit size or another limit of any 64-bit value; mounted memory with limit up to 140000 bytes; writes and sizes around the maximum file size; three storages",
     note="Single-buffer writes; a vectored write that meets the limit is C23.")
prop("C23", ["c23_write", "c23_write_v1", "c23_write_transient", "c23_read", "c23_read_v1", "c23_read_transient", "c23_limit", "c23_limit_v1", "c23_limit_transient", "c23_many", "c23_many_v1", "c23_many_transient"],
     covers={**{x: 2 for x in ["c23_write", "c23_write_v1", "c23_write_transient", "c23_read", "c23_read_v1", "c23_read_transient"]}, **{x: 4 for x in ["c23_limit", "c23_limit_v1", "c23_limit_transient"]}},
     bounds="3 buffers of symbolic length (0 to 2500..6000) and content, cursor, positional and append variants, symbolic cursor and offset over 1-2 chunks, three storages; 6 buffers of 0 to 4 bytes")
prop("C25", ["c25_chunk_size", "c25_mixed"], ["c25_mixed_deep"], covers={"c25_chunk_size": 3},
     bounds="every pair of chunk sizes set before or after an upgrade, before or after a directory, a file or data exists; two files of different formats with writes, resize and upgrade, symbolic contents and offsets over 2 chunks",
     deep="longer writes and one more operation")
S3 = lambda b: [b, b + "_v1", b + "_transient"]
prop("C09", ["c09_seek", "c09_seek_transient", "c09_transfers", "c09_transfers_transient", "c09_refused", "c09_far", "c09_far_transient"], ["c09_transfers_v1", "c09_seek_deep"],
     covers={"c09_far": 2, "c09_far_transient": 2, **{x: 2 for x in ["c09_seek", "c09_seek_transient", "c09_seek_deep"]}, **{x: 4 for x in S3("c09_transfers")}},
     bounds="two seeks by any 64-bit delta from any position of a file of any size up to 3 chunks, then a read; two transfers (read, write, positional read, positional write, append or not) of up to 2000 bytes at any offset of 2 chunks with a second descriptor on the file; a refused write; appends and transfers at 2^31 and 2^32 bytes",
     deep="three seeks, legacy format")
prop("C10", ["c10_table", "c10_table_transient", "c10_reopen", "c10_many"], ["c10_table_deep"],
     covers={"c10_table": 6, "c10_table_deep": 6, "c10_table_transient": [1, 2, 3, 5, 6]},
     bounds="five files and folders, open/close/renumber with any 32-bit descriptor numbers, then what every number refers to; re-use of numbers after close; 90 descriptors",
     deep="one more operation")
prop("C18", S3("c18_rights"), covers={x: 3 for x in S3("c18_rights")},
     bounds="every right set given on open or by set_stat (64 symbolic bits), then every data operation; three storages",
     note="Truncation by open() is not counted as an operation of a descriptor.")
prop("C19", ["c19_flags", "c19_flags_transient", "c19_below"], covers={"c19_flags": 5, "c19_flags_transient": 5, "c19_below": 3},
     bounds="every combination of the four open flags on an absent name, file, folder, mounted file and file in a folder; paths through files and absent folders")
prop("C26", ["c26_numbers", "c26_numbers_v1", "c26_numbers_transient", "c26_edges", "c26_edges_transient", "c26_paths", "c26_paths_transient", "c26_utf8", "c26_stale"],
     ["c26_edges_v1", "c26_pairs", "c26_paths_deep"],
     bounds="every call of the public API with any descriptor, offset, size, delta, index, time, rights and flags (64-bit symbolic) in a small tree with a mounted file; sizes, limits and cursors around 0, the pointer cache, 4 GiB, the maximum file size and beyond it, then every transfer; every path operation with any ASCII text of up to 3 bytes and any two characters of 1 to 4 bytes in UTF-8; operations on descriptors whose object went away; afterwards a file can still be created, written, read and removed",
     deep="two numeric calls in a row, legacy format, text of 4 bytes",
     note="Excludes metadata of nonsense passed to set_metadata, and exhaustion of a mounted memory.")
prop("C11", ["c11_resolve", "c11_resolve_transient", "c11_six_transient", "c11_effects", "c11_effects_transient", "c11_utf8"], ["c11_eight_deep", "c11_resolve_deep", "c11_effects_deep"],
     covers={x: 3 for x in ["c11_resolve", "c11_resolve_transient", "c11_six_transient", "c11_effects", "c11_effects_transient", "c11_utf8", "c11_eight_deep", "c11_effects_deep", "c11_resolve_deep"]},
     bounds="any ASCII text of up to 4 (in-memory storage: 6) bytes as a path for lookup, of up to 3 (4) bytes for creation, removal, rename and link, from the root or from an open folder of a tree of 4 objects, compared with an independent walk over the bytes; the same for two or three characters of 1 to 4 bytes in UTF-8",
     deep="5 (in-memory: 8) bytes for lookup, 4 bytes for changes")
prop("C12", ["c12_ops", "c12_long", "c12_ops_transient", "c12_three_transient", "c12_unicode", "c12_unicode_transient", "c12_again", "c12_again_transient", "c12_high"], ["c12_ops_deep", "c12_three_deep"],
     covers={"c12_ops": 5, "c12_ops_transient": 5, "c12_three_transient": 5, "c12_long": [1, 2, 3, 5], "c12_high": [1, 2, 3, 4, 5], "c12_again": [1, 2, 3, 6], "c12_again_transient": [1, 2, 3, 6], "c12_ops_deep": 5, "c12_three_deep": 5},
     bounds="from a tree with a folder, a file in it and a file: two (in-memory: three) of create, mkdir, remove file, remove folder on paths of one or two symbolic letters, then lookup of any such path and full comparison with a model tree; names of two letters with one operation; the entry made last renamed away, removed or removed recursively and one operation in its place; folders whose entry numbers have reached 2^8, 2^16, 2^24, 2^31 or nearly 2^32; names of any character of two bytes in UTF-8",
     deep="all names of the starting tree symbolic too; three operations")
prop("C13", ["c13_moves", "c13_moves_transient", "c13_dirs", "c13_dirs_transient", "c13_two_transient", "c13_mounted", "c13_mounted_transient", "c13_high", "c13_many"], ["c13_deep", "c13_two_deep"],
     covers={"c13_mounted": 2, "c13_mounted_transient": 2, **{x: 3 for x in ["c13_moves", "c13_moves_transient", "c13_dirs", "c13_dirs_transient", "c13_two_transient", "c13_high", "c13_deep", "c13_two_deep"]}},
     bounds="tree of 3 files (one with two names, symbolic content), 2 folders, one file possibly open: rename or hard link of any path of 1-2 symbolic letters to any other, relative to the root or an open folder; two such operations on the in-memory storage; two links, renames or removals around a mount; one such operation in folders whose entry numbers have reached 2^8 ... 2^32; 300 names of one file; then names, nodes, link counts, sizes and content of everything",
     deep="paths of 3 letters; two operations on the persistent storage")
prop("C14", ["c14_refused", "c14_refused_transient", "c14_three_transient", "c14_names", "c14_many"], ["c14_refused_deep"],
     covers={"c14_refused": 7, "c14_refused_transient": 7, "c14_three_transient": 7, "c14_refused_deep": 7, "c14_names": 2},
     bounds="the same tree with any one object open or mounted: create, mkdir, remove, remove recursively, link and rename with paths of 1-2 (in-memory: 3) symbolic letters; the result compared with a model, and after a refusal everything observable compared with before; names around the maximum length and paths through files; an object open 300 times",
     deep="paths of 3 letters")
prop("C15", ["c15_lookups", "c15_lookups_transient", "c15_again_transient", "c15_text", "c15_text_transient", "c15_evict", "c15_evict_transient"], ["c15_spelling", "c15_two_transient_deep", "c15_two_deep"],
     bounds="all names of the tree looked up (through the root and an open folder, in 6 spellings on the in-memory storage), then one operation of any kind on paths of 1-2 symbolic letters, then every lookup again and of any other path; any ASCII text of up to 3 (in-memory: 4) bytes looked up after any other; the same with 90 and 110 further names looked up in between (the cache holds 100); removal followed by re-creation with lookups in between",
     deep="6 spellings on the persistent storage; two operations of any kind")
prop("C24", ["c24_listing", "c24_listing_transient", "c24_two_transient", "c24_many", "c24_high"], ["c24_names_deep", "c24_two_deep"],
     covers={x: 4 for x in ["c24_listing", "c24_listing_transient", "c24_two_transient", "c24_names_deep", "c24_two_deep"]},
     bounds="a folder of 3 entries next to another folder, one (in-memory: two) of remove, add, rename, then listings from the start, from any 32-bit index, entry by entry, and stopped early; a folder of 260 entries; folders whose entry numbers have reached 2^8 ... 2^32",
     deep="symbolic names; two changes")
prop("C08", ["c08_one", "c08_one_v1", "c08_two", "c08_two_v1"], ["c08_two_deep", "c08_two_v1_deep", "c08_three_deep"],
     bounds="two file systems over disjoint persistent memories run the same history, one is re-created after every operation: one of 19 operations (write, resize, truncate, create, mkdir, remove, remove recursively, rename, link, times, limit, metadata, mounts) and then one of 8; symbolic content, lengths, offsets and times over 2-3 chunks; results, every name, attribute, the content at any position, then memory pages and node numbers of further work are equal; default and legacy format",
     deep="any two, and three of 8, operations")
prop("C17", ["c17_set", "c17_set_v1", "c17_set_transient", "c17_mounted", "c17_mounted_transient", "c17_many"],
     covers={**{x: 7 for x in S3("c17_set")}, "c17_many": 2},
     bounds="every setter with any 64-bit value on a file, its second name, a file in a folder, a folder or the root; every other attribute, descriptor and content of every object compared, also after an upgrade; setters while the metadata cache (1000 objects) fills and overflows; two setters on a mounted file, unmounted, upgraded and mounted again")
prop("C20", ["c20_numbers", "c20_numbers_transient", "c20_high"], ["c20_three_deep"],
     covers={"c20_high": 2, **{x: 5 for x in ["c20_numbers", "c20_numbers_transient", "c20_three_deep"]}},
     bounds="two (in-memory: three) of create, mkdir, remove, remove recursively, rename, link, upgrade, mount with any one-letter name, from a tree of 5 objects with a second name; numbers, types and creation times of all objects compared after every step, through names and descriptors; a smaller history from numbers around 2^8, 2^16 ... 2^62",
     deep="three operations on the persistent storage")
prop("C21", ["c21_space", "c21_space_v1", "c21_small", "c21_list"],
     covers={x: 10 for x in ["c21_space", "c21_space_v1", "c21_small"]},
     bounds="ten ways to fill and give up a file (remove, truncate, cut at any size, replace by rename or link, several names, recursive removal, mounting in between, refused removal, folders) with a symbolic offset, length and size over 2 chunks, repeated 3 (16 KiB chunks: 6) times with or without upgrades; pages of every memory and records of every map compared; the list of free chunks around the end of its first page (8176)")
prop("C22", ["c22_metadata", "c22_entry", "c22_header", "c22_name", "c22_too_long", "c22_chunk", "c22_type", "c22_order", "c22_order_deep", "c22_order_long", "c22_order_any"],
     covers={"c22_order": 3, "c22_order_deep": 3, "c22_type": 2},
     bounds="any two fields of metadata and every field of directory entries and headers any value, names of up to 255 bytes of any content, chunks of any content; comparison of any two names of up to 6 bytes and of six pairs of lengths up to 255, and of names of up to 255 bytes differing at any place or in length")

prop("C27", ["c27_names", "c27_content", "c27_mounted"], ["c27_names_deep"],
     covers={"c27_content": 6, "c27_mounted": 2},
     bounds="memories written record by record in three earlier layouts (metadata and mounted metadata in their maps, encoded without the newer fields; entries without type, with the former links and without the name map; the earlier allocator marker), symbolic times, size and content up to 2 chunks: every lookup, listing and attribute, one operation of any kind on paths of 1-2 symbolic characters, one write, resize, time, limit or mount, then everything again and after an upgrade",
     deep="two operations",
     note="The mounted metadata of the former cache journal, a compiler-dependent image of memory, is not encoded.")
prop("C28", ["c28_neighbours"],
     bounds="two file systems and a foreign memory in one manager at five places of its index range, one of 19 operations with symbolic arguments and an upgrade in one of them; the other one's names, attributes and content, the foreign memory at any position and the size of every memory outside the range compared")
