#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

FS, ST, CH, ND, DT, LIB = ("src/store/filesystem.rs", "src/storage.rs", "src/chunk.rs",
                           "src/ndarray.rs", "src/data_type.rs", "src/lib.rs")
COMP = ["src/compression/mod.rs", "src/compression/raw.rs", "src/compression/gzip.rs",
        "src/compression/bzip.rs", "src/compression/xz.rs", "src/compression/lz.rs"]

p("C01", "Acknowledged chunks read back exactly",
  "After a chunk write reports success, every read of that chunk, through any handle, any later reopening and any reused buffer, returns exactly the written elements at that position until a later successful write or deletion of that chunk, and a chunk never written (or deleted) reads as missing. This holds for every element type, byte order, dimensionality, chunk size, separator and codec setting, and however the storage splits or interrupts its transfers.",
  ["histories", "inputs", "fault_sequences"],
  "every history of chunk writes, overwrites, deletions, reads and reopenings over several arrays, every metadata combination, every pattern of short and interrupted reads and writes",
  "the tests write one chunk once with default codec settings and full transfers; overwriting by shorter values, reused buffers, big-endian types, chunks crossing buffer and codec-block boundaries and short transfers are never combined",
  [CH, ST, FS] + COMP,
  [("chunk encode/decode", CH + ": DefaultChunkReader, DefaultChunkWriter, vec_data_chunk_impl"),
   ("chunk keys", ST + ": get_chunk_key"), ("store get/set", FS + ": ReadableStore::get, WriteableStore::set"),
   ("codecs", "src/compression/*: encoder, decoder")],
  [("chunk value", "encoded elements of one chunk", FS + ": data/root/<node>/c<i>/<j>...")],
  ["HierarchyReader::read_chunk", "HierarchyReader::read_chunk_into", "HierarchyWriter::write_chunk", "HierarchyWriter::delete_chunk"])

p("C02", "Success means stored: write faults are never swallowed",
  "If the storage rejects any part of a mutating operation (full disk, I/O error, failed open, lock, directory creation or removal), the operation reports an error; whenever a chunk write, region write, node creation, attribute update, deletion, removal or hierarchy creation reports success, its complete effect is stored and seen by every later reader. No storage failure makes an operation panic or abort.",
  ["fault_sequences", "histories", "inputs"],
  "every mutating operation, every codec and value size, a failing system call (or a disk filling up) at every point inside it",
  "no existing test injects an I/O error; errors raised while buffered and compressed data are being flushed only appear at particular byte counts",
  [ST, CH, FS] + COMP,
  [("encoder completion", CH + ": DefaultChunkWriter::write_chunk"), ("flush of buffered values", FS + ": WriteableStore::set"),
   ("codec finish on drop", "src/compression/lz.rs: Wrapper")],
  [], ["Result of every HierarchyWriter method", "FilesystemHierarchy::open_or_create"])

p("C03", "A failed or rejected write leaves earlier data intact",
  "When a write of a chunk, node metadata or attribute set reports an error - because the storage failed part way or because the data was rejected (wrong element type or count, or a caller's chunk type that fails to deliver it) - the value previously stored under that name, or its absence, is still what readers see, and every other value is untouched. Retrying the operation once the fault is gone succeeds.",
  ["fault_sequences", "histories", "inputs"],
  "every mutating operation on a populated hierarchy, a failing system call at every point inside it, every rejected argument, followed by a retry",
  "tests only check that an error is returned for a short chunk, never what became of the chunk already stored, and never inject faults",
  [FS, ST, CH], [("replacement of values", FS + ": WriteableStore::set"), ("argument validation", CH + ": DefaultChunkWriter::write_chunk, check_array_type")],
  [], ["read_chunk, get_array_metadata, list_attributes after the failure"])

p("C04", "A killed process leaves every value whole",
  "If a process is killed at any instant during any operation, then after restart the hierarchy opens, every chunk and every node's metadata is either entirely its old or entirely its new value, all values not being written are unchanged, and the interrupted operation can be repeated successfully. Everything acknowledged before the kill is still there.",
  ["crash_points", "histories"],
  "every system-call boundary (and partial write) inside every mutating operation, with other processes' or threads' operations in flight",
  "no test kills a process; the damage windows (after truncation, between two partial writes, between creation and first write) are single system calls wide",
  [FS, ST], [("replacement of values", FS + ": WriteableStore::set"), ("bootstrap", FS + ": open_or_create")],
  [], ["FilesystemHierarchy::open / open_or_create and all reads after restart"])

p("C05", "Operations on one chunk are linearizable",
  "Concurrent writes, reads and deletions of one chunk, from threads sharing a handle or from separate handles or processes, behave as if executed one at a time in an order consistent with real time: a read returns one complete written value or missing, never a mixture, a truncated or a stale value, and none of these operations fails merely because another one is running.",
  ["schedules", "histories"],
  "every interleaving, at system-call granularity, of several clients' chunk writes, reads and deletes on one chunk, with partial writes and partial reads in between",
  "no test runs two operations concurrently; the races are a few system calls wide",
  [FS, ST], [("advisory locks", FS + ": lock_shared, lock_exclusive"), ("replacement of values", FS + ": WriteableStore::set"), ("deletion", FS + ": erase")],
  [], ["results of read_chunk, write_chunk, delete_chunk"])

p("C06", "Parallel work on distinct chunks and arrays never interferes",
  "Any number of threads or processes writing, reading, deleting and creating distinct chunks and distinct nodes in parallel all succeed, and afterwards every chunk, array and group holds exactly what its own client last put there. A listing taken meanwhile contains every node that existed throughout and none that never existed.",
  ["schedules", "histories"],
  "every interleaving of several clients working on disjoint chunks and nodes that share directories, including first-time directory creation",
  "parallel writing is only exercised by a benchmark that is not run and checks nothing",
  [FS, ST, "benches/parallel_write.rs"], [("directory creation", FS + ": WriteableStore::set"), ("listing", FS + ": list_dir")],
  [], ["final contents through a fresh handle", "list_nodes during the run"])

p("C07", "Opening and creating a hierarchy is race-free and crash-safe",
  "Any number of processes or threads that open-or-create the same path concurrently all succeed with equivalent handles; an existing hierarchy, whatever its entry-point settings, is never altered or replaced by opening it, even under read faults; and a creator killed at any instant never prevents a later open-or-create from succeeding. Plain open never creates anything and fails cleanly when there is no complete hierarchy or its version or a required extension is unsupported.",
  ["schedules", "crash_points", "fault_sequences"],
  "every interleaving of openers and creators, every kill point and every single fault during creation",
  "tests create one hierarchy at a time in a fresh directory",
  [FS], [("bootstrap", FS + ": FilesystemHierarchy::open_or_create, read_entry_point_metadata")],
  [("entry point", "zarr.json: format version, metadata suffix, extensions", FS + ": ENTRY_POINT_KEY")],
  ["Result of open/open_or_create", "zarr.json contents"])

p("C08", "Region reads and writes agree with a dense array",
  "Over any history of region writes, chunk writes, chunk deletions and reopenings, reading any box of an array returns, cell by cell, the value most recently written there and the array's fill value where nothing was written, for both memory layouts, any rank including zero, boxes not aligned to chunks and boxes partly or wholly outside the array. Writing a region changes no cell outside it, and no box, however placed, causes a panic.",
  ["histories", "inputs", "fault_sequences"],
  "every history of overlapping region writes and reads on arrays of every rank, chunking, layout, type, codec and fill value, through reused buffers and views of either order, with short and interrupted transfers",
  "tests write one aligned-origin region once and read it back; partial overwrites of existing chunks, fill values, boundary chunks, row-major arrays and out-of-range boxes are not combined",
  [ND, CH, ST], [("region read", ND + ": read_ndarray, read_ndarray_into_with_buffer"), ("region write", ND + ": write_ndarray"), ("chunk enumeration", ND + ": bounded_coord_iter")],
  [], ["read_ndarray, read_ndarray_into, write_ndarray, read_chunk"])

p("C09", "Interrupted region writes damage nothing",
  "If a region write fails or its process is killed part way, every chunk afterwards holds either its complete old or its complete new content, no cell outside the region has changed, and repeating the write completes it. Concurrent region writes that share no chunk all take full effect.",
  ["crash_points", "fault_sequences", "schedules"],
  "every fault and kill point inside multi-chunk region writes that mix full and partial chunks, and every interleaving of region writes over disjoint chunks",
  "no test interrupts a region write or runs two at once",
  [ND, ST, FS], [("read-modify-write of partial chunks", ND + ": write_ndarray")],
  [], ["read_ndarray after the failure or restart"])

p("C10", "Attributes behave as one durable top-level map",
  "After any history of attribute updates on any nodes, the attributes read from a node are exactly the top-level merge, in order, of the successful updates since the node was created; an update to one node changes no other node, no other metadata and no chunk. Values of any JSON shape survive reopening.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of set_attribute/set_attributes/list_attributes over groups and arrays with reopenings and short or interrupted transfers",
  "one fixed sequence on one group is tested, without checking the rest of the metadata",
  [ST], [("merge", ST + ": set_attributes, merge_top_level"), ("read", ST + ": list_attributes")],
  [], ["list_attributes, get_array_metadata"])

p("C11", "Concurrent updates of one node's metadata are serialised",
  "Concurrent creations of the same node and concurrent attribute updates of the same node behave as if executed one at a time: of several creators of one array exactly one succeeds, every acknowledged attribute update is retained, and a concurrent reader sees one complete state, never an error or torn metadata.",
  ["schedules", "histories"],
  "every interleaving of create_array, create_group, set_attributes, list_attributes and get_array_metadata calls of several clients on one node",
  "no test runs two metadata operations concurrently",
  [ST, FS], [("read-modify-write", ST + ": set_attributes"), ("check-then-create", ST + ": create_array, create_group")],
  [], ["results of the calls and the final metadata"])

p("C12", "Existence and listing reflect exactly the node history",
  "After any history of creations and removals, a path exists as array or group exactly when it was successfully created and not removed since; creating over an existing node of conflicting kind is refused and changes nothing; and listing a group returns each child node once, by its name, whatever order the storage enumerates entries in, with no stray entries. Equivalent spellings of a path (leading, trailing or doubled slashes) name the same node.",
  ["histories", "inputs", "schedules"],
  "every sequence of create/remove/list/exists over trees of nodes whose names may contain dots, be prefixes of each other or resemble internal names, with every directory enumeration order and entry-point suffix",
  "listing is tested only for one symlinked directory; listing of created arrays or groups is never tested",
  [ST, FS, LIB], [("listing", ST + ": list_nodes"), ("keys", LIB + ": Hierarchy::array_metadata_key, group_metadata_key"), ("enumeration", FS + ": list_dir")],
  [], ["exists, array_exists, list_nodes, create_*"])

p("C13", "Removal is complete and confined",
  "After removing a node reports success, that node, all its descendants, their attributes and chunks are gone, recreating any of them starts empty, and no other node - in particular none whose name merely starts with the removed one's - has changed; removing the root empties the hierarchy while keeping it usable. If a removal fails or is killed part way, nodes outside it are untouched and repeating it completes it.",
  ["histories", "fault_sequences", "crash_points"],
  "every tree of nodes and every removal in it, with a failing call or kill at every point of the removal",
  "tests remove one array and never check what remains",
  [ST, FS], [("removal", ST + ": HierarchyWriter::remove, remove_all"), ("prefix erasure", FS + ": erase_prefix")],
  [], ["exists, list_nodes, read_chunk after removal"])

p("C14", "No path name reaches outside the hierarchy's directory",
  "Whatever node path or key a caller supplies - absolute, with parent references anywhere in it, empty or repeated components - no operation opens, lists, creates, changes or removes any file or directory outside the hierarchy's base directory; such a call fails instead.",
  ["inputs", "histories"],
  "every operation with every path built from normal, '.', '..', empty and absolute components, on hierarchies with populated surroundings",
  "one unit test checks six fixed strings on an internal function",
  [FS, LIB], [("path check", FS + ": get_path"), ("key construction", LIB + ": canonicalize_path")],
  [], ["simulated file system outside the base directory"])

p("C15", "Corrupted storage is reported, never misread or fatal",
  "If stored bytes of a chunk were truncated, or altered under a codec that carries a checksum, reading it reports an error or returns exactly the original elements; if stored metadata or the entry point was altered or truncated, reading reports an error or yields well-formed metadata. Corruption never causes a panic or hang and never affects reading of other values.",
  ["fault_sequences", "inputs"],
  "every truncation length and bit flip or overwritten byte at every offset of stored chunks (all codecs), node metadata and entry points, followed by every reading operation",
  "tests only read well-formed data",
  [CH, DT, ST, FS] + COMP, [("decoding", CH + ": DefaultChunkReader"), ("metadata parsing", DT + ": DataTypeVisitor"), ("metadata parsing", ST + ": get_array_metadata")],
  [], ["read_chunk, read_ndarray, get_array_metadata, list_attributes, open"])

p("C16", "Reading never modifies storage",
  "Opening an existing hierarchy and any reading operation - metadata, existence, attributes, listing, chunk and region reads, including of missing things and under faults - leaves every stored byte and directory entry as it was, and works identically on storage that rejects all modification.",
  ["histories", "fault_sequences", "configurations"],
  "every sequence of reading operations on every populated hierarchy, on writable and on read-only storage, with read faults",
  "tests never compare the storage before and after reading and never use read-only storage",
  [FS, ST], [("read path", FS + ": open, ReadableStore::get, exists, list_dir")],
  [], ["disk image before and after"])

p("C17", "Operations terminate and release every lock and handle",
  "Every operation, successful, failing or racing with others, completes once the readers it must wait for finish or die - no schedule deadlocks or livelocks - and when it returns it holds no file lock and no open file. A lock held by a killed process never blocks others. A reader that a caller keeps delivers the complete value it was opened on; while it keeps the stored file open, deletions of that value wait for it, and other readers and writers never do.",
  ["schedules", "fault_sequences", "crash_points"],
  "every interleaving of mixed operations (including removals and long-lived readers) of several clients, with faults and kills",
  "tests are sequential, so no lock is ever contended and leaks are invisible",
  [FS], [("locks", FS + ": lock_shared, lock_exclusive, erase, erase_prefix")],
  [], ["simulated lock table and descriptor table; progress of every client"])

p("C18", "Read failures are never reported as absence or data",
  "When the storage fails while something is being looked up or read, the operation reports an error or the true answer: it never reports an existing chunk, node, attribute set or listing entry as missing, never substitutes fill values, and a later step never overwrites existing data because of such a failure.",
  ["fault_sequences", "histories"],
  "every reading or checking step of every operation, a failing system call at every point inside it",
  "no existing test injects an I/O error",
  [FS, ST, ND], [("existence checks", FS + ": exists, get, erase"), ("listing", FS + ": list_dir"), ("array_exists", LIB + ": HierarchyReader::array_exists")],
  [], ["results of reading operations; contents after create_array / write_ndarray / open_or_create under read faults"])

p("C19", "Array metadata survives storage exactly",
  "The metadata read back for an array equals the metadata it was created with - shape, chunking, separator, layout, every element type including raw and extension types, codec and its settings, fill value, extensions and attributes - after any history of attribute updates, reopenings and short or interrupted transfers. An array whose metadata names an extension that must be understood is refused with an error.",
  ["inputs", "histories", "fault_sequences"],
  "every expressible array metadata value, every history of updates and reopenings, every transfer pattern",
  "one fixed metadata document is parsed and one default array is reopened",
  [LIB, DT, ST] + COMP, [("type names", DT + ": Serialize/Deserialize for DataType"), ("metadata", LIB + ": ArrayMetadata"), ("extension check", ST + ": get_array_metadata")],
  [], ["create_array, get_array_metadata, set_attributes"])

p("C20", "Stored data follows the documented format",
  "What a history leaves in storage is readable by an independent implementation: metadata documents with the documented fields at the documented keys, and for each chunk, at the key built from its grid position and separator, exactly the codec stream of all elements in the declared byte order and nothing more. Conversely data laid out that way by another implementation reads correctly.",
  ["histories", "inputs", "fault_sequences"],
  "every array metadata and chunk content, every history of overwrites, every transfer pattern, decoded and encoded by an independent implementation",
  "one fixture in one type, layout and codec is read; six-element chunks are compared for default settings",
  [CH, ST, LIB] + COMP, [("keys", ST + ": get_chunk_key"), ("encoding", CH + ": write_data"), ("metadata", LIB + ": ArrayMetadata, GroupMetadata, EntryPointMetadata")],
  [], ["raw contents of the simulated disk"])

p("C21", "Guarantees do not depend on the storage backend",
  "Hierarchy operations over any conforming key-value backend implement the same node, attribute, chunk and region semantics, list every key exactly once, and report success only if the backend accepted every byte of the value including those delivered when the writer is flushed, whatever transfer sizes, interruptions or errors the backend's readers and writers exhibit.",
  ["histories", "fault_sequences", "inputs"],
  "every history of operations over an in-memory backend whose readers and writers short-transfer, interrupt, buffer and fail at seeded points",
  "only the filesystem backend exists in the tests",
  [ST, CH, ND] + COMP, [("store traits", ST + ": ReadableStore, WriteableStore, ListableStore"), ("blanket implementations", ST + ": HierarchyReader, HierarchyWriter, HierarchyLister for S")],
  [], ["results of hierarchy operations; keys and values in the backend"])

p("C22", "Box and grid arithmetic is exact",
  "Intersection, union and translation of boxes, the grid extent and the set of grid positions of an array agree with their set-theoretic definitions for all in-range coordinates.",
  ["inputs"],
  "every pair of boxes and every shape and chunk shape",
  "a handful of fixed boxes and shapes is tested",
  [ND, LIB], [("boxes", ND + ": BoundingBox"), ("grid", LIB + ": get_grid_extent, in_bounds")])

p("C23", "Type and codec names parse totally and round-trip",
  "Every element type and codec has one textual name that parses back to itself, and every other string is rejected with an error rather than a panic.",
  ["inputs"],
  "every string",
  "a few names are parsed in documentation tests",
  [DT, "src/compression/mod.rs"], [("type names", DT + ": DataTypeVisitor"), ("codec names", "src/compression/mod.rs: FromStr")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
