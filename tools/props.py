LEVEL = "other"

def P(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}

ST = "storage/storage.go"
DR = "storage/data_region.go"
JR = "storage/journal/region.go"
RB = "storage/journal/ring_buffer.go"
NB = "storage/journal/nvm_buffer.go"
RE = "storage/journal/record.go"
JH = "storage/journal/journal_header_region.go"
SN = "nvm/snapnvm.go"

PROPS = [
P("C01", "A failed device operation is never reported as success",
  "If a read, write, seek or sync of the storage device (or of the file behind it) fails with an I/O error while an operation of the store, of its journal, of its data area, of a device view or of a snapshot runs, that operation does not return success: its caller gets a non-nil error, or the process stops with a panic. The error is not swallowed, overwritten by a later success, or replaced by nil on any path. Closing a file and hashing in memory are not device operations in this sense.",
  ["fault_sequences", "inputs"], "every device call of every operation fails in turn, on every path that reaches it",
  "The tests run on devices that never fail; each (call site, failing call) pair is a separate path none of them takes.",
  ["nvm/file.go", "nvm/memory.go", "nvm/header.go", SN, ST, DR, JR, RB, NB, RE, JH, "util/util.go", "block/aligned_bytes.go"],
  [("error returns of every function that calls the device", "nvm/*.go, storage/*.go, storage/journal/*.go"), ("panic of Sync", JR)]),
P("C02", "Concurrent use of a store or device never deadlocks",
  "However operations of one open store, device or snapshot reader are interleaved, no two goroutines wait for each other's locks in a cycle and no goroutine acquires a lock it already holds. Every operation, on every path on which it returns, releases exactly the locks it took. Waiting for background work to stop never happens while a lock is held that the background work needs.",
  ["schedules", "inputs"], "all interleavings of all exported operations and background goroutines, all paths",
  "A deadlock needs a particular interleaving of two operations; the tests are almost all single-threaded.",
  [ST, SN, "nvm/file.go", "storage/allocator/judy_allocator.go", "storage/allocator/allocator.go", "lumpindex/lump_index.go", "util/stopper.go", "cmd/readup/main.go"],
  [("lock order index lock before journal lock", ST), ("RWMutex of the snapshot device", SN), ("allocator mutex", "storage/allocator/judy_allocator.go")]),
P("C03", "Shared state is only touched under the lock that guards it",
  "Any two operations that may run at the same time on one store, device, or snapshot reader, one of which changes a piece of shared mutable memory the other one uses, both hold a common lock while they do so (or use atomic operations), so the program has no data race in its index, journal, allocator, snapshot and open/closed state.",
  ["schedules"], "all pairs of exported operations, including an operation with itself and background goroutines, all paths",
  "The race detector only sees accesses that a test executes concurrently; the tests are almost all single-threaded.",
  [ST, DR, JR, RB, NB, SN, "nvm/file.go", "lumpindex/lump_index.go", "storage/allocator/judy_allocator.go"],
  [("index lock and journal lock", ST), ("device lock", SN), ("allocator lock", "storage/allocator/judy_allocator.go")]),
P("C04", "A closed store rejects every operation and touches nothing",
  "After a store was closed, every operation on it returns the closed error (or its empty result, where it has no error) without touching the index, the journal, the allocator or the device; closing it again does nothing. An operation that overlaps with the close re-checks that the store is open under a lock it keeps, each time it has let go of the locks, before it touches any of them.",
  ["schedules", "histories"], "every exported operation before, during and after Close, on all paths",
  "The window between dropping a lock and taking it again is a few instructions wide; tests close a store only when it is idle.",
  [ST], [("open flag checked under the index or journal lock", ST)],
  [("opened", "the store accepts operations", ST)]),
P("C05", "A successful sync, snapshot or close leaves everything durable",
  "When a sync of the store, the creation of a snapshot, or a close returns normally, every journal record appended before it has left the journal's write buffer and the device has been told to make its data durable afterwards, in that order. Every kind of device passes a sync down to the file it is stored in, for every file that holds data.",
  ["crash_points", "histories"], "every path of sync, snapshot creation and close, every device implementation",
  "Without a crash the page cache hides a missing flush or sync; the tests never crash.",
  [ST, JR, RB, NB, "nvm/file.go", "nvm/nvm_linux.go", SN, "nvm/memory.go"],
  [("Sync of the journal ring: flush, then device sync", RB), ("Sync of the write buffer", NB), ("Sync of the file device", "nvm/file.go")]),
P("C06", "Every change of the index is journaled, and refused changes change nothing",
  "Every operation that adds, replaces or removes a lump appends the matching journal record (same id, same location, same range) and applies it to the index together, under one lock: no path returns having done one without the other, whether it succeeds or fails. An operation that returns an error leaves the lump it was asked to change as it was, and one that returns success has made its change.",
  ["inputs", "fault_sequences", "schedules"], "all mutating operations, all paths including journal-full and device errors",
  "The diverging paths need a full journal or a failing device at one particular call.",
  [ST, JR], [("RecordPut, RecordEmbed, RecordDelete, RecordDeleteRange", JR), ("put, deleteIfExist, PutEmbed, DeleteRange", ST)]),
P("C07", "Data space is neither leaked nor used by two lumps",
  "Space taken from the allocator by an operation is, when the operation ends, either referred to by exactly the lump it was taken for, or given back. Space of a lump is given back exactly once, only after the lump was removed from the index or made to refer to other space under the index lock, and is never read or written by an operation that no longer knows that the lump owns it.",
  ["inputs", "fault_sequences", "schedules"], "all operations, all paths including allocation, device and journal failures and overlapping operations",
  "Leaks need a failure between two steps; double use needs an interleaving; neither is visible in the returned values a test looks at.",
  [ST, DR, JR], [("release of replaced and deleted space", ST), ("release on failed write", DR)]),
P("C08", "Lump data is on the device before a record refers to it",
  "No journal record that refers to a piece of the data area is appended before the complete data of that lump was written to the device at exactly that place without error. Data that could not be written is never referred to.",
  ["crash_points", "fault_sequences"], "all operations that append a record, all paths",
  "Only a crash or a failing write between the two steps shows a wrong order.",
  [ST, DR, JR], [("Put of the data region before RecordPut", ST)]),
P("C09", "Journal garbage collection never loses a live record",
  "A journal record taken from the head of the log for collection is, before its space may be reused, either known to be dead (the index no longer refers to it) or appended again, and the index then refers to the copy. The head of the log in the journal header only moves past records after the copies were flushed, and only to the position of the oldest record still in use.",
  ["histories", "crash_points", "fault_sequences"], "all paths of every collection entry point, including a full log and device errors",
  "Needs a nearly full log, or a crash or error in the middle of a collection.",
  [JR, RB, JH], [("gc queue of the journal region", JR), ("released and unreleased head", RB), ("journal header write", JH)]),
P("C10", "Writer and reader of journal records agree on the format",
  "For every kind of journal record, the bytes its writer emits are exactly the bytes its reader consumes: same tag, same fields, same widths, byte order and positions, and the checksum covers the same bytes on both sides. The size that is announced for a record equals the number of bytes written, for every record, so appending and scanning advance alike. No two kinds of record share a tag.",
  ["inputs"], "all records of all kinds, all field values and payload lengths",
  "Round-trip tests sample a few values; values that use the high bits of a field or other lengths are not tried.",
  [RE, "lump/lump.go", "util/util.go"], [("WriteTo/ReadRecordFrom/ExternalSize of the record types", RE)]),
P("C11", "Damaged records and headers are detected, never used",
  "A journal record is only returned after the checksum stored with it was compared with the checksum of the bytes read and was equal; a superblock or snapshot file is only accepted if its magic number, its version and its structure match. Anything else is reported as an error, and opening a store fails when its journal holds a damaged record instead of serving a partial index.",
  ["inputs", "fault_sequences"], "all byte contents of journal, superblock and snapshot file",
  "The tests damage one or two chosen bytes.",
  [RE, "nvm/header.go", SN, JR, RB], [("checksum test of ReadRecordFrom", RE), ("ReadFrom of the superblock", "nvm/header.go"), ("open of the snapshot file", SN)]),
P("C12", "The superblock round-trips and its regions never overlap",
  "The superblock is read back field by field as it was written: same magic, sizes, order, widths and byte order, at the start of the device. The journal and data regions derived from it start after the superblock, are disjoint, lie in block order without a gap and end within the device the store was created on, for every capacity and journal ratio that is accepted.",
  ["inputs", "configurations"], "all capacities, block sizes and journal ratios",
  "The tests create stores of a handful of sizes.",
  ["nvm/header.go", ST], [("WriteHeaderRegionTo, ReadFrom, SplitRegion", "nvm/header.go"), ("makeHeader", ST)]),
P("C13", "Reopening a store rebuilds exactly the state its journal describes",
  "Replaying the journal applies to the index, for every kind of record, the same change the running store applied when it appended that record, to the same id, location and range, and the position given to embedded data is the same in both. The allocator is rebuilt from the complete index, of the block size and capacity of the store, before the first operation is served, and every lump in the data area is marked as used.",
  ["histories", "crash_points"], "all record kinds and all journals",
  "A test reopens a few short histories; a record kind that is replayed differently shows only for the histories that use it.",
  [JR, ST, "storage/allocator/judy_allocator.go"], [("RestoreIndex", JR), ("OpenCannylsStorage", ST), ("RestoreFromIndex", "storage/allocator/judy_allocator.go")]),
P("C14", "Snapshots are isolated from later writes",
  "While a snapshot exists, a region of the device is overwritten only after its old contents were copied to the snapshot file and recorded there, without error and under the writer's lock; a failed copy fails the write. A snapshot reader gives, for each region, the saved copy if there is one and the current device contents otherwise, and decides that and reads under the lock that excludes writers.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of writes, reads and snapshot operations, all offsets and lengths",
  "Needs a write between the lookup and the read, or a failing copy.",
  [SN], [("copy before write", SN), ("lookup and read of SnapshotReader", SN)]),
P("C15", "A snapshot file is written and reopened consistently",
  "The snapshot file's layout is the same for the code that creates it, adds a region to it, and reopens it: header fields, map entries, and the place of each saved region, in offsets, widths and byte order. A device whose snapshot file exists is reopened with that snapshot active, and its regions found.",
  ["inputs", "histories", "crash_points"], "all region numbers and region sizes",
  "The tests reopen a snapshot of one small size.",
  [SN], [("creation, update and open of the snapshot file", SN)]),
P("C16", "Packed locations and identifiers lose nothing",
  "Every value that fits the documented width survives packing and unpacking: the location of a lump in the data area, the location of embedded data in the journal, 40-bit addresses, and lump identifiers as keys of the index and of the file format. No two different values have the same packed form, and the bits that tell the two kinds of location apart are never overwritten.",
  ["inputs"], "all values of all fields within their widths",
  "The tests pack a few small values; fields that use their top bits are not tried.",
  ["portion/portion.go", "address/address.go", "lump/lump.go", "lumpindex/lump_index.go"], [("packing of portions", "portion/portion.go"), ("Address", "address/address.go")]),
P("C17", "The allocator's two indexes and its counter stay consistent",
  "On every path of allocation and release the free space known by position, the free space known by size, and the count of free blocks change together: every free extent is added to or removed from both indexes with the same start and length, and the counter changes by the number of blocks that are handed out or given back. An allocation hands out no block that is not free.",
  ["inputs", "histories"], "all allocation and release sequences",
  "Tests follow a few sequences; a path that updates only one index shows much later.",
  ["storage/allocator/judy_allocator.go", "storage/allocator/allocator.go"], [("add and delete of free portions", "storage/allocator/judy_allocator.go")]),
P("C18", "A device view never reaches outside its range",
  "A view of a part of a device reads and writes only bytes inside that part, whatever its offset and the length of the access; positions outside it are refused. Splitting a view gives two views that cover it exactly, without overlap. On a device that is a file, accesses that are not aligned to the block size are refused before they reach the file.",
  ["inputs"], "all offsets, positions and lengths",
  "Tests try a few positions, none at the edge of 64 bits.",
  ["nvm/file.go", "nvm/memory.go", "nvm/header.go", SN, "block/block.go", "block/aligned_bytes.go"], [("Split, Seek, Read, Write of the devices", "nvm/file.go, nvm/memory.go")]),
P("C19", "A device is opened exclusively and failed opens leak nothing",
  "A device file that is open in one process or store cannot be opened a second time: the handle the store works with is locked, exclusively and without waiting, before it is read or written and before the device is handed out, and the lock is dropped only by closing the file. Closing a store closes every file below it. Every path of creating or opening a store or device that fails closes what it opened.",
  ["fault_sequences", "configurations"], "all failing points of create and open",
  "A leaked handle is only visible after a failure at one point of the open path.",
  ["nvm/file.go", "nvm/nvm_linux.go", SN, ST], [("lock on open", "nvm/nvm_linux.go"), ("error paths of open and create", "nvm/file.go, storage/storage.go")]),
P("C20", "Offsets and sizes given by callers are checked before they are used",
  "Reads and updates with an offset, and sizes of new lumps, are compared with the size of the lump and the maximum lump size, without arithmetic that wraps around, before they are used to slice memory or to address the device. Data of another lump, or beyond the end of a lump, is never returned or overwritten, and bad arguments give an error, not a panic.",
  ["inputs"], "all offsets, lengths and reservations",
  "Tests try a few offsets; sums near the limit of the type are not tried.",
  [ST, DR, "lump/lump.go"], [("GetWithOffset, Update, PutWithOffset", "storage/data_region.go, storage/storage.go")]),
P("C21", "The HTTP service acknowledges only what is durable and answers everything",
  "The service answers an upload with success only after the store accepted its data, under the id it names, and a later sync of the store returned; any other request is answered with success only if the store's operation succeeded. An upload that could not be read completely is refused. Every request put into the work queue gets exactly one answer, its own, on every path including failures, batches and shutdown; a client never waits for an answer that nobody sends, and the worker never waits for a client that has gone.",
  ["schedules", "fault_sequences", "histories"], "all requests, all failures, all batch boundaries",
  "There are no tests of the service.",
  ["cmd/readup/main.go"], [("request queue and its worker", "cmd/readup/main.go")]),
P("C22", "The command line tool reports failures and closes what it opened",
  "Every command of the command line tool that fails ends with a non-zero exit code, and every command that opened a store closes it on every path before it ends. Every option a command reads was declared by it, with the same name and type.",
  ["inputs", "fault_sequences"], "all commands, options and failures",
  "There are no tests of the tool.",
  ["cmd/kanils/main.go"], [("actions and flags of the commands", "cmd/kanils/main.go")]),
P("C23", "Comparisons of identifiers and free extents are total orders",
  "Comparing two lump identifiers, addresses, or free extents gives a strict total order consistent with equality: exactly one of less, equal, greater holds, it is antisymmetric and transitive, and it agrees with the order the index uses, for every pair of values including those whose difference does not fit the type.",
  ["inputs"], "all pairs and triples of values",
  "Tests compare a few small values.",
  ["lump/lump.go", "portion/portion.go", "storage/allocator/allocator.go", "util/uint128/uint128.go"], [("Compare, Less", "lump/lump.go, storage/allocator/allocator.go")]),
P("C24", "Range operations are half-open and terminate",
  "Listing, iterating and deleting a range affect exactly the lumps whose id is at least the start and less than the end, in ascending order, each once; an empty or reversed range affects none. The loops end for every range, including one that reaches the largest id. The queries for the smallest, the largest and the next id give exactly that id, or say that there is none.",
  ["inputs"], "all ranges and index contents",
  "Tests use small ranges away from the ends of the id space.",
  ["lumpindex/lump_index.go", ST], [("ListRange, RangeIter, DeleteRange", "lumpindex/lump_index.go")]),
P("C25", "Usage figures follow every change",
  "The number of lumps reported changes by one exactly when an id is added or removed, and not when one is replaced; the journal usage and free space reported are derived from the current state. Reading the figures never wraps below zero or fails, whatever the state.",
  ["inputs", "histories"], "all histories of insertions, replacements and deletions",
  "Tests count after a few operations.",
  ["lumpindex/lump_index.go", ST, RB], [("count of the index", "lumpindex/lump_index.go"), ("Usage", ST)]),
P("C26", "The journal admits a record only if it fits, and a refusal changes nothing",
  "A record is appended only if the log has room for it, and for the end mark after it, without reaching the oldest record still in use; a log that wraps to its start does so only if the record fits in front of the head. A record that fits behind the tail or at the start is not refused. A refused append leaves the positions of the log and everything a reader can see unchanged.",
  ["inputs", "histories"], "all record sizes and all positions of head and tail",
  "Tests fill one small log with records of one size.",
  [RB], [("check for free space, wrap and Enqueue", RB)]),
P("C27", "Buffered device reads see the latest writes",
  "Reading through the journal's write buffer returns, for every byte, what was last written through it, whether that is still in the buffer or already on the device; no byte of the buffer is dropped or written at another place when the buffer moves, grows, or is flushed.",
  ["inputs", "histories"], "all sequences of reads, writes, seeks and flushes",
  "Tests follow a few short sequences.",
  [NB], [("write, read, flush of the journal buffer", NB)]),
P("C28", "Background goroutines end when the store is closed",
  "Every goroutine a store or service starts can be told to stop at each point where it waits for work or for time, and closing the store tells it and waits until it has ended, before the state it uses is torn down. Nothing is sent on a channel after it was closed, and no channel is closed twice.",
  ["schedules", "histories"], "all schedules of closing against background work",
  "Tests end without looking for goroutines that are left.",
  [ST, "util/stopper.go", "cmd/readup/main.go"], [("Stopper", "util/stopper.go"), ("usage updater", ST)]),
P("C29", "Concurrent operations are linearizable",
  "The results of concurrent operations of a store equal those of some sequential order of them that respects real time.",
  ["schedules", "histories"], "all concurrent histories", "Only sampled schedules run in tests.", [ST], [("the two locks", ST)]),
P("C30", "A crash at any point loses no acknowledged change",
  "After a crash at any point, with any subset of the unsynced device writes applied, reopening the store gives every change acknowledged by a sync and no lump that is torn.",
  ["crash_points", "histories"], "all crash points and subsets of writes", "Tests never crash.", [JR, RB, ST], [("journal and its replay", JR)]),
P("C31", "Reading a lump returns exactly the bytes last written",
  "For every lump and content, a read returns the bytes of the last successful write, for all sizes and offsets.",
  ["inputs", "histories"], "all contents and sizes", "Tests use a few sizes.", [DR, ST], [("trailer with padding length", DR)]),
P("C32", "Allocation is best-fit and freed neighbours coalesce",
  "An allocation takes the smallest free extent that is large enough, and a released extent is merged with its free neighbours.",
  ["inputs", "histories"], "all allocation histories", "Tests follow a few sequences.", ["storage/allocator/judy_allocator.go"], [("search by size", "storage/allocator/judy_allocator.go")]),
P("C33", "Generated ids are unused",
  "An id that the store generates for a caller is not the id of any lump in the store, whatever ids are in use, including the largest; if there is none that can be generated, this is reported instead.",
  ["inputs", "histories"], "all sets of ids in use",
  "Tests generate ids in a store with a few small ids.",
  [ST, "lump/lump.go"], [("GenerateEmptyId", ST), ("successor of an id", "lump/lump.go")]),
]

TODO = "not decided yet"
NA_EXTRA = {p["id"]: TODO for p in PROPS}
NA_EXTRA.update({
 "C29": "linearizability relates whole histories of results; the lock discipline it rests on is decided by C02-C04, C06 and C07, but the histories themselves quantify over runtime values no static argument in reach bounds",
 "C30": "quantifies over device contents at arbitrary crash points; the ordering rules it rests on (data before record, flush before header, same replay) are decided by C05, C08, C09 and C13, torn and reordered writes of the medium are not visible in the source",
 "C31": "equality of the contents of buffers for all sizes is a runtime quantity; the offset arithmetic, the order of writes and the codecs are decided by C08, C10, C18 and C20",
 "C32": "which extent is smallest depends on the contents of a C library tree (Judy) at run time; only the consistency of the updates is decided statically (C17)",
})

STORE_NOTE = "Flow- and path-sensitive abstract interpretation of the SSA of every exported operation of the store, calls inlined, all error outcomes of device, allocator and index forked; other goroutines may change shared memory at every lock acquisition. Sound for the listed roots up to: contracts of the Judy C library and of the device interface, values of integers (not tracked), panics end the operation. Loops are widened."
TECH = {
 "C01": {"technique": "path-sensitive error-propagation dataflow over SSA of every function that performs device I/O", "note": "Every function is analysed on its own with each device call or callee failing in turn; a failure must reach the caller as a non-nil error or a panic. Errors of Close, of the allocation hint Fallocate and of in-memory writers are not device failures."},
 "C02": {"technique": "interprocedural lock-order and lock-balance analysis over SSA", "note": "Flow-sensitive lock sets through all calls (VTA call graph); cycles between lock classes, re-acquisition, unbalanced returns and blocking waits under a lock are reported. Lock identity is the access path of the lock."},
 "C03": {"technique": "interprocedural lockset analysis of all pairs of accesses from concurrent entry points", "note": "Accesses are compared by field of a type and origin of the object; objects that a goroutine created itself and did not publish are its own. The C library under the index and the allocator counts as one location per object."},
 "C04": {"technique": "typestate analysis over SSA: open flag verified under a held lock before each access", "note": STORE_NOTE},
 "C05": {"technique": "typestate analysis over SSA: write buffer clean at the device sync, sync before close and snapshot; call-path analysis of every device's Sync down to the system call", "note": "The operations of the store are interpreted down to the device interface, every device call failing in turn; the buffer may only be marked clean after all its bytes were written at its position. An operation of a closed store is exempt. What the disk does after fdatasync is assumed."},
 "C06": {"technique": "typestate analysis over SSA: journal append and index update paired on every path", "note": STORE_NOTE + " The replacement of a lump in place when the device is full may lose the old lump (documented)."},
 "C07": {"technique": "ownership analysis over SSA of allocated space, with error forks and lock-release interference", "note": STORE_NOTE},
 "C08": {"technique": "event-order analysis over SSA: device write precedes the referring record", "note": STORE_NOTE},
 "C09": {"technique": "typestate analysis over SSA of collected journal entries and of the released head", "note": STORE_NOTE},
 "C10": {"technique": "symbolic token-stream comparison of writer and reader over SSA (abstract interpretation of encoders and decoders)", "note": "Every record kind is written with arbitrary field values and the bytes are given to the reader, both interpreted over the SSA with exact bit slices; contents of data chunks are uninterpreted."},
 "C11": {"technique": "path-condition dataflow over SSA: accepted input implies comparison of checksum, magic number, version and structure; propagation of damage errors to open", "note": "Readers get arbitrary bytes; on every path that accepts, the facts established by comparisons must contain the required ones. The strength of adler32 is not judged."},
 "C12": {"technique": "symbolic execution over SSA of every superblock writer, reader and region split: bit slices for the format, linear arithmetic for the sizes", "note": "Device sizes (whole blocks, below 2^62), journal ratio and, for a resize, the old regions and the new size are arbitrary; the conversion of the ratio product may give any 64 bit number. Blocks of 512 bytes for the regions, 512 to 4096 for the format. A superblock that is opened has sizes this code wrote."},
 "C16": {"technique": "bit-precise abstract interpretation over SSA: symbolic pack/unpack round trips and injectivity of packed forms", "note": "Pack and unpack functions are interpreted on symbolic bit slices of the documented widths; keys of the index trees are checked to determine the packed values. Widths are enforced by the guards (panic) of the constructors."},
 "C18": {"technique": "symbolic dataflow over SSA with linear arithmetic: range, place and alignment of every device access of every view operation", "note": "Start, end and position of the view are arbitrary multiples of the block size in order; arguments are arbitrary, including those that wrap. Rounding and aligned buffers are checked for block sizes 512, 1024, 4096 and 65024. Assumes that superblocks have the sizes their writer gives them (C12) and files below 2^62 bytes."},
 "C19": {"technique": "ownership and typestate analysis over SSA of every file handle, modular over the functions that open files, every call failing in turn", "note": "A function that opens files is checked on its own and stands at its callers for what it gives: a new open device, or nothing left open. The kernel's flock is trusted; the short second handle that parses the superblock before the lock is not the store's handle."},
 "C13": {"technique": "symbolic execution over SSA of every append and of the replay of the same record, compared change by change; symbolic positions of the log; dataflow of the construction of a store", "note": "Index changes are compared as calls with equal arguments on the same index, for every record kind and arbitrary contents, including a failing read during the replay. Appends, scans, the header's position and the wiring of header, regions, journal, index and allocator in Open are followed symbolically. That the allocator built from an index marks every lump as used is decided by C17 (rule restore)."},
 "C26": {"technique": "symbolic execution over SSA of the log's append with linear arithmetic: place of every write against the free space, effects of refused appends", "note": "Every record kind and size, all positions of tail and head, capacities of whole blocks below 2^40, blocks of 512 and 4096 bytes. The tail invariant is inductive: assumed before an append, proved after it. The oldest record in use starts at least one end mark before the capacity."},
 "C15": {"technique": "symbolic execution over SSA of creation, update, read and open of the snapshot file on a model file; positions and fields compared between writers and readers; string algebra for the file's name", "note": "Any capacity below 2^50 bytes in blocks and any number of saved regions by induction; reopening is followed for files with 0, 1 and 2 complete regions and a partial last copy. The name a file is created with is matched against the search in the device's directory, with a second snapshot and the snapshot of another device beside it. That the Judy map returns what was inserted is assumed."},
 "C14": {"technique": "symbolic execution over SSA of every exported operation of the snapshot device and its reader, down to the accesses of the device's file; typestate lock -> lookup -> copy -> write on every path", "note": "Each operation is run on the device and on a part of it, with a snapshot, without one, and with one made while waiting for the lock; each copy or access may fail. The lookup of the regions of a range is proved for ranges over one, two and three regions with arbitrary ends; at most two missing regions per write (a write is at most one region long). Readers: a read after a seek, after a read and after a relative seek, with the snapshot deleted or replaced before the lock is taken. The content of the snapshot file itself is C15's."},
 "C20": {"technique": "symbolic dataflow over SSA of the lump accesses, from the arguments of the storage's operations to the accesses of the device, with linear arithmetic over wrapped machine integers", "note": "Start, number of blocks and padding of the lump, offset, length, reservation and payload are arbitrary values of their types. Every slice and allocation must be in range, every access of the device within the lump, and the bytes returned those of the lump. Assumes a LumpData that holds a buffer (NewLumpDataAligned returns an empty one for a size above the maximum)."},
 "C24": {"technique": "symbolic execution over SSA of the walks of the lump index against an abstract ordered set; loop invariant between cursor, visited and pending ids", "note": "The range's ends, the limit and the contents of the index are arbitrary. Each id in the range must be visited once, in order, each step of a loop must move the cursor forward, and lookups (smallest, largest, next id, one id) must give what the index contains. The Judy C library is replaced by its contract."},
 "C25": {"technique": "symbolic relational dataflow over SSA: count of the lump index against the changes of its tree, figures against the state, with linear arithmetic", "note": "Each change of the tree must change the count alike. Figures are derived from arbitrary states that satisfy the invariants of allocator, log and index. Assumes at most 2^62 ids and 2^40 blocks; the last update of the usage at the end of the replay is not judged."},
 "C33": {"technique": "symbolic execution over SSA of the generation of ids against an abstract ordered set of ids", "note": "The ids in use are arbitrary, including the smallest and the largest; queries of the index are answered by the contract of the Judy C library."},
 "C27": {"technique": "symbolic relational dataflow over SSA: one arbitrary byte of the device is followed through every operation of the write buffer; aligned buffers by contracts that are checked against their code", "note": "Any buffer position and length in whole blocks (512 and 4096 bytes), clean or dirty, any position inside the region, payloads up to 2^30 bytes; every device call fails in turn. Each operation must preserve that the byte is in the buffer or on the device, reads must give it, and Sync, Flush and Close must bring it to the device. Short reads in front of the end of the device are not considered."},
 "C23": {"technique": "symbolic execution over SSA of every comparison of keys with linear and bit-slice arithmetic: sign of the result against the mathematical order of arbitrary pairs", "note": "Every Less and Compare of the module's key types, and every function literal given to a sort of extents, is run on two arbitrary values; each outcome must agree with the order of the keys as unbounded integers (order by end, by length then start, by id). Orders of the integers are total, so antisymmetry and transitivity follow. Extents are assumed to end within the 40-bit address space. A sort may be ascending or descending by start or end."},
 "C28": {"technique": "typestate and ownership analysis over SSA of every goroutine and of the function or object that owns it", "note": "A goroutine is described by the channels it listens to wherever it waits for work or time, those that make it end, the wait group that counts it and what it uses; the function that starts it, or the Close of the object it is handed to, must close such a channel once, wait for the group, and only then close what the goroutine uses, on every path and for concurrent and repeated Close. Handlers given to libraries are entries that may run until the server is shut down. Sends are not treated as waits, panics are not followed."},
 "C22": {"technique": "symbolic typestate analysis over SSA of every command's action: outcome of each fallible call against the exit code, open stores against their Close; table of declared options against the reads", "note": "Every action in a cli.Command table is run with unknown arguments and each fallible call failing in turn. Errors of Close and of printing do not count as failures of the command. Programs without a table of commands (readup) are not covered."},
 "C21": {"technique": "typestate analysis over SSA of one arbitrary request, followed through queue, lists of a batch and the store to its answer, and of every HTTP handler", "note": "Lists are abstracted to with or without the followed request, and a loop over a list meets it exactly once; store operations fail or succeed, syncs are ordered after them. Checked: no request lost or answered twice, success only for what was stored and synced, the id named is the one stored, an answer channel of its own that has a reader, the worker told to end only after the server was shut down. Status codes are those given to gin or net/http as constants on the path. The store itself is covered by the other properties; a failing Sync ends the process."},
 "C17": {"technique": "symbolic relational dataflow over SSA with a ledger of extents (bit-slice and linear-arithmetic domains)", "note": "Every change of one index of free extents must be matched by the same change of the other and of the counter, and begin and end points of all extents, of the extent handed out or given back, must cancel. Trees return any extent that satisfies their query contract; restore is followed end to end (index, list, sort, loop) for indexes with up to two lumps and a journal entry, the gap-filling loop by induction."},
}
