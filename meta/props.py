"""Source of properties.jsonl and MANIFEST.json."""
CORE = "xdvdfs-core/src/"
CLI = "xdvdfs-cli/src/"
FSD = "xdvdfs-fsd/src/"

TRUST = (" Trusted: rustc's MIR, the engine (engine/*.py), its transfer functions for std/third-party calls "
         "(engine/lib.py, models/models.rs).")

# properties this family cannot decide, with the reason
NA = {
    "C24": "byte equality of a round trip quantifies over the contents produced by the tree builder, sector allocator, "
           "encoder and decoder together: the composition is a numerical result over unbounded heaps, out of reach of a "
           "sound static argument; the structural clauses (encoding tables agree, every entry recorded, every extent "
           "allocated and filled) are claimed separately as C01, C06, C10, C11, C13",
    "C25": "the shape of the directory tree (balance, order of every key below every node) is an inductive invariant over "
           "an unbounded index-linked heap modified by rotations; deciding it needs shape analysis with numeric data "
           "(node heights, order), beyond the domains available here; the comparison function it depends on is claimed in C05",
    "C26": "termination on cyclic directory data depends on the finiteness of a runtime-chosen offset graph; the current "
           "code has no visited set or depth bound, so there is no structural ranking to check, and a rule demanding one "
           "would fire on the unchanged tree with no small safe repair",
}

PROPS = [
dict(id="C01", title="On-disk structures use the exact XDVDFS byte layout in both directions",
     statement="Volume descriptors and directory entries are encoded and decoded little-endian with fixed widths, no "
               "padding and the field order of the XDVDFS format (entry: left u16, right u16, start sector u32, size u32, "
               "attributes u8, name length u8; descriptor: magic, root sector, root size, file time, 0x7c8 unused bytes, magic). "
               "The encoder and decoder use the same options, so neither can read or write another layout.",
     over=(["inputs"], "every field value of every directory entry and volume descriptor, encoded or decoded"),
     why="the tests round-trip through the same code, so a symmetric change of width, order or endianness passes them while "
         "producing images no console reads",
     files=[CORE + "layout.rs", CORE + "read.rs", CORE + "write/dirtab.rs"],
     mech=[("derived Serialize/Deserialize field order", CORE + "layout.rs"),
           ("fixed-int little-endian options", CORE + "layout.rs DirectoryEntryDiskNode/VolumeDescriptor::serialize/deserialize")],
     technique="typed-IR extraction of the codec's field sequence and option chain, compared with the format table",
     note="Decides the codec's layout exactly: order, integer widths, endianness and int encoding on both sides. serde/bincode "
          "themselves are trusted." + TRUST),
dict(id="C02", title="Volume recognition: only valid headers, four image starts, first valid wins",
     statement="An image is accepted exactly when the 2048 bytes at byte 65536 after the partition start carry the correct magic "
               "at both ends; a device error, undecodable header or any wrong magic byte is refused. Opening an image tries the starts "
               "0, 405798912, 265879552 and 34078720 in that order, keeps the first that validates and fails only when all four do not.",
     over=(["inputs", "fault_sequences"], "every header content and every outcome of each device read during probing"),
     why="the tests only ever open images that are valid at start 0; the three other starts, corrupted magics and read failures are never tried",
     files=[CORE + "read.rs", CORE + "blockdev.rs", CORE + "layout.rs"],
     mech=[("header validation", CORE + "layout.rs VolumeDescriptor::is_valid"), ("header read", CORE + "read.rs read_volume"),
           ("partition probe", CORE + "blockdev.rs OffsetWrapper::new")],
     technique="typestate analysis over MIR with case-split call outcomes",
     note="Sound for every outcome of the header reads: each magic byte is made wrong symbolically, all attempt outcomes are enumerated." + TRUST),
dict(id="C03", title="Block devices transfer the whole buffer at the requested offset or fail",
     statement="Every block device shipped (opened-image wrapper, seekable readers, files, buffered files, boxed devices, memory, compressed "
               "images) reports success only after exactly one complete transfer of the whole buffer at the requested offset, plus "
               "the partition start for an opened image, and reports a failure of the underlying device as a failure; a file device's "
               "length counts every byte written so far, buffered or not. In-memory devices "
               "serve every in-range request and refuse out-of-range ones without panicking.",
     over=(["inputs", "fault_sequences"], "every offset, buffer length and underlying-device outcome"),
     why="tests exercise one device kind with offset 0 and no faults",
     files=[CORE + "blockdev.rs", CLI + "img.rs"],
     mech=[("offset wrapper", CORE + "blockdev.rs OffsetWrapper"), ("seek + read_exact/write_all impls", CORE + "blockdev.rs"),
           ("compressed image device", CLI + "img.rs CSOBlockDevice")],
     technique="typestate + symbolic-offset abstract interpretation of every trait implementation",
     note="Sound for each listed implementation over all offsets/lengths and primitive outcomes; a new implementation is not covered "
          "until listed." + TRUST),
dict(id="C04", title="File reads stay inside the file's extent and return exactly what was asked",
     statement="Reading a file's contents (whole, a range, or into a caller's buffer) only touches bytes inside the extent its directory "
               "entry names, starting at sector*2048 plus the requested offset. A successful whole-file or range read returns exactly the "
               "requested bytes, clamped to the end of the file, and nothing else.",
     over=(["inputs"], "every extent, requested offset and length"),
     why="tests read a few whole files; ranged reads, clamping and 32/64-bit offsets near the end are not sampled",
     files=[CORE + "read.rs"],
     mech=[("content reads", CORE + "read.rs DirectoryEntryDiskData::read_data*"), ("seek_to", CORE + "read.rs")],
     technique="linear-inequality abstract interpretation over MIR",
     note="Proves confinement and exactness for all arguments of the public read functions." + TRUST),
dict(id="C05", title="Path lookup follows the tree by case-insensitive order and stops correctly",
     statement="Looking up a name compares it ASCII-case-insensitively with each visited entry, going to the left child when smaller, the right "
               "when greater and returning the entry when equal; a child offset of 0 or 0xffff and an empty table mean not found. A path is "
               "resolved component by component (leading slashes and a final slash are ignored), a component below a file is an error, and entries "
               "are returned with the position they were read from.",
     over=(["inputs"], "every directory content, name and path"),
     why="tests look up a handful of names in freshly packed, well-formed images",
     files=[CORE + "read.rs", CORE + "util.rs", CORE + "layout.rs"],
     mech=[("binary search", CORE + "read.rs find_dirent"), ("path walk", CORE + "read.rs walk_path"), ("ordering", CORE + "util.rs cmp_ignore_case_utf8")],
     technique="typestate analysis with case-split comparison outcomes over MIR",
     note="Each step of the search is checked for every comparison outcome and every sentinel; termination is not claimed." + TRUST),
dict(id="C06", title="Directory listing visits every reachable entry, exactly from its own bytes",
     statement="Listing a directory visits the entry at offset 0 and, for each visited entry, both children whose offsets are not 0 or 0xffff "
               "(at four times the stored value from the table start), returning each visited entry with the name, extent and attributes read "
               "from its own position, and reports success only when nothing is pending or the table is empty or blank. The recursive listing "
               "descends into every subdirectory with its parent's path extended by its name, and a failed read is never silently skipped. The sequential scan of a "
               "directory returns, sector by sector from the table's first to its last, the entries that follow each other at 4-byte aligned positions, each decoded from its own bytes, goes to the next "
               "sector only after a blank entry or when no further entry fits, and ends only after the last sector.",
     over=(["inputs", "fault_sequences"], "every directory table content and outcome of each device read"),
     why="tests list a few small packed trees; sentinels, blank padding, deep right/left chains and read failures are not sampled",
     files=[CORE + "read.rs"],
     mech=[("tree walk", CORE + "read.rs walk_dirent_tree"), ("recursive listing", CORE + "read.rs file_tree"), ("sequential scan", CORE + "read.rs scan_dirent_tree/next_entry")],
     technique="typestate analysis of pending children, and induction over the scan's symbolic state, on MIR",
     note="Decides that every pushed/visited obligation is discharged on every path; termination on cyclic data is not claimed." + TRUST),
dict(id="C07", title="Reading an arbitrary image never panics, overflows or exhausts the stack",
     statement="Opening, listing, looking up, reading, scanning and hashing an image through the library, the command line's read-only and unpack commands, the repacking source and the mounted file system "
               "never panics, overflows an integer, indexes or slices out of bounds, or recurses as deep as the image says, whatever bytes the image holds: malformed content only ever produces an error or "
               "an ordinary result. (Memory exhaustion, panics that depend on the command line's arguments alone, and 64-bit counters wrapping around are excluded.)",
     over=(["inputs"], "every image content, offset, size and name bytes (memory exhaustion excluded)"),
     why="tests feed only well-formed images",
     files=[CORE + "read.rs", CORE + "layout.rs", CORE + "blockdev.rs", CORE + "util.rs", CORE + "checksum.rs", CORE + "write/fs/xdvdfs.rs", CLI + "cmd_read.rs", CLI + "cmd_md5.rs", CLI + "cmd_info.rs", CLI + "cmd_unpack.rs", FSD + "img_fs.rs"],
     mech=[("checked offset arithmetic", CORE + "layout.rs DiskRegion/DirectoryEntryTable::offset"), ("reads", CORE + "read.rs"), ("scan cursor", CORE + "read.rs DirentScanIter")],
     technique="panic freedom by abstract interpretation: every reachable assertion, unwrap, index, slice, and arithmetic check of the entry points discharged, with inferred inductive loop and iterator invariants; recursion refused",
     note="Every potential panic site reachable from the entry points is an obligation; std functions that can panic and are not modelled are refused. Allocation failure and closed standard output are out of scope." + TRUST),
dict(id="C08", title="Unpacking never creates or writes anything outside the output directory",
     statement="While unpacking or copying out a directory, every file or directory created lies below the chosen output directory: the listed path of an entry's directory is used "
               "only as a relative path, and an entry whose own name is '.' or '..' or contains '/' or '\\\\' is refused with an error before anything is created for that entry.",
     over=(["inputs"], "every entry name an image can hold"),
     why="tests unpack images made from ordinary file names",
     files=[CLI + "cmd_unpack.rs", CLI + "cmd_read.rs"],
     mech=[("name validation before each effect", CLI + "cmd_unpack.rs copyout_directory")],
     technique="taint/guard dataflow over MIR: every filesystem effect dominated by the name check",
     note="Decides the guard on every path to every creating call, and that the guard rejects each dangerous form; symlinks already present in the output directory are out of scope." + TRUST),
dict(id="C09", title="Unpacking writes every listed entry with exactly its own contents",
     statement="Unpacking creates, for every entry of the listing, a directory or a file at the path given by its listed parent path and its name, and writes to each file exactly "
               "the bytes of its extent. If a file's bytes cannot be read or written in full the command fails; no entry is skipped silently.",
     over=(["inputs", "fault_sequences"], "every image, and every outcome of reads, seeks, creations and copies"),
     why="tests unpack a few small healthy images; truncated images, short copies and I/O errors are never produced",
     files=[CLI + "cmd_unpack.rs", CLI + "cmd_read.rs", CORE + "read.rs"],
     mech=[("copy-out loop", CLI + "cmd_unpack.rs copyout_directory"), ("copy-out of a file", CLI + "cmd_read.rs cmd_copyout")],
     technique="typestate analysis of the copy-out loop over MIR",
     note="Decides, per entry, that each outcome other than the complete copy is reported." + TRUST),
dict(id="C10", title="Sector allocation: disjoint extents after the header, never wrapping",
     statement="Sectors handed out while creating an image start at sector 33, are contiguous, never overlap an earlier allocation, and cover at least the requested bytes "
               "(an empty request takes one sector). The number of sectors is the byte count divided by 2048 rounded up; requests of up to 4 GiB never wrap, and running out of 32-bit sector numbers aborts instead of wrapping. One allocator serves a whole image.",
     over=(["inputs", "histories"], "every sequence of allocation requests"),
     why="tests allocate a few small files; sizes near 4 GiB and totals near 2^32 sectors are out of their reach",
     files=[CORE + "write/sector.rs", CORE + "write/img.rs"],
     mech=[("allocator", CORE + "write/sector.rs")],
     technique="inductive invariant by linear-inequality abstract interpretation over MIR",
     note="The allocator state is proved monotone for every request." + TRUST),
dict(id="C11", title="Directory tables: entries aligned, inside the table, never crossing a sector",
     statement="In a written directory table every entry is placed at the next multiple of four after the entry before it, or at the start of the next sector where it would otherwise cross a 2048-byte sector boundary. It consists of its 14 "
               "fixed bytes, its encoded name and 0xff up to a multiple of four; it records the encoded length of its name, its attributes, the sector allocated for it, its size, and for each child the child's position divided by four "
               "(0 or 0xffff only where there is no such child); a position that does not fit in 16 bits is refused with an error. All other bytes are 0xff, the table is filled up to whole sectors (an empty one is one sector), and the size computed "
               "for a table beforehand follows the same placement. The list of entries returned names every entry once, with its sector, size and kind.",
     over=(["inputs"], "every set of names and sizes in a directory"),
     why="the tests cover one directory whose entries happen to fill exactly 2048 bytes; alignment and boundary cases depend on name lengths",
     files=[CORE + "write/dirtab.rs", CORE + "layout.rs"],
     mech=[("offset assignment", CORE + "write/dirtab.rs disk_repr"), ("size computation", CORE + "write/dirtab.rs compute_size"), ("entry length", CORE + "layout.rs len_on_disk")],
     technique="relational abstract interpretation of the layout loops over MIR: one symbolic round of each loop per path, with linear arithmetic, is an induction step for every table",
     note="Assumes that reordering the tree only permutes its entries. The shape of the tree is C25." + TRUST),
dict(id="C12", title="Names and sizes that cannot be represented are refused, never truncated",
     statement="When adding an entry to an image, a name that is not representable in Windows-1252 or is longer than 255 bytes is refused with an error, and so is a name equal, ignoring case, to one already in that directory, and a file "
               "whose size does not fit in 32 bits; nothing is truncated, replaced, wrapped or silently dropped. Names are written in, and decoded from, the same encoding.",
     over=(["inputs"], "every file name and size"),
     why="tests use short, ordinary names and small files",
     files=[CORE + "write/dirtab.rs", CORE + "layout.rs", CORE + "write/img.rs"],
     mech=[("name encoding", CORE + "layout.rs encode_name"), ("adding entries", CORE + "write/dirtab.rs add_node"), ("name decoding", CORE + "layout.rs name_str"), ("sizes", CORE + "write/img.rs create_dirent_tables")],
     technique="typestate analysis with case-split encoder outcomes over MIR",
     note="Decides rejection and losslessness of the conversions; the encoder itself is trusted." + TRUST),
dict(id="C13", title="Packing includes every source entry, in its directory, with its full contents",
     statement="Creating an image lists every directory of the source tree reachable from the root (a host directory is listed completely, each entry with its own name, kind and size), records each listed file and "
               "subdirectory in its parent's table with its size, writes every table to the sector its parent records, and copies each file's contents in full to the sectors its entry records. A source file that yields a different number of bytes than recorded, or any listing error, makes creation fail.",
     over=(["inputs", "fault_sequences"], "every source tree and every outcome of listing and copying"),
     why="tests pack a few small trees from a healthy filesystem",
     files=[CORE + "write/img.rs", CORE + "write/fs/stdfs.rs"],
     mech=[("tree discovery", CORE + "write/img.rs dir_tree"), ("table creation and copy", CORE + "write/img.rs create_dirent_tables/create_xdvdfs_image")],
     technique="typestate analysis of the image builder over MIR",
     note="Decides that each listed entry is recorded and copied on every path; byte equality is not claimed." + TRUST),
dict(id="C14", title="The volume header is written only after everything else succeeded",
     statement="Creating an image writes the volume descriptor once, at byte 65536, only after every directory table and every file has been written successfully, and then pads the image to a "
               "multiple of 64 KiB. A failed or interrupted creation therefore never leaves a valid header in front of missing data, and the descriptor records the root table's sector and size.",
     over=(["fault_sequences", "crash_points", "inputs"], "every point at which a read or write can fail or the process stop"),
     why="tests never inject a failure into image creation",
     files=[CORE + "write/img.rs", CORE + "layout.rs"],
     mech=[("write order", CORE + "write/img.rs create_xdvdfs_image")],
     technique="typestate (ordering) analysis with injected failures over MIR",
     note="Order of device writes issued by the library; the OS may still reorder them." + TRUST),
dict(id="C15", title="A command that reports success has flushed everything it wrote",
     statement="pack, build-image, compress, unpack, copy-out, image-spec and the extract-xiso modes report success only after every buffered byte of the files they write has been handed to the operating system without error: "
               "an error while flushing is reported as a failure rather than lost when a buffer is dropped.",
     over=(["fault_sequences"], "every write or flush failure, including one that only shows in the last buffered block"),
     why="tests never run on a full or failing disk",
     files=[CLI + "cmd_pack.rs", CLI + "cmd_build_image.rs", CLI + "cmd_compress.rs", CLI + "cmd_unpack.rs", CLI + "cmd_read.rs"],
     mech=[("explicit flush", CLI + "cmd_pack.rs cmd_build_image.rs cmd_compress.rs")],
     technique="must-flush ownership/typestate analysis of buffered writers over MIR",
     note="Decides that no success path drops an unflushed buffered writer; fsync durability is not claimed." + TRUST),
dict(id="C16", title="No failure is swallowed: errors reach the exit status",
     statement="When any read, write, decode, seek, directory listing or filesystem operation on which a command or library operation depends fails, the operation returns an error, and a command-line "
               "run that fails exits with a non-zero status. No error is discarded or replaced by success or by a default value, except where the code has a "
               "second way of doing the same thing (probing the other partition starts, a path that cannot be canonicalised, a file handle that cannot be duplicated).",
     over=(["fault_sequences"], "every fallible call failing in turn, on every path"),
     why="tests only exercise success paths; exit codes of failing commands are not checked",
     files=[CORE + "read.rs", CORE + "write/img.rs", CLI + "main.rs", CLI + "cmd_*.rs"],
     mech=[("error propagation", "all Result-returning functions"), ("exit status", CLI + "main.rs")],
     technique="error-discipline analysis: every fallible call's failure injected, and required to reach the caller",
     note="Decides propagation per function for every fallible call reachable from the commands." + TRUST),
dict(id="C17", title="Image-creating commands never write to their own source",
     statement="pack, compress and repack (the extract-xiso create and rewrite modes included) never create or truncate an output file, or a part of a split output, whose path resolves "
               "(relative parts and symbolic links included) to the source image or into the source directory: such a run fails before touching the source. Source images are opened only for reading. "
               "Rewrite mode moves its input to the .old name and removes it only when asked to and after the new image is complete.",
     over=(["inputs", "configurations"], "every combination of source, output and default output path"),
     why="tests always give distinct paths",
     files=[CLI + "cmd_pack.rs", CLI + "cmd_compress.rs", CLI + "exiso_compat.rs"],
     mech=[("same-path guard", CLI + "cmd_pack.rs cmd_pack_path"), ("output parts", CLI + "cmd_compress.rs SplitStdFs"), ("rewrite mode", CLI + "exiso_compat.rs exiso_repack")],
     technique="guard-dominance analysis of output-opening calls over MIR",
     note="Decides that each creating call is dominated by a test excluding the source. Hard links and files replaced while the command runs are out of scope." + TRUST),
dict(id="C18", title="Inspection commands and the mounted filesystem never modify anything",
     statement="info, ls, tree, checksum, md5, dry-run image building, mounting an image and serving any request on the mount never create, truncate, write, rename or remove a file and open images only for reading; reading or "
               "listing an image through the library never writes to its device. The mounted filesystem grants no handle for writing and refuses every request to change something.",
     over=(["inputs", "histories"], "every command line and every sequence of filesystem requests"),
     why="an absence of writes cannot be sampled",
     files=[CLI + "cmd_info.rs", CLI + "cmd_read.rs", CLI + "cmd_md5.rs", CLI + "cmd_build_image.rs", FSD + "img_fs.rs", CORE + "read.rs"],
     mech=[("read-only opens", CLI + "img.rs"), ("dry run", CLI + "cmd_build_image.rs")],
     technique="effect analysis over the resolved call graph",
     note="Sound up to resolved callees: dynamic dispatch is resolved to all implementations in the workspace." + TRUST),
dict(id="C19", title="The mounted filesystem answers from the image and only from it",
     statement="A mounted image answers lookups, attributes, reads and directory listings from the image: looking up a name gives the entry stored under it (ignoring case) or 'no such entry', attributes give the entry's own kind and size, a read "
               "returns exactly the requested range of the file clamped to its end, and a listing returns '.', '..' and every entry exactly once across continued calls, each with the offset at which the next call continues. A device "
               "failure is answered with an I/O error. Each entry keeps one inode number, from 2 on (1 is the root), that leads back to that entry. Every request gets exactly one reply.",
     over=(["inputs", "histories", "fault_sequences"], "every request, inode, offset and size, every state of the inode table and every device outcome"),
     why="nothing in the test suite mounts an image",
     files=[FSD + "img_fs.rs", CORE + "read.rs", CORE + "layout.rs"],
     mech=[("request handlers", FSD + "img_fs.rs lookup getattr read readdir"), ("inode table", FSD + "img_fs.rs FuseFilesystemCache"), ("lookup, read and scan", CORE + "read.rs layout.rs")],
     technique="symbolic value-flow and typestate analysis of the request handlers with every library outcome split, on MIR",
     note="Offsets given by the kernel are taken as non-negative. The reply buffer, kernel caching and the fuser crate are trusted; a buffer too small for '.' or '..' is not considered." + TRUST),
dict(id="C20", title="Image checksum covers every file's path and contents",
     statement="The image checksum is fed, for every entry of the image's recursive listing, the entry's full path and, for every file, its complete contents, in the order of the paths and nothing that depends on where "
               "entries or data lie in the image; a listing or file that cannot be read completely makes the checksum fail instead of being skipped. The checksum command prints the checksum of every image named.",
     over=(["inputs", "fault_sequences"], "every image and every read outcome"),
     why="tests compare checksums of a few images; coverage of every byte and failure handling is not sampled",
     files=[CORE + "checksum.rs", CLI + "cmd_read.rs"],
     mech=[("hash loop", CORE + "checksum.rs"), ("command", CLI + "cmd_read.rs cmd_checksum")],
     technique="induction over the symbolic digest value (data-flow analysis of the hashing and collecting loops) on MIR",
     note="Decides which values reach the hasher on every path; the hash function is trusted. Entries with the same path (malformed images) count once." + TRUST),
dict(id="C21", title="Path rewriting: rules decide in order, exclusions hold, dry run = real run",
     statement="When an image is built from rewrite rules, the rules are tried in the order given on every entry of the source: the first rule that matches decides where the entry goes, a matching exclusion ('!...') discards what "
               "earlier rules decided, and a rule after it may include the entry again; an entry that ends undecided is not in the image. An entry below a directory that a rule matched follows that directory, keeping the rest of its path, "
               "unless a rule matches the entry itself. The {n} in the deciding rule's image path are replaced, one after another, by the text of capture n. An entry in the image has the type, size and contents of the source entry that was put there, and a dry "
               "run lists exactly the mapping that a real run uses.",
     over=(["inputs", "configurations"], "every rule list and source tree"),
     why="tests cover one small configuration",
     files=[CORE + "write/fs/remap.rs", CLI + "cmd_build_image.rs"],
     mech=[("walk, rule matching and insertion", CORE + "write/fs/remap.rs RemapOverlayFilesystem::new"), ("dump, read_dir, copy_file_in", CORE + "write/fs/remap.rs"), ("command", CLI + "cmd_build_image.rs cmd_build_image")],
     technique="data-flow and typestate analysis (rule-decision automaton) of the overlay construction over MIR",
     note="Glob matching itself (wax) and the text functions of the standard library are trusted; the first component of an image path may be preceded by '.' or '/'. Two entries put at the same image path: the later one insertion replaces the "
          "earlier one." + TRUST),
dict(id="C22", title="A compressed image is made from the same bytes as the packed image",
     statement="Compressing a directory or image feeds the compressor, sector by sector, exactly the bytes the image builder wrote at each sector (a file's sectors being read back from the source at the matching offset), "
               "zero-filled where nothing was written, for as many sectors as the image has. A sector that cannot be read back is an error, replaying a captured sector never panics, and the command succeeds only after the image it "
               "built from the source named has been handed to the compressor.",
     over=(["inputs"], "every sector number, write position and length"),
     why="the compressed output is not compared with the packed image by any test",
     files=[CORE + "write/fs/sector_linear.rs", CLI + "cmd_compress.rs"],
     mech=[("SectorLinearBlockDevice::write and copy_file_in", CORE + "write/fs/sector_linear.rs"), ("CisoSectorInput::read_sector", CORE + "write/fs/sector_linear.rs")],
     technique="abstract interpretation over MIR of the sector-capture device: inductive loop invariants for capture, case analysis over the captured kinds for replay, typestate of the command",
     note="Decides the capture and replay of every write; the compressor is trusted." + TRUST),
dict(id="C23", title="Inspection commands show every entry, with its own data",
     statement="ls (tree walk and --scan), tree, md5 and info list the directory the given path leads to (the root where none or '/' is given) and print every entry of that listing under its own name; tree and md5 print each with "
               "its parent's path, tree with its own size and totals that count every file and its size once, md5 with the MD5 of that entry's complete data. They succeed only after the last entry has been printed, and fail when reading the image fails.",
     over=(["inputs", "fault_sequences"], "every image, path argument and read outcome"),
     why="tests inspect a few small images and do not compare the output of these commands",
     files=[CLI + "cmd_read.rs", CLI + "cmd_md5.rs", CLI + "cmd_info.rs", CORE + "read.rs"],
     mech=[("listing output", CLI + "cmd_read.rs cmd_ls cmd_tree"), ("md5", CLI + "cmd_md5.rs"), ("info", CLI + "cmd_info.rs")],
     technique="typestate analysis (entry taken - entry printed) with symbolic value flow to the print calls, on MIR",
     note="The wording of the output is not checked, only which values are printed; printing a directory's md5 is left as is." + TRUST),
dict(id="C27", title="Sources deliver the named file's own bytes and the named directory's own entries",
     statement="Copying a file out of a source (a host directory or an image, into a writer or memory, buffered or through std::io) reads the file the whole path names, from the offset asked, at most the size asked and "
               "never past the file's end in an image, puts the bytes at the destination offset asked, reports how many were copied, and fails when any step fails. Listing a directory of an image gives exactly that directory's "
               "entries, each with its own name, kind and size, and every entry listed can afterwards be found by its path: the path index finds a record by exactly its path, keeps what is recorded, and iterates over every record.",
     over=(["inputs", "fault_sequences"], "every path, offset, size, directory content and outcome of the underlying reads"),
     why="tests use short names, small files and zero offsets, and never compare listings or partial copies of an image source",
     files=[CORE + "write/fs/xdvdfs.rs", CORE + "write/fs/stdfs.rs", CORE + "write/fs/mod.rs"],
     mech=[("image source read_dir and copy_file_in", CORE + "write/fs/xdvdfs.rs"), ("copiers", CORE + "write/fs/xdvdfs.rs RWCopier, StdIOCopier"),
           ("host directory source", CORE + "write/fs/stdfs.rs"), ("path index", CORE + "write/fs/mod.rs PathPrefixTree")],
     technique="abstract interpretation over MIR: symbolic stream positions, inductive loop invariants, induction over the pointer walks through the path index, typestate of the listing",
     note="The index is decided by induction over each walk; std's files and streams are trusted." + TRUST),
dict(id="C28", title="Images are opened by their name: raw, decompressed, or all parts in order",
     statement="The commands that only inspect an image open exactly the file named: a file with the extension cso through the decompressor, a split one (extension 1.cso) as all its parts 1, 2, 3 and so on, in that order, up to "
               "the first number without a file, and any other file as it is. Reading a compressed image decompresses exactly the range asked for into the caller's buffer. Opening and reading succeed only if every file operation and "
               "the decompressor succeeded, and fail only if one of them failed or no part exists.",
     over=(["inputs", "fault_sequences"], "every image name, set of parts, offset and length and outcome of the file operations"),
     why="no test opens a compressed image",
     files=[CLI + "img.rs"],
     mech=[("open_image", CLI + "img.rs open_image"), ("CSOBlockDevice", CLI + "img.rs CSOBlockDevice::read")],
     technique="path-sensitive typestate analysis over MIR, induction over the loop that collects the parts",
     note="The decompressor and the split reader of the ciso crate are trusted (its split reader is itself faulty, see DESIGN section 3)." + TRUST),
dict(id="C24", title="Unpacking a packed tree gives back the same tree",
     statement="Packing any representable directory tree and unpacking the result reproduces every file and directory with identical names and contents.",
     over=(["inputs"], "every source tree"),
     why="tests round-trip a few trees",
     files=[CORE + "write/img.rs", CORE + "read.rs"], mech=[("writer and reader", CORE)], technique="", note=""),
dict(id="C25", title="Written directory trees are balanced search trees",
     statement="In every written directory table all names below an entry's left child sort before it and all below its right child after it, and the two subtree heights differ by at most one.",
     over=(["inputs", "histories"], "every set and order of insertions"),
     why="tests insert a few hundred keys",
     files=[CORE + "write/avl.rs"], mech=[("rotations", CORE + "write/avl.rs")], technique="", note=""),
dict(id="C26", title="Operations on cyclic or self-referencing images terminate",
     statement="Listing, looking up or unpacking an image whose directory entries refer to each other in a cycle terminates with an error.",
     over=(["inputs"], "every image content"),
     why="tests use well-formed images",
     files=[CORE + "read.rs"], mech=[("tree walks", CORE + "read.rs")], technique="", note=""),
]
