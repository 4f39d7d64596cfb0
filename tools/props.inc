W = ["src/v1/writer.rs", "src/v1/threaded_writer.rs"]
def m(*xs): return [{"name": a, "where": b} for a, b in xs]

p("C01", "Footer is the digest of the whole body",
  "The last line of every index produced by scanning (sync or threaded, with or without progress output) or by the Emitter is the digest, under the algorithm named in the header, of exactly the bytes of all lines between the header line and the footer, in order and each byte once, no matter how the destination splits writes. It is computed only after the last body line was written, from a hash state that is never reset or fed anything else, and is printed in full as lowercase hex followed by one newline.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "every directory tree, hash type, thread count, progress setting, and every pattern of short writes of the destination",
  "tests compare a few tiny trees with stored output, never with progress on, never with short writes, and never for the Emitter with blake hashes",
  W + ["src/v1/progress.rs", "src/v1/emitter.rs", "src/v1/hash.rs"],
  m(("tee writer: forwards to the sink and feeds the accepted prefix to the digest", "src/v1/writer.rs HashWriter, src/v1/emitter.rs HashWriter"), ("done()/finish() finalise the digest once", "writer.rs, threaded_writer.rs, emitter.rs")))

p("C02", "Every block hash covers exactly its own block",
  "Every per-block hash that scanning writes, that hashing a file returns or that checking a file computes is the digest of at most block_size bytes read sequentially from that file and of nothing else: the hash state is fresh (nothing fed since creation or reset) when a block starts, for every file, block, hash type and writer.",
  ["inputs", "configurations"],
  "every file size and content, block size, hash type, thread count, and every sequence of files hashed before",
  "tests hash files of one or two blocks; state carried over between blocks or files shows only from the second block or file on",
  ["src/v1/hash.rs", "src/v1/writer.rs", "src/v1/threaded_writer.rs", "src/v1/parser.rs"],
  m(("hash_file/hash_and_size copy a take(block_size) into the hasher and finalise with reset", "src/v1/hash.rs")))

p("C03", "Written indexes conform to the v1 line grammar",
  "Whatever scanning or the Emitter writes on success is one header line `DIRSIGNATURE.v1 HASH block_size=N`, then lines that are either an escaped directory path, or two spaces, an escaped name and ` f SIZE`/` x SIZE` with zero or more ` HEX` hashes or ` s ` and an escaped target, then one footer line `HEX`, each line ending in exactly one newline. Every path, name and link target passes through the escaping formatter, and nothing else reaches the destination.",
  ["inputs", "configurations"],
  "every directory tree, configuration and sequence of Emitter calls",
  "tests check a handful of literal outputs; an entry written on an untested path (threaded, symlink, empty file, emitter with another hash) is not covered",
  W + ["src/v1/emitter.rs", "src/v1/progress.rs"],
  m(("write!/writeln! templates", "writer.rs, threaded_writer.rs, emitter.rs")))

p("C04", "Name escaping is byte-exact",
  "When a path, file name or link target is written, each byte at most 0x20, at least 0x7F or equal to backslash becomes `\\x` and its two lowercase hex digits, and every other byte is written unchanged, exactly once and in order.",
  ["inputs"], "every byte string (all 256 byte values at every position)",
  "the unit test tries two short strings",
  ["src/v1/writer.rs"], m(("Display for Name", "src/v1/writer.rs")))

p("C05", "Unescaping inverts escaping",
  "When a line is parsed, the decoder turns exactly the four-byte sequences `\\x` + two hex digits (either case) into the byte they denote, copies every other byte unchanged, and consumes input left to right without skipping or repeating a byte, so that it inverts the escaping for every name.",
  ["inputs"], "every byte string, all 256 values in each position",
  "unit tests decode a few strings",
  ["src/v1/parser.rs"], m(("unescape_hex, is_hex_encoding, hex_to_digit*", "src/v1/parser.rs")))

p("C06", "Size and number of hashes agree",
  "For every regular file the size written is the length reported by the opened file's metadata and the line carries exactly ceil(size/block_size) hashes, in both writers; hashing a file in memory yields the same number for the bytes read; and the parser accepts a file line only with exactly that number of hashes.",
  ["inputs", "configurations"], "every file size (0, multiples of the block size, 2^64-1) and block size at least 1",
  "tests use files of 0 to 3 blocks; multiples of the block size and huge sizes are not exercised on all paths",
  W + ["src/v1/parser.rs"],
  m(("while n > 0 { ..; n = n.saturating_sub(block_size) }", "writer.rs, threaded_writer.rs"), ("hashes_num in Entry::parse", "parser.rs")))

p("C07", "Entries are emitted in canonical order",
  "Within a directory all files and symlinks are emitted before any subdirectory and in ascending byte order of their names; directories are emitted depth-first with siblings in ascending byte order of names, each directory line being its parent's path joined with its own name, starting at `/`.  The order does not depend on the order in which the operating system lists entries.",
  ["inputs", "schedules"], "every directory tree and every readdir order",
  "tests scan trees with a few names, whose listing order happens to be whatever the filesystem gave",
  ["src/v1/scan.rs"], m(("sort_by on file_name, reverse sort + push_front", "src/v1/scan.rs")))

p("C08", "The index depends on nothing but the tree and the config",
  "No byte written to the index is derived from clocks, the environment, process or thread identity, random numbers, addresses, unordered-container iteration, or file metadata other than length, type and owner-execute bit.",
  ["inputs", "schedules", "configurations"], "every run on the same tree",
  "tests run once on one machine; they cannot show independence from what they do not vary",
  ["src/v1/scan.rs", "src/v1/progress.rs"] + W, m(("progress keeps clocks out of the wrapped writer", "src/v1/progress.rs")))

p("C09", "Threaded scanning writes what synchronous scanning writes",
  "The threaded writer emits its items in exactly the order in which they were submitted (first in, first out, an unfinished item stays at the head), each item exactly once, and for the same entry the line it writes is assembled from the same fields, in the same format, as the synchronous writer's.",
  ["schedules", "configurations", "inputs"], "every interleaving of worker completion and every thread count and queue size",
  "tests see the interleavings the machine happens to produce with tiny files",
  W, m(("queue discipline: push_back on submit, pop_front, push_front when not ready", "src/v1/threaded_writer.rs")))

p("C10", "Executable flag is the owner-execute bit",
  "A file line is marked `x` if and only if bit 0o100 of the mode of the opened file is set, and `f` otherwise, in both writers; the parser reports executable exactly for `x` lines, and the Emitter writes `x` exactly when told the file is executable.",
  ["inputs", "configurations"], "every file mode and writer",
  "test trees contain plain 644 files and one executable",
  W + ["src/v1/emitter.rs", "src/v1/parser.rs"], m(("mode & EXE_MASK", "writer.rs, threaded_writer.rs")))

p("C11", "Symlinks are recorded, never followed",
  "Scanning below the configured roots descends only into entries whose type is directory, opens for reading only entries whose type is regular file, and handles an entry of type symlink only by reading its target, which is written verbatim (escaped); entries of any other type are skipped. All accesses go through descriptor-relative no-follow calls on the directory that was listed.",
  ["inputs", "schedules"], "every tree with arbitrary links, special files and unknown d_type",
  "tests scan trees without special files or links to directories",
  ["src/v1/scan.rs"] + W, m(("match on simple_type", "src/v1/scan.rs")))

p("C12", "Scanning and parsing never modify the filesystem",
  "No operation reachable from the public API creates, truncates, renames, removes, links or changes the attributes of any filesystem object or spawns a process; the command line tool creates exactly the file named by its index option.",
  ["inputs", "configurations", "programs"], "every call path of the library and the tool",
  "tests would have to notice a side effect they do not look for",
  ["src/v1/scan.rs", "src/bin/index.rs"] + W + ["src/v1/merge.rs"], m(("only read-only openat/fs calls", "whole crate")))

p("C13", "Every failure aborts the scan with the right error",
  "If any open, listing, metadata, read, readlink or index write that scanning performs fails, scanning returns an error and writes no footer; the error is OpenDir for opening a root, ListDir for opening or listing a subdirectory, ReadFile for opening, stat-ing, reading or readlink-ing an entry, WriteError for writing the index and NoRootDirectory when no root was given. No such failure is swallowed, retried or turned into a panic.",
  ["fault_sequences", "schedules"], "every single failing operation, in every configuration",
  "tests inject no faults",
  ["src/v1/scan.rs", "src/v1/progress.rs", "src/v1/mod.rs"] + W, m(("map_err(..)? at every call", "scan.rs, writer.rs, threaded_writer.rs")))

p("C14", "Success means the complete index was delivered",
  "Scanning returns success only after the footer line was written completely and the destination was flushed successfully; the Emitter's calls return success only after all their bytes were accepted.",
  ["fault_sequences", "inputs"], "every destination that buffers, writes short or fails late",
  "tests write to memory, which never fails",
  W + ["src/v1/emitter.rs", "src/bin/index.rs"], m(("write_all semantics and flush in done()", "writer.rs, threaded_writer.rs")))

p("C15", "Parsing arbitrary bytes never panics",
  "For every byte sequence and every reader behaviour, reading the header, iterating and advancing over entries, inspecting the resulting entries and hashes, merging several such streams and extracting the footer hash return values or errors but never panic or overflow (given only that the caller's own search key is a valid absolute entry path).",
  ["inputs", "histories"], "every input and every sequence of next/advance calls",
  "tests parse a few dozen hand-written inputs",
  ["src/v1/parser.rs", "src/v1/merge.rs", "src/read.rs"], m(("bounds and validity checks before every index, division and unwrap", "parser.rs")))

p("C16", "Parser memory is bounded by its input",
  "While parsing, no allocation is sized by a number read from the input unless that number is bounded by the amount of input already read.",
  ["inputs"], "every claimed file size and block size, up to 2^64-1",
  "tests use sizes that match the data",
  ["src/v1/parser.rs", "src/read.rs"], m(("capacity of the hash buffer", "src/v1/parser.rs parse_hashes")))

p("C17", "End of index is reported only for a complete index",
  "The parser reports a normal end of entries only after it has read a newline-terminated footer line that holds exactly one well-formed hash, and has verified that no byte follows it; a missing newline, truncated file, malformed footer, trailing data or read error is reported as an error. A header is accepted only with the magic, version, a known hash type and a valid block size.",
  ["inputs", "fault_sequences"], "every truncation and corruption of an index",
  "tests try a few malformed footers",
  ["src/v1/parser.rs"], m(("_parse_entry footer branch, read_line, Header::parse", "src/v1/parser.rs")))

p("C18", "next and advance neither lose nor repeat entries",
  "In every sequence of next and advance calls each line is delivered or skipped at most once: advance consumes entries smaller than its target, returns and consumes an equal one, and leaves the first greater entry to be delivered by the following call; next consumes exactly one line. A line that could not be read or parsed is consumed with its error.",
  ["histories", "inputs"], "every interleaving of next and advance with present and absent targets",
  "tests call advance a few times on one well-formed input",
  ["src/v1/parser.rs", "src/v1/merge.rs"], m(("current_row is parked on Greater and cleared otherwise", "src/v1/parser.rs EntryIterator"), ("head slot", "src/v1/merge.rs PeekableEntryIterator")))

p("C19", "Iteration terminates",
  "Every call of next either consumes at least one byte of input or makes the iterator finished, and a finished iterator stays finished: after the end of input has been reached with an error no further error is produced, so iterating any finite input ends.",
  ["inputs", "histories"], "every finite input, in particular truncated ones",
  "tests stop at the first error",
  ["src/v1/parser.rs"], m(("exhausted flag", "src/v1/parser.rs")))

p("C20", "Entry order is a total order equal to index order",
  "For valid entry paths the comparison of two entry kinds is the lexicographic order on (directory path, directories before their files, file name), where a directory's own line counts with its own path and a file with its parent's; it is antisymmetric, consistent between all four combinations of kinds, and agrees with partial comparison.",
  ["inputs"], "every pair of valid entry kinds",
  "the unit test compares a fixed list of nine entries",
  ["src/v1/parser.rs"], m(("Ord for EntryKind", "src/v1/parser.rs")))

p("C21", "Merging yields each entry once, grouped by kind",
  "Merging rejects inputs whose hash types or block sizes differ.  Each step yields exactly the heads that compare equal to the smallest head, each once and under the key of its own source, possibly together with pending errors of sources, and leaves every other head and every other pending error in place for a later step; it ends only when no source has anything left.  Advancing returns, for every source, its pending error, its head if that equals the target, and otherwise (head smaller) what the source itself returns for the target; a head greater than the target stays pending.",
  ["inputs", "histories"], "every number of sources, every contents, every interleaving of equal and unequal heads",
  "tests merge two or three tiny indexes",
  ["src/v1/merge.rs"], m(("min selection in MergedEntriesIterator::next", "src/v1/merge.rs"), ("PeekableEntryIterator::peek/advance/next", "src/v1/merge.rs"), ("check_same", "src/v1/merge.rs")))

p("C22", "Hash names are consistent everywhere",
  "For each supported hash type the name accepted by parsing, the name displayed, the name written in the header by the writers and by the Emitter, and the algorithm actually used by scanning, hashing, checking and emitting all agree and are one of `sha512/256`, `blake2b/256`, `blake3/256`; the digest size is 32 bytes; no other name is accepted.",
  ["inputs", "configurations"], "every hash type and every code path that dispatches on it",
  "tests cover two of three types on some paths",
  ["src/hash_type.rs", "src/v1/hash.rs", "src/v1/mod.rs", "src/v1/emitter.rs", "src/v1/parser.rs"], m(("match on the hash type", "hash_type.rs, mod.rs, emitter.rs, parser.rs"), ("Hash::name", "hash.rs")))

p("C23", "Configuration settings take effect",
  "Every setter of the scanner configuration stores its argument and changes nothing else, defaults are sha512/256, 32768-byte blocks, no threads, no progress; and scanning uses the configured hash, block size, directories, thread count, queue size and progress flag: threaded if and only if more than one thread is asked for, progress if and only if requested.",
  ["configurations"], "every combination of settings",
  "tests set two or three combinations",
  ["src/config.rs", "src/v1/mod.rs", "src/v1/scan.rs", "src/v1/threaded_writer.rs"], m(("setters and dispatch", "config.rs, v1/mod.rs")))

p("C24", "check_file accepts only matching content",
  "Checking a file against hashes returns true only if every stored hash equals the digest of the corresponding block, in order, and a further read shows the file has ended; any difference or trailing byte yields false and any read error an error.",
  ["inputs", "fault_sequences"], "every file content and hash list",
  "tests check four small contents",
  ["src/v1/parser.rs"], m(("_check_file", "src/v1/parser.rs")))

p("C25", "get_hash returns the footer or an error",
  "Extracting the hash returns exactly the bytes denoted by the hex digits of the final line of a file whose header has the v1 magic and a known hash type, and whose last line is preceded and followed by a newline; it does not depend on how the reader splits reads, and anything else is an error.",
  ["inputs", "fault_sequences"], "every file and every reader that returns short reads",
  "one test reads one in-memory file",
  ["src/read.rs"], m(("get_hash", "src/read.rs")))

p("C26", "Parse errors carry the line number",
  "A parse error reports the 1-based number of the line it was found on: the header is line 1, each line read adds one, and re-examining an already read line does not.",
  ["histories", "inputs"], "every sequence of next and advance calls before the error",
  "tests check the number only after plain iteration",
  ["src/v1/parser.rs"], m(("current_row_num", "src/v1/parser.rs")))

p("C27", "Background queue is bounded",
  "The threaded writer holds at most a configured number of pending items (plus one): whenever more are queued it blocks for the oldest before accepting another.",
  ["schedules", "inputs"], "every tree size and worker speed",
  "tests use fewer files than the limit",
  ["src/v1/threaded_writer.rs"], m(("queue_limit", "src/v1/threaded_writer.rs")))

p("C28", "Progress output does not influence the index",
  "With progress enabled the wrapped writer receives exactly the same calls with the same arguments in the same order and its errors are returned unchanged; failures to print progress are ignored and nothing printed for progress reaches the index.",
  ["configurations", "fault_sequences"], "every scan with progress enabled, including a failing stderr",
  "no test enables progress",
  ["src/v1/progress.rs", "src/v1/mod.rs"], m(("Progress delegates to dest", "src/v1/progress.rs")))

p("C29", "The command line tool reports failure",
  "The index tool exits with status 0 only if scanning returned success (the argument parser's own exits for help and usage errors aside), prints an error and exits non-zero otherwise, creates only the file named by its index option, passes the chosen hash, threads, progress flag and every given directory to the scan, and sends the index to the chosen file or to standard output.",
  ["fault_sequences", "configurations"], "every outcome of argument parsing, file creation and scanning",
  "the tool has no tests",
  ["src/bin/index.rs"], m(("run()", "src/bin/index.rs")))

p("C30", "Parsed entry paths stay inside the index root",
  "Every file or link entry the parser yields has a path that is the current absolute directory path joined with one single normal path component: never an absolute name, `.`, `..`, an empty name or a name with a slash, even when escaped.",
  ["inputs"], "every index, in particular hostile ones",
  "tests use well-formed names",
  ["src/v1/parser.rs"], m(("name validation in Entry::parse", "src/v1/parser.rs")))

p("C31", "Index text is pure ASCII and unchecked strings are sound",
  "Every string built without UTF-8 validation consists only of bytes taken from an ASCII table, so that hashes are printed as valid lowercase hex and no undefined behaviour can arise.",
  ["inputs"], "every digest value and every formatting precision used in the crate",
  "undefined behaviour and rare nibble values need not show in a test",
  ["src/v1/hash.rs", "src/v1/parser.rs"], m(("LOWER_CHARS lookup before from_utf8_unchecked", "hash.rs, parser.rs")))

p("C32", "Every entry is recorded exactly once",
  "Unless an error ends the scan, every regular file and symbolic link found in a scanned directory gets exactly one line under that directory, whose name is the name of that very entry, every subdirectory found is descended into, every visited directory gets exactly one directory line, and listing, collecting and visiting never stop early; only entries of another type are left out.",
  ["inputs", "schedules", "configurations"], "every tree, of any size, depth and naming",
  "tests scan trees of a dozen files; an entry skipped by name, number, size or queue state is not noticed",
  ["src/v1/scan.rs"] + W, m(("listing loop, files, subdirs, queue", "src/v1/scan.rs"), ("queue of operations", "src/v1/threaded_writer.rs")))

p("C33", "Parsed entries say what their line says",
  "Every entry the parser returns without error has the kind its line shows (a directory if the line starts with `/`, otherwise a link or file by its type field `s`, `f` or `x`), the path made from the first field, for a link the target from the field after the type, for a file the executable flag exactly for `x`, the size that the decimal field after the type denotes, and exactly ceil(size/block_size) hashes, which are the 32-byte values of the hex fields (either case) in their order, together with the block size and hash type of the header; any other line is an error.",
  ["inputs"], "every line of every index",
  "tests parse a few well-formed lines",
  ["src/v1/parser.rs"], m(("Entry::parse, parse_hashes", "src/v1/parser.rs")))

p("C34", "Accessors report what was parsed",
  "get_header, get_version, get_hash_type and get_block_size give the header exactly as its line says; the iterator parses with those values; Entry::path and kind, and EntryKind::path, as_ref and cloned, give the entry's own path and kind; Hashes::len, get(i) and iter give the number of stored hashes, the i-th one (None from len on, for any index) and all of them in order, whole; block_size and hash_type are the stored ones; Parser::new reads the header line and nothing after it, and into_reader gives back the very reader.",
  ["inputs"], "every parsed index, entry and index number up to the largest",
  "tests look at a few values; a wrong variant, an off-by-one or an overflow at an index they do not use is not seen",
  ["src/v1/parser.rs"], m(("Header, Parser, Entry, EntryKind and Hashes accessors", "src/v1/parser.rs")))

p("C35", "The Emitter writes exactly what it is told",
  "Emitter::new writes the header with exactly the hash type and block size given, start_dir the path given, add_symlink the name and target given, and add_file the name given, `x` exactly if the file is executable, exactly the size given and every hash of the given list, each once, whole and in order; each on one complete line and nothing else, before success is returned.",
  ["inputs"], "every name, path, target, size, flag and list of hashes of any length",
  "tests emit one small index; values they do not use (large sizes, many hashes, odd targets) can go wrong unnoticed",
  ["src/v1/emitter.rs", "src/v1/parser.rs"], m(("Emitter::new, start_dir, add_file, add_symlink", "src/v1/emitter.rs"), ("Hashes::hex_iter", "src/v1/parser.rs")))

p("C36", "hash_file reports the size and every block of what it reads",
  "Given a positive block size, Hashes::hash_file returns success only after reading to the end without an error, with the size equal to the number of bytes read and one whole hash per non-empty block, in the order of the blocks, together with the hash type and block size it was given; any read error is returned.",
  ["inputs", "fault_sequences"], "every content, block size and sequence of read results",
  "tests hash a few bytes; a counter that overflows, resets or skips, or a hash lost at some block, is not seen",
  ["src/v1/parser.rs", "src/v1/hash.rs"], m(("Hashes::hash_file, _hash_file", "src/v1/parser.rs")))

p("C37", "A merge of files reads each file under its own base path",
  "FileMergeBuilder::finalize opens exactly the registered index files, in the order they were added, reads each one's header and hands it to the merge under the base path it was added with; if any file cannot be opened or its header is not valid it returns an error.",
  ["inputs", "fault_sequences"], "every pair of registered files and every outcome of opening and parsing them",
  "tests merge readers in memory; files that are missing or swapped are not tried",
  ["src/v1/merge.rs"], m(("FileMergeBuilder::add, finalize", "src/v1/merge.rs")))
