//! Analysis roots.  Nothing in this crate is ever executed: it instantiates
//! the public API of `dir_signature` with abstract readers and writers so that
//! the compiler produces monomorphic, fully resolved MIR for all of it.
#![allow(clippy::all)]

use std::ffi::OsStr;
use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};

use dir_signature::v1::merge::{FileMergeBuilder, MergeError, MergedSignatures};
use dir_signature::v1::{self, Emitter, Entry, EntryKind, Hashes, ParseError, Parser};
use dir_signature::{get_hash, Error, HashType, ScannerConfig};

extern "Rust" {
    fn ext_write(s: *const Sink, b: *const [u8]) -> io::Result<usize>;
    fn ext_flush(s: *const Sink) -> io::Result<()>;
    fn ext_read(s: *const Src, b: *mut [u8]) -> io::Result<usize>;
    fn ext_fill(s: *const Src) -> io::Result<&'static [u8]>;
    fn ext_consume(s: *const Src, n: usize);
    fn ext_seek(s: *const Src, p: SeekFrom) -> io::Result<u64>;
    fn ext_nondet() -> bool;
}
fn nondet() -> bool { unsafe { ext_nondet() } }

/// An arbitrary writer: may write short, may fail.
pub struct Sink(pub u8);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { unsafe { ext_write(self, b) } }
    fn flush(&mut self) -> io::Result<()> { unsafe { ext_flush(self) } }
}
/// An arbitrary reader: may read short, may fail, yields arbitrary bytes.
pub struct Src(pub u8);
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { unsafe { ext_read(self, b) } }
}
impl BufRead for Src {
    fn fill_buf(&mut self) -> io::Result<&[u8]> { unsafe { ext_fill(self) } }
    fn consume(&mut self, n: usize) { unsafe { ext_consume(self, n) } }
}
impl Seek for Src {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { unsafe { ext_seek(self, p) } }
}

// ------------------------------------------------------------------ scanning
pub fn r_scan(cfg: &ScannerConfig, out: &mut Sink) -> Result<(), Error> { v1::scan(cfg, out) }

// ------------------------------------------------------------------- emitter
pub fn r_emitter(h: HashType, bs: u64, out: &mut Sink, path: &Path, name: &OsStr, exe: bool,
    size: u64, hashes: &Hashes) -> io::Result<()>
{
    let mut e = Emitter::new(h, bs, out)?;
    loop {
        if nondet() { e.start_dir(path)?; }
        else if nondet() { e.add_file(name, exe, size, hashes)?; }
        else if nondet() { e.add_symlink(name, path)?; }
        else { break; }
    }
    e.finish()
}

pub fn r_em_new(h: HashType, bs: u64, out: &mut Sink) -> io::Result<()> { Emitter::new(h, bs, out)?; Ok(()) }
pub fn r_em_dir(h: HashType, bs: u64, out: &mut Sink, path: &Path) -> io::Result<()> { Emitter::new(h, bs, out)?.start_dir(path) }
pub fn r_em_file(h: HashType, bs: u64, out: &mut Sink, name: &OsStr, exe: bool, size: u64, hashes: &Hashes) -> io::Result<()> {
    Emitter::new(h, bs, out)?.add_file(name, exe, size, hashes)
}
pub fn r_em_link(h: HashType, bs: u64, out: &mut Sink, name: &OsStr, target: &Path) -> io::Result<()> { Emitter::new(h, bs, out)?.add_symlink(name, target) }
pub fn r_em_finish(h: HashType, bs: u64, out: &mut Sink) -> io::Result<()> { Emitter::new(h, bs, out)?.finish() }

// -------------------------------------------------------------------- config
pub fn r_config_new() -> ScannerConfig { ScannerConfig::new() }
pub fn r_config_hash(c: &mut ScannerConfig, h: HashType) { c.hash(h); }
pub fn r_config_threads(c: &mut ScannerConfig, n: usize) { c.threads(n); }
pub fn r_config_auto_threads(c: &mut ScannerConfig) { c.auto_threads(); }
pub fn r_config_queue_size(c: &mut ScannerConfig, n: usize) { c.queue_size(n); }
pub fn r_config_add_dir(c: &mut ScannerConfig, p: &PathBuf, r: &PathBuf) { c.add_dir(p, r); }
pub fn r_config_print_progress(c: &mut ScannerConfig) { c.print_progress(); }

// ---------------------------------------------------------------- hash types
pub fn r_hash_sha512() -> HashType { HashType::sha512_256() }
pub fn r_hash_blake2b() -> HashType { HashType::blake2b_256() }
pub fn r_hash_blake3() -> HashType { HashType::blake3_256() }
pub fn r_hash_from_str(s: &str) -> Result<HashType, Error> { s.parse() }
pub fn r_hash_output_bytes(h: HashType) -> usize { h.output_bytes() }
pub fn r_hash_display(h: HashType, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(&h, f)
}

// ------------------------------------------------------------------ get_hash
pub fn r_get_hash(f: &mut Src) -> Result<Vec<u8>, io::Error> { get_hash(f) }

// -------------------------------------------------------------------- parser
pub fn r_parser_new(r: Src) -> Result<Parser<Src>, ParseError> { Parser::new(r) }
pub fn r_parser_get_header(p: &Parser<Src>) -> v1::Header { p.get_header() }
pub fn r_parser_iter(p: &mut Parser<Src>) -> v1::EntryIterator<'_, Src> { p.iter() }
pub fn r_parser_into_reader(p: Parser<Src>) -> Src { p.into_reader() }
pub fn r_iter_next(it: &mut v1::EntryIterator<'_, Src>) -> Option<Result<Entry, ParseError>> { it.next() }
pub fn r_iter_advance(it: &mut v1::EntryIterator<'_, Src>, k: &EntryKind<PathBuf>)
    -> Option<Result<Entry, ParseError>> { it.advance(k) }

/// header, then any sequence of `next` / `advance` calls
pub fn r_parser_session(r: Src, p: &Path, q: &Path) -> u8 {
    let mut parser = match Parser::new(r) { Ok(p) => p, Err(_) => return 0 };
    let mut it = parser.iter();
    loop {
        if nondet() { let _ = it.next(); }
        else if nondet() { let _ = it.advance(&EntryKind::Dir(p)); }
        else if nondet() { let _ = it.advance(&EntryKind::File(q)); }
        else { break; }
    }
    1
}

pub fn r_header_version(h: &v1::Header) -> &str { h.get_version() }
pub fn r_header_hash_type(h: &v1::Header) -> HashType { h.get_hash_type() }
pub fn r_header_block_size(h: &v1::Header) -> u64 { h.get_block_size() }

pub fn r_entry_path(e: &Entry) -> &Path { e.path() }
pub fn r_entry_kind(e: &Entry) -> EntryKind<&Path> { e.kind() }
pub fn r_kind_cmp(a: &EntryKind<PathBuf>, b: &EntryKind<PathBuf>) -> std::cmp::Ordering { a.cmp(b) }
pub fn r_kind_partial_cmp(a: &EntryKind<PathBuf>, b: &EntryKind<PathBuf>) -> Option<std::cmp::Ordering> { a.partial_cmp(b) }
pub fn r_kind_eq(a: &EntryKind<PathBuf>, b: &EntryKind<PathBuf>) -> bool { a == b }
pub fn r_kind_path(a: &EntryKind<PathBuf>) -> &Path { a.path() }
pub fn r_kind_as_ref(a: &EntryKind<PathBuf>) -> EntryKind<&Path> { a.as_ref() }
pub fn r_kind_cloned(a: &EntryKind<PathBuf>) -> EntryKind<PathBuf> { a.cloned() }

// -------------------------------------------------------------------- hashes
pub fn r_hashes_len(h: &Hashes) -> usize { h.len() }
pub fn r_hashes_get(h: &Hashes, i: usize) -> Option<&[u8]> { h.get(i) }
pub fn r_hashes_block_size(h: &Hashes) -> u64 { h.block_size() }
pub fn r_hashes_hash_type(h: &Hashes) -> HashType { h.hash_type() }
pub fn r_hashes_iter(h: &Hashes, out: &mut Sink) -> io::Result<()> { for x in h.iter() { out.write_all(x)?; } Ok(()) }
pub fn r_hash_file(h: HashType, bs: u64, f: Src) -> io::Result<(u64, Hashes)> { Hashes::hash_file(h, bs, f) }
pub fn r_check_file(h: &Hashes, f: Src) -> io::Result<bool> { h.check_file(f) }

// --------------------------------------------------------------------- merge
pub fn r_merge_new(v: Vec<(u32, Parser<Src>)>) -> Result<MergedSignatures<u32, Src>, MergeError> {
    MergedSignatures::new(v)
}
pub fn r_merge_iter(m: &mut MergedSignatures<u32, Src>) -> v1::merge::MergedEntriesIterator<'_, u32, Src> { m.iter() }
pub fn r_merge_next<'a>(m: &mut v1::merge::MergedEntriesIterator<'a, u32, Src>) -> Option<Vec<(&'a u32, Result<v1::Entry, v1::ParseError>)>> { m.next() }
pub fn r_merge_advance<'a>(m: &mut v1::merge::MergedEntriesIterator<'a, u32, Src>, k: &EntryKind<PathBuf>) -> Vec<(&'a u32, Result<v1::Entry, v1::ParseError>)> {
    m.advance(k)
}
pub fn r_merge_files(p: &Path, q: &Path) -> Result<MergedSignatures<PathBuf, io::BufReader<std::fs::File>>, MergeError> {
    let mut b = FileMergeBuilder::new();
    b.add(p, q);
    b.add(q, p);
    b.finalize()
}

// ------------------------------------------------------ models of std loops
/// stands for `<Vec<T> as FromIterator<T>>::from_iter`
pub fn model_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it { v.push(x); }
    v
}
/// stands for `<Vec<T> as Extend<T>>::extend`
pub fn model_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    for x in it { v.push(x); }
}
/// stands for `<Vec<T> as Extend<&T>>::extend`
pub fn model_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
    for x in it { v.push(*x); }
}
/// stands for overridden `Iterator::all` / `any`
pub fn model_it_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn model_it_advance_by<I: Iterator>(it: &mut I, n: usize) -> Result<(), std::num::NonZeroUsize> {
    let mut k = n;
    while k > 0 {
        if it.next().is_none() {
            return match std::num::NonZeroUsize::new(k) { Some(k) => Err(k), None => Ok(()) };
        }
        k -= 1;
    }
    Ok(())
}
pub fn model_it_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
