//! Primitives understood by the symbolic executor (`/verif/engine`). In the native replay binary
//! the same symbols are defined by `bin/replay.rs` and read their values from a counterexample.
#![allow(dead_code)]

unsafe extern "C" {
    fn vp_sym(p: *mut u8, n: usize);
    fn vp_choose(n: u64) -> u64;
    fn vp_assume(c: bool);
    fn vp_check(c: bool, id: *const u8, n: usize);
    fn vp_fail(id: *const u8, n: usize) -> !;
    fn vp_cover(id: *const u8, n: usize);
    fn vp_out(v: u64);
    fn vp_conc(v: u64) -> u64;
    fn vp_hash_mode(m: u64);
    fn vp_alloc_limit(n: u64);
    fn vp_fs_root(buf: *mut u8) -> usize;
    fn vp_fs_add(p: *const u8, n: usize, d: *const u8, dn: usize, kind: u64);
    fn vp_fs_outside(p: *const u8, n: usize) -> bool;
    fn vp_fs_fault(kind: u64, limit: u64, at: u64, errno: u64);
    fn vp_sym_mode() -> u64;
}

/// `N` fresh symbolic bytes.
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { vp_sym(b.as_mut_ptr(), N) };
    b
}
/// `n` fresh symbolic bytes.
pub fn vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    if n > 0 {
        unsafe { vp_sym(b.as_mut_ptr(), n) };
    }
    b
}
pub fn u8() -> u8 {
    bytes::<1>()[0]
}
pub fn u16() -> u16 {
    u16::from_le_bytes(bytes())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(bytes())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(bytes())
}
/// A symbolic boolean (not forked).
pub fn bool() -> bool {
    let b = u8();
    b & 1 == 1
}
/// Explore every value in `0..n` (one path per value).
pub fn choose(n: u64) -> u64 {
    unsafe { vp_choose(n) }
}
/// Explore both values.
pub fn flag() -> bool {
    choose(2) == 1
}
pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}
pub fn check(c: bool, id: &str) {
    unsafe { vp_check(c, id.as_ptr(), id.len()) }
}
pub fn fail(id: &str) -> ! {
    unsafe { vp_fail(id.as_ptr(), id.len()) }
}
pub fn cover(id: &str) {
    unsafe { vp_cover(id.as_ptr(), id.len()) }
}
/// Record an observable of this path (compared between the symbolic and the native run).
pub fn out(v: u64) {
    unsafe { vp_out(v) }
}
pub fn out_bytes(b: &[u8]) {
    out(b.len() as u64);
    for c in b {
        out(*c as u64)
    }
}
/// Fork on the value of `v` until it is concrete.
pub fn conc(v: u64) -> u64 {
    unsafe { vp_conc(v) }
}
/// Select the hash function used for every `HashMap`: 0 constant, n: n-th permutation.
pub fn hash_mode(m: u64) {
    unsafe { vp_hash_mode(m) }
}
/// From here on no single allocation may be larger than `n` bytes.
pub fn alloc_limit(n: u64) {
    unsafe { vp_alloc_limit(n) }
}
pub fn fs_root() -> String {
    let mut b = [0u8; 256];
    let n = unsafe { vp_fs_root(b.as_mut_ptr()) };
    String::from_utf8(b[..n].to_vec()).unwrap()
}
pub fn fs_dir(p: &str) {
    unsafe { vp_fs_add(p.as_ptr(), p.len(), p.as_ptr(), 0, 0) }
}
pub fn fs_file(p: &str, d: &[u8]) {
    unsafe { vp_fs_add(p.as_ptr(), p.len(), d.as_ptr(), d.len(), 1) }
}
pub fn fs_link(p: &str, to: &str) {
    unsafe { vp_fs_add(p.as_ptr(), p.len(), to.as_ptr(), to.len(), 2) }
}
/// Has a file or directory been opened that is not inside the directory `p`?
pub fn fs_outside(p: &str) -> bool {
    unsafe { vp_fs_outside(p.as_ptr(), p.len()) }
}
pub fn in_engine() -> bool {
    unsafe { vp_sym_mode() == 1 }
}

/// From here on every read returns at most `limit` bytes, and the `at`-th one fails with `errno`.
pub fn fs_reads(limit: u64, at: u64, errno: u64) {
    unsafe { vp_fs_fault(0, limit, at, errno) }
}
/// From here on the `at`-th opening of a file or directory fails with `errno`.
pub fn fs_opens(at: u64, errno: u64) {
    unsafe { vp_fs_fault(1, u64::MAX, at, errno) }
}
/// From here on every file is reported to have `n` bytes.
pub fn fs_sizes(n: u64) {
    unsafe { vp_fs_fault(2, n, u64::MAX, 0) }
}
