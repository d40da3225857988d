//! Native replay: runs one entry of the harness against the real code with the values of a
//! counterexample (or of an explored path) and prints what happened.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

struct St {
    inp: Vec<u8>,
    pos: usize,
    outs: Vec<u64>,
    over: bool,
    root: Option<String>,
}
thread_local! {
    static ST: RefCell<St> = const { RefCell::new(St { inp: vec![], pos: 0, outs: vec![], over: false, root: None }) };
}
fn next() -> u8 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        if s.pos >= s.inp.len() {
            s.over = true;
            return 0;
        }
        s.pos += 1;
        s.inp[s.pos - 1]
    })
}
fn finish(status: &str, msg: &str) -> ! {
    let (outs, over) = ST.with(|s| {
        let s = s.borrow();
        (s.outs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), s.over)
    });
    println!("{{\"status\":\"{}\",\"msg\":{:?},\"outs\":[{}],\"over\":{}}}", status, msg, outs, over);
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}
fn st(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).to_string()
}
#[unsafe(no_mangle)]
extern "C" fn vp_sym(p: *mut u8, n: usize) {
    for i in 0..n {
        unsafe { *p.add(i) = next() }
    }
}
#[unsafe(no_mangle)]
extern "C" fn vp_choose(n: u64) -> u64 {
    let v = next() as u64;
    if v >= n {
        finish("assume", "choice out of range")
    }
    v
}
#[unsafe(no_mangle)]
extern "C" fn vp_assume(c: bool) {
    if !c {
        finish("assume", "")
    }
}
#[unsafe(no_mangle)]
extern "C" fn vp_check(c: bool, id: *const u8, n: usize) {
    if !c {
        finish("check", &st(id, n))
    }
}
#[unsafe(no_mangle)]
extern "C" fn vp_fail(id: *const u8, n: usize) -> ! {
    finish("check", &st(id, n))
}
#[unsafe(no_mangle)]
extern "C" fn vp_cover(_id: *const u8, _n: usize) {}
#[unsafe(no_mangle)]
extern "C" fn vp_out(v: u64) {
    ST.with(|s| s.borrow_mut().outs.push(v))
}
#[unsafe(no_mangle)]
extern "C" fn vp_conc(v: u64) -> u64 {
    v
}
#[unsafe(no_mangle)]
extern "C" fn vp_hash_mode(_m: u64) {}
#[unsafe(no_mangle)]
extern "C" fn vp_alloc_limit(n: u64) {
    LIMIT.store(n as usize, Relaxed)
}
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
struct Alloc;
fn sized(n: usize) {
    if n > LIMIT.load(Relaxed) {
        LIMIT.store(usize::MAX, Relaxed);
        finish("alloc", &format!("allocation of {} bytes", n))
    }
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sized(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        sized(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sized(n);
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;
#[unsafe(no_mangle)]
extern "C" fn vp_sym_mode() -> u64 {
    0
}
/// A scratch directory given by the caller (who also removes it).
#[unsafe(no_mangle)]
extern "C" fn vp_fs_root(buf: *mut u8) -> usize {
    let r = ST.with(|s| s.borrow().root.clone()).unwrap_or_else(|| finish("error", "no scratch root"));
    unsafe { std::ptr::copy_nonoverlapping(r.as_ptr(), buf, r.len()) };
    r.len()
}
fn inside(root: &str, p: *const u8, n: usize) -> std::path::PathBuf {
    use std::os::unix::ffi::OsStrExt;
    let path = std::path::Path::new(std::ffi::OsStr::from_bytes(unsafe { std::slice::from_raw_parts(p, n) }));
    if path.components().any(|c| !matches!(c, std::path::Component::Normal(_))) {
        finish("error", "scratch path outside the scratch root");
    }
    std::path::Path::new(root).join(path)
}
#[unsafe(no_mangle)]
extern "C" fn vp_fs_add(p: *const u8, n: usize, d: *const u8, dn: usize, kind: u64) {
    use std::os::unix::ffi::OsStrExt;
    let root = ST.with(|s| s.borrow().root.clone()).unwrap_or_else(|| finish("error", "no scratch root"));
    let path = inside(&root, p, n);
    let data = unsafe { std::slice::from_raw_parts(d, dn) };
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    let r = match kind {
        0 => std::fs::create_dir_all(&path),
        1 => std::fs::write(&path, data),
        _ => std::os::unix::fs::symlink(std::ffi::OsStr::from_bytes(data), &path),
    };
    if let Err(e) = r {
        finish("assume", &format!("scratch file system: {}", e));
    }
    OPENED.lock().unwrap().clear();
}
// Every file and directory std opens is noted (by the real path of what was opened).
static OPENED: std::sync::Mutex<Vec<std::path::PathBuf>> = std::sync::Mutex::new(vec![]);
unsafe extern "C" {
    fn openat64(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32;
    fn fdopendir(fd: i32) -> *mut u8;
}
fn note(fd: i32) {
    if fd >= 0
        && let Ok(p) = std::fs::read_link(format!("/proc/self/fd/{}", fd))
    {
        OPENED.lock().unwrap().push(p);
    }
}
// Reads and opens that are cut short or fail.
static FAULTS: std::sync::Mutex<[(u64, u64, u64); 3]> = std::sync::Mutex::new([(u64::MAX, u64::MAX, 0); 3]);
static CALLS: std::sync::Mutex<[u64; 3]> = std::sync::Mutex::new([0; 3]);
#[unsafe(no_mangle)]
extern "C" fn vp_fs_fault(kind: u64, limit: u64, at: u64, errno: u64) {
    FAULTS.lock().unwrap()[kind as usize] = (limit, at, errno);
    CALLS.lock().unwrap()[kind as usize] = 0;
}
unsafe extern "C" {
    fn readv(fd: i32, iov: *const (*mut u8, usize), n: i32) -> isize;
    fn __errno_location() -> *mut i32;
}
fn fault(kind: usize) -> bool {
    let f = FAULTS.lock().unwrap()[kind];
    let c = &mut CALLS.lock().unwrap()[kind];
    let n = *c;
    *c += 1;
    if n == f.1 {
        unsafe { *__errno_location() = f.2 as i32 }
    }
    n == f.1
}
#[unsafe(no_mangle)]
extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if fd >= 3 && fault(0) {
        return -1;
    }
    let n = if fd >= 3 { n.min(FAULTS.lock().unwrap()[0].0 as usize) } else { n };
    let v = (buf, n);
    unsafe { readv(fd, &v, 1) }
}
unsafe extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
#[cfg(target_arch = "x86_64")]
const STATX: i64 = 332;
#[cfg(not(target_arch = "x86_64"))]
const STATX: i64 = 291;
// A regular file may be reported with another size than it has.
#[unsafe(no_mangle)]
extern "C" fn statx(fd: i32, path: *const u8, flags: i32, mask: u32, buf: *mut u8) -> i32 {
    let r = unsafe { syscall(STATX, fd, path, flags, mask, buf) } as i32;
    let n = FAULTS.lock().unwrap()[2].0;
    if r == 0 && n != u64::MAX && unsafe { (buf.add(28) as *const u16).read_unaligned() } & 0o170000 == 0o100000 {
        unsafe { (buf.add(40) as *mut u64).write_unaligned(n) }
    }
    r
}
#[unsafe(no_mangle)]
extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if fault(1) {
        return -1;
    }
    let fd = unsafe { openat64(-100, path, flags, mode) };
    note(fd);
    fd
}
#[unsafe(no_mangle)]
extern "C" fn opendir(path: *const u8) -> *mut u8 {
    if fault(1) {
        return std::ptr::null_mut();
    }
    // O_DIRECTORY | O_CLOEXEC
    let fd = unsafe { openat64(-100, path, 0o2200000, 0) };
    if fd < 0 {
        return std::ptr::null_mut();
    }
    note(fd);
    unsafe { fdopendir(fd) }
}
#[unsafe(no_mangle)]
extern "C" fn vp_fs_outside(p: *const u8, n: usize) -> bool {
    let root = ST.with(|s| s.borrow().root.clone()).unwrap_or_else(|| finish("error", "no scratch root"));
    let dir = inside(&root, p, n).canonicalize().unwrap();
    OPENED.lock().unwrap().iter().any(|p| !p.starts_with(&dir))
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let hex = std::fs::read_to_string(&a[3]).unwrap();
    let hex = hex.trim();
    let inp = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    let arg: u64 = a[2].parse().unwrap();
    let root = a.get(4).cloned();
    let f = vph::ENTRIES.iter().find(|e| e.0 == a[1]).expect("entry").1;
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.inp = inp;
        s.root = root;
    });
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        finish("panic", &format!("{} @ {}", m, i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()))
    }));
    f(arg);
    finish("ok", "")
}
