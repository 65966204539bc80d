//! Native implementation of the harness interface over a replay file.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub static mut INPUT: Vec<u8> = Vec::new();
pub static mut POS: usize = 0;
pub static mut TRACE: Vec<u64> = Vec::new();
pub static mut PART: u64 = 0;
pub static mut TIER: u64 = 0;
static LIMIT: AtomicU64 = AtomicU64::new(0);
static MODE: AtomicU64 = AtomicU64::new(0);
static KINDS: AtomicU64 = AtomicU64::new(0);
static AT: AtomicU64 = AtomicU64::new(0);
static STICKY: AtomicU64 = AtomicU64::new(0);
static OWN: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);

pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        limit(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        limit(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        limit(n);
        System.realloc(p, l, n)
    }
}
fn limit(n: usize) {
    let l = LIMIT.load(Relaxed);
    if n as u64 > if l > 0 { l } else { 1 << 28 } {
        let m = b"SX-ALLOC\n";
        unsafe {
            syscall(1, 1, m.as_ptr(), m.len());
            syscall(231, 42);
        }
    }
}
#[global_allocator]
static A: Counting = Counting;

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}

pub fn done(code: i32) -> ! {
    fault(0, 0, 0, 0);
    LIMIT.store(0, Relaxed);
    #[allow(static_mut_refs)]
    unsafe {
        println!("SX-USED {}", POS);
        for v in TRACE.iter() {
            println!("SX-TRACE {:x}", v);
        }
    }
    use std::io::Write;
    std::io::stdout().flush().ok();
    std::process::exit(code)
}

#[allow(static_mut_refs)]
fn next() -> u8 {
    unsafe {
        let b = INPUT.get(POS).copied().unwrap_or(0);
        POS += 1;
        b
    }
}
pub unsafe fn sx_symbolic(p: *mut u8, n: u64) {
    for k in 0..n as usize {
        *p.add(k) = next();
    }
}
pub unsafe fn sx_choose(n: u64) -> u64 {
    let b = next() as u64;
    if b >= n {
        println!("SX-BADCHOICE");
        done(77)
    }
    b
}
pub unsafe fn sx_assume(c: u64) {
    if c == 0 {
        println!("SX-ASSUME");
        done(77)
    }
}
pub unsafe fn sx_assert(c: u64, id: u64) {
    if c == 0 {
        println!("SX-ASSERT {}", id);
        done(101)
    }
}
pub unsafe fn sx_reach(_id: u64) {}
pub unsafe fn sx_expect(_id: u64) {}
#[allow(static_mut_refs)]
pub unsafe fn sx_trace(v: u64) {
    TRACE.push(v)
}
#[allow(static_mut_refs)]
pub unsafe fn sx_trace_bytes(p: *const u8, n: u64) {
    let b = std::slice::from_raw_parts(p, n as usize);
    TRACE.push(n);
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        TRACE.push(u64::from_le_bytes(x));
    }
}
pub unsafe fn sx_concretize(v: u64) -> u64 {
    v
}
pub unsafe fn sx_part() -> u64 {
    PART
}
pub unsafe fn sx_tier() -> u64 {
    TIER
}
pub unsafe fn sx_alloc_limit(n: u64) {
    LIMIT.store(n, Relaxed)
}
pub unsafe fn sx_string_layout(_p: *const u8) {}
unsafe fn path(p: *const u8, n: u64) -> String {
    String::from_utf8(std::slice::from_raw_parts(p, n as usize).to_vec()).unwrap()
}
pub unsafe fn sx_file(p: *const u8, n: u64, d: *const u8, l: u64) {
    off(|| std::fs::write(path(p, n), std::slice::from_raw_parts(d, l as usize)).unwrap())
}
pub unsafe fn sx_file_len(p: *const u8, n: u64) -> u64 {
    off(|| match std::fs::metadata(path(p, n)) {
        Ok(m) => m.len(),
        Err(_) => u64::MAX,
    })
}
pub unsafe fn sx_file_get(p: *const u8, n: u64, d: *mut u8, l: u64) {
    off(|| {
        let v = std::fs::read(path(p, n)).unwrap();
        let k = v.len().min(l as usize);
        std::ptr::copy_nonoverlapping(v.as_ptr(), d, k);
    })
}
pub unsafe fn sx_gap(p: *const u8, n: u64, at: u64, len: u64) {
    use std::os::unix::fs::FileExt;
    off(|| {
        let v = std::fs::read(path(p, n)).unwrap();
        let f = std::fs::OpenOptions::new().write(true).open(path(p, n)).unwrap();
        f.set_len(at).unwrap();
        f.set_len(v.len() as u64 + len).unwrap();
        f.write_all_at(&v[at as usize..], at + len).unwrap();
    })
}
pub unsafe fn sx_ungap(p: *const u8, n: u64, at: u64, len: u64) -> u64 {
    use std::os::unix::fs::FileExt;
    off(|| {
        let f = std::fs::OpenOptions::new().read(true).write(true).open(path(p, n)).unwrap();
        let size = f.metadata().unwrap().len();
        // long enough, and nothing written into the gap
        let (lo, hi) = ((at + 0xffff) & !0xffff, (at + len) & !0xffff);
        let data = syscall(8, std::os::fd::AsRawFd::as_raw_fd(&f) as i64, lo, 3i64);
        if size < at + len || (0 <= data && data < hi as i64) {
            return 0;
        }
        let mut v = vec![0; (size - at - len) as usize];
        f.read_exact_at(&mut v, at + len).unwrap();
        f.set_len(at).unwrap();
        f.write_all_at(&v, at).unwrap();
        1
    })
}
/// run with fault injection and the allocation limit suspended
fn off<T>(f: impl FnOnce() -> T) -> T {
    let (m, c, l) = (MODE.swap(0, Relaxed), COUNT.load(Relaxed), LIMIT.swap(0, Relaxed));
    OWN.store(1, Relaxed);
    let r = f();
    OWN.store(0, Relaxed);
    MODE.store(m, Relaxed);
    COUNT.store(c, Relaxed);
    LIMIT.store(l, Relaxed);
    r
}
pub fn fault(mode: u64, kinds: u64, at: u64, sticky: u64) {
    MODE.store(mode, Relaxed);
    KINDS.store(kinds, Relaxed);
    AT.store(at, Relaxed);
    STICKY.store(sticky, Relaxed);
    COUNT.store(0, Relaxed);
}
pub unsafe fn sx_fault(mode: u64, kinds: u64, at: u64, sticky: u64) {
    fault(mode, kinds, at, sticky)
}
pub unsafe fn sx_fault_count() -> u64 {
    COUNT.load(Relaxed)
}

fn hit(fd: i32, kind: u64) -> u64 {
    let m = MODE.load(Relaxed);
    if fd < 3 || m == 0 || KINDS.load(Relaxed) & kind == 0 {
        return 0;
    }
    let c = COUNT.fetch_add(1, Relaxed) + 1;
    let at = AT.load(Relaxed);
    if c == at || (STICKY.load(Relaxed) != 0 && c > at) {
        m
    } else {
        0
    }
}
unsafe fn fail(e: i32) -> i64 {
    *__errno_location() = e;
    -1
}
const SPARSE: i64 = 16 << 20;
unsafe fn sparse(fd: i32, end: i64) {
    if fd < 3 || OWN.load(Relaxed) != 0 {
        return;
    }
    let mut st = [0u64; 64];
    if syscall(5, fd as i64, st.as_mut_ptr()) == 0 && end > st[6] as i64 + SPARSE {
        println!("SX-SPARSE");
        done(43)
    }
}

// interposed system calls (the executable's definitions win over libc's)
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    match hit(fd, 1) {
        1 => fail(5) as isize,
        2 => syscall(0, fd as i64, p, n.min(1)) as isize,
        _ => syscall(0, fd as i64, p, n) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    match hit(fd, 2) {
        1 => return fail(28) as isize,
        2 => return syscall(1, fd as i64, p, n.min(1)) as isize,
        3 => return 0,
        _ => {}
    }
    if fd >= 3 {
        let cur = syscall(8, fd as i64, 0i64, 1i64);
        if cur >= 0 {
            sparse(fd, cur + n as i64);
        }
    }
    syscall(1, fd as i64, p, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, p: *mut u8, n: usize, o: i64) -> isize {
    match hit(fd, 1) {
        1 => fail(5) as isize,
        2 => syscall(17, fd as i64, p, n.min(1), o) as isize,
        _ => syscall(17, fd as i64, p, n, o) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, p: *const u8, n: usize, o: i64) -> isize {
    match hit(fd, 2) {
        1 => return fail(28) as isize,
        2 => return syscall(18, fd as i64, p, n.min(1), o) as isize,
        3 => return 0,
        _ => {}
    }
    sparse(fd, o.saturating_add(n as i64));
    syscall(18, fd as i64, p, n, o) as isize
}
// several buffers: as the first one that is not empty (a short transfer), unless nothing is injected
unsafe fn first(v: *const (*mut u8, usize), c: i32) -> (*mut u8, usize) {
    for k in 0..c.max(0) as usize {
        if (*v.add(k)).1 > 0 {
            return *v.add(k);
        }
    }
    (std::ptr::null_mut(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, v: *const (*mut u8, usize), c: i32) -> isize {
    let (p, n) = first(v, c);
    match hit(fd, 1) {
        1 => fail(5) as isize,
        2 => syscall(0, fd as i64, p, n.min(1)) as isize,
        _ => syscall(19, fd as i64, v, c as i64) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const (*mut u8, usize), c: i32) -> isize {
    let (p, n) = first(v, c);
    match hit(fd, 2) {
        1 => fail(28) as isize,
        2 => syscall(1, fd as i64, p, n.min(1)) as isize,
        3 => 0,
        _ => syscall(20, fd as i64, v, c as i64) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, o: i64, w: i32) -> i64 {
    match hit(fd, 4) {
        1 => fail(5),
        _ => syscall(8, fd as i64, o, w as i64),
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    match hit(fd, 8) {
        1 => return fail(5) as i32,
        _ => {}
    }
    sparse(fd, n);
    syscall(77, fd as i64, n) as i32
}
