//! Harness side of the symbolic-execution interface.
//!
//! Built without feature `native` the `sx_*` functions are undefined symbols which the symbolic
//! executor (/verif/engine) implements.  Built with it they are implemented here over a replay
//! file, so that every counterexample and every sampled path runs against the real compiled crate.

#[cfg(not(feature = "native"))]
pub mod raw {
    extern "C" {
        pub fn sx_symbolic(p: *mut u8, n: u64);
        pub fn sx_choose(n: u64) -> u64;
        pub fn sx_assume(c: u64);
        pub fn sx_assert(c: u64, id: u64);
        pub fn sx_reach(id: u64);
        pub fn sx_expect(id: u64);
        pub fn sx_trace(v: u64);
        pub fn sx_trace_bytes(p: *const u8, n: u64);
        pub fn sx_concretize(v: u64) -> u64;
        pub fn sx_part() -> u64;
        pub fn sx_tier() -> u64;
        pub fn sx_alloc_limit(n: u64);
        pub fn sx_string_layout(p: *const u8);
        pub fn sx_file(path: *const u8, plen: u64, data: *const u8, len: u64);
        pub fn sx_file_len(path: *const u8, plen: u64) -> u64;
        pub fn sx_file_get(path: *const u8, plen: u64, buf: *mut u8, cap: u64);
        pub fn sx_gap(path: *const u8, plen: u64, at: u64, len: u64);
        pub fn sx_ungap(path: *const u8, plen: u64, at: u64, len: u64) -> u64;
        pub fn sx_fault(mode: u64, kinds: u64, at: u64, sticky: u64);
        pub fn sx_fault_count() -> u64;
    }
}

#[cfg(feature = "native")]
#[path = "native.rs"]
pub mod raw;

/// Assertion whose identity is (module number << 20 | line).
#[macro_export]
macro_rules! check {
    ($c:expr, $msg:expr) => {{
        let _: &str = $msg;
        let c: bool = $c;
        unsafe { $crate::sx::raw::sx_assert(c as u64, (M << 20) | line!() as u64) }
    }};
}
/// Reachability witness: the run fails (as vacuous) if no path gets here.
#[macro_export]
macro_rules! reached {
    () => {
        unsafe { $crate::sx::raw::sx_reach((M << 20) | line!() as u64) }
    };
}
/// `Result`/`Option` that must be the good case.
#[macro_export]
macro_rules! must {
    ($e:expr, $msg:expr) => {{
        match $e.ok() {
            Some(v) => v,
            None => {
                $crate::check!(false, $msg);
                return Default::default();
            }
        }
    }};
}

pub trait OkLike<T> {
    fn ok(self) -> Option<T>;
}
impl<T> OkLike<T> for Option<T> {
    fn ok(self) -> Option<T> {
        self
    }
}

/// every symbolic byte vector starts here
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { raw::sx_symbolic(v.as_mut_ptr(), n as u64) }
    }
    v
}
pub fn fill(v: &mut [u8]) {
    if !v.is_empty() {
        unsafe { raw::sx_symbolic(v.as_mut_ptr(), v.len() as u64) }
    }
}
pub fn u8() -> u8 {
    let mut b = [0u8; 1];
    fill(&mut b);
    b[0]
}
pub fn u16() -> u16 {
    let mut b = [0u8; 2];
    fill(&mut b);
    u16::from_be_bytes(b)
}
pub fn u32() -> u32 {
    let mut b = [0u8; 4];
    fill(&mut b);
    u32::from_be_bytes(b)
}
pub fn u64() -> u64 {
    let mut b = [0u8; 8];
    fill(&mut b);
    u64::from_be_bytes(b)
}
pub fn boolean() -> bool {
    choose(2) == 1
}
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { raw::sx_choose(n as u64) as usize }
}
pub fn pick<T: Copy>(l: &[T]) -> T {
    l[choose(l.len())]
}
pub fn assume(c: bool) {
    unsafe { raw::sx_assume(c as u64) }
}
pub fn part() -> usize {
    unsafe { raw::sx_part() as usize }
}
pub fn tier() -> usize {
    unsafe { raw::sx_tier() as usize }
}
pub fn trace(v: u64) {
    unsafe { raw::sx_trace(v) }
}
pub fn trace_bytes(b: &[u8]) {
    unsafe { raw::sx_trace_bytes(b.as_ptr(), b.len() as u64) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { raw::sx_concretize(v) }
}
pub fn alloc_limit(n: u64) {
    unsafe { raw::sx_alloc_limit(n) }
}
pub fn put_file(path: &str, data: &[u8]) {
    unsafe { raw::sx_file(path.as_ptr(), path.len() as u64, data.as_ptr(), data.len() as u64) }
}
pub fn file_len(path: &str) -> Option<usize> {
    let n = unsafe { raw::sx_file_len(path.as_ptr(), path.len() as u64) };
    if n == u64::MAX {
        None
    } else {
        Some(n as usize)
    }
}
pub fn get_file(path: &str) -> Vec<u8> {
    let n = file_len(path).unwrap_or(0);
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { raw::sx_file_get(path.as_ptr(), path.len() as u64, v.as_mut_ptr(), n as u64) }
    }
    v
}
/// makes a file longer by zeros at a position, which are not stored
pub fn gap(path: &str, at: usize, len: u64) {
    unsafe { raw::sx_gap(path.as_ptr(), path.len() as u64, at as u64, len) }
}
/// takes them out again; false if the file does not have them all any more
pub fn ungap(path: &str, at: usize, len: u64) -> bool {
    unsafe { raw::sx_ungap(path.as_ptr(), path.len() as u64, at as u64, len) != 0 }
}
pub const F_ERR: u64 = 1;
pub const F_SHORT: u64 = 2;
pub const F_ZERO: u64 = 3;
pub const K_READ: u64 = 1;
pub const K_WRITE: u64 = 2;
pub const K_SEEK: u64 = 4;
pub const K_TRUNC: u64 = 8;
pub fn fault(mode: u64, kinds: u64, at: u64, sticky: bool) {
    unsafe { raw::sx_fault(mode, kinds, at, sticky as u64) }
}
pub fn fault_count() -> u64 {
    unsafe { raw::sx_fault_count() }
}
/// tells the engine where a `String` keeps its capacity, pointer and length
pub fn init() {
    let s = String::new();
    unsafe { raw::sx_string_layout(&s as *const String as *const u8) }
}
