//! Nondeterminism owned by the harness: the random source (getrandom/syscall are defined here, so
//! ring's getrandom crate calls us) and the allocator (size monitor, erasure monitor).
use crate::engine::{Shared, IN_IMPL, MY_SLOT};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::Ordering::*;

// ---------------------------------------------------------------- random source
pub struct Rng {
    pub state: u64,
    /// bytes to serve first
    pub script: Vec<u8>,
    pub pos: usize,
    /// fail the n-th request from now on (0 = next)
    pub fail_at: Option<usize>,
    pub fail_forever: bool,
    pub log: Vec<Vec<u8>>,
    pub requests: usize,
    pub failures: usize,
    pub max_per_request: usize,
}
impl Rng {
    const fn new() -> Rng {
        Rng { state: 1, script: Vec::new(), pos: 0, fail_at: None, fail_forever: true, log: Vec::new(), requests: 0, failures: 0, max_per_request: usize::MAX }
    }
}
thread_local! {
    static RNG: RefCell<Rng> = const { RefCell::new(Rng::new()) };
}
pub fn rng_reset(seed: u64) {
    RNG.with(|r| {
        let mut r = r.borrow_mut();
        *r = Rng::new();
        r.state = seed | 1;
    });
}
pub fn rng<T>(f: impl FnOnce(&mut Rng) -> T) -> T {
    RNG.with(|r| f(&mut r.borrow_mut()))
}
/// Runs f (the harness's own crypto) on a working random source of its own.
pub fn off_record<T>(f: impl FnOnce() -> T) -> T {
    let mut other = Rng::new();
    other.state = 0x9e3779b97f4a7c15;
    let kept = RNG.with(|r| std::mem::replace(&mut *r.borrow_mut(), other));
    let v = f();
    RNG.with(|r| *r.borrow_mut() = kept);
    v
}
fn serve(buf: *mut u8, len: usize) -> isize {
    RNG.try_with(|r| {
        let mut r = match r.try_borrow_mut() {
            Ok(r) => r,
            Err(_) => return -1,
        };
        if len == 0 {
            return 0;
        }
        let n = r.requests;
        r.requests += 1;
        if let Some(f) = r.fail_at {
            if n == f || (n > f && r.fail_forever) {
                r.failures += 1;
                return -1;
            }
        }
        let len = len.min(r.max_per_request);
        let mut out = vec![0u8; len];
        for o in out.iter_mut() {
            if r.pos < r.script.len() {
                *o = r.script[r.pos];
                r.pos += 1;
            } else {
                r.state ^= r.state << 13;
                r.state ^= r.state >> 7;
                r.state ^= r.state << 17;
                *o = (r.state >> 24) as u8;
            }
        }
        unsafe { std::ptr::copy_nonoverlapping(out.as_ptr(), buf, len) };
        r.log.push(out);
        len as isize
    })
    .unwrap_or(-1)
}
unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let r = serve(buf, len);
    if r < 0 {
        set_errno(libc::EIO);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        return -1;
    }
    r
}

// ---------------------------------------------------------------- files
/// What happens to opening a file and to the reads that follow, on this thread.
#[derive(Default)]
pub struct Files {
    /// errno of opening
    pub open: Option<i32>,
    /// one entry per read: at most so many bytes, or an errno; without an entry the read is left alone
    pub reads: Vec<Result<usize, i32>>,
    pub pos: usize,
    pub opened: usize,
    pub done: Vec<Result<usize, i32>>,
}
thread_local! {
    static FILES: RefCell<Option<Files>> = const { RefCell::new(None) };
}
/// Runs f with the reads of this thread under control and reports what was done.
pub fn with_files<T>(files: Files, f: impl FnOnce() -> T) -> (T, Files) {
    FILES.with(|x| *x.borrow_mut() = Some(files));
    let v = f();
    (v, FILES.with(|x| x.borrow_mut().take()).unwrap_or_default())
}
fn now(f: impl FnOnce(&mut Files) -> Result<usize, i32>) -> Option<Result<usize, i32>> {
    FILES.try_with(|x| x.try_borrow_mut().ok().and_then(|mut x| x.as_mut().map(f))).ok().flatten()
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, len: usize) -> isize {
    let max = now(|f| {
        let r = if len == 0 { Ok(0) } else { f.reads.get(f.pos).cloned().unwrap_or(Ok(usize::MAX)) };
        f.pos += 1;
        if r.is_err() {
            f.done.push(r);
        }
        r
    });
    match max {
        Some(Err(e)) => {
            set_errno(e);
            -1
        }
        max => {
            let max = max.map_or(usize::MAX, |m| m.unwrap_or(0));
            let r = syscall(libc::SYS_read, fd as i64, buf as i64, len.min(max) as i64, 0, 0, 0) as isize;
            now(|f| {
                f.done.push(Ok(r.max(0) as usize));
                Ok(0)
            });
            r
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    if let Some(Err(e)) = now(|f| {
        f.opened += 1;
        f.open.map_or(Ok(0), Err)
    }) {
        set_errno(e);
        return -1;
    }
    syscall(libc::SYS_openat, libc::AT_FDCWD as i64, path as i64, flags as i64, mode as i64, 0, 0) as i32
}

// ---------------------------------------------------------------- allocator
pub struct Mon;
thread_local! {
    static MAX: Cell<usize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static NEEDLES: Cell<*const Vec<Vec<u8>>> = const { Cell::new(std::ptr::null()) };
    static LEAKED: Cell<usize> = const { Cell::new(0) }; // 1 + index of needle found in a freed block
    static LEAKED_SIZE: Cell<usize> = const { Cell::new(0) };
    static FREED: Cell<usize> = const { Cell::new(0) };
}
/// Largest single request allowed inside the code under test before we refuse (and it aborts).
const REFUSE: usize = 1 << 29;

#[inline]
fn note(size: usize) {
    let _ = MAX.try_with(|m| {
        if size > m.get() {
            m.set(size)
        }
    });
    let _ = TOTAL.try_with(|t| t.set(t.get().wrapping_add(size)));
}
unsafe fn inspect(p: *mut u8, size: usize) {
    let n = NEEDLES.try_with(|n| n.get()).unwrap_or(std::ptr::null());
    if n.is_null() {
        return;
    }
    let _ = FREED.try_with(|f| f.set(f.get() + 1));
    let block = std::slice::from_raw_parts(p, size);
    for (i, needle) in (*n).iter().enumerate() {
        if needle.is_empty() || needle.len() > size {
            continue;
        }
        let first = needle[0];
        for o in 0..=size - needle.len() {
            if block[o] == first && &block[o..o + needle.len()] == needle.as_slice() {
                let _ = LEAKED.try_with(|l| {
                    if l.get() == 0 {
                        l.set(i + 1)
                    }
                });
                let _ = LEAKED_SIZE.try_with(|l| l.set(size));
                return;
            }
        }
    }
}
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() > REFUSE && IN_IMPL.try_with(|x| x.get()).unwrap_or(false) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() > REFUSE && IN_IMPL.try_with(|x| x.get()).unwrap_or(false) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        inspect(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        note(new);
        if new > REFUSE && IN_IMPL.try_with(|x| x.get()).unwrap_or(false) {
            return std::ptr::null_mut();
        }
        if !NEEDLES.try_with(|n| n.get()).unwrap_or(std::ptr::null()).is_null() {
            let nl = Layout::from_size_align_unchecked(new, l.align());
            let q = System.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                inspect(p, l.size());
                System.dealloc(p, l);
            }
            return q;
        }
        System.realloc(p, l, new)
    }
}
pub fn alloc_reset() {
    MAX.with(|m| m.set(0));
    TOTAL.with(|m| m.set(0));
}
pub fn alloc_stats() -> (usize, usize) {
    (MAX.with(|m| m.get()), TOTAL.with(|m| m.get()))
}
/// Runs `f` while every heap block freed by this thread is searched for the needles.
/// Returns f's value, the needle found (index, size of the block), and the number of blocks freed.
pub fn watch_freed<T>(needles: &Vec<Vec<u8>>, f: impl FnOnce() -> T) -> (T, Option<(usize, usize)>, usize) {
    LEAKED.with(|l| l.set(0));
    FREED.with(|l| l.set(0));
    NEEDLES.with(|n| n.set(needles as *const _));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            NEEDLES.with(|n| n.set(std::ptr::null()));
        }
    }
    let off = Off;
    let v = f();
    drop(off);
    let l = LEAKED.with(|l| l.get());
    let found = if l == 0 { None } else { Some((l - 1, LEAKED_SIZE.with(|x| x.get()))) };
    (v, found, FREED.with(|f| f.get()))
}

// ---------------------------------------------------------------- crashes
static mut SHARED: *const Shared = std::ptr::null();
extern "C" fn on_crash(sig: i32) {
    unsafe {
        let in_impl = IN_IMPL.try_with(|x| x.get()).unwrap_or(false);
        let slot = MY_SLOT.try_with(|x| x.get()).unwrap_or(usize::MAX);
        if in_impl && slot != usize::MAX && !SHARED.is_null() {
            (*SHARED).crashed_slot.store(slot as u64, SeqCst);
        }
        libc::signal(sig, libc::SIG_DFL);
        libc::raise(sig);
    }
}
pub fn install_crash_handler(s: &'static Shared) {
    unsafe {
        SHARED = s;
        for sig in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_crash as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}
