//! Allocation hooks: per-thread live/peak byte counters (bounded-allocation oracle) and a
//! per-thread "watch" that inspects blocks when they are freed (secret-wiping oracle).
use std::cell::Cell;


thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static WATCH: Cell<bool> = const { Cell::new(false) };
    static PAT: Cell<[u8; 16]> = const { Cell::new([0; 16]) };
    static HITS: Cell<u32> = const { Cell::new(0) };
    static FREED: Cell<u32> = const { Cell::new(0) };
}

#[inline]
fn grow(n: usize) {
    if ON.try_with(|c| c.get()).unwrap_or(false) {
        let _ = CUR.try_with(|c| {
            let v = c.get().saturating_add(n.min(isize::MAX as usize) as isize);
            c.set(v);
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        });
    }
}
#[inline]
fn shrink(n: usize) {
    if ON.try_with(|c| c.get()).unwrap_or(false) {
        let _ = CUR.try_with(|c| c.set(c.get() - n as isize));
    }
}

#[inline(never)]
unsafe fn inspect(ptr: *mut u8, size: usize) {
    let pat = match PAT.try_with(|p| p.get()) {
        Ok(p) => p,
        Err(_) => return,
    };
    let _ = FREED.try_with(|h| h.set(h.get() + 1));
    if size < 16 {
        return;
    }
    for off in 0..=(size - 16) {
        let mut eq = true;
        for k in 0..16 {
            if std::ptr::read_volatile(ptr.add(off + k)) != pat[k] {
                eq = false;
                break;
            }
        }
        if eq {
            let _ = HITS.try_with(|h| h.set(h.get() + 1));
            return;
        }
    }
}

/// The C allocation functions are interposed rather than the Rust global allocator, because a
/// custom global allocator keeps the optimizer from dropping stores to memory about to be freed,
/// which is precisely what must be seen.
#[cfg(not(fuzzing))]
mod hook {
    use super::*;
    use libc::{c_int, c_void, size_t};
    extern "C" {
        fn __libc_malloc(n: size_t) -> *mut c_void;
        fn __libc_calloc(a: size_t, b: size_t) -> *mut c_void;
        fn __libc_realloc(p: *mut c_void, n: size_t) -> *mut c_void;
        fn __libc_free(p: *mut c_void);
        fn __libc_memalign(a: size_t, n: size_t) -> *mut c_void;
    }
    #[no_mangle]
    unsafe extern "C" fn malloc(n: size_t) -> *mut c_void {
        let p = __libc_malloc(n);
        grow(if p.is_null() { n } else { libc::malloc_usable_size(p) });
        p
    }
    #[no_mangle]
    unsafe extern "C" fn calloc(a: size_t, b: size_t) -> *mut c_void {
        let p = __libc_calloc(a, b);
        grow(if p.is_null() { a.saturating_mul(b) } else { libc::malloc_usable_size(p) });
        p
    }
    #[no_mangle]
    unsafe extern "C" fn posix_memalign(out: *mut *mut c_void, a: size_t, n: size_t) -> c_int {
        let p = __libc_memalign(a, n);
        grow(if p.is_null() { n } else { libc::malloc_usable_size(p) });
        if p.is_null() {
            return libc::ENOMEM;
        }
        *out = p;
        0
    }
    #[no_mangle]
    unsafe extern "C" fn aligned_alloc(a: size_t, n: size_t) -> *mut c_void {
        let p = __libc_memalign(a, n);
        grow(if p.is_null() { n } else { libc::malloc_usable_size(p) });
        p
    }
    #[no_mangle]
    unsafe extern "C" fn realloc(p: *mut c_void, n: size_t) -> *mut c_void {
        let old = if p.is_null() { 0 } else { libc::malloc_usable_size(p) };
        let q = __libc_realloc(p, n);
        grow(if q.is_null() { n } else { libc::malloc_usable_size(q) });
        if !q.is_null() {
            shrink(old);
        }
        q
    }
    #[no_mangle]
    unsafe extern "C" fn free(p: *mut c_void) {
        if !p.is_null() {
            let n = libc::malloc_usable_size(p);
            shrink(n);
            if WATCH.try_with(|c| c.get()).unwrap_or(false) {
                inspect(p as *mut u8, n);
            }
        }
        __libc_free(p)
    }
}

/// Runs `f` and returns its result with the peak number of bytes it had allocated on this thread.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|c| c.set(false));
        }
    }
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    ON.with(|c| c.set(true));
    let g = Off;
    let r = f();
    drop(g);
    (r, PEAK.with(|c| c.get()).max(0) as usize)
}

/// Runs `f`; returns (result, number of blocks freed meanwhile that still contained `pat`, blocks freed).
pub fn freed_containing<T>(pat: [u8; 16], f: impl FnOnce() -> T) -> (T, u32, u32) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            WATCH.with(|c| c.set(false));
        }
    }
    PAT.with(|c| c.set(pat));
    HITS.with(|c| c.set(0));
    FREED.with(|c| c.set(0));
    WATCH.with(|c| c.set(true));
    let g = Off;
    let r = f();
    drop(g);
    (r, HITS.with(|c| c.get()), FREED.with(|c| c.get()))
}
