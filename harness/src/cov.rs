//! Coverage feedback for the guided stage. The dev build passes `sancov` over the library and this
//! crate (tools/cov-rustc.sh); these are the functions the instrumented code calls. They only look:
//! off (one load) except in the single-threaded guided processes.
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

static ON: AtomicBool = AtomicBool::new(false);
const EDGES: usize = 1 << 20;
static HIT: [AtomicU8; EDGES] = [const { AtomicU8::new(0) }; EDGES];
/// edges hit by the case being run, in order of first hit
static LIST: [AtomicU32; EDGES] = [const { AtomicU32::new(0) }; EDGES];
static LISTED: AtomicUsize = AtomicUsize::new(0);
static GUARDS: AtomicU32 = AtomicU32::new(0);
/// operands of recent comparisons that came out unequal
const CMPS: usize = 4096;
static PAIRS: [(AtomicU64, AtomicU64); CMPS] = [const { (AtomicU64::new(0), AtomicU64::new(0)) }; CMPS];
static PAIR: AtomicUsize = AtomicUsize::new(0);
/// how close comparisons with a constant came in the case being run (65 less the differing bits), by
/// constant
const NEAR: usize = 1 << 16;
static CLOSE: [AtomicU8; NEAR] = [const { AtomicU8::new(0) }; NEAR];
static MET: [AtomicU32; NEAR] = [const { AtomicU32::new(0) }; NEAR];
static METS: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        unsafe {
            if *p == 0 {
                *p = GUARDS.fetch_add(1, Relaxed) + 1;
            }
            p = p.add(1);
        }
    }
}
#[inline(always)]
fn edge(i: usize) {
    if i >= EDGES {
        return;
    }
    let n = HIT[i].load(Relaxed);
    if n == 0 {
        LIST[LISTED.fetch_add(1, Relaxed) % EDGES].store(i as u32, Relaxed);
    }
    HIT[i].store(n.saturating_add(1), Relaxed);
}
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if ON.load(Relaxed) {
        edge(unsafe { *g } as usize);
    }
}
fn cmp(a: u64, b: u64, constant: bool) {
    if a != b && (a > 16 || b > 16) {
        let i = PAIR.fetch_add(1, Relaxed) % CMPS;
        PAIRS[i].0.store(a, Relaxed);
        PAIRS[i].1.store(b, Relaxed);
    }
    if constant && a > 31 {
        let h = (a.wrapping_mul(0x9E3779B97F4A7C15) >> 48) as usize % NEAR;
        let v = 65 - (a ^ b).count_ones() as u8;
        let old = CLOSE[h].load(Relaxed);
        if old == 0 {
            MET[METS.fetch_add(1, Relaxed) % NEAR].store(h as u32, Relaxed);
        }
        if v > old {
            CLOSE[h].store(v, Relaxed);
        }
    }
}
macro_rules! hooks {
    ($($n:ident $c:ident $t:ty),*) => {$(
        #[no_mangle]
        extern "C" fn $n(a: $t, b: $t) {
            if ON.load(Relaxed) {
                cmp(a as u64, b as u64, false)
            }
        }
        #[no_mangle]
        extern "C" fn $c(a: $t, b: $t) {
            if ON.load(Relaxed) {
                cmp(a as u64, b as u64, true)
            }
        }
    )*};
}
hooks!(__sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8,
    __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16,
    __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32,
    __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64);
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    if ON.load(Relaxed) {
        let n = unsafe { *cases } as usize;
        for i in 0..n.min(32) {
            cmp(unsafe { *cases.add(2 + i) }, v, true);
        }
    }
}

pub fn instrumented() -> bool {
    GUARDS.load(Relaxed) > 0
}
pub fn on(v: bool) {
    ON.store(v, Relaxed)
}
/// what has been reached so far, by edge and order of magnitude of the count, and the closest any case
/// came to each constant
pub struct Seen {
    edges: Vec<u8>,
    close: Vec<u8>,
}
impl Seen {
    pub fn new() -> Self {
        Seen { edges: vec![0; EDGES], close: vec![0; NEAR] }
    }
    /// takes in the case just run: how many of its features are new, and to how many constants it is
    /// closer than any before
    pub fn take(&mut self) -> (usize, usize) {
        let (mut new, mut closer) = (0, 0);
        let n = LISTED.swap(0, Relaxed).min(EDGES);
        for l in &LIST[..n] {
            let i = l.load(Relaxed) as usize;
            let bit = match HIT[i].swap(0, Relaxed) {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => 4,
                4..=7 => 8,
                8..=15 => 16,
                16..=31 => 32,
                32..=127 => 64,
                _ => 128u8,
            };
            if self.edges[i] & bit != bit {
                self.edges[i] |= bit;
                new += 1;
            }
        }
        let n = METS.swap(0, Relaxed).min(NEAR);
        for m in &MET[..n] {
            let i = m.load(Relaxed) as usize;
            let v = CLOSE[i].swap(0, Relaxed);
            if v > self.close[i] {
                self.close[i] = v;
                closer += 1;
            }
        }
        (new, closer)
    }
    pub fn edges(&self) -> usize {
        self.edges.iter().filter(|b| **b != 0).count()
    }
}
/// operands of one recent unequal comparison
pub fn pair(r: u64) -> (u64, u64) {
    let n = PAIR.load(Relaxed).min(CMPS);
    if n == 0 {
        return (0, 0);
    }
    let p = &PAIRS[r as usize % n];
    (p.0.load(Relaxed), p.1.load(Relaxed))
}
