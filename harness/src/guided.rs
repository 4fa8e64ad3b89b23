//! The coverage-guided stage: single-threaded processes that keep the choice sequences reaching
//! something new in the library or the oracle, and mutate them.
use crate::cov;
use crate::engine::*;
use serde_json::{json, Value};
use std::collections::{HashSet, VecDeque};
use std::time::{Duration, Instant};

const LONGEST: usize = 20_000;
/// what is being run, in shared memory: sequence number, kind (1 seed, 2 choices), sub, length, words
pub struct Now {
    p: *mut u64,
}
unsafe impl Sync for Now {}
impl Now {
    const WORDS: usize = 4 + LONGEST;
    pub fn open(path: &str) -> Now {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("journal");
        f.set_len((Self::WORDS * 8) as u64).expect("journal");
        let p = unsafe { libc::mmap(std::ptr::null_mut(), Self::WORDS * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED, "journal");
        Now { p: p as *mut u64 }
    }
    fn set(&self, kind: u64, si: usize, w: &[u64]) {
        let n = w.len().min(LONGEST);
        unsafe {
            self.p.add(1).write_volatile(kind);
            self.p.add(2).write_volatile(si as u64);
            self.p.add(3).write_volatile(n as u64);
            std::ptr::copy_nonoverlapping(w.as_ptr(), self.p.add(4), n);
            self.p.write_volatile(self.p.read_volatile() + 1);
        }
    }
    pub fn peek(path: &str) -> u64 {
        use std::io::Read;
        let mut b = [0; 8];
        let _ = std::fs::File::open(path).and_then(|mut f| f.read_exact(&mut b));
        u64::from_le_bytes(b)
    }
    /// sequence number, kind, sub, words
    pub fn read(path: &str) -> (u64, u64, u64, Vec<u64>) {
        let b = std::fs::read(path).unwrap_or_default();
        let w: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        if w.len() < 4 {
            return (0, 0, 0, vec![]);
        }
        (w[0], w[1], w[2], w[4..4 + (w[3] as usize).min(w.len() - 4)].to_vec())
    }
}

fn mutate(c: &[u64], corpus: &[Vec<u64>], r: &mut u64) -> Vec<u64> {
    let mut c = c.to_vec();
    let mut below = |n: usize| (splitmix(r) % n.max(1) as u64) as usize;
    let rounds = 1 + [0, 0, 0, 1, 1, 2, 3, 7][below(8)];
    for _ in 0..rounds {
        if c.is_empty() {
            c.push(below(1000) as u64);
            continue;
        }
        let i = below(c.len());
        match below(14) {
            0 => c[i] = 0,
            1 => c[i] = c[i].wrapping_add(1),
            2 => c[i] = c[i].wrapping_sub(1),
            3 => c[i] = below(12) as u64,
            4 => c[i] ^= 1 << below(64),
            5 => c[i] = (below(1 << 32) as u64) << 32 | below(1 << 32) as u64,
            6 => {
                let d = &crate::dict::get().ints;
                if !d.is_empty() {
                    c[i] = d[below(d.len())] as u64
                }
            }
            7 | 8 => {
                // a value the code compared with another becomes that other
                for _ in 0..16 {
                    let (a, b) = cov::pair(below(usize::MAX) as u64);
                    let (a, b) = if below(2) == 0 { (a, b) } else { (b, a) };
                    if let Some(k) = c.iter().position(|x| *x == a) {
                        c[k] = b.wrapping_add([0, 0, 0, 1, u64::MAX][below(5)]);
                        break;
                    }
                }
            }
            9 => {
                let (a, b) = cov::pair(below(usize::MAX) as u64);
                c[i] = if below(2) == 0 { a } else { b };
            }
            10 => {
                let n = 1 + below(8.min(c.len() - i));
                c.drain(i..(i + n).min(c.len()));
            }
            11 => {
                let n = 1 + below(16.min(c.len() - i));
                let d: Vec<u64> = c[i..(i + n).min(c.len())].to_vec();
                let k = below(c.len());
                c.splice(k..k, d);
            }
            12 => {
                let o = &corpus[below(corpus.len())];
                if !o.is_empty() {
                    let k = below(o.len());
                    let n = 1 + below((o.len() - k).min(40));
                    let e = (i + below(n + 1)).min(c.len());
                    c.splice(i..e, o[k..(k + n).min(o.len())].iter().copied());
                }
            }
            _ => c.truncate(i),
        }
    }
    c.truncate(LONGEST / 2);
    c
}

/// the latest of the climbs, with one more bit changed
fn next_bit(climbs: &mut Vec<(Vec<u64>, usize, u32)>) -> Option<Vec<u64>> {
    while let Some((c, i, bit)) = climbs.last_mut() {
        // small choices select alternatives; numbers are large
        while *i < c.len() && c[*i] < 256 {
            *i += 1;
        }
        if *i >= c.len() {
            climbs.pop();
            continue;
        }
        let mut d = c.clone();
        d[*i] ^= 1 << *bit;
        *bit += 1;
        if *bit == 64 {
            *bit = 0;
            *i += 1;
        }
        return Some(d);
    }
    None
}

/// guided ID SEED PART SECONDS OUT JOURNAL
pub fn run(a: &[String]) -> i32 {
    install_hook();
    let p = crate::runner::prop(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let secs: f64 = a[3].parse().unwrap();
    let now = Now::open(&a[5]);
    let only = std::env::var("VH_SUB").ok();
    let out = &a[4];
    let code = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(sc, || {
                let mut st = Stats::default();
                let mut fails: Vec<Value> = Vec::new();
                let (mut kept, mut edges) = (0, 0);
                let subs: Vec<(usize, &Sub)> = p.subs.iter().enumerate().filter(|(_, s)| s.guided && only.as_ref().map_or(true, |o| s.name.contains(o.as_str()))).collect();
                for (si, s) in &subs {
                    let r = one(p.id, *si, s, case_seed(seed, p.id, &s.name, fnv(&[a[2].as_bytes()])), Duration::from_secs_f64(secs / subs.len() as f64), &now, &mut st);
                    kept += r.0;
                    edges = edges.max(r.1);
                    if let Some(f) = r.2 {
                        fails.push(crate::runner::failure_json(&f));
                        break;
                    }
                }
                let v = json!({"evaluations": st.evals, "nontrivial": st.nontrivial, "distinct": st.distinct.len(), "kept": kept, "edges": edges, "failures": fails});
                std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
                0
            })
            .unwrap()
            .join()
            .unwrap()
    });
    code
}
fn one(_prop: &str, si: usize, s: &Sub, seed: u64, time: Duration, now: &Now, st: &mut Stats) -> (usize, usize, Option<Failure>) {
    let t0 = Instant::now();
    let mut r = seed;
    let mut corpus: Vec<Vec<u64>> = Vec::new();
    let mut seen = cov::Seen::new();
    let mut past: VecDeque<Vec<u64>> = VecDeque::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut n = 0u64;
    let mut fail = None;
    // cases that came closer to a constant than any before, whose choices are tried bit by bit
    let mut climbs: Vec<(Vec<u64>, usize, u32)> = Vec::new();
    let mut climbed = 0u64;
    cov::on(true);
    while n < 20 || t0.elapsed() < time {
        n += 1;
        if n <= 20 && t0.elapsed() > time * 4 {
            break;
        }
        let climb = (climbed * 2 < n).then(|| next_bit(&mut climbs)).flatten();
        climbed += climb.is_some() as u64;
        let fresh = corpus.len() < 4 || splitmix(&mut r) % 12 == 0;
        let mut src = if let Some(c) = climb {
            let k = splitmix(&mut r);
            let mut w = vec![k];
            w.extend(&c);
            now.set(2, si, &w);
            Src::mutated(c, k)
        } else if fresh {
            let k = splitmix(&mut r);
            now.set(1, si, &[k]);
            Src::rand(k)
        } else {
            let m = corpus.len() as u64;
            let i = match splitmix(&mut r) % 3 {
                0 => m - 1 - splitmix(&mut r) % m.min(1 + m / 8),
                _ => splitmix(&mut r) % m,
            };
            let c = mutate(&corpus[i as usize], &corpus, &mut r);
            let k = splitmix(&mut r);
            let mut w = vec![k];
            w.extend(&c);
            now.set(2, si, &w);
            Src::mutated(c, k)
        };
        let mut cx = Cx::new(false);
        let res = run_case(s, &mut src, &mut cx);
        let (new, closer) = seen.take();
        st.evals += 1 + cx.extra_evals;
        let rec = src.rec;
        if cx.nontrivial {
            st.nontrivial += 1;
            if distinct.len() < 500_000 {
                distinct.insert(hash(&s.name, &rec));
            }
        }
        if let Err(m) = res {
            cov::on(false);
            let original = rec.clone();
            fail = Some(Failure { original, history: past.into(), ..shrink(s, n, rec, m, None, si) });
            break;
        }
        if rec.len() < LONGEST {
            if past.len() >= PAST {
                past.pop_front();
            }
            past.push_back(rec.clone());
            if closer > 0 && rec.len() <= 2_000 {
                if climbs.len() > 200 {
                    climbs.remove(0);
                }
                climbs.push((rec.clone(), 0, 0));
            }
            if new + closer > 0 && corpus.len() < 20_000 {
                corpus.push(rec);
            }
        }
    }
    cov::on(false);
    st.distinct.extend(distinct);
    (corpus.len(), seen.edges(), fail)
}
