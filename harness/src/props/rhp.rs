//! C10 sector roots
use crate::engine::*;
use crate::refhash::*;
use sia::rhp::{sector_root, SECTOR_SIZE, SEGMENT_SIZE};
use std::sync::OnceLock;

const SEG: usize = 64;
const N: usize = 65536;

/// reference Merkle tree over the 65536 segments, updated path by path
struct Tree {
    /// lv[0] = leaf hashes … lv[16] = root
    lv: Vec<Vec<[u8; 32]>>,
}
fn leaf(seg: &[u8]) -> [u8; 32] {
    cat(&[&[0], seg])
}
impl Tree {
    fn new(d: &[u8]) -> Tree {
        let mut memo: std::collections::HashMap<&[u8], [u8; 32]> = Default::default();
        let leaves: Vec<[u8; 32]> = d.chunks_exact(SEG).map(|c| *memo.entry(c).or_insert_with(|| leaf(c))).collect();
        let mut lv = vec![leaves];
        let mut pair: std::collections::HashMap<([u8; 32], [u8; 32]), [u8; 32]> = Default::default();
        while lv.last().unwrap().len() > 1 {
            let n = lv.last().unwrap().chunks_exact(2).map(|p| *pair.entry((p[0], p[1])).or_insert_with(|| cat(&[&[1], &p[0], &p[1]]))).collect();
            lv.push(n);
        }
        Tree { lv }
    }
    fn update(&mut self, d: &[u8], i: usize) {
        self.lv[0][i] = leaf(&d[i * SEG..(i + 1) * SEG]);
        let mut k = i / 2;
        for h in 1..self.lv.len() {
            let v = cat(&[&[1], &self.lv[h - 1][2 * k], &self.lv[h - 1][2 * k + 1]]);
            self.lv[h][k] = v;
            k /= 2;
        }
    }
    fn root(&self) -> [u8; 32] {
        self.lv.last().unwrap()[0]
    }
}
fn pools() -> &'static Vec<(usize, rayon::ThreadPool)> {
    static P: OnceLock<Vec<(usize, rayon::ThreadPool)>> = OnceLock::new();
    P.get_or_init(|| [1usize, 2, 3, 5, 8, 16].iter().map(|n| (*n, rayon::ThreadPoolBuilder::new().num_threads(*n).build().expect("pool"))).collect())
}
fn gen_sector(s: &mut Src) -> (Vec<u8>, &'static str) {
    let mut d = vec![0u8; N * SEG];
    let kind = match s.weighted(&[1, 4, 3, 3, 2, 1, 2, 1]) {
        0 => "zeros",
        1 => {
            let v = s.fill(17);
            let mut x = u64::from_le_bytes(v[..8].try_into().unwrap()) | 1;
            for c in d.chunks_exact_mut(8) {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                c.copy_from_slice(&x.to_le_bytes());
            }
            "random"
        }
        2 => {
            // every segment is its number
            let off = s.upto(1 << 20) as u32;
            for (i, c) in d.chunks_exact_mut(SEG).enumerate() {
                c[..4].copy_from_slice(&(i as u32 + off).to_be_bytes());
                c[60..].copy_from_slice(&(i as u32).to_le_bytes());
            }
            "numbered segments"
        }
        3 => {
            for _ in 0..1 + s.upto(30) {
                let i = s.upto((N * SEG - 1) as u64) as usize;
                d[i] = 1 + s.upto(254) as u8;
            }
            "sparse"
        }
        4 => {
            // data at the front only
            let n = 1 + s.upto((N * SEG - 1) as u64) as usize;
            let b = s.fill(n);
            d[..n].copy_from_slice(&b);
            "prefix"
        }
        6 => {
            // equal subtrees, with or without one odd segment
            let n = SEG << s.upto(15);
            let b = s.fill(n);
            d.chunks_exact_mut(n).for_each(|c| c.copy_from_slice(&b));
            if s.bool() {
                let i = seg_index(s);
                d[i * SEG + s.below(SEG)] ^= 1;
            }
            "repeated"
        }
        7 => {
            // data at the end only
            let n = 1 + s.upto((N * SEG - 1) as u64) as usize;
            let b = s.fill(n);
            d[N * SEG - n..].copy_from_slice(&b);
            "suffix"
        }
        _ => {
            d.fill(s.upto(255) as u8);
            "constant"
        }
    };
    (d, kind)
}
fn root_of(d: &[u8], s: &mut Src) -> Result<([u8; 32], usize), String> {
    let (n, p) = &pools()[s.below(6)];
    let r = quiet(|| p.install(|| sector_root(d))).map_err(|p| format!("sector_root panicked: {p}"))?;
    let r: &[u8; 32] = r.as_ref();
    Ok((*r, *n))
}
fn seg_index(s: &mut Src) -> usize {
    match s.weighted(&[4, 3, 3]) {
        0 => s.upto(N as u64 - 1) as usize,
        1 => *s.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 15, 16, N - 1, N - 2, N - 3, N - 4, N / 2, N / 2 - 1, N / 4, 3 * N / 4]),
        _ => {
            let b = 1usize << s.upto(15);
            (b + s.upto(4) as usize).saturating_sub(2).min(N - 1)
        }
    }
}
fn c10() -> Prop {
    let subs = vec![
        sub("root and edits", 48, 1_500, |s, c| {
            let (mut d, kind) = gen_sector(s);
            c.label(kind);
            c.nt_if(kind != "zeros" && kind != "constant");
            let mut t = Tree::new(&d);
            let (got, th) = root_of(&d, s)?;
            c.sample(|| format!("{kind} sector, root {}, {th} threads", hex(&t.root())));
            if got != t.root() {
                return Err(format!("root of a {kind} sector ({th} threads) is {}, should be {}", hex(&got), hex(&t.root())));
            }
            let mut last = got;
            for _ in 0..6 {
                let i = seg_index(s);
                let before = t.root();
                let what = match s.upto(3) {
                    0 => {
                        let j = match s.upto(2) {
                            0 => i ^ 1,
                            1 => i ^ (1 << s.upto(15)),
                            _ => seg_index(s),
                        };
                        for k in 0..SEG {
                            d.swap(i * SEG + k, j * SEG + k)
                        }
                        t.update(&d, i);
                        t.update(&d, j);
                        format!("exchanging segments {i} and {j}")
                    }
                    1 => {
                        let j = seg_index(s);
                        d.copy_within(j * SEG..(j + 1) * SEG, i * SEG);
                        t.update(&d, i);
                        format!("copying segment {j} over {i}")
                    }
                    _ => {
                        let b = i * SEG + s.below(SEG);
                        d[b] ^= 1 << s.upto(7);
                        t.update(&d, i);
                        format!("flipping a bit of byte {b}")
                    }
                };
                c.extra_evals += 1;
                let (got, th) = root_of(&d, s)?;
                if (got == last) != (before == t.root()) {
                    return Err(format!("{what} of a {kind} sector: root changed {}, content changed {} ({th} threads)", got != last, before != t.root()));
                }
                if got != t.root() {
                    return Err(format!("after {what} the root of a {kind} sector ({th} threads) is {}, should be {}", hex(&got), hex(&t.root())));
                }
                last = got;
            }
            // the same data again on another number of threads
            let (again, th2) = root_of(&d, s)?;
            if again != last {
                return Err(format!("root depends on the number of threads ({th2})"));
            }
            Ok(())
        })
        .threads(4)
        .unguided(),
        sub("wrong length", 60, 1_500, |s, c| {
            let full = N * SEG;
            let n = match s.upto(4) {
                0 => s.upto(200) as usize,
                1 => full - 1 - s.upto(200) as usize,
                2 => full + 1 + s.upto(200) as usize,
                3 => (1usize << s.upto(22)) + SEG * s.upto(2) as usize,
                _ => 2 * full,
            };
            if n == full {
                return Ok(());
            }
            c.nt();
            c.sample(|| format!("{n} bytes"));
            let d = vec![s.upto(255) as u8; n];
            match quiet(|| sector_root(&d)) {
                Err(_) => Ok(()),
                Ok(r) => Err(format!("sector_root of {n} bytes returned {r}")),
            }
        })
        .threads(4)
        .unguided(),
        sub("constants", 1, 1, |_, c| {
            c.nt();
            c.sample(|| format!("{SEGMENT_SIZE} {SECTOR_SIZE}"));
            if SEGMENT_SIZE != SEG || SECTOR_SIZE != N * SEG {
                return Err(format!("segment size {SEGMENT_SIZE}, sector size {SECTOR_SIZE}"));
            }
            // the published root of the empty sector
            let r = quiet(|| sector_root(&vec![0u8; N * SEG])).map_err(|p| format!("sector_root panicked: {p}"))?;
            let want = "50ed59cecd5ed3ca9e65cec0797202091dbba45272dafa3faa4e27064eedd52c";
            if r.to_string() != want {
                return Err(format!("root of the zero sector is {r}, should be {want}"));
            }
            Ok(())
        }),
    ];
    Prop {
        id: "C10",
        rule: "4 MiB sectors (random, numbered segments, sparse, prefix, constant, zero) on rayon pools of 1, 2, 3, 5, 8 or 16 threads, compared with an independent 17-level hash tree; each followed by six bit flips, segment exchanges or copies (positions concentrated at subtree borders) with the tree updated path by path; other lengths must be refused; non-trivial = not a constant sector, or a wrong length",
        assumptions: &["refusing a wrong length by panicking counts as refusing", "BLAKE2b-256 has no collisions among the generated values"],
        subs,
    }
}
pub fn props() -> Vec<Prop> {
    vec![c10()]
}
