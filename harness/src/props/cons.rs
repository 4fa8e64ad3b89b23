//! C19 consensus parameters, C20 Foundation subsidy, C22 persisted chain state
use super::codec::trunc;
use crate::engine::*;
use crate::model::*;
use crate::refhash::*;
use crate::sem::*;
use num_bigint::BigUint;
use sia::consensus as sc;
use sia::encoding::{SiaDecodable, SiaEncodable};
use sia::types as st;

type B = BigUint;
/// where two texts part
fn diff(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())).saturating_sub(40);
    let cut = |t: &str| String::from_utf8_lossy(&t.as_bytes()[k.min(t.len())..(k + 160).min(t.len())]).into_owned();
    format!("..{} where ..{} is expected", cut(a), cut(b))
}
fn q<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    quiet(f).map_err(|p| format!("{what} panicked: {p}"))
}
const SC: u128 = 10u128.pow(24);
fn near(s: &mut Src, x: u64) -> u64 {
    x.wrapping_add(s.upto(6)).wrapping_sub(3)
}
fn some_height(s: &mut Src, n: &Net) -> u64 {
    match s.weighted(&[6, 2, 1, 1, 2]) {
        0 => {
            let h = *s.pick(&[n.hardfork_tax.height, n.hardfork_asic.height, n.hardfork_foundation.height, n.hardfork_v2.allow_height, n.hardfork_v2.require_height, n.hardfork_oak.height]);
            near(s, h)
        }
        1 => s.u64(),
        2 => u64::MAX, // before genesis
        3 => s.upto(12),
        _ => {
            // where the reward reaches the minimum
            let d = n.initial_coinbase.0.saturating_sub(n.minimum_coinbase.0) / SC;
            near(s, d.min(u64::MAX as u128) as u64)
        }
    }
}
fn full_net(s: &mut Src) -> Cs {
    let mut c = gen_cs(s);
    match s.weighted(&[3, 2, 2, 1]) {
        0 => {}
        1 => {
            let i = s.upto(1000) as u128;
            c.network.initial_coinbase = Cur(i * SC + s.upto(2) as u128);
            c.network.minimum_coinbase = Cur(s.upto(i as u64) as u128 * SC);
        }
        2 => {
            let i = s.u128();
            c.network.initial_coinbase = Cur(i);
            c.network.minimum_coinbase = Cur(i >> s.upto(127));
        }
        _ => {
            // a minimum above the initial coinbase
            c.network.initial_coinbase = Cur(s.u128());
            c.network.minimum_coinbase = Cur(s.u128());
        }
    }
    if s.bool() {
        c.network.maturity_delay = if s.bool() { s.upto(1000) } else { s.u64() };
    }
    c.state.index.height = some_height(s, &c.network);
    c
}
fn builtin(i: usize) -> (&'static str, sc::Network) {
    match i {
        0 => ("mainnet", sc::Network::mainnet()),
        1 => ("zen", sc::Network::zen()),
        _ => ("anagami", sc::Network::anagami()),
    }
}
fn addr(h: &str) -> Addr {
    Addr(unhex(&h[..64]).unwrap().try_into().unwrap())
}
fn bk(h: &str) -> BkId {
    let mut b = [0u8; 32];
    let v = unhex(h).unwrap();
    b[..v.len()].copy_from_slice(&v);
    BkId(b)
}
/// the parameters as published with the reference node
fn published(i: usize) -> Net {
    const VOID: &str = "0000000000000000000000000000000000000000000000000000000000000000";
    const PRIMARY: &str = "053b2def3cbdd078c19d62ce2b4f0b1a3c5e0ffbeeff01280efb1f8969b2f5bb";
    let main = i == 0;
    let zen = i == 1;
    let t = |m: u64, z: u64, a: u64| if main { m } else if zen { z } else { a };
    Net {
        name: ["mainnet", "zen", "anagami"][i].into(),
        initial_coinbase: Cur(300_000 * SC),
        minimum_coinbase: Cur(if main { 30_000 } else { 300_000 } * SC),
        initial_target: bk(if main { "0000000020" } else { "00000001" }),
        block_interval: Dur(600_000_000_000),
        maturity_delay: 144,
        hardfork_dev_addr: HfDev {
            height: t(10_000, 1, 1),
            old_address: addr(if main { "7d0c44f7664e2d34e53efde0661a6f628ec9264785ae8e3cd7c973e8d190c3c9" } else { VOID }),
            new_address: addr(if main { "f371c70bce9eb8979cd5099f599ec4e4fcb14e0afcf31f9791e03e6496a4c0b3" } else { VOID }),
        },
        hardfork_tax: HfTax { height: t(21_000, 2, 2) },
        hardfork_storage_proof: HfSp { height: t(100_000, 5, 5) },
        hardfork_oak: HfOak {
            height: t(135_000, 10, 10),
            fix_height: t(139_000, 12, 12),
            genesis_timestamp: Ts(t(1_433_600_000, 1_673_600_000, 1_724_284_800) as i64),
        },
        hardfork_asic: HfAsic {
            height: t(179_000, 20, 20),
            oak_time: Dur(if main { 120_000 } else { 10_000 } * 1_000_000_000),
            oak_target: bk(if main { "000000000000000020" } else { "00000001" }),
        },
        hardfork_foundation: HfFnd {
            height: t(298_000, 30, 30),
            primary_address: addr(if main || zen { PRIMARY } else { "241352c83da002e61f57e96b14f3a5f8b5de22156ce83b753ea495e64f1affeb" }),
            failsafe_address: addr(if main { "27c22a6c6e6645802a3b8fa0e5374657438ef12716d2205d3e866272de1b644d" } else { VOID }),
        },
        hardfork_v2: HfV2 { allow_height: t(1_000_000, 100_000, 2016), require_height: t(1_025_000, 102_000, 2304) },
    }
}
fn params(cs: &Cs, k: &sc::ChainState, c: &mut Cx) -> R {
    let n = &cs.network;
    let h = cs.state.index.height;
    let child = h.wrapping_add(1);
    let at = format!("at height {h}");
    if q("child_height", || k.child_height())? != child {
        return Err(format!("child height {at} is {}", k.child_height()));
    }
    // reward
    let r = B::from(n.initial_coinbase.0);
    let d = B::from(child) * B::from(SC);
    let min = B::from(n.minimum_coinbase.0);
    let want = if r >= d && &r - &d >= min { r - d } else { min.clone() };
    c.label(if want == min { "minimum reward" } else { "decreasing reward" });
    let got = q(&format!("block_reward {at}"), || *k.block_reward())?;
    if B::from(got) != want {
        return Err(format!("block reward {at} (initial {}, minimum {}) is {got}, should be {want}", n.initial_coinbase.0, n.minimum_coinbase.0));
    }
    // maturity, where it is a height
    if let Some(m) = child.checked_add(n.maturity_delay) {
        let g = q(&format!("maturity_height {at}"), || k.maturity_height())?;
        if g != m {
            return Err(format!("outputs of block {child} mature at {g}, should at {m}"));
        }
    }
    let nf = if child < n.hardfork_asic.height { 1 } else { 1009 };
    c.label(if nf == 1 { "before ASIC" } else { "from ASIC" });
    let g = q(&format!("nonce_factor {at}"), || k.nonce_factor())?;
    if g != nf {
        return Err(format!("nonce factor of block {child} is {g}, should be {nf} (ASIC hardfork at {})", n.hardfork_asic.height));
    }
    if h != u64::MAX {
        let g = q(&format!("replay_prefix {at}"), || k.replay_prefix().to_vec())?;
        let w = prefix(cs);
        c.label(["no prefix", "prefix 0", "prefix 1", "prefix 2"][w.first().map_or(0, |b| *b as usize + 1)]);
        if g != w {
            return Err(format!(
                "replay prefix {at} is {g:?}, should be {w:?} (hardforks: ASIC {}, Foundation {}, v2 {})",
                n.hardfork_asic.height, n.hardfork_foundation.height, n.hardfork_v2.allow_height
            ));
        }
    }
    if (k.siafund_count(), k.ancestor_depth(), k.max_block_weight()) != (10_000, 1000, 2_000_000) {
        return Err(format!("constants {at}: siafunds {}, ancestor depth {}, block weight {}", k.siafund_count(), k.ancestor_depth(), k.max_block_weight()));
    }
    let nanos = n.block_interval.0;
    if nanos > 0 {
        let w = (365 * 86_400_000_000_000 / 12 / nanos) as u64;
        let g = q("blocks_per_month", || k.blocks_per_month())?;
        if g != w {
            return Err(format!("blocks per month at interval {nanos} ns is {g}, should be {w}"));
        }
    }
    Ok(())
}
fn c19() -> Prop {
    let subs = vec![
        sub("random networks", 80_000, 6_000_000, |s, c| {
            let mut cs = full_net(s);
            if s.one_in(4) {
                cs.network.block_interval = Dur(1 + s.u64().min(i64::MAX as u64 - 1) as i128);
            }
            c.nt();
            c.sample(|| format!("height {} {:?}", cs.state.index.height, cs.network));
            let k = cs.to();
            params(&cs, &k, c)
        }),
        sub("built-in networks", 30_000, 2_000_000, |s, c| {
            let i = s.below(3);
            let (name, n) = builtin(i);
            let m = published(i);
            if Net::of(&n) != m {
                return Err(format!("{name}: {}", diff(&format!("{:?}", Net::of(&n)), &format!("{m:?}"))));
            }
            if n != m.to() {
                return Err(format!("{name} does not equal the published network"));
            }
            let mut cs = gen_cs(s);
            cs.network = m;
            cs.state.index.height = some_height(s, &cs.network);
            c.nt();
            c.label(name);
            c.sample(|| format!("{name} at height {}", cs.state.index.height));
            let st = cs.to().state;
            params(&cs, &sc::ChainState { network: n, state: st }, c)
        }),
        // a walk over consecutive heights: each parameter changes exactly where the schedule says
        sub("walks", 1_500, 100_000, |s, c| {
            let mut cs = full_net(s);
            let h0 = some_height(s, &cs.network).wrapping_sub(s.upto(40));
            let n = 20 + s.upto(100);
            c.nt();
            c.sample(|| format!("heights {h0}..+{n} of {:?}", cs.network));
            let mut k = cs.to();
            for i in 0..n {
                let h = h0.wrapping_add(i);
                cs.state.index.height = h;
                k.state.index.height = h;
                params(&cs, &k, &mut Cx::new(false))?;
            }
            c.extra_evals = n - 1;
            Ok(())
        }),
    ];
    Prop {
        id: "C19",
        rule: "random networks (permuted hardfork heights, coinbases, delays, intervals) and the three built-in ones at random heights, at each schedule boundary plus or minus three and before genesis, singly and in walks over consecutive heights; compared with arithmetic on big integers and with the published parameters; both build profiles; non-trivial = every case",
        assumptions: &["maturity is asserted where child height plus delay is a 64-bit height", "the replay prefix before genesis is not asserted: no transaction is signed there"],
        subs,
    }
}

// ------------------------------------------------------------------ C20
const YEAR: i128 = 365 * 86_400_000_000_000;
fn subsidy_net(s: &mut Src) -> Cs {
    let mut cs = gen_cs(s);
    let b: Addr = Addr(s.arr());
    // the recorded address and the network's initial one differ
    cs.state.primary = if b.0 == [0; 32] || b == cs.network.hardfork_foundation.primary_address { Addr([0x55; 32]) } else { b };
    cs.state.failsafe = Addr(s.arr());
    cs.network.block_interval = Dur(match s.weighted(&[4, 3, 2, 1]) {
        0 => 600_000_000_000,
        1 => YEAR / 12 / (1 + s.upto(12) as i128), // a few blocks per month
        2 => 1 + s.upto(3600) as i128 * 1_000_000_000,
        _ => 1 + s.upto((YEAR / 12 - 1) as u64) as i128,
    });
    cs
}
fn due(cs: &Cs) -> (u64, Option<Vec<B>>) {
    let iv = cs.network.block_interval.0 as i128;
    let (year, month) = ((YEAR / iv) as u64, (YEAR / 12 / iv) as u64);
    let child = cs.state.index.height.wrapping_add(1);
    let hf = cs.network.hardfork_foundation.height;
    let per = B::from(30_000u32) * B::from(SC);
    let r = if child < hf || (child - hf) % month != 0 {
        None
    } else if child == hf {
        // twelve months' worth where a year is not a whole number of months
        Some(vec![&per * B::from(year), &per * B::from(12 * month)])
    } else {
        Some(vec![per * B::from(month)])
    };
    (month, r)
}
fn subsidy(cs: &Cs, k: &sc::ChainState) -> Result<bool, String> {
    let (month, want) = due(cs);
    let h = cs.state.index.height;
    let hf = cs.network.hardfork_foundation.height;
    let at = format!("the subsidy of block {} (Foundation hardfork at {hf}, {month} blocks per month)", h.wrapping_add(1));
    let got = match quiet(|| k.foundation_subsidy()) {
        Ok(g) => g,
        // an amount above 128 bits cannot be paid
        Err(_) if want.as_ref().is_some_and(|w| w[0].bits() > 128) => return Ok(false),
        Err(p) => return Err(format!("{at} panicked: {p}")),
    };
    match (got, want) {
        (None, None) => Ok(false),
        (Some(o), Some(w)) => {
            let v = B::from(*o.value);
            if !w.contains(&v) {
                return Err(format!("{at} is {v}, should be {}", w[0]));
            }
            if Addr::of(&o.address) != cs.state.primary {
                return Err(format!("{at} goes to {}, should go to the recorded primary address {}", o.address, addr_text(&cs.state.primary.0)));
            }
            Ok(true)
        }
        (Some(o), None) => Err(format!("{at} is {}, but none is due", *o.value)),
        // a void address renounces the subsidy: not paying it is as good as paying it to nobody
        (None, Some(_)) if cs.state.primary.0 == [0; 32] => Ok(false),
        (None, Some(w)) => Err(format!("{at} is missing, {} are due", w[0])),
    }
}
fn c20() -> Prop {
    let subs = vec![
        sub("random heights", 80_000, 6_000_000, |s, c| {
            let mut cs = subsidy_net(s);
            let (month, _) = due(&cs);
            let hf = cs.network.hardfork_foundation.height;
            cs.state.index.height = match s.weighted(&[5, 3, 2, 1, 1]) {
                0 => {
                    // around a whole number of months
                    let k = if s.bool() { s.upto(3) } else { s.upto(500) };
                    let h = hf.wrapping_add(month.wrapping_mul(k));
                    near(s, h)
                }
                1 => near(s, hf),
                2 => hf.wrapping_add(s.upto(1 << 24)).wrapping_sub(1),
                3 => s.u64(),
                _ => s.upto(20),
            };
            if s.one_in(12) {
                cs.state.primary = Addr([0; 32]);
                c.label("void address");
            }
            let k = cs.to();
            c.sample(|| format!("height {} hardfork {hf} interval {} ns", cs.state.index.height, cs.network.block_interval.0));
            let paid = subsidy(&cs, &k)?;
            c.nt_if(paid || cs.state.index.height.wrapping_add(1) < hf || cs.state.index.height.wrapping_add(1) - hf < 500 * month);
            c.label(if paid { "paid" } else { "not due" });
            c.label_if(cs.state.index.height.wrapping_add(1) == hf, "hardfork block");
            Ok(())
        }),
        sub("built-in networks", 30_000, 2_000_000, |s, c| {
            let i = s.below(3);
            let (name, n) = builtin(i);
            let mut cs = gen_cs(s);
            cs.network = published(i);
            cs.state.primary = Addr(s.arr());
            if cs.state.primary.0 == [0; 32] {
                cs.state.primary = Addr([7; 32]);
            }
            let hf = cs.network.hardfork_foundation.height;
            let m = s.upto(300) * 4380;
            cs.state.index.height = near(s, hf + m);
            c.nt();
            c.label(name);
            c.sample(|| format!("{name} at height {}", cs.state.index.height));
            let st = cs.to().state;
            subsidy(&cs, &sc::ChainState { network: n, state: st })?;
            Ok(())
        }),
        sub("histories", 1_500, 80_000, |s, c| {
            // a run of the chain over the hardfork, during which the recorded address changes:
            // the total paid is one year ahead plus one month per month
            let mut cs = subsidy_net(s);
            let per_month = 1 + s.upto(9);
            cs.network.block_interval = Dur(YEAR / 12 / per_month as i128);
            let (month, _) = due(&cs);
            let hf = cs.network.hardfork_foundation.height;
            let before = s.upto(5).min(hf);
            let n = before + s.upto(120);
            let mut k = cs.to();
            let (mut total, mut payments) = (B::default(), 0u64);
            for i in 0..=n {
                let child = hf - before + i;
                cs.state.index.height = child.wrapping_sub(1);
                k.state.index.height = child.wrapping_sub(1);
                if s.one_in(6) {
                    cs.state.primary = Addr([1 + s.upto(250) as u8; 32]);
                    k.state.foundation_primary_address = cs.state.primary.to();
                }
                if subsidy(&cs, &k)? {
                    payments += 1;
                    total += B::from(*k.foundation_subsidy().unwrap().value);
                }
            }
            let months = (n - before) / month;
            c.nt_if(months > 0);
            c.label_if(months > 12, "over a year");
            c.sample(|| format!("{month} blocks per month, blocks {}..={} around hardfork {hf}: {payments} payments", hf - before, hf - before + n));
            c.extra_evals = n;
            if payments != months + 1 {
                return Err(format!("{payments} payments over {months} whole months from the hardfork, should be {}", months + 1));
            }
            let year = (YEAR / cs.network.block_interval.0 as i128) as u64;
            let per = B::from(30_000u32) * B::from(SC);
            let w = |y: u64| &per * B::from(y + months * month);
            if total != w(year) && total != w(12 * month) {
                return Err(format!("{total} hastings paid over {months} whole months, should be {}", w(year)));
            }
            Ok(())
        }),
    ];
    Prop {
        id: "C20",
        rule: "random networks (block intervals from nanoseconds to a month) and the built-in ones at child heights around the hardfork and around whole numbers of months after it, with a recorded primary address different from the network's; presence, amount and recipient compared with the rule on big integers; histories across the hardfork with changing addresses add up; both build profiles; non-trivial = near the schedule",
        assumptions: &["a month is a twelfth of 365 days in whole blocks; a year is 365 days in whole blocks (or twelve such months where that differs)", "block intervals are at most a month", "a subsidy to the void address may be left unpaid, but not go elsewhere"],
        subs,
    }
}

// ------------------------------------------------------------------ C22
fn enc<T: SiaEncodable>(v: &T) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    q("encode", || v.encode(&mut o))?.map_err(|e| format!("encode fails: {e:?}"))?;
    Ok(o)
}
fn okst(s: &mut Src) -> St {
    let mut m = crate::tweak::gen_okj::<St>(s);
    if s.bool() {
        // boundary heights
        m.index.height = *s.pick(&[u64::MAX, 0, 1, 8, 9, 10, 11, 12, u64::MAX - 1, u64::MAX - 12]);
        let n = St::ts_count(m.index.height);
        for (i, t) in m.prev_timestamps.iter_mut().enumerate() {
            *t = if i < n { Ts(1_500_000_000 + i as i64 * 600 + s.upto(500) as i64) } else { Ts(0) };
        }
    }
    m
}
fn c22() -> Prop {
    let subs = vec![
        sub("binary state", 40_000, 3_000_000, |s, c| {
            let m = okst(s);
            if !m.ok2() {
                return Ok(());
            }
            let n = St::ts_count(m.index.height);
            c.nt();
            c.label(match n {
                0 => "before genesis",
                1..=10 => "fewer than 11 timestamps",
                _ => "11 timestamps",
            });
            c.sample(|| format!("height {} leaves {:#x}", m.index.height, m.elements.num_leaves));
            let v = m.to();
            let b = enc(&v)?;
            if b != m.v2() {
                return Err(format!("state at height {} is stored as {}", m.index.height, diff(&hex(&b), &hex(&m.v2()))));
            }
            let mut r = &b[..];
            let d = q("decode", || sc::State::decode(&mut r))?.map_err(|e| format!("state at height {} does not restore: {e:?}", m.index.height))?;
            if d != v || !r.is_empty() {
                return Err(format!("state at height {} restores differently ({} bytes left): {}", m.index.height, r.len(), diff(&format!("{d:?}"), &format!("{v:?}"))));
            }
            // what does not exist at this height is not stored
            let mut g = m.to();
            for t in g.prev_timestamps[n..].iter_mut() {
                *t = Ts(s.upto(2_000_000_000) as i64).to();
            }
            for i in 0..64 {
                if m.elements.num_leaves >> i & 1 == 0 && s.bool() {
                    g.elements.trees[i] = H256(s.arr()).to();
                }
            }
            if enc(&g)? != b {
                return Err(format!("timestamps or trees that do not exist at height {} are stored", m.index.height));
            }
            // cut short anywhere, it is refused
            let cut = s.below(b.len());
            let mut r = &b[..cut];
            if q("decode", || sc::State::decode(&mut r))?.is_ok() {
                return Err(format!("the first {cut} of {} bytes restore", b.len()));
            }
            Ok(())
        }),
        sub("json state", 20_000, 1_500_000, |s, c| {
            let m = okst(s);
            c.nt();
            c.sample(|| format!("height {} leaves {:#x}", m.index.height, m.elements.num_leaves));
            let v = m.to();
            if !m.okj() {
                return Ok(());
            }
            let t = q("to_string", || serde_json::to_string(&v))?.map_err(|e| format!("state at height {} cannot be written: {e}", m.index.height))?;
            let d: sc::State = q("from_str", || serde_json::from_str(&t))?.map_err(|e| format!("state at height {} does not restore: {e}: {}", m.index.height, trunc(t.clone(), 300)))?;
            if d != v {
                return Err(format!("state at height {} restores differently: {}", m.index.height, diff(&format!("{d:?}"), &format!("{v:?}"))));
            }
            // binary and JSON agree
            if m.ok2() && enc(&d)? != m.v2() {
                return Err("the state restored from JSON is stored differently in binary".into());
            }
            Ok(())
        }),
        sub("accumulators", 40_000, 3_000_000, |s, c| {
            if s.one_in(8) {
                // the empty accumulator, and work as 32 big-endian bytes
                if sc::ElementAccumulator::default() != (Acc { num_leaves: 0, trees: vec![] }).to() {
                    return Err("the default accumulator is not empty".into());
                }
                let w: [u8; 32] = s.arr();
                let x = st::Work::from(&w);
                if enc(&x)? != w || x.to_string() != B::from_bytes_be(&w).to_string() {
                    return Err(format!("work {} is {x}", hex(&w)));
                }
            }
            let m = Acc::gen(s);
            c.nt();
            c.sample(|| format!("leaves {:#x}", m.num_leaves));
            let v = m.to();
            let b = enc(&v)?;
            if b.len() != 8 + 32 * m.num_leaves.count_ones() as usize || b != m.v2() {
                return Err(format!("accumulator of {:#x} leaves is stored as {}", m.num_leaves, diff(&hex(&b), &hex(&m.v2()))));
            }
            let mut r = &b[..];
            let d = q("decode", || sc::ElementAccumulator::decode(&mut r))?.map_err(|e| format!("{e:?}"))?;
            if d != v || !r.is_empty() {
                return Err(format!("accumulator of {:#x} leaves restores differently", m.num_leaves));
            }
            let j = serde_json::to_value(&v).map_err(|e| e.to_string())?;
            if j != m.js() {
                return Err(format!("accumulator of {:#x} leaves is written as {}", m.num_leaves, trunc(j.to_string(), 300)));
            }
            let d: sc::ElementAccumulator = serde_json::from_value(j.clone()).map_err(|e| e.to_string())?;
            if d != v {
                return Err(format!("accumulator of {:#x} leaves restores differently from JSON", m.num_leaves));
            }
            // a tree list that does not match the leaf count
            let n = m.trees.len();
            let k = match s.weighted(&[3, 3, 1, 1]) {
                0 => n.saturating_sub(1),
                1 => n + 1,
                2 => s.upto(70) as usize,
                _ => 64,
            };
            let mut trees = m.trees.clone();
            trees.resize(k, H256(s.arr()));
            let j = serde_json::json!({"numLeaves": m.num_leaves, "trees": trees.js()});
            let r: Result<sc::ElementAccumulator, _> = q("from_value", || serde_json::from_value(j))?;
            match r {
                Ok(_) if k != n => Err(format!("{k} trees for {:#x} leaves ({n} trees) are accepted", m.num_leaves)),
                Err(e) if k == n => Err(format!("{k} trees for {:#x} leaves are refused: {e}", m.num_leaves)),
                _ => Ok(()),
            }
        }),
        sub("whole chain states", 10_000, 600_000, |s, c| {
            let mut m = crate::tweak::gen_okj::<Cs>(s);
            m.state = okst(s);
            if !m.okj() {
                return Ok(());
            }
            c.nt();
            c.sample(|| format!("height {} network {:?}", m.state.index.height, m.network.name));
            let v = m.to();
            let t = q("to_string", || serde_json::to_string(&v))?.map_err(|e| e.to_string())?;
            let d: sc::ChainState = q("from_str", || serde_json::from_str(&t))?.map_err(|e| format!("does not restore: {e}: {}", trunc(t.clone(), 300)))?;
            if d != v {
                return Err(format!("restores differently: {}", diff(&format!("{d:?}"), &format!("{v:?}"))));
            }
            Ok(())
        }),
        sub("persist and reload", 4_000, 200_000, |s, c| {
            // a history: the state advances block by block and goes through its stored form at
            // random points; the reloaded chain always equals the one that was never stored
            let mut m = okst(s);
            m.index.height = u64::MAX;
            m.prev_timestamps = [Ts(0); 11];
            m.elements = Acc { num_leaves: 0, trees: vec![] };
            if !m.ok2() || !m.okj() {
                return Ok(());
            }
            let mut v = m.to();
            let n = 1 + s.upto(25);
            c.nt();
            let mut log = String::new();
            for i in 0..n {
                m.index.height = m.index.height.wrapping_add(1);
                m.index.id = BkId(s.arr());
                let k = St::ts_count(m.index.height);
                m.prev_timestamps[..k].rotate_right(1);
                m.prev_timestamps[0] = Ts(1_400_000_000 + i as i64 * 600 + s.upto(300) as i64);
                let add = s.upto(5);
                let leaves = m.elements.num_leaves + add;
                m.elements = Acc { num_leaves: leaves, trees: (0..leaves.count_ones()).map(|_| H256(s.arr())).collect() };
                m.attestations = m.attestations.wrapping_add(s.upto(2));
                let w = m.to();
                v.index = w.index;
                v.prev_timestamps = w.prev_timestamps;
                v.elements = w.elements;
                v.attestations = w.attestations;
                match s.upto(2) {
                    0 => {
                        let b = enc(&v)?;
                        v = q("decode", || sc::State::decode(&mut &b[..]))?.map_err(|e| format!("height {}: {e:?}", m.index.height))?;
                        log.push('b');
                    }
                    1 => {
                        let t = serde_json::to_string(&v).map_err(|e| e.to_string())?;
                        v = q("from_str", || serde_json::from_str(&t))?.map_err(|e| format!("height {}: {e}", m.index.height))?;
                        log.push('j');
                    }
                    _ => log.push('.'),
                }
                if St::of(&v) != m {
                    return Err(format!("after {log} at height {}: {}", m.index.height, diff(&format!("{:?}", St::of(&v)), &format!("{m:?}"))));
                }
            }
            c.sample(|| format!("{n} blocks: {log}"));
            c.extra_evals = n - 1;
            Ok(())
        }),
    ];
    Prop {
        id: "C22",
        rule: "random chain states at all heights (before genesis, 0 to 13, anywhere) and accumulators of random leaf counts; stored bytes and JSON compared with the reference form, restored and compared; values in places that do not exist at the height must not be stored; tree lists of wrong length and truncated bytes must be refused; histories of blocks with storing and reloading at random points; non-trivial = every case",
        assumptions: &["timestamps are whole seconds within the years RFC 3339 can write", "a JSON timestamp list shorter than 11 may be read leniently"],
        subs,
    }
}
pub fn props() -> Vec<Prop> {
    let _ = std::marker::PhantomData::<st::Currency>;
    vec![c19(), c20(), c22()]
}
