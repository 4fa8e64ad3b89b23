//! C17 currency arithmetic, C21 file contract tax
use crate::engine::*;
use crate::model::*;
use crate::sem::gen_cs;
use num_bigint::BigUint;
use sia::types::Currency;

type B = BigUint;
fn big(v: u128) -> B {
    B::from(v)
}
fn cur(v: u128) -> Currency {
    Currency::new(v)
}
/// exact: the true result, None when it is not an amount (negative, above 128 bits, division by zero)
fn exact_or_panic(what: &str, exact: Option<B>, f: impl FnOnce() -> Currency) -> Result<bool, String> {
    let want = exact.and_then(|e| u128::try_from(e).ok());
    match (quiet(f), want) {
        (Ok(g), Some(w)) if *g == w => Ok(false),
        (Err(_), None) => Ok(true),
        (Ok(g), Some(w)) => Err(format!("{what} gives {}, exactly it is {w}", *g)),
        (Ok(g), None) => Err(format!("{what} gives {}, but the exact result is not an amount", *g)),
        (Err(p), Some(w)) => Err(format!("{what} panics ({p}), exactly it is {w}")),
    }
}
fn exact_or_none(what: &str, exact: Option<B>, f: impl FnOnce() -> Option<Currency>) -> R {
    let want = exact.and_then(|e| u128::try_from(e).ok());
    let got = quiet(f).map_err(|p| format!("{what} panicked: {p}"))?.map(|c| *c);
    if got != want {
        return Err(format!("{what} gives {got:?}, exactly it is {want:?}"));
    }
    Ok(())
}
/// amounts whose sums, products and quotients fall near the limits
fn pair(s: &mut Src) -> (u128, u128) {
    let a = s.u128();
    let near = |s: &mut Src, x: u128| x.wrapping_add(s.upto(4) as u128).wrapping_sub(2);
    let b = match s.weighted(&[4, 2, 2, 2, 1]) {
        0 => s.u128(),
        1 => near(s, u128::MAX - a),
        2 => near(s, a),
        3 if a > 0 => near(s, u128::MAX / a),
        _ => {
            let x = a >> s.upto(127);
            near(s, x)
        }
    };
    if s.bool() {
        (a, b)
    } else {
        (b, a)
    }
}
fn c17() -> Prop {
    let subs = vec![
        sub("operators", 120_000, 10_000_000, |s, c| {
            let (a, b) = pair(s);
            let (x, y) = (cur(a), cur(b));
            let (p, q) = (big(a), big(b));
            c.nt_if(a > 1 && b > 1);
            c.sample(|| format!("{a} op {b}"));
            let sub = (p >= q).then(|| &p - &q);
            let div = (b != 0).then(|| &p / &q);
            let rem = (b != 0).then(|| &p % &q);
            for (i, r) in [
                exact_or_panic(&format!("{a} + {b}"), Some(&p + &q), || x + y)?,
                exact_or_panic(&format!("{a} - {b}"), sub.clone(), || x - y)?,
                exact_or_panic(&format!("{a} * {b}"), Some(&p * &q), || x * y)?,
                exact_or_panic(&format!("{a} / {b}"), div.clone(), || x / y)?,
                exact_or_panic(&format!("{a} % {b}"), rem, || x % y)?,
            ]
            .into_iter()
            .enumerate()
            {
                c.label_if(r, ["sum too large", "difference negative", "product too large", "division by zero", "remainder by zero"][i]);
            }
            exact_or_none(&format!("{a}.checked_add({b})"), Some(&p + &q), || x.checked_add(y))?;
            exact_or_none(&format!("{a}.checked_sub({b})"), sub, || x.checked_sub(y))?;
            exact_or_none(&format!("{a}.checked_mul({b})"), Some(&p * &q), || x.checked_mul(y))?;
            exact_or_none(&format!("{a}.checked_div({b})"), div, || x.checked_div(y))?;
            Ok(())
        }),
        sub("sums", 25_000, 2_000_000, |s, c| {
            let n = s.upto(9) as usize;
            let mut v: Vec<u128> = vec![];
            let mut left = u128::MAX;
            for _ in 0..n {
                let x = match s.weighted(&[3, 3, 2, 1]) {
                    0 => s.u128(),
                    1 => s.u128() >> s.upto(64),
                    2 => left,
                    _ => left.wrapping_add(1),
                };
                left = left.saturating_sub(x);
                v.push(x);
            }
            let t: B = v.iter().map(|x| big(*x)).sum();
            c.nt_if(n > 1);
            c.sample(|| format!("{v:?}"));
            let r = exact_or_panic(&format!("sum of {v:?}"), Some(t.clone()), || v.iter().map(|x| cur(*x)).sum())?;
            c.label_if(r, "too large");
            // a running total
            let mut acc = cur(0);
            let mut ok = true;
            for x in &v {
                match acc.checked_add(cur(*x)) {
                    Some(a) => acc = a,
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok != (t.bits() <= 128) || ok && big(*acc) != t {
                return Err(format!("running total of {v:?} is {}", *acc));
            }
            Ok(())
        }),
        sub("whole siacoins", 25_000, 2_000_000, |s, c| {
            const MAX: u64 = 340282366920938; // 2^128 / 10^24
            let n = match s.weighted(&[2, 2, 1]) {
                0 => s.u64(),
                1 => MAX - 3 + s.upto(6),
                _ => s.upto(1 << 50),
            };
            c.nt_if(n > 1);
            c.sample(|| format!("{n} SC"));
            let r = exact_or_panic(&format!("siacoins({n})"), Some(B::from(n) * B::from(10u32).pow(24)), || Currency::siacoins(n))?;
            c.label_if(r, "too large");
            Ok(())
        }),
        sub("order and conversions", 60_000, 4_000_000, |s, c| {
            let (a, b) = pair(s);
            let (x, y) = (cur(a), cur(b));
            c.nt_if(a != b);
            c.sample(|| format!("{a} {b}"));
            let ok = (x == y) == (a == b)
                && (x != y) == (a != b)
                && (x < y) == (a < b)
                && (x <= y) == (a <= b)
                && (x > y) == (a > b)
                && (x >= y) == (a >= b)
                && x.cmp(&y) == a.cmp(&b)
                && x.partial_cmp(&y) == Some(a.cmp(&b))
                && *x.max(y) == a.max(b)
                && *x.min(y) == a.min(b)
                && *x == a
                && x.to_string() == a.to_string()
                && *Currency::zero() == 0
                && *Currency::default() == 0;
            if !ok {
                return Err(format!("comparison, conversion or display of {a} and {b} disagrees with their value"));
            }
            let mut z = x;
            *z = b;
            if z != y || *x != a {
                return Err(format!("storing {b} in an amount of {a} gives {z:?}"));
            }
            let t: Result<u64, _> = quiet(|| x.try_into()).map_err(|p| format!("conversion of {a} to u64 panicked: {p}"))?;
            if t.ok() != u64::try_from(a).ok() {
                return Err(format!("conversion of {a} to u64 gives {t:?}"));
            }
            Ok(())
        }),
        sub("identities", 40_000, 3_000_000, |s, c| {
            // histories of operations that stay in range: the value equals the exact one throughout
            let mut x = cur(s.u128());
            let mut e = big(*x);
            let n = 1 + s.upto(11);
            c.nt();
            let mut log = format!("{}", *x);
            for _ in 0..n {
                let y = match s.upto(2) {
                    0 => s.u128(),
                    1 => s.upto(1000) as u128,
                    _ => *x >> s.upto(100),
                };
                let op = s.upto(4);
                let q = big(y);
                let z: Option<B> = match op {
                    0 => Some(&e + &q),
                    1 => (e >= q).then(|| &e - &q),
                    2 => Some(&e * &q),
                    3 => (y != 0).then(|| &e / &q),
                    _ => (y != 0).then(|| &e % &q),
                };
                log += &format!(" {}{y}", ["+", "-", "*", "/", "%"][op as usize]);
                let x0 = x;
                let mut out = cur(0);
                let refused = exact_or_panic(&log, z.clone(), || {
                    out = match op {
                        0 => x0 + cur(y),
                        1 => x0 - cur(y),
                        2 => x0 * cur(y),
                        3 => x0 / cur(y),
                        _ => x0 % cur(y),
                    };
                    out
                })?;
                if !refused {
                    x = out;
                    e = z.unwrap();
                }
            }
            c.sample(|| log);
            Ok(())
        }),
    ];
    Prop {
        id: "C17",
        rule: "random amounts biased to powers of two, to each other, to the complement and to the quotient of the largest amount, so that results fall on both sides of the limits; every operator, checked form, sum, conversion and comparison compared with big-integer arithmetic, singly and in random sequences; run in the debug build and in the release build without overflow checks; non-trivial = operands above one (or unequal)",
        assumptions: &["Currency dereferences to u128; arithmetic on the dereferenced value is the caller's"],
        subs,
    }
}

// ------------------------------------------------------------------ C21
fn payout(s: &mut Src) -> u128 {
    match s.weighted(&[4, 3, 2]) {
        0 => s.u128(),
        // near a step of the tax: 10000 hastings of tax are 256410.26 of payout
        1 => {
            let k = s.u128() >> (20 + s.upto(90));
            let step = B::from(k) * B::from(10_000_000u32) / B::from(39u32);
            u128::try_from(step).unwrap_or(0).wrapping_add(s.upto(6) as u128).wrapping_sub(3)
        }
        _ => s.u64() as u128 * 10u128.pow(s.upto(19) as u32),
    }
}
/// the double nearest to 0.039, exactly: sign 0, exponent 1018, 53-bit significand
fn legacy(p: &B) -> B {
    let bits = 0.039f64.to_bits();
    let m = B::from(bits & ((1 << 52) - 1) | 1 << 52);
    let e = 1075 - (bits >> 52) as u32;
    (p * m) >> e
}
fn floor_sf(t: B) -> B {
    &t - &t % B::from(10_000u32)
}
fn c21() -> Prop {
    let subs = vec![
        sub("v1 tax", 60_000, 4_000_000, |s, c| {
            let mut cs = gen_cs(s);
            if s.bool() {
                cs.state.index.height = cs.network.hardfork_tax.height.wrapping_add(s.upto(4)).wrapping_sub(3);
            }
            s.budget = 6;
            let mut fc = Fc1::gen(s);
            fc.payout = Cur(payout(s));
            let p = big(fc.payout.0);
            let child = cs.state.index.height.wrapping_add(1);
            let old = child < cs.network.hardfork_tax.height;
            let exact = if old { legacy(&p) } else { &p * B::from(39u32) / B::from(1000u32) };
            let want = floor_sf(exact.clone());
            c.nt_if(want > B::default());
            c.label(if old { "legacy" } else { "exact" });
            c.label_if(legacy(&p) != &p * B::from(39u32) / B::from(1000u32), "the two forms differ");
            c.label_if(p.bits() > 122, "payout near 2^128");
            c.sample(|| format!("payout {p}, child height {child}, tax hardfork at {}", cs.network.hardfork_tax.height));
            let (k, f) = (cs.to(), fc.to());
            let got = *quiet(|| f.tax(&k)).map_err(|e| format!("tax of payout {p} panicked: {e}"))?;
            if big(got) != want {
                return Err(format!("tax of payout {p} at child height {child} (hardfork at {}) is {got}, should be {want}", cs.network.hardfork_tax.height));
            }
            if got > fc.payout.0 || got % 10_000 != 0 {
                return Err(format!("tax {got} of payout {p}"));
            }
            Ok(())
        }),
        sub("v2 tax", 60_000, 4_000_000, |s, c| {
            let cs = gen_cs(s);
            s.budget = 6;
            let mut fc = Fc2::gen(s);
            let (a, b) = match s.upto(2) {
                0 => pair(s),
                1 => (payout(s), payout(s)),
                _ => (s.u128() >> 1, s.u128() >> 1),
            };
            fc.renter_output.value = Cur(a);
            fc.host_output.value = Cur(b);
            let sum = big(a) + big(b);
            let want = floor_sf(&sum / B::from(25u32));
            c.nt_if(want > B::default());
            c.sample(|| format!("renter {a} host {b}"));
            let (k, f) = (cs.to(), fc.to());
            let got = quiet(|| *f.tax(&k));
            match got {
                Ok(g) if big(g) == want && big(g) <= sum => Ok(()),
                Ok(g) => Err(format!("tax of outputs {a} and {b} is {g}, should be {want}")),
                // a payout above 128 bits is not an amount
                Err(_) if sum.bits() > 128 => {
                    c.label("sum of the outputs above 128 bits");
                    Ok(())
                }
                Err(p) => Err(format!("tax of outputs {a} and {b} panicked: {p}")),
            }
        }),
    ];
    Prop {
        id: "C21",
        rule: "random payouts over all 128 bits and next to the steps of the tax, at child heights around the tax hardfork; compared with big-integer arithmetic (the legacy rate as the exact rational value of the double 0.039); run in both build profiles; non-trivial = the tax is above zero",
        assumptions: &["a v2 contract whose two outputs sum above 128 bits has no payout amount; refusing it is allowed, a wrong tax is not"],
        subs,
    }
}
pub fn props() -> Vec<Prop> {
    vec![c17(), c21()]
}
