//! Records conversions of big floats (C16).
use conform::*;
use nanvm_lib::{
    big_numbers::big_float::BigFloat,
    js::js_bigint::{new_bigint, Sign},
    mem::global::GLOBAL,
};

/// bits of the result (0: to double), significand, exponent, negative, remainder
struct Ev(u8, Vec<u64>, i64, bool, bool);

fn sign(neg: bool) -> Sign {
    if neg {
        Sign::Negative
    } else {
        Sign::Positive
    }
}

fn exec(e: &Ev) -> String {
    let significand = new_bigint(GLOBAL, Sign::Positive, e.1.clone());
    match e.0 {
        0 => {
            let f = BigFloat::<2, _> {
                manager: GLOBAL,
                significand,
                sign: sign(e.3),
                exp: e.2,
                non_zero_reminder: e.4,
            };
            format!(r#""f":{}"#, f64_json(f.to_f64()))
        }
        p => {
            let f = BigFloat::<10, _> {
                manager: GLOBAL,
                significand,
                sign: sign(e.3),
                exp: e.2,
                non_zero_reminder: e.4,
            };
            let r = f.to_bin(p);
            let m = num_json(r.significand.sign() == Sign::Negative, r.significand.items());
            let neg = r.sign == Sign::Negative;
            let x = format!(
                r#""m":{m},"e":{},"neg":{},"rem":{}"#,
                r.exp,
                bool_json(neg),
                bool_json(r.non_zero_reminder)
            );
            // and on to a double
            if p >= 54 {
                format!(r#"{x},"f":{}"#, f64_json(r.to_f64()))
            } else {
                x
            }
        }
    }
}


#[global_allocator]
static HOOK: conform::rec::Hook = conform::rec::Hook;

fn exec_memory(c: &(bool, Ev)) -> String {
    use conform::rec::recorded;
    if c.0 {
        recorded::<&'static nanvm_lib::mem::local::Local, _>(|m| memory(m, &c.1)).1
    } else {
        recorded::<nanvm_lib::mem::global::Global, _>(|m| memory(m, &c.1)).1
    }
}

fn memory<M: conform::rec::Kind>(m: conform::rec::Rec<M>, e: &Ev) {
    let significand = new_bigint(m, Sign::Positive, e.1.clone());
    match e.0 {
        0 => {
            BigFloat::<2, _> {
                manager: m,
                significand,
                sign: sign(e.3),
                exp: e.2,
                non_zero_reminder: e.4,
            }
            .to_f64();
        }
        p => {
            let f = BigFloat::<10, _> {
                manager: m,
                significand,
                sign: sign(e.3),
                exp: e.2,
                non_zero_reminder: e.4,
            };
            f.to_bin(p).to_f64();
        }
    }
}

fn significand(r: &mut Rng, max: usize) -> Vec<u64> {
    match r.below(4) {
        0 => r.limbs(max),
        1 => norm(vec![r.limb() >> r.below(64)]),
        2 => {
            // 53 to 56 bits around a tie, then zeros and perhaps a last one
            let k = 52 + r.below(4);
            let m = (1u64 << k) | (r.limb() & ((1 << k) - 1)) & !3 | r.below(4) as u64;
            let z = r.below(150);
            let mut d = vec![0u64; z / 64];
            d.push(m << (z % 64));
            d.push(if z % 64 == 0 { 0 } else { m >> (64 - z % 64) });
            if r.below(3) == 0 {
                d[0] |= 1;
            }
            norm(d)
        }
        _ => {
            // all ones: rounding carries into the exponent
            let k = 50 + r.below(90);
            let mut d = vec![u64::MAX; k / 64];
            d.push((1 << (k % 64)) - 1);
            if r.below(3) == 0 {
                d[0] ^= 1 << r.below(64);
            }
            norm(d)
        }
    }
}

fn bits(d: &[u64]) -> i64 {
    match d.last() {
        None => 0,
        Some(x) => 64 * d.len() as i64 - x.leading_zeros() as i64,
    }
}

/// A significand of many digits: a tie, or almost one, whose last bit is far away, or anything.
fn long(r: &mut Rng, n: usize, i: usize) -> Vec<u64> {
    let mut d: Vec<u64> = match i % 3 {
        0 => (0..n).map(|_| r.limb()).collect(),
        1 => vec![u64::MAX; n],
        _ => {
            let mut d = vec![0; n];
            let m = (1u64 << 53) | r.limb() >> 11;
            let s = r.below(64);
            d[n - 1] = m << s;
            d[n - 2] = if s > 0 { 0 } else { 1 << 63 };
            d
        }
    };
    match r.below(3) {
        0 => d[0] |= 1,
        1 => d[r.below(n)] ^= 1 << r.below(64),
        _ => {}
    }
    if d[n - 1] == 0 {
        d[n - 1] = 1;
    }
    d
}

fn to_f64(a: &Args) -> Vec<Ev> {
    let mut r = Rng::new(a.seed ^ 13);
    let mut v = vec![];
    let small: Vec<Vec<u64>> = (0..40u64).map(|x| norm(vec![x])).collect();
    // small significands at every boundary of the exponent
    for d in small.iter().chain(&edge_nums()) {
        let b = bits(d);
        for top in [-1080i64, -1076, -1075, -1074, -1073, -1072, -1024, -1023, -1022, -1021, -1020, -53, -1, 0, 1, 53, 64, 1022, 1023, 1024, 1025, 1100] {
            for rem in [false, true] {
                if d.is_empty() && rem {
                    continue;
                }
                if a.thorough || (b + top + rem as i64 + a.seed as i64) % 3 == 0 {
                    v.push(Ev(0, d.clone(), top - b + 1, (b + top) % 2 == 0, rem));
                }
            }
        }
        for e in [i64::MIN, i64::MIN + 1, i64::MIN + 60, i64::MIN / 2, i64::MAX, i64::MAX - 1, i64::MAX - 53, i64::MAX - 60, i64::MAX / 2, -1 << 40, 1 << 40, -1_000_000, 1_000_000, -3000, 3000] {
            v.push(Ev(0, d.clone(), e, e & 1 == 0, false));
        }
    }
    for n in [17usize, 33, 64, 129, 257, 300] {
        for i in 0..if a.thorough { 60 } else { 12 } {
            let d = long(&mut r, n, i);
            let top = match i % 4 {
                0 => r.range(-1076, -1020),
                1 => r.range(1018, 1026),
                _ => r.range(-1080, 1030),
            };
            v.push(Ev(0, d.clone(), top - bits(&d) + 1, r.bool(), r.below(3) == 0));
        }
    }
    let n = if a.thorough { 80_000 } else { 8_000 };
    for _ in 0..n {
        let d = significand(&mut r, 4);
        let b = bits(&d);
        let top = match r.below(6) {
            0 => r.range(-1080, -1020),
            1 => r.range(-1076, -1070),
            2 => r.range(1018, 1026),
            3 => r.range(-1100, 1100),
            4 => r.range(-1075, -1023),
            _ => r.range(-64, 64),
        };
        let rem = r.below(3) == 0 && !d.is_empty();
        v.push(Ev(0, d, top - b + 1, r.bool(), rem));
    }
    v
}

fn to_bin(a: &Args) -> Vec<Ev> {
    let mut r = Rng::new(a.seed ^ 17);
    let mut v = vec![];
    for d in (0..12u64).map(|x| norm(vec![x])).chain(edge_nums()) {
        for e in [-400i64, -64, -23, -22, -3, -2, -1, 0, 1, 2, 3, 22, 23, 27, 28, 64, 308] {
            for p in [1u8, 2, 3, 10, 53, 54, 55, 64, 65, 128, 255] {
                if a.thorough || (e + p as i64 + bits(&d)) % 7 == 0 {
                    v.push(Ev(p, d.clone(), e, r.bool(), r.below(4) == 0 && !d.is_empty()));
                }
            }
        }
    }
    for n in [17usize, 33, 64, 129, 200] {
        for i in 0..if a.thorough { 20 } else { 4 } {
            let d = long(&mut r, n, i);
            let e = match i % 4 {
                0 => r.range(-40, 40),
                1 => -(n as i64 * 19),
                _ => r.range(-400, 300),
            };
            v.push(Ev(54, d, e, r.bool(), r.below(3) == 0));
        }
    }
    let n = if a.thorough { 30_000 } else { 2_500 };
    for _ in 0..n {
        let d = significand(&mut r, 6);
        let p = match r.below(4) {
            0 => 1 + r.below(255) as u8,
            1 => 54,
            2 => (bits(&d) + r.range(-1, 1)).clamp(1, 255) as u8,
            _ => 53 + r.below(12) as u8,
        };
        let e = match r.below(4) {
            0 => r.range(-5, 5),
            1 => r.range(-40, 40),
            _ => r.range(-360, 330),
        };
        let rem = r.below(4) == 0 && !d.is_empty();
        v.push(Ev(p, d, e, r.bool(), rem));
    }
    for e in if a.thorough { vec![-10_000, -3000, 3000, 10_000] } else { vec![-1500, 1500] } {
        for d in [vec![1], vec![u64::MAX], vec![1, 1]] {
            v.push(Ev(64, d, e, false, false));
        }
    }
    v
}

fn main() {
    let a = args();
    if a.mode == "memory" {
        let mut c = to_f64(&a);
        c.extend(to_bin(&a));
        let c = for_memory(&a, c, 700);
        return drive(&a, c, |c| format!(r#""p":{},"n":{},"x":{}"#, c.1 .0, dig(&c.1 .1), c.1 .2.clamp(-1_000_000, 1_000_000)), exec_memory);
    }
    let cases = match a.mode.as_str() {
        "tof64" => to_f64(&a),
        "tobin" => to_bin(&a),
        _ => panic!(),
    };
    drive(
        &a,
        cases,
        |c| {
            // TLC has 32-bit integers: a bound is as good as a huge exponent
            let e = c.2.clamp(-1_000_000, 1_000_000);
            format!(
                r#""p":{},"n":{},"x":{e},"neg0":{},"rem0":{}"#,
                c.0,
                dig(&c.1),
                bool_json(c.3),
                bool_json(c.4)
            )
        },
        exec,
    );
}
