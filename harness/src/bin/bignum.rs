//! Records operations of BigUint and BigInt (C15).
use conform::*;
use nanvm_lib::{
    big_numbers::{
        big_int::{BigInt, Sign},
        big_uint::BigUint,
    },
    mem::global::GLOBAL,
    parser::shared::to_js_bigint,
};
use std::cmp::Ordering;

/// operation, operands, machine integer
struct Ev(&'static str, Num, Num, u64);

fn u(n: &Num) -> BigUint {
    BigUint { value: n.1.clone() }
}
fn i(n: &Num) -> BigInt {
    BigInt::new(if n.0 { Sign::Negative } else { Sign::Positive }, u(n))
}
fn ju(b: &BigUint) -> String {
    num_json(false, &b.value)
}
fn ji(b: &BigInt) -> String {
    num_json(b.sign == Sign::Negative, &b.value.value)
}
fn ord(o: Ordering) -> String {
    match o {
        Ordering::Less => "-1",
        Ordering::Equal => "0",
        Ordering::Greater => "1",
    }
    .to_string()
}
/// Every way to compare.
fn order<T: Ord + Clone>(a: &T, b: &T) -> String {
    let t = [a < b, a <= b, a > b, a >= b, a != b, a.clone().max(b.clone()) == *a, a.clone().min(b.clone()) == *a];
    format!(
        "[{},{},{}]",
        ord(a.cmp(b)),
        a.partial_cmp(b).map_or("7".to_string(), ord),
        t.map(|x| bool_json(x).to_string()).join(",")
    )
}
fn input(n: &Num) -> String {
    num_json(n.0 && !n.1.is_empty(), &n.1)
}

fn exec(e: &Ev) -> String {
    let (a, b) = (u(&e.1), u(&e.2));
    let (x, y) = (i(&e.1), i(&e.2));
    let r = match e.0 {
        "uadd" => ju(&(&a + &b)),
        "usub" => ju(&(&a - &b)),
        "umul" => ju(&(&a * &b)),
        "udiv" => ju(&(&a / &b)),
        "udivmod" => {
            let (q, r) = a.div_mod(&b);
            format!("[{},{}]", ju(&q), ju(&r))
        }
        "ushl" => ju(&(&a << &b)),
        "ushr" => ju(&(&a >> &b)),
        "upow" => ju(&a.pow(&b)),
        "upowu" => ju(&a.pow_u64(e.3)),
        "ucmp" => order(&a, &b),
        "ueq" => bool_json(a == b).to_string(),
        "uone" => ju(&BigUint::one()),
        "uisone" => bool_json(a.is_one()).to_string(),
        "uisz" => bool_json(a.is_zero() && a.is_empty()).to_string(),
        "ubit" => a.get_last_bit().to_string(),
        "ufrom" => ju(&BigUint::from_u64(e.3)),
        "unorm" => {
            // with leading zeros
            let mut n = a.clone();
            n.value.resize(a.value.len() + e.3 as usize, 0);
            n.normalize();
            ju(&n)
        }
        "utoint" => ji(&a.clone().to_big_int()),
        "iadd" => ji(&(&x + &y)),
        "isub" => ji(&(x.clone() - y.clone())),
        "imul" => ji(&(&x * &y)),
        "idiv" => ji(&(&x / &y)),
        "idivmod" => {
            let (q, r) = x.div_mod(&y);
            format!("[{},{}]", ji(&q), ji(&r))
        }
        "ijs" => {
            let b = to_js_bigint(GLOBAL, x.clone());
            num_json(b.sign() == nanvm_lib::js::js_bigint::Sign::Negative, b.items())
        }
        "ineg" => ji(&-x.clone()),
        "iabs" => ji(&x.clone().abs()),
        "icmp" => order(&x, &y),
        "ieq" => bool_json(x == y).to_string(),
        "iisz" => bool_json(x.is_zero()).to_string(),
        "ifrom" => ji(&BigInt::from_u64(e.3)),
        "ifrom64" => ji(&BigInt::from_i64(e.3 as i64)),
        _ => unreachable!(),
    };
    let same = a == u(&e.1) && b == u(&e.2) && ji(&x) == ji(&i(&e.1)) && ji(&y) == ji(&i(&e.2));
    format!(r#""r":{r},"same":{}"#, bool_json(same))
}

fn related(r: &mut Rng, a: &[u64], max: usize) -> Vec<u64> {
    norm(match r.below(8) {
        0 => a.to_vec(),
        1 => add_limbs(a, &[1]),
        2 if !a.is_empty() => dec_limbs(a),
        3 if !a.is_empty() => {
            let mut d = a.to_vec();
            let i = r.below(d.len());
            d[i] = r.limb();
            d
        }
        _ => r.limbs(max),
    })
}

const NONE: Num = (false, vec![]);
const UBIN: &[&str] = &["uadd", "usub", "umul", "udivmod", "udiv", "ucmp", "ueq"];
const IBIN: &[&str] = &["iadd", "isub", "imul", "idivmod", "idiv", "icmp", "ieq"];
const UN: &[&str] = &["uisone", "uisz", "ubit", "unorm", "utoint", "ijs", "ineg", "iabs", "iisz"];

fn cases(a: &Args) -> Vec<Ev> {
    let mut r = Rng::new(a.seed ^ 11);
    let mut v = vec![Ev("uone", NONE, NONE, 0)];
    for n in 0..64u32 {
        for x in [1u64 << n, u64::MAX >> n, (1u64 << n) - 1, (1u64 << n).wrapping_neg(), n as u64] {
            for op in ["ufrom", "ifrom", "ifrom64"] {
                v.push(Ev(op, NONE, NONE, x));
            }
        }
    }
    let nums = edge_nums();
    for (j, x) in nums.iter().enumerate() {
        for op in UN {
            for neg in [false, true] {
                if op.starts_with('u') && neg {
                    continue;
                }
                v.push(Ev(op, (neg && !x.is_empty(), x.clone()), NONE, (j % 4) as u64));
            }
        }
        for (k, y) in nums.iter().enumerate() {
            for (t, op) in UBIN.iter().chain(IBIN).enumerate() {
                for s in 0..4 {
                    let (sa, sb) = (s & 1 == 1, s & 2 == 2);
                    if op.starts_with('u') && s > 0 || sa && x.is_empty() || sb && y.is_empty() {
                        continue;
                    }
                    if a.thorough || (j * 7 + k * 3 + t + s + a.seed as usize) % 9 == 0 {
                        v.push(Ev(op, (sa, x.clone()), (sb, y.clone()), 0));
                    }
                }
            }
        }
        for k in [0u64, 1, 11, 12, 31, 32, 63, 64, 65, 127, 128, 129, 192] {
            if a.thorough || (j + k as usize) % 3 == 0 {
                v.push(Ev("ushl", (false, x.clone()), (false, norm(vec![k])), 0));
                v.push(Ev("ushr", (false, x.clone()), (false, norm(vec![k])), 0));
            }
        }
        for d in [vec![0, 1], vec![64, 1], vec![u64::MAX; 2]] {
            v.push(Ev("ushl", (false, x.clone()), (false, d.clone()), 0));
            v.push(Ev("ushr", (false, x.clone()), (false, d.clone()), 0));
            v.push(Ev("upow", (false, x.clone()), (false, d), 0));
        }
        for k in [u64::MAX, 1 << 63, 1 << 40, 1 << 32, 1 << 20] {
            v.push(Ev("ushr", (false, x.clone()), (false, vec![k]), 0));
            if x.is_empty() {
                v.push(Ev("ushl", (false, x.clone()), (false, vec![k]), 0));
            }
            if x.is_empty() || x == &[1] {
                v.push(Ev("upow", (false, x.clone()), (false, vec![k]), 0));
                v.push(Ev("upowu", (false, x.clone()), NONE, k));
            }
        }
        if a.thorough || j % 2 == 0 {
            for k in (0..14u64).chain([31, 32, 33, 63, 64, 65]) {
                if x.len() as u64 * 64 * k <= 2000 || x.len() <= 1 && x.iter().all(|d| *d <= 2) {
                    v.push(Ev("upow", (false, x.clone()), (false, norm(vec![k])), 0));
                    v.push(Ev("upowu", (false, x.clone()), NONE, k));
                }
            }
        }
    }
    for n in [17usize, 33, 64, 129, 257, 300] {
        let long = |r: &mut Rng, n: usize| -> Vec<u64> {
            let mut d: Vec<u64> = match r.below(4) {
                0 => vec![u64::MAX; n],
                1 => vec![0; n],
                _ => (0..n).map(|_| r.limb()).collect(),
            };
            if d[n - 1] == 0 {
                d[n - 1] = 1;
            }
            d
        };
        for _ in 0..if a.thorough { 12 } else { 2 } {
            let x = long(&mut r, n);
            let y = match r.below(3) {
                0 => vec![1],
                1 => related(&mut r, &x, 4),
                _ => long(&mut r, n),
            };
            for op in ["uadd", "usub", "ucmp", "ueq", "iadd", "isub", "icmp", "ieq"] {
                let i = op.starts_with('i');
                v.push(Ev(op, (i && r.bool(), x.clone()), (i && r.bool() && !y.is_empty(), y.clone()), 0));
                v.push(Ev(op, (i && r.bool() && !y.is_empty(), y.clone()), (i && r.bool(), x.clone()), 0));
            }
            for op in UN {
                v.push(Ev(op, (!op.starts_with('u') && r.bool(), x.clone()), NONE, 3));
            }
            let y = long(&mut r, 1 + n % 7);
            v.push(Ev("umul", (false, x.clone()), (false, y.clone()), 0));
            v.push(Ev("imul", (r.bool(), y), (r.bool(), x.clone()), 0));
            if n < 130 {
                for k in [1, 2, n / 2, n] {
                    let y = long(&mut r, k);
                    v.push(Ev("udivmod", (false, x.clone()), (false, y.clone()), 0));
                    v.push(Ev("idivmod", (r.bool(), x.clone()), (r.bool(), y), 0));
                }
            }
            for k in [n as u64 * 64, n as u64 * 64 - 1, n as u64 * 64 + 1, n as u64 * 40 + 7, 16_384, 65_536, 100_000] {
                let y = long(&mut r, 1 + n % 3);
                v.push(Ev("ushl", (false, y), (false, vec![k]), 0));
                v.push(Ev("ushr", (false, x.clone()), (false, vec![k]), 0));
            }
        }
    }
    for (x, k) in [(2u64, 300u64), (2, 4096), (2, 20_000), (3, 1000), (10, 300), (u64::MAX, 40), (2, 65_537)] {
        v.push(Ev("upow", (false, vec![x]), (false, vec![k]), 0));
        v.push(Ev("upowu", (false, vec![x]), NONE, k));
    }
    let n = if a.thorough { 100_000 } else { 9_000 };
    for c in 0..n {
        let max = if c % 12 == 0 { 12 } else { 4 };
        let mut x = r.limbs(max);
        let mut y = related(&mut r, &x, max);
        let op = *r.one_of(&[UBIN, IBIN].concat());
        if op.contains("div") && r.below(3) > 0 {
            if y.is_empty() {
                y = vec![1 + r.below(5) as u64];
            }
            let rem = match r.below(3) {
                0 => vec![],
                1 => dec_limbs(&y),
                _ => norm(y[..y.len() - 1].to_vec()),
            };
            x = add_limbs(&mul_limbs(&x, &y), &rem);
        }
        let i = op.starts_with('i');
        v.push(Ev(op, (i && r.bool() && !x.is_empty(), x), (i && r.bool() && !y.is_empty(), y), 0));
        if c % 4 == 0 {
            let x = r.limbs(max);
            let top = 64 * (x.len() as i64 + 1);
            let k = match r.below(3) {
                0 => r.range(0, top),
                1 => 64 * r.range(0, x.len() as i64 + 1),
                _ => (64 * r.range(0, x.len() as i64 + 1) + r.range(-2, 2)).max(0),
            } as u64;
            v.push(Ev(if r.bool() { "ushl" } else { "ushr" }, (false, x), (false, norm(vec![k])), 0));
        }
    }
    v
}

fn main() {
    let a = args();
    drive(
        &a,
        cases(&a),
        |c| format!(r#""op":"{}","a":{},"b":{},"k":{}"#, c.0, input(&c.1), input(&c.2), dig(&[c.3])),
        exec,
    );
}
