//! Records operations of the bigints of the value model (C12, C13, C14).
use conform::*;
use nanvm_lib::{
    js::js_bigint::{self as jb, new_bigint, JsBigint, JsBigintMutRef, Sign},
    mem::global::{Global, GLOBAL},
};
use std::{cmp::Ordering, ops::Deref};

/// operation, operands, machine integer
struct Ev(&'static str, Num, Num, u64);

type Big = JsBigintMutRef<Global>;

fn sign(neg: bool) -> Sign {
    if neg {
        Sign::Negative
    } else {
        Sign::Positive
    }
}
fn mk(n: &Num) -> Big {
    new_bigint(GLOBAL, sign(n.0), n.1.clone())
}
fn js(b: &JsBigint) -> String {
    num_json(b.sign() == Sign::Negative, b.items())
}
fn input(n: &Num) -> String {
    num_json(n.0 && !n.1.is_empty(), &n.1)
}

fn exec(e: &Ev) -> String {
    let a = mk(&e.1);
    let b = mk(&e.2);
    let (x, y): (&JsBigint, &JsBigint) = (a.deref(), b.deref());
    let (ja, jb_) = (js(x), js(y));
    let r = match e.0 {
        "add" => js(&jb::add(GLOBAL, x, y)),
        "sub" => js(&jb::sub(GLOBAL, x, y)),
        "mul" => js(&jb::mul(GLOBAL, x, y)),
        "neg" => js(&jb::negative(GLOBAL, x)),
        "not" => js(&jb::not(GLOBAL, x)),
        "and" => js(&jb::and(GLOBAL, x, y)),
        "or" => js(&jb::or(GLOBAL, x, y)),
        "xor" => js(&jb::xor(GLOBAL, x, y)),
        "shl" => js(&jb::shl(GLOBAL, x, y)),
        "shr" => js(&jb::shr(GLOBAL, x, y)),
        "shlu" => js(&jb::shl_on_u64(GLOBAL, x, e.3)),
        "shru" => js(&jb::shr_on_u64(GLOBAL, x, e.3)),
        "pow" => js(&jb::pow(GLOBAL, x, y)),
        "powu" => js(&jb::pow_u64(GLOBAL, x, e.3)),
        "cmp" => match x.compare(y) {
            Ordering::Less => "-1".to_string(),
            Ordering::Equal => "0".to_string(),
            Ordering::Greater => "1".to_string(),
        },
        "eq" => bool_json(jb::equals(x, y)).to_string(),
        "isz" => bool_json(jb::is_zero(x)).to_string(),
        "bit" => x.get_last_bit().to_string(),
        "zero" => js(&jb::zero(GLOBAL)),
        "from+" => js(&jb::from_u64(GLOBAL, Sign::Positive, e.3)),
        "from-" => js(&jb::from_u64(GLOBAL, Sign::Negative, e.3)),
        "div" => {
            let (q, r) = jb::div_mod(GLOBAL, x, y);
            format!("[{},{}]", js(&q), js(&r))
        }
        _ => unreachable!(),
    };
    // the operands are unchanged
    let same = js(a.deref()) == ja && js(b.deref()) == jb_;
    format!(r#""r":{r},"same":{}"#, bool_json(same))
}


#[global_allocator]
static HOOK: conform::rec::Hook = conform::rec::Hook;

fn exec_memory(c: &(bool, Ev)) -> String {
    use conform::rec::recorded;
    if c.0 {
        recorded::<&'static nanvm_lib::mem::local::Local, _>(|m| memory(m, &c.1)).1
    } else {
        recorded::<nanvm_lib::mem::global::Global, _>(|m| memory(m, &c.1)).1
    }
}

fn memory<M: conform::rec::Kind>(m: conform::rec::Rec<M>, e: &Ev) {
    let a = new_bigint(m, sign(e.1 .0), e.1 .1.clone());
    let b = new_bigint(m, sign(e.2 .0), e.2 .1.clone());
    let (x, y): (&JsBigint, &JsBigint) = (a.deref(), b.deref());
    // a refusal gives back what was taken, too
    let r = caught(|| match e.0 {
        "add" => jb::add(m, x, y),
        "sub" => jb::sub(m, x, y),
        "mul" => jb::mul(m, x, y),
        "neg" => jb::negative(m, x),
        "not" => jb::not(m, x),
        "and" => jb::and(m, x, y),
        "or" => jb::or(m, x, y),
        "xor" => jb::xor(m, x, y),
        "shl" => jb::shl(m, x, y),
        "shr" => jb::shr(m, x, y),
        "shlu" => jb::shl_on_u64(m, x, e.3),
        "shru" => jb::shr_on_u64(m, x, e.3),
        "pow" => jb::pow(m, x, y),
        "powu" => jb::pow_u64(m, x, e.3),
        "from+" => jb::from_u64(m, Sign::Positive, e.3),
        "from-" => jb::from_u64(m, Sign::Negative, e.3),
        "div" => {
            let (q, r) = jb::div_mod(m, x, y);
            drop(q);
            r
        }
        _ => jb::zero(m),
    });
    let Some(r) = r else { return };
    // a result can become shared, and go in any order
    let r = r.to_ref();
    let s = r.clone();
    drop(a);
    drop(r);
    drop(b);
    drop(s);
}

fn num(r: &mut Rng, max: usize) -> Num {
    let d = r.limbs(max);
    (r.bool() && !d.is_empty(), d)
}

/// Another operand that is related to the first one.
fn related(r: &mut Rng, a: &Num, max: usize) -> Num {
    let mut d = match r.below(8) {
        0 => a.1.clone(),
        1 => add_limbs(&a.1, &[1]),
        2 if !a.1.is_empty() => dec_limbs(&a.1),
        3 => {
            let mut d = a.1.clone();
            if !d.is_empty() {
                let i = r.below(d.len());
                d[i] = r.limb();
            }
            d
        }
        _ => r.limbs(max),
    };
    d = norm(d);
    (r.bool() && !d.is_empty(), d)
}

fn edges() -> Vec<Num> {
    let mut v = vec![];
    for d in edge_nums() {
        if !d.is_empty() {
            v.push((true, d.clone()));
        }
        v.push((false, d));
    }
    v
}

const NONE: Num = (false, vec![]);

/// A number of `n` digits.
fn long(r: &mut Rng, n: usize) -> Num {
    let mut d: Vec<u64> = match r.below(4) {
        0 => vec![u64::MAX; n],
        1 => vec![0; n],
        _ => (0..n).map(|_| r.limb()).collect(),
    };
    if d[n - 1] == 0 {
        d[n - 1] = 1;
    }
    (r.bool(), d)
}

const LENGTHS: [usize; 6] = [17, 33, 64, 129, 257, 300];

fn arith(a: &Args) -> Vec<Ev> {
    let mut r = Rng::new(a.seed);
    let mut v = vec![Ev("zero", NONE, NONE, 0)];
    for n in 0..70u32 {
        for x in [1u64.checked_shl(n).unwrap_or(0), u64::MAX.checked_shr(n).unwrap_or(0), n as u64] {
            v.push(Ev("from+", NONE, NONE, x));
            v.push(Ev("from-", NONE, NONE, x));
        }
    }
    let e = edges();
    for (i, x) in e.iter().enumerate() {
        for op in ["neg", "isz", "bit"] {
            v.push(Ev(op, x.clone(), NONE, 0));
        }
        for (j, y) in e.iter().enumerate() {
            let ops: &[&str] = &["add", "sub", "mul", "cmp", "eq"];
            if a.thorough {
                for op in ops {
                    v.push(Ev(op, x.clone(), y.clone(), 0));
                }
            } else {
                for k in 0..2 {
                    v.push(Ev(ops[(i + j + k * 2 + a.seed as usize) % 5], x.clone(), y.clone(), 0));
                }
            }
        }
    }
    let n = if a.thorough { 60_000 } else { 4_000 };
    for i in 0..n {
        let max = if i % 10 == 0 { 12 } else { 4 };
        let x = num(&mut r, max);
        let y = related(&mut r, &x, max);
        let op = *r.one_of(&["add", "add", "sub", "sub", "mul", "mul", "mul", "cmp", "eq", "neg", "bit", "isz"]);
        v.push(Ev(op, x, y, 0));
    }
    for _ in 0..if a.thorough { 200 } else { 12 } {
        v.push(Ev("mul", num(&mut r, 40), num(&mut r, 60), 0));
        v.push(Ev("mul", num(&mut r, 2), num(&mut r, 80), 0));
    }
    for n in LENGTHS {
        for _ in 0..if a.thorough { 20 } else { 3 } {
            let x = long(&mut r, n);
            let y = match r.below(3) {
                0 => (r.bool(), vec![1]),
                1 => related(&mut r, &x, 4),
                _ => long(&mut r, n),
            };
            for op in ["add", "sub", "cmp", "eq", "neg", "bit"] {
                v.push(Ev(op, x.clone(), y.clone(), 0));
                v.push(Ev(op, y.clone(), x.clone(), 0));
            }
            let y = long(&mut r, 1 + n % 7);
            v.push(Ev("mul", x.clone(), y.clone(), 0));
            v.push(Ev("mul", y, x, 0));
        }
    }
    // powers
    for (x, k) in [(2u64, 300u64), (2, 4096), (2, 20_000), (3, 1000), (10, 300), (u64::MAX, 40), (2, 65_537)] {
        v.push(Ev("pow", (k % 3 == 0, vec![x]), (false, vec![k]), 0));
        v.push(Ev("powu", (k % 2 == 0, vec![x]), NONE, k));
    }
    let huge: Vec<Num> = [vec![0, 1], vec![1, 1], vec![u64::MAX, 1], vec![0, 0, 1], vec![u64::MAX; 3]].into_iter().map(|d| (false, d)).collect();
    let exps: Vec<u64> = (0..20).chain([31, 32, 33, 63, 64, 65]).collect();
    for x in e.iter().take(if a.thorough { e.len() } else { 40 }) {
        for &k in &exps {
            let bits = x.1.len() as u64 * 64 * k;
            if bits <= 2600 || x.1.len() <= 1 && x.1.iter().all(|d| *d <= 2) {
                v.push(Ev("pow", x.clone(), (false, norm(vec![k])), 0));
                v.push(Ev("powu", x.clone(), NONE, k));
            }
        }
        for y in [vec![1], vec![2], vec![u64::MAX], vec![0, 1]] {
            v.push(Ev("pow", x.clone(), (true, y), 0));
        }
        for y in &huge {
            v.push(Ev("pow", x.clone(), y.clone(), 0));
        }
    }
    for x in [vec![], vec![1]] {
        for neg in [false, true] {
            if neg && x.is_empty() {
                continue;
            }
            for y in [vec![u64::MAX], vec![u64::MAX - 1], vec![1 << 63], vec![1 << 32]] {
                v.push(Ev("pow", (neg, x.clone()), (false, y.clone()), 0));
                v.push(Ev("powu", (neg, x.clone()), NONE, y[0]));
            }
        }
    }
    for _ in 0..if a.thorough { 3000 } else { 300 } {
        let x = num(&mut r, 3);
        let k = r.below(2600 / (64 * x.1.len().max(1)) + 1) as u64;
        v.push(Ev(if r.bool() { "powu" } else { "pow" }, x, (false, norm(vec![k])), k));
    }
    v
}

fn div(a: &Args) -> Vec<Ev> {
    let mut r = Rng::new(a.seed ^ 5);
    let mut v = vec![];
    let e = edges();
    for (i, x) in e.iter().enumerate() {
        for (j, y) in e.iter().enumerate() {
            if a.thorough || (i + j + a.seed as usize) % 3 == 0 || y.1.is_empty() {
                v.push(Ev("div", x.clone(), y.clone(), 0));
            }
        }
    }
    for n in &LENGTHS[..if a.thorough { 5 } else { 4 }] {
        for k in [1, 2, 3, n / 2, n - 1, *n] {
            let (x, y) = (long(&mut r, *n), long(&mut r, k));
            v.push(Ev("div", x, y, 0));
        }
    }
    let n = if a.thorough { 80_000 } else { 7_000 };
    for i in 0..n {
        let max = if i % 12 == 0 { 12 } else { 4 };
        let (x, y) = match r.below(3) {
            // quotient, divisor and remainder are chosen
            0 | 1 => {
                let q = num(&mut r, max);
                let mut b = r.limbs(max);
                if b.is_empty() {
                    b = vec![1 + r.below(9) as u64];
                }
                let rem = match r.below(4) {
                    0 => vec![],
                    1 => dec_limbs(&b),
                    2 => vec![1],
                    _ => {
                        let mut t = b.clone();
                        t.pop();
                        norm(t)
                    }
                };
                let rem = if rem.len() < b.len() || rem == dec_limbs(&b) { rem } else { vec![] };
                let x = add_limbs(&mul_limbs(&q.1, &b), &rem);
                ((q.0 && !x.is_empty(), x), (r.bool(), b))
            }
            _ => {
                let x = num(&mut r, max);
                let y = related(&mut r, &x, max);
                (x, y)
            }
        };
        v.push(Ev("div", x, y, 0));
    }
    v
}

fn bits(a: &Args) -> Vec<Ev> {
    let mut r = Rng::new(a.seed ^ 7);
    let mut v = vec![];
    let e = edges();
    for (i, x) in e.iter().enumerate() {
        v.push(Ev("not", x.clone(), NONE, 0));
        for (j, y) in e.iter().enumerate() {
            let ops = ["and", "or", "xor"];
            if a.thorough {
                for op in ops {
                    v.push(Ev(op, x.clone(), y.clone(), 0));
                }
            } else {
                v.push(Ev(ops[(i + j + a.seed as usize) % 3], x.clone(), y.clone(), 0));
            }
        }
        for k in [0u64, 1, 2, 11, 12, 31, 32, 62, 63, 64, 65, 100, 126, 127, 128, 129, 191, 192, 193, 200] {
            let n: Num = (false, norm(vec![k]));
            let m: Num = (k != 0, norm(vec![k]));
            let all = [
                Ev("shl", x.clone(), n.clone(), 0),
                Ev("shr", x.clone(), n.clone(), 0),
                Ev("shl", x.clone(), m.clone(), 0),
                Ev("shr", x.clone(), m.clone(), 0),
                Ev("shlu", x.clone(), NONE, k),
                Ev("shru", x.clone(), NONE, k),
            ];
            for (j, ev) in all.into_iter().enumerate() {
                if a.thorough || (i + j + k as usize) % 3 == 0 {
                    v.push(ev);
                }
            }
        }
        // counts that no memory can hold
        for d in [vec![0u64, 1], vec![1, 1], vec![64, 1], vec![u64::MAX, u64::MAX], vec![0, 0, 0, 1]] {
            for neg in [false, true] {
                v.push(Ev("shl", x.clone(), (neg, d.clone()), 0));
                v.push(Ev("shr", x.clone(), (neg, d.clone()), 0));
            }
        }
        for k in [u64::MAX, u64::MAX - 63, 1 << 63, 1 << 32, 1 << 31, 1 << 38, 1 << 20] {
            v.push(Ev("shru", x.clone(), NONE, k));
            v.push(Ev("shr", x.clone(), (false, vec![k]), 0));
            v.push(Ev("shl", x.clone(), (true, vec![k]), 0));
            if x.1.is_empty() {
                v.push(Ev("shlu", x.clone(), NONE, k));
                v.push(Ev("shl", x.clone(), (false, vec![k]), 0));
                v.push(Ev("shr", x.clone(), (true, vec![k]), 0));
            }
        }
    }
    for n in LENGTHS {
        for _ in 0..if a.thorough { 20 } else { 3 } {
            let x = long(&mut r, n);
            let y = match r.below(3) {
                0 => num(&mut r, 4),
                1 => related(&mut r, &x, 4),
                _ => long(&mut r, n),
            };
            for op in ["and", "or", "xor"] {
                v.push(Ev(op, x.clone(), y.clone(), 0));
                v.push(Ev(op, y.clone(), x.clone(), 0));
            }
            v.push(Ev("not", x, NONE, 0));
        }
    }
    // long shifts
    for k in [300u64, 1023, 4095, 4096, 8191, 16_320, 16_383, 16_384, 16_385, 20_000, 32_768, 65_535, 65_536, 65_600, 100_000] {
        for x in [vec![1u64], vec![5, 1 << 63], vec![u64::MAX; 3]] {
            let x = (r.bool(), x);
            let n = (k / 64) as usize;
            let y = long(&mut r, n.max(2));
            let z = long(&mut r, n + 3);
            let (plus, minus) = ((false, vec![k]), (true, vec![k]));
            match r.below(3) {
                0 => v.push(Ev("shl", x, plus.clone(), 0)),
                1 => v.push(Ev("shr", x, minus.clone(), 0)),
                _ => v.push(Ev("shlu", x, NONE, k)),
            }
            match r.below(3) {
                0 => v.push(Ev("shr", y, plus.clone(), 0)),
                1 => v.push(Ev("shl", y, minus.clone(), 0)),
                _ => v.push(Ev("shru", y, NONE, k)),
            }
            match r.below(3) {
                0 => v.push(Ev("shr", z, plus, 0)),
                1 => v.push(Ev("shl", z, minus, 0)),
                _ => v.push(Ev("shru", z, NONE, k)),
            }
        }
    }
    let n = if a.thorough { 80_000 } else { 5_000 };
    for i in 0..n {
        let max = if i % 12 == 0 { 12 } else { 4 };
        let x = num(&mut r, max);
        match r.below(8) {
            0 | 1 | 2 => {
                let y = related(&mut r, &x, max);
                v.push(Ev(*r.one_of(&["and", "or", "xor"]), x, y, 0));
            }
            3 => v.push(Ev("not", x, NONE, 0)),
            _ => {
                // near the ends of the digits, or anywhere
                let top = 64 * (x.1.len() as i64 + 1);
                let k = match r.below(3) {
                    0 => r.range(0, top),
                    1 => 64 * r.range(0, x.1.len() as i64 + 1),
                    _ => (64 * r.range(0, x.1.len() as i64 + 1) + r.range(-2, 2)).max(0),
                } as u64;
                // a power of two below or above the shifted part
                let x = if r.below(3) == 0 && !x.1.is_empty() {
                    let mut d = vec![0u64; x.1.len()];
                    let b = (k as i64 + r.range(-1, 1)).clamp(0, 64 * d.len() as i64 - 1) as usize;
                    d[b / 64] |= 1 << (b % 64);
                    let i = d.len() - 1;
                    d[i] |= x.1[i];
                    (x.0, norm(d))
                } else {
                    x
                };
                match r.below(4) {
                    0 => v.push(Ev("shlu", x, NONE, k)),
                    1 => v.push(Ev("shru", x, NONE, k)),
                    2 => v.push(Ev("shl", x, (r.bool() && k != 0, norm(vec![k])), 0)),
                    _ => v.push(Ev("shr", x, (r.bool() && k != 0, norm(vec![k])), 0)),
                }
            }
        }
    }
    v
}

fn main() {
    let a = args();
    if a.mode == "memory" {
        let mut c = arith(&a);
        c.extend(div(&a));
        c.extend(bits(&a));
        let c = for_memory(&a, c, 2500);
        return drive(
            &a,
            c,
            |c| format!(r#""op":"{}","a":{},"b":{},"k":{}"#, c.1 .0, input(&c.1 .1), input(&c.1 .2), dig(&[c.1 .3])),
            exec_memory,
        );
    }
    let cases = match a.mode.as_str() {
        "arith" => arith(&a),
        "div" => div(&a),
        "bits" => bits(&a),
        _ => panic!(),
    };
    drive(
        &a,
        cases,
        |c| format!(r#""op":"{}","a":{},"b":{},"k":{}"#, c.0, input(&c.1), input(&c.2), dig(&[c.3])),
        exec,
    );
}
