//! Records operations on huge integers with few changes of bits (C12, C13, C14, C15). An integer is written as in
//! `Sparse.tla`: the positions at which its bit, in infinite two's complement, differs from the bit below.
use conform::*;
use nanvm_lib::{
    big_numbers::{
        big_int::{self as bi, BigInt},
        big_uint::BigUint,
    },
    js::js_bigint::{self as jb, new_bigint, JsBigint, JsBigintMutRef, Sign},
    mem::global::{Global, GLOBAL},
};
use std::{cmp::Ordering, ops::Deref};

type Form = Vec<usize>;

/// operation, operands, machine integer
struct Ev(&'static str, Form, Form, u64);

fn not(mut t: Form) -> Form {
    if t.first() == Some(&0) {
        t.remove(0);
    } else {
        t.insert(0, 0);
    }
    t
}
fn negative(t: &Form) -> bool {
    t.len() % 2 == 1
}
fn make(t: &Form) -> Num {
    if negative(t) {
        return (true, add_limbs(&make(&not(t.clone())).1, &[1]));
    }
    let mut d = vec![0u64; t.last().map_or(0, |p| p.div_ceil(64))];
    for run in t.chunks(2) {
        let (mut p, end) = (run[0], run[1]);
        while p < end {
            let n = (64 - p % 64).min(end - p);
            d[p / 64] |= (u64::MAX >> (64 - n)) << (p % 64);
            p += n;
        }
    }
    (false, d)
}
/// The form, cut when it is too long.
fn form(neg: bool, d: &[u64]) -> Form {
    if neg && d.iter().any(|x| *x != 0) {
        return not(form(false, &dec_limbs(d)));
    }
    let mut t = vec![];
    let mut bit = 0;
    for (i, x) in d.iter().chain([&0]).enumerate() {
        let mut change = x ^ (x << 1 | bit);
        bit = x >> 63;
        while change != 0 {
            t.push(64 * i + change.trailing_zeros() as usize);
            change &= change - 1;
        }
        if t.len() > 1000 {
            break;
        }
    }
    t
}
fn show(t: &[usize]) -> String {
    let v: Vec<String> = t.iter().map(|p| p.to_string()).collect();
    format!("[{}]", v.join(","))
}
fn res(neg: bool, d: &[u64]) -> String {
    format!(r#"{{"t":{},"n":{},"s":{}}}"#, show(&form(neg, d)), d.len(), neg as u8)
}

fn js(b: &JsBigint) -> String {
    res(b.sign() == Sign::Negative, b.items())
}
fn js_big(n: &Num) -> JsBigintMutRef<Global> {
    new_bigint(GLOBAL, if n.0 { Sign::Negative } else { Sign::Positive }, n.1.clone())
}
fn ju(b: &BigUint) -> String {
    res(false, &b.value)
}
fn ji(b: &BigInt) -> String {
    res(b.sign == bi::Sign::Negative, &b.value.value)
}
fn big_uint(n: &Num) -> BigUint {
    BigUint { value: n.1.clone() }
}
fn big_int(n: &Num) -> BigInt {
    BigInt::new(if n.0 { bi::Sign::Negative } else { bi::Sign::Positive }, big_uint(n))
}
fn order(o: Ordering) -> i32 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}
/// Every way to compare, as numbers.
fn orders<T: Ord + Clone>(a: &T, b: &T) -> String {
    let t = [a < b, a <= b, a > b, a >= b, a != b, a.clone().max(b.clone()) == *a, a.clone().min(b.clone()) == *a];
    format!(
        r#"{{"c":[{},{}],"t":[{}]}}"#,
        order(a.cmp(b)),
        a.partial_cmp(b).map_or(7, order),
        t.map(|x| bool_json(x).to_string()).join(",")
    )
}

fn exec(e: &Ev) -> String {
    let (x, y) = (make(&e.1), make(&e.2));
    if e.0.starts_with('u') {
        return uint(e, &x, &y);
    }
    if e.0.starts_with('i') {
        return int(e, &x, &y);
    }
    let (a, b) = (js_big(&x), js_big(&y));
    let (p, q): (&JsBigint, &JsBigint) = (a.deref(), b.deref());
    let r = match e.0 {
        "same" => js(p),
        "add" => js(&jb::add(GLOBAL, p, q)),
        "sub" => js(&jb::sub(GLOBAL, p, q)),
        "mul" => js(&jb::mul(GLOBAL, p, q)),
        "neg" => js(&jb::negative(GLOBAL, p)),
        "not" => js(&jb::not(GLOBAL, p)),
        "and" => js(&jb::and(GLOBAL, p, q)),
        "or" => js(&jb::or(GLOBAL, p, q)),
        "xor" => js(&jb::xor(GLOBAL, p, q)),
        "shl" | "shr" => {
            // the direction is a sign
            let k = js_big(&(e.3 >> 63 == 1, norm(vec![e.3 & !(1 << 63)])));
            if e.0 == "shl" {
                js(&jb::shl(GLOBAL, p, k.deref()))
            } else {
                js(&jb::shr(GLOBAL, p, k.deref()))
            }
        }
        "shlu" => js(&jb::shl_on_u64(GLOBAL, p, e.3)),
        "shru" => js(&jb::shr_on_u64(GLOBAL, p, e.3)),
        "pow" => js(&jb::pow(GLOBAL, p, js_big(&(false, norm(vec![e.3]))).deref())),
        "powu" => js(&jb::pow_u64(GLOBAL, p, e.3)),
        "cmp" => order(p.compare(q)).to_string(),
        "eq" => bool_json(jb::equals(p, q)).to_string(),
        "bit" => p.get_last_bit().to_string(),
        "div" => {
            let (q, r) = jb::div_mod(GLOBAL, p, q);
            format!("[{},{}]", js(&q), js(&r))
        }
        _ => unreachable!(),
    };
    let is = |v: &JsBigint, n: &Num| (v.sign() == Sign::Negative) == n.0 && v.items() == n.1;
    let same = is(a.deref(), &x) && is(b.deref(), &y);
    format!(r#""r":{r},"same":{}"#, bool_json(same))
}

fn uint(e: &Ev, x: &Num, y: &Num) -> String {
    let (a, b) = (big_uint(x), big_uint(y));
    let count = || BigUint { value: norm(vec![e.3]) };
    let r = match e.0 {
        "usame" => ju(&a),
        "uadd" => ju(&(&a + &b)),
        "usub" => ju(&(&a - &b)),
        "umul" => ju(&(&a * &b)),
        "udiv" => ju(&(&a / &b)),
        "udivmod" => {
            let (q, r) = a.div_mod(&b);
            format!("[{},{}]", ju(&q), ju(&r))
        }
        "ushl" => ju(&(&a << &count())),
        "ushr" => ju(&(&a >> &count())),
        "upow" => ju(&a.pow(&count())),
        "upowu" => ju(&a.pow_u64(e.3)),
        "ucmp" => orders(&a, &b),
        "ueq" => bool_json(a == b).to_string(),
        "ubit" => a.get_last_bit().to_string(),
        _ => unreachable!(),
    };
    format!(r#""r":{r},"same":{}"#, bool_json(a.value == x.1 && b.value == y.1))
}

fn int(e: &Ev, x: &Num, y: &Num) -> String {
    let (a, b) = (big_int(x), big_int(y));
    let r = match e.0 {
        "iadd" => ji(&(&a + &b)),
        "isub" => ji(&(a.clone() - b.clone())),
        "imul" => ji(&(&a * &b)),
        "idiv" => ji(&(&a / &b)),
        "idivmod" => {
            let (q, r) = a.div_mod(&b);
            format!("[{},{}]", ji(&q), ji(&r))
        }
        "ineg" => ji(&-a.clone()),
        "iabs" => ji(&a.clone().abs()),
        "icmp" => orders(&a, &b),
        "ieq" => bool_json(a == b).to_string(),
        _ => unreachable!(),
    };
    let is = |v: &BigInt, n: &Num| (v.sign == bi::Sign::Negative) == n.0 && v.value.value == n.1;
    format!(r#""r":{r},"same":{}"#, bool_json(is(&a, x) && is(&b, y)))
}

// --- operands

fn toggle(t: &mut Form, p: usize) {
    match t.binary_search(&p) {
        Ok(i) => {
            t.remove(i);
        }
        Err(i) => t.insert(i, p),
    }
}
/// A place in an integer of `n` digits.
fn place(r: &mut Rng, n: usize) -> usize {
    match r.below(6) {
        0 => r.below(3),
        1 => r.below(64 * n),
        2 => 64 * n - 1 - r.below(3),
        3 => (64 << r.below(n.ilog2() as usize + 1)) - 1 - r.below(2),
        _ => (64 * r.below(n + 1) + r.below(3)).saturating_sub(1),
    }
}
/// An integer of about `n` digits. The magnitude has `n` digits, or a digit more when it is negative.
fn sized(r: &mut Rng, n: usize, sign: Option<bool>) -> Form {
    let top = 64 * n - *r.one_of(&[0, 0, 1, 62, 63, 32]);
    loop {
        let mut t = vec![];
        for _ in 0..r.below(6) {
            toggle(&mut t, place(r, n));
        }
        t.retain(|p| *p < top);
        t.push(top);
        if sign.is_none_or(|s| negative(&t) == s) {
            return t;
        }
    }
}
fn related(r: &mut Rng, a: &Form, n: usize, sign: Option<bool>) -> Form {
    for _ in 0..20 {
        let mut t = a.clone();
        match r.below(7) {
            0 => {}
            1 => {
                // another bit
                let p = place(r, n);
                toggle(&mut t, p);
                toggle(&mut t, p + 1);
            }
            2 => {
                let p = place(r, n);
                toggle(&mut t, p)
            }
            3 => t = not(t),
            4 => {
                let (neg, d) = make(&t);
                t = form(!neg, &d);
            }
            5 => {
                let m = 1 + r.below(4);
                t = sized(r, m, sign)
            }
            _ => {
                let m = (n / 2).max(1) + r.below(n);
                t = sized(r, m, sign)
            }
        }
        if sign.is_none_or(|s| negative(&t) == s) {
            return t;
        }
    }
    sized(r, n, sign)
}

/// Around powers of two.
fn sizes(a: &Args) -> Vec<usize> {
    let mut v = vec![];
    for j in 4..=if a.thorough { 18 } else { 16 } {
        v.extend([(1 << j) - 1, 1 << j, (1 << j) + 1]);
    }
    v.extend([100, 1000, 10_000]);
    v
}

/// Sums, comparisons and other operations with one step for each digit.
fn linear(a: &Args, r: &mut Rng, two: &[&'static str], one: &[&'static str], sign: Option<bool>) -> Vec<Ev> {
    let mut v = vec![];
    for n in sizes(a) {
        for _ in 0..if a.thorough { 20 } else { 4 } {
            for op in two {
                let x = sized(r, n, sign);
                let y = related(r, &x, n, sign);
                let (x, y) = if r.bool() { (x, y) } else { (y, x) };
                v.push(Ev(op, x, y, 0));
            }
        }
        for op in one {
            v.push(Ev(op, sized(r, n, sign), vec![], 0));
        }
        // a carry or a borrow through all digits
        let top = 64 * n;
        for op in two {
            let ones = vec![0, top];
            let power = vec![top, top + 1];
            let few = vec![0, 1];
            for (x, y) in [(&ones, &few), (&few, &ones), (&power, &few), (&power, &ones), (&ones, &ones)] {
                if r.below(2) == 0 || a.thorough {
                    v.push(Ev(op, x.clone(), y.clone(), 0));
                    if sign.is_none() {
                        v.push(Ev(op, x.clone(), not(y.clone()), 0));
                    }
                }
            }
        }
    }
    v
}

fn products(a: &Args, r: &mut Rng, op: &'static str, sign: Option<bool>) -> Vec<Ev> {
    let mut v = vec![];
    let mut pairs = vec![];
    for j in 3..=if a.thorough { 12 } else { 10 } {
        for d in [-1, 0, 1] {
            let n = ((1 << j) + d) as usize;
            pairs.push((n, n));
            pairs.push((n, n - r.below(n / 2)));
            pairs.push((n, 1 + r.below(n)));
            pairs.push((n, 2 * n + 1));
        }
    }
    for n in [40, 48, 50, 96, 100, 192, 300, 384, 500, 768, 1000] {
        pairs.push((n, n));
        pairs.push((n, n + 1));
    }
    for (n, m) in [(1, 65_536), (2, 65_537), (7, 20_000), (33, 10_000), (100, 5000)] {
        pairs.push((n, m));
    }
    for (n, m) in pairs {
        for _ in 0..if a.thorough { 20 } else { 3 } {
            let x = sized(r, n, sign);
            let y = match r.below(4) {
                0 if n == m => x.clone(),
                1 if n == m => related(r, &x, n, sign),
                _ => sized(r, m, sign),
            };
            let (x, y) = if r.bool() { (x, y) } else { (y, x) };
            v.push(Ev(op, x, y, 0));
        }
    }
    v
}

fn powers(a: &Args, r: &mut Rng, op: &'static str, opu: &'static str, sign: Option<bool>) -> Vec<Ev> {
    let mut v = vec![];
    for k in [2u64, 3, 4, 5, 7, 8, 15, 16, 31, 33, 64, 100, 127, 255, 256, 1000, 4095, 4097] {
        for _ in 0..if a.thorough { 30 } else { 4 } {
            // powers of powers of two
            let p = 1 + r.below(60_000 / k as usize);
            let t = if sign.is_none() && r.bool() { vec![p] } else { vec![p, p + 1] };
            v.push(Ev(if r.bool() { op } else { opu }, t, vec![], k));
            if k <= 8 {
                let p = 1 + r.below(12_800 / k as usize);
                let mut t = vec![0, p];
                if r.bool() {
                    t = vec![0, 1, p + 1, p + 2];
                }
                if sign.is_none() && r.bool() {
                    t = not(t);
                }
                v.push(Ev(if r.bool() { op } else { opu }, t, vec![], k));
            }
        }
    }
    v
}

/// Quotient, divisor and remainder are chosen.
fn quotients(a: &Args, r: &mut Rng, ops: &[&'static str], signs: (bool, bool), limit: usize) -> Vec<Ev> {
    let mut v = vec![];
    let mut pairs = vec![];
    for j in 3..=if a.thorough { 9 } else { 8 } {
        for d in [-1, 0, 1] {
            let n = ((1 << j) + d) as usize;
            for k in [1, 2, 3, n / 4, n / 2, n / 2 + 1, n - 3, n - 1, n] {
                pairs.push((n, k.max(1)));
            }
        }
    }
    for n in [600, 1023, 1025, 2000, 4096] {
        pairs.extend([(n, n), (n, n - 1), (n, n - 2)]);
    }
    pairs.retain(|(n, k)| n * k * (n - k + 1) <= limit);
    for (n, k) in pairs {
        for op in ops.iter().cycle().take(ops.len() * if a.thorough { 8 } else { 2 }) {
            let (_, y) = make(&sized(r, k, Some(false)));
            let (_, q) = make(&if n == k { vec![0, 1 + r.below(20)] } else { sized(r, n - k, Some(false)) });
            let rem = match r.below(4) {
                0 => vec![],
                1 => dec_limbs(&y),
                2 if k > 1 => {
                    let m = 1 + r.below(k - 1);
                    make(&sized(r, m, Some(false))).1
                }
                _ => vec![1],
            };
            let rem = if rem.len() < y.len() || rem == dec_limbs(&y) { rem } else { vec![] };
            let x = add_limbs(&mul_limbs(&q, &y), &norm(rem));
            v.push(Ev(op, form(signs.0 && r.bool(), &x), form(signs.1 && r.bool(), &y), 0));
        }
    }
    v
}

fn shifts(a: &Args, r: &mut Rng, left: &[&'static str], right: &[&'static str], sign: Option<bool>) -> Vec<Ev> {
    let mut v = vec![];
    for n in sizes(a) {
        for _ in 0..if a.thorough { 20 } else { 4 } {
            for op in left {
                let m = *r.one_of(&[1, 2, 16, 64, n.min(1000)]);
                let k = place(r, n) as u64;
                v.push(Ev(op, sized(r, m, sign), vec![], k));
            }
            for op in right {
                let x = sized(r, n, sign);
                // at a change, near it, or anywhere
                let k = match r.below(4) {
                    0 => *r.one_of(&x),
                    1 => r.one_of(&x).saturating_sub(1),
                    2 => r.one_of(&x) + 1,
                    _ => place(r, n),
                } as u64;
                v.push(Ev(op, x, vec![], k));
            }
        }
    }
    v
}

fn main() {
    let a = args();
    let mut r = Rng::new(a.seed ^ 77);
    let r = &mut r;
    let mut v = vec![];
    let limit = if a.thorough { 40_000_000 } else { 4_000_000 };
    match a.mode.as_str() {
        "C12" => {
            v.extend(linear(&a, r, &["add", "sub", "cmp", "eq"], &["neg", "bit", "same"], None));
            v.extend(products(&a, r, "mul", None));
            v.extend(powers(&a, r, "pow", "powu", None));
        }
        "C13" => v.extend(quotients(&a, r, &["div", "div"], (true, false), limit)),
        "C14" => {
            v.extend(linear(&a, r, &["and", "or", "xor"], &["not"], None));
            v.extend(shifts(&a, r, &["shl", "shlu"], &["shr", "shru"], None));
            // the other direction
            for e in shifts(&a, r, &["shr"], &["shl"], None) {
                if e.3 != 0 {
                    v.push(Ev(e.0, e.1, e.2, e.3 | 1 << 63));
                }
            }
        }
        "C15" => {
            let u = Some(false);
            v.extend(linear(&a, r, &["uadd", "usub", "ucmp", "ueq"], &["ubit", "usame"], u));
            v.extend(linear(&a, r, &["iadd", "isub", "icmp", "ieq"], &["ineg", "iabs"], None));
            v.extend(products(&a, r, "umul", u));
            v.extend(products(&a, r, "imul", None));
            v.extend(powers(&a, r, "upow", "upowu", u));
            v.extend(shifts(&a, r, &["ushl"], &["ushr"], u));
            v.extend(quotients(&a, r, &["udivmod", "udiv"], (false, false), limit));
            v.extend(quotients(&a, r, &["idivmod", "idiv"], (true, true), limit));
        }
        _ => panic!(),
    }
    drive(
        &a,
        v,
        |e| {
            let k = (e.3 & !(1 << 63)) as i64 * if e.3 >> 63 == 1 { -1 } else { 1 };
            format!(r#""op":"{}","a":{},"b":{},"k":{k}"#, e.0, show(&e.1), show(&e.2))
        },
        exec,
    );
}
