//! Records what dynamic values give back (C11).
use conform::*;
use nanvm_lib::{
    js::{
        any::Any,
        js_array::{new_array, JsArray, JsArrayRef},
        js_bigint::{new_bigint, JsBigint, JsBigintRef, Sign},
        js_object::{new_object, JsObject, JsObjectRef},
        js_string::{new_string, JsString, JsStringRef},
        new::New,
        null::Null,
        visitor::{to_visitor, Visitor},
    },
    mem::manager::{Dealloc, Manager},
};
use std::{
    alloc::Layout,
    cell::Cell,
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    sync::LazyLock,
};

// --- a manager that puts objects where it is told ---

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

const PAGE: usize = 1 << 16;

/// Pages all over the address space.
fn pages() -> Vec<usize> {
    let mut want: Vec<usize> = vec![];
    for b in 16..47 {
        want.push(1 << b);
        want.push((1usize << b).wrapping_sub(PAGE));
        want.push((1usize << 47) - (1 << b));
    }
    want.extend([
        0x5555_5555_0000, 0x2AAA_AAAA_0000, 0x7FF8_0000_0000, 0x7FF0_0000_0000, 0x7FFC_0000_0000, 0x1234_5678_0000, 0x7654_3210_0000, 0x3FFF_FFFF_0000, 0x4000_0001_0000,
    ]);
    let mut got = vec![];
    for w in want {
        if w == 0 {
            continue;
        }
        // PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE
        let p = unsafe { mmap(w as *mut u8, PAGE, 3, 0x2 | 0x20 | 0x100000, -1, 0) };
        if p as usize == w {
            got.push(w);
        }
    }
    got
}

/// The whole process has them: the same page cannot be mapped twice.
static PAGES: LazyLock<Vec<usize>> = LazyLock::new(pages);

thread_local! {
    static NEXT: Cell<usize> = const { Cell::new(0) };
    static FREED: Cell<usize> = const { Cell::new(0) };
    static MADE: Cell<usize> = const { Cell::new(0) };
}

#[derive(Debug, Clone, Copy)]
struct At();

impl Dealloc for At {
    type BlockHeader = Cell<isize>;
    unsafe fn dealloc(_: *mut u8, _: Layout) {
        FREED.with(|f| f.set(f.get() + 1));
    }
}

impl Manager for At {
    type Dealloc = At;
    unsafe fn alloc(self, l: Layout) -> *mut u8 {
        MADE.with(|f| f.set(f.get() + 1));
        NEXT.with(|n| {
            let p = (n.get() + l.align() - 1) & !(l.align() - 1);
            n.set(p + l.size());
            p as *mut u8
        })
    }
}

type A = Any<At>;

// --- cases ---

#[derive(Clone, Debug)]
enum V {
    Bits(u64),
    Bool(bool),
    Null,
    /// kind (0 string, 1 object, 2 array, 3 bigint), page, offset / 8, length
    Obj(usize, usize, usize, usize),
    /// A copy of an earlier value.
    Copy(usize),
}

fn words(b: u64) -> String {
    arr([b >> 48, (b >> 32) & 0xFFFF, (b >> 16) & 0xFFFF, b & 0xFFFF])
}

const KINDS: [&str; 4] = ["str", "obj", "arr", "big"];

fn input(c: &[V]) -> String {
    let v: Vec<String> = c
        .iter()
        .map(|v| match v {
            V::Bits(b) => format!(r#"{{"k":"num","b":{}}}"#, words(*b)),
            V::Bool(b) => format!(r#"{{"k":"bool","b":{b}}}"#),
            V::Null => r#"{"k":"null"}"#.to_string(),
            V::Obj(k, _, off, n) => {
                format!(r#"{{"k":"{}","n":{n},"neg":{}}}"#, KINDS[*k], *k == 3 && *n > 0 && off % 2 == 1)
            }
            V::Copy(i) => format!(r#"{{"k":"copy","of":{}}}"#, i + 1),
        })
        .collect();
    format!(r#""vals":[{}]"#, v.join(","))
}

/// The contents of an object are made from its length.
fn unit(i: usize) -> u16 {
    (65 + 7 * i) as u16
}

fn make(vals: &[A], v: &V) -> A {
    match v {
        V::Bits(b) => Any::move_from(f64::from_bits(*b)),
        V::Bool(b) => Any::move_from(*b),
        V::Null => Any::move_from(Null()),
        V::Copy(i) => vals[*i].clone(),
        V::Obj(k, page, off, n) => {
            let page = PAGES[page % PAGES.len()];
            // keys first, the object is at the place
            NEXT.with(|x| x.set(page + PAGE / 2));
            let keys: Vec<JsStringRef<At>> = (0..if *k == 1 { *n } else { 0 }).map(|i| new_string(At(), [unit(i)]).to_ref()).collect();
            NEXT.with(|x| x.set(page + 8 * off));
            match k {
                0 => match off % 2 {
                    0 => Any::move_from(new_string(At(), (0..*n).map(unit)).to_ref()),
                    _ => At().new_js_string((0..*n).map(unit)),
                },
                1 => {
                    let items: Vec<(JsStringRef<At>, A)> =
                        keys.into_iter().enumerate().map(|(i, k)| (k, Any::move_from(i as f64))).collect();
                    match off % 2 {
                        0 => Any::move_from(new_object(At(), items).to_ref()),
                        _ => At().new_js_object(items),
                    }
                }
                2 => {
                    let items: Vec<A> = (0..*n).map(|i| Any::move_from(i as f64)).collect();
                    match off % 2 {
                        0 => Any::move_from(new_array(At(), items).to_ref()),
                        _ => At().new_js_array(items),
                    }
                }
                _ => Any::move_from(
                    new_bigint(
                        At(),
                        if off % 2 == 0 { Sign::Positive } else { Sign::Negative },
                        (0..*n).map(|i| i as u64 + 1).collect::<Vec<_>>(),
                    )
                    .to_ref(),
                ),
            }
        }
    }
}

fn num(f: f64) -> String {
    format!(r#"{{"k":"num","b":{}}}"#, words(f.to_bits()))
}
fn boolean(b: bool) -> String {
    format!(r#"{{"k":"bool","b":{b}}}"#)
}
fn string(s: &JsString) -> String {
    format!(r#"{{"k":"str","xs":{}}}"#, arr(s.items().iter().map(|&u| (u as usize - 65) / 7)))
}
fn array(s: &JsArray<At>) -> String {
    format!(
        r#"{{"k":"arr","xs":{}}}"#,
        arr(s.items().iter().map(|v| v.clone().try_move::<f64>().unwrap_or(-1.0)))
    )
}
fn object(s: &JsObject<At>) -> String {
    let x = |(k, v): &(JsStringRef<At>, A)| {
        let f = v.clone().try_move::<f64>().unwrap_or(-1.0);
        match k.items() {
            [u] if *u == unit(f as usize) => f,
            _ => -2.0,
        }
    };
    format!(r#"{{"k":"obj","xs":{}}}"#, arr(s.items().iter().map(x)))
}
fn bigint(s: &JsBigint) -> String {
    format!(r#"{{"k":"big","xs":{},"neg":{}}}"#, arr(s.items().iter().map(|&u| u - 1)), s.sign() == Sign::Negative)
}

const NO: &str = r#"{"k":"no"}"#;

/// What the value is, as every type, in the order number, boolean, string, null, object, array, bigint.
fn moves(a: &A) -> Vec<String> {
    let or = |r: Result<String, ()>| r.unwrap_or(NO.to_string());
    vec![
        or(a.clone().try_move::<f64>().map(num)),
        or(a.clone().try_move::<bool>().map(boolean)),
        or(a.clone().try_move::<JsStringRef<At>>().map(|s| string(&s))),
        or(a.clone().try_move::<Null>().map(|_| r#"{"k":"null"}"#.to_string())),
        or(a.clone().try_move::<JsObjectRef<At>>().map(|s| object(&s))),
        or(a.clone().try_move::<JsArrayRef<At>>().map(|s| array(&s))),
        or(a.clone().try_move::<JsBigintRef<At>>().map(|s| bigint(&s))),
    ]
}

fn refs(a: &A) -> Vec<String> {
    let or = |r: Result<String, ()>| r.unwrap_or(NO.to_string());
    vec![
        or(a.try_ref::<JsString>().map(|b| string(b.object()))),
        or(a.try_ref::<JsObject<At>>().map(|b| object(b.object()))),
        or(a.try_ref::<JsArray<At>>().map(|b| array(b.object()))),
        or(a.try_ref::<JsBigint>().map(|b| bigint(b.object()))),
    ]
}

fn is(a: &A) -> [bool; 7] {
    [
        a.is::<f64>(),
        a.is::<bool>(),
        a.is::<JsStringRef<At>>(),
        a.is::<Null>(),
        a.is::<JsObjectRef<At>>(),
        a.is::<JsArrayRef<At>>(),
        a.is::<JsBigintRef<At>>(),
    ]
}

fn visit(a: A) -> String {
    match to_visitor(a) {
        Visitor::Number(f) => num(f),
        Visitor::Bool(b) => boolean(b),
        Visitor::Null => r#"{"k":"null"}"#.to_string(),
        Visitor::String(s) => string(&s),
        Visitor::Object(s) => object(&s),
        Visitor::Array(s) => array(&s),
        Visitor::Bigint(s) => bigint(&s),
    }
}

/// The keys and values that an iteration shows which an error stops at item `stop` (0: no error).
fn each(a: &A, stop: usize) -> String {
    let mut seen = vec![];
    let mut calls = 0;
    let r = a.for_each(|k, v| {
        calls += 1;
        let key = match k.clone().try_move::<JsStringRef<At>>() {
            Ok(s) => (s.items()[0] as i64 - 65) / 7 + 1000 * (s.items().len() as i64 - 1),
            Err(()) => k.try_move::<f64>().map_or(-1, |f| f as i64 + 500),
        };
        seen.push(key);
        seen.push(v.clone().try_move::<f64>().map_or(-1, |f| f as i64));
        match calls == stop {
            true => Err(stop),
            false => Ok(()),
        }
    });
    format!(r#"{{"stop":{stop},"ok":{},"seen":{}}}"#, r == Ok(()), arr(seen))
}

fn hash(a: &A) -> u64 {
    let mut h = DefaultHasher::new();
    a.hash(&mut h);
    h.finish()
}

fn exec(c: &Vec<V>) -> String {
    FREED.with(|f| f.set(0));
    MADE.with(|f| f.set(0));
    let mut vals: Vec<A> = vec![];
    for v in c {
        let a = make(&vals, v);
        vals.push(a);
    }
    let looked: Vec<String> = vals
        .iter()
        .map(|a| {
            let stops: &[usize] = match c.len() {
                1 => &[0, 1, 2, 3, 257],
                _ => &[0],
            };
            let e: Vec<String> = stops.iter().map(|&s| each(a, s)).collect();
            format!(
                r#"{{"t":"{:?}","ref":{},"is":{},"moves":[{}],"refs":[{}],"vis":{},"each":[{}],"again":[{}]}}"#,
                a.get_type(),
                a.is_ref(),
                arr(is(a)),
                moves(a).join(","),
                refs(a).join(","),
                visit(a.clone()),
                e.join(","),
                moves(a).join(",")
            )
        })
        .collect();
    let eq: Vec<String> = vals
        .iter()
        .map(|a| arr(vals.iter().map(|b| if a == b { if hash(a) == hash(b) { 1 } else { 2 } } else { 0 })))
        .collect();
    let early = FREED.with(|f| f.get());
    drop(vals);
    let left = MADE.with(|f| f.get()) - FREED.with(|f| f.get());
    format!(
        r#""r":[{}],"eq":[{}],"early":{early},"left":{left}"#,
        looked.join(","),
        eq.join(",")
    )
}

fn double(r: &mut Rng) -> u64 {
    let top = match r.below(6) {
        0 => 0x7FF0,
        1 => 0xFFF0,
        2 => 0xFFF0 + r.below(16) as u64,
        3 => 0x7FF0 + r.below(16) as u64,
        _ => r.next() & 0xFFFF,
    };
    let low = match r.below(5) {
        0 => 0,
        1 => 1,
        2 => 0xFFFF_FFFF_FFFF,
        3 => 1 << r.below(48),
        _ => r.next() & 0xFFFF_FFFF_FFFF,
    };
    top << 48 | low
}

fn cases(a: &Args) -> Vec<Vec<V>> {
    let mut r = Rng::new(a.seed ^ 30);
    let mut v = vec![vec![V::Bool(true)], vec![V::Bool(false)], vec![V::Null]];
    // every top word with edge low words
    let lows = [0u64, 1, 0xFFFF_FFFF_FFFF, 0x8000_0000_0000, 0x0000_0001_0000];
    for top in 0..0x1_0000u64 {
        let special = (top & 0x7FF0) == 0x7FF0 || (top & 0x7FF0) == 0 || top & 0xF == 0 && top & 0x70 == 0;
        if special || a.thorough || top % 16 == a.seed % 16 {
            for l in lows {
                if special || l == r.next() % 2 {
                    v.push(vec![V::Bits(top << 48 | l)]);
                }
            }
        }
    }
    let n = if a.thorough { 400_000 } else { 3_000 };
    for _ in 0..n {
        v.push(vec![V::Bits(double(&mut r))]);
    }
    // objects everywhere
    let places = 120;
    for page in 0..places {
        for k in 0..4 {
            for n in [0usize, 1, 2, 5] {
                v.push(vec![V::Obj(k, page, r.below(1000), n)]);
            }
        }
    }
    // large ones
    for k in 0..4 {
        for n in [16usize, 127, 128, 255, 256, 257, 300] {
            v.push(vec![V::Obj(k, r.below(places), r.below(1000), n)]);
        }
    }
    // every pair of special values, and every number next to itself with one bit changed
    let mut special = vec![V::Bool(true), V::Bool(false), V::Null];
    for f in [0.0, 1.0, 2.0, 0.5, 5e-324, f64::MIN_POSITIVE, f64::MAX, f64::INFINITY, f64::NAN, 4503599627370496.0, 0.1 + 0.2, 0.3] {
        for b in [f.to_bits(), (-f).to_bits()] {
            special.push(V::Bits(b));
            v.extend((0..64).map(|i| vec![V::Bits(b), V::Bits(b ^ 1 << i)]));
        }
    }
    for top in (0x7FF0..0x8000u64).chain(0xFFF0..0x1_0000) {
        special.push(V::Bits(top << 48));
        special.push(V::Bits(top << 48 | 1));
    }
    for (i, x) in special.iter().enumerate() {
        for y in &special[..i] {
            v.push(vec![x.clone(), y.clone()]);
        }
    }
    // objects with the same content are different objects
    for k in 0..4 {
        for n in [0usize, 1, 2, 5, 16, 300] {
            for d in [1, 2, 7, 60].into_iter().filter(|d| d % PAGES.len() != 0) {
                let (p, off) = (r.below(places), r.below(500) * 2);
                v.push(vec![V::Obj(k, p, off, n), V::Obj(k, p + d, off, n), V::Copy(0), V::Copy(1)]);
            }
        }
    }
    // several values together
    for _ in 0..if a.thorough { 40_000 } else { 2_500 } {
        let n = 2 + r.below(5);
        let mut c: Vec<V> = vec![];
        for i in 0..n {
            c.push(match r.below(8) {
                0 => V::Bool(r.bool()),
                1 => V::Null,
                2 | 3 => V::Bits(double(&mut r)),
                4 if i > 0 => match &c[r.below(i)] {
                    // the same number again, perhaps
                    V::Bits(b) => V::Bits(if r.bool() { *b } else { *b ^ 1 << r.below(64) }),
                    o => o.clone(),
                },
                5 if i > 0 => V::Copy(r.below(i)),
                // one place for each
                _ => V::Obj(r.below(4), r.below(places / 8) * 8 + i, r.below(1000), r.below(4)),
            });
        }
        // an object is where nothing else is
        let mut used = vec![];
        for x in c.iter_mut() {
            if let V::Obj(_, p, _, _) = x {
                while used.contains(&(*p % PAGES.len())) {
                    *p += 1;
                }
                used.push(*p % PAGES.len());
            }
        }
        v.push(c);
    }
    v
}

fn main() {
    let a = args();
    let c = cases(&a);
    eprintln!("{} pages", PAGES.len());
    drive(&a, c, |c| input(c), exec);
}
