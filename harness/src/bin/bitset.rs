//! Records operations of bit subsets (C18).
use conform::*;
use nanvm_lib::common::bit_subset64::BitSubset64;

/// operation, tag and mask of two subsets, value
struct Ev(&'static str, (u64, u64), (u64, u64), u64);

fn bits(x: u64) -> String {
    arr((0..64).map(|i| x >> i & 1))
}
fn set(s: BitSubset64) -> String {
    format!(r#"{{"tag":{},"mask":{}}}"#, bits(s.tag), bits(s.mask))
}

fn exec(e: &Ev) -> String {
    let a = BitSubset64::<u64>::from_tag_and_mask(e.1 .0, e.1 .1);
    let b = || BitSubset64::<u64>::from_tag_and_mask(e.2 .0, e.2 .1);
    match e.0 {
        "make" => format!(
            r#""sets":[{},{},{},{}],"un":{},"sup":{}"#,
            set(a),
            set(BitSubset64::from_tag_and_superposition(e.1 .0, !e.1 .1)),
            set(BitSubset64::from_tag_and_union(e.1 .0, e.1 .0 ^ !e.1 .1)),
            set(a.cast::<u64>()),
            bits(a.union()),
            bits(a.superposition())
        ),
        "tag" => format!(r#""sets":[{}]"#, set(BitSubset64::from_tag(e.3))),
        "has" => format!(r#""r":{}"#, bool_json(a.has(e.3))),
        "split" => {
            let (x, y) = a.split(e.3);
            format!(r#""sets":[{},{}]"#, set(x), set(y))
        }
        "or" => format!(r#""sets":[{}]"#, set(a.or(b()))),
        "oru" => format!(r#""sets":[{}]"#, set(a.or_unchecked(b()))),
        "and" => format!(r#""sets":[{}]"#, set(a.and(b()))),
        "raw" => {
            let v = a.raw_value_to_subset_value(e.3);
            let back = a.subset_value_to_typed_value(v);
            let t = a.typed_value_to_subset_value(e.3);
            format!(
                r#""put":{},"typed":{},"back":{},"r":{}"#,
                bits(v),
                bits(t),
                bits(back),
                bool_json(a.has(v))
            )
        }
        "bool" => {
            let s = a.cast::<bool>();
            let x = e.3 & 1 == 1;
            let v = s.typed_value_to_subset_value(x);
            format!(
                r#""put":{},"r":{},"val":{},"back":{}"#,
                bits(v),
                bool_json(s.has(v)),
                bool_json(x),
                bool_json(s.subset_value_to_typed_value(v))
            )
        }
        "ptr" => {
            let s = a.cast::<*const u8>();
            let v = s.typed_value_to_subset_value(e.3 as *const u8);
            format!(
                r#""put":{},"r":{},"back":{}"#,
                bits(v),
                bool_json(s.has(v)),
                bits(s.subset_value_to_typed_value(v) as u64)
            )
        }
        _ => unreachable!(),
    }
}

fn cases(a: &Args) -> Vec<Ev> {
    let mut r = Rng::new(a.seed ^ 37);
    let mut v = vec![];
    // all subsets of a few bits, at some place of the 64 bits
    let w = if a.thorough { 4 } else { 3 };
    let n = 1u64 << w;
    for at in [0u32, 30, 47, 64 - w] {
        let up = |x: u64| x << at;
        // the other bits are fixed or free
        for rest in [0u64, u64::MAX] {
            let rest = rest & !up(n - 1);
            for m in 0..n {
                for t in (0..n).filter(|t| t & !m == 0) {
                    let s = (up(t), up(m) | rest);
                    v.push(Ev("make", s, (0, 0), 0));
                    for x in 0..n {
                        v.push(Ev("has", s, (0, 0), up(x)));
                        v.push(Ev("split", s, (0, 0), up(x)));
                        if x & m == 0 {
                            v.push(Ev("raw", s, (0, 0), up(x)));
                            v.push(Ev("ptr", s, (0, 0), up(x)));
                        }
                    }
                    if at == 0 {
                        if s.1 & 1 == 0 {
                            v.push(Ev("bool", s, (0, 0), 0));
                            v.push(Ev("bool", s, (0, 0), 1));
                        }
                        for m2 in 0..n {
                            for t2 in (0..n).filter(|t| t & !m2 == 0) {
                                let s2 = (t2, m2 | rest);
                                for op in ["or", "oru", "and"] {
                                    v.push(Ev(op, s, s2, 0));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // wrong tags
    for _ in 0..200 {
        let (t, m) = (r.limb(), r.limb());
        v.push(Ev("make", (t, m), (0, 0), 0));
    }
    for _ in 0..if a.thorough { 40_000 } else { 3_000 } {
        let m = r.limb();
        let t = r.limb() & m;
        let s = (t, m);
        let m2 = match r.below(3) {
            0 => m,
            1 => m ^ (1 << r.below(64)),
            _ => r.limb(),
        };
        let t2 = if r.bool() { t & m2 } else { r.limb() & m2 };
        let x = r.limb();
        match r.below(9) {
            0 => v.push(Ev("make", s, (0, 0), 0)),
            1 => v.push(Ev("tag", (0, 0), (0, 0), x)),
            2 => {
                let x = match r.below(3) {
                    0 => t | (x & !m),
                    1 => (t | (x & !m)) ^ (1 << r.below(64)),
                    _ => x,
                };
                v.push(Ev("has", s, (0, 0), x));
            }
            3 => {
                let free: Vec<u32> = (0..64).filter(|i| m >> i & 1 == 0).collect();
                let x = match r.below(3) {
                    0 if !free.is_empty() => 1 << *r.one_of(&free),
                    1 => x & !m,
                    _ => x,
                };
                v.push(Ev("split", s, (0, 0), x));
            }
            4 => v.push(Ev("or", s, (t2, m2), 0)),
            5 => v.push(Ev("oru", s, (t2, m2), 0)),
            6 => v.push(Ev("and", s, (t2, m2), 0)),
            7 => v.push(Ev("raw", s, (0, 0), x & !m)),
            _ => v.push(Ev("ptr", s, (0, 0), x & !m)),
        }
    }
    v
}

fn main() {
    let a = args();
    drive(
        &a,
        cases(&a),
        |c| {
            format!(
                r#""op":"{}","a":{{"tag":{},"mask":{}}},"b":{{"tag":{},"mask":{}}},"x":{}"#,
                c.0,
                bits(c.1 .0),
                bits(c.1 .1),
                bits(c.2 .0),
                bits(c.2 .1),
                bits(c.3)
            )
        },
        exec,
    );
}
