//! Descriptions of values, and values made from them.
use crate::Rng;
use nanvm_lib::{
    js::{
        any::Any,
        js_array::new_array,
        js_bigint::{new_bigint, Sign},
        js_object::new_object,
        js_string::{new_string, JsStringRef},
        null::Null,
    },
    mem::manager::Manager,
};

#[derive(Clone, Debug)]
pub enum Leaf {
    Null,
    Bool(bool),
    Num(u64),
    Str(Vec<u16>),
    Big(bool, Vec<u64>),
}

#[derive(Clone, Debug)]
pub enum Item {
    Leaf(Leaf),
    Ref(usize),
}

/// An array has no keys.
#[derive(Clone, Debug)]
pub struct Node {
    pub keys: Option<Vec<Vec<u16>>>,
    pub items: Vec<Item>,
}

/// Nodes refer to earlier nodes; the value is `root`.
#[derive(Clone, Debug)]
pub struct Desc {
    pub nodes: Vec<Node>,
    pub root: Item,
}

pub fn js_str<M: Manager>(m: M, s: &[u16]) -> JsStringRef<M::Dealloc> {
    new_string(m, s.to_vec()).to_ref()
}

pub fn leaf<M: Manager>(m: M, l: &Leaf) -> Any<M::Dealloc> {
    match l {
        Leaf::Null => Any::move_from(Null()),
        Leaf::Bool(b) => Any::move_from(*b),
        Leaf::Num(b) => Any::move_from(f64::from_bits(*b)),
        Leaf::Str(s) => Any::move_from(js_str(m, s)),
        Leaf::Big(neg, d) => Any::move_from(
            new_bigint(m, if *neg { Sign::Negative } else { Sign::Positive }, d.clone()).to_ref(),
        ),
    }
}

pub fn build<M: Manager>(m: M, d: &Desc) -> Any<M::Dealloc> {
    let mut nodes: Vec<Any<M::Dealloc>> = vec![];
    let item = |nodes: &[Any<M::Dealloc>], i: &Item| match i {
        Item::Leaf(l) => leaf(m, l),
        Item::Ref(n) => nodes[*n].clone(),
    };
    for n in &d.nodes {
        let items: Vec<Any<M::Dealloc>> = n.items.iter().map(|i| item(&nodes, i)).collect();
        nodes.push(match &n.keys {
            None => Any::move_from(new_array(m, items).to_ref()),
            Some(k) => {
                let v: Vec<_> = k.iter().map(|k| js_str(m, k)).zip(items).collect();
                Any::move_from(new_object(m, v).to_ref())
            }
        });
    }
    item(&nodes, &d.root)
}

pub fn units(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}

pub const NUMS: &[f64] = &[
    0.0, -0.0, 1.0, -1.0, 7.0, 0.1, -1.5, 1e21, 1e20, 123456789012345680000.0, 1e-6, 1e-7, f64::MAX, -f64::MAX, f64::MIN_POSITIVE, 5e-324,
    -5e-324, f64::INFINITY, f64::NEG_INFINITY, 9007199254740993.0, 4294967296.0, 0.30000000000000004, 1.7976931348623155e308, 2.2250738585072011e-308,
    1e300, 123e-20, 4.35, 9.5367431640625e-7,
];

/// `x` and its neighbours, with both signs.
fn near(x: f64) -> Vec<f64> {
    let b = x.to_bits();
    let v: Vec<f64> = [b, b.saturating_sub(1), b + 1].into_iter().map(f64::from_bits).filter(|x| x.is_finite()).collect();
    v.iter().flat_map(|x| [*x, -x]).collect()
}
/// A number of a shape that a writer or a reader of numbers can treat in a special way.
pub fn random_num(r: &mut Rng) -> f64 {
    let x = match r.below(4) {
        // next to a power of two
        k @ (0 | 1) => {
            let e = if k == 0 { r.range(-70, 140) } else { r.range(-1074, 1023) };
            *r.one_of(&near(2f64.powi(e as i32)))
        }
        // whole numbers and halves
        2 => (r.next() >> r.below(64)) as f64 + *r.one_of(&[0.0, 0.5, 0.25]),
        // short decimals
        _ => format!("{}e{}", r.next() >> (40 + r.below(24)), r.range(-40, 40)).parse().unwrap(),
    };
    if r.bool() { x } else { -x }
}
/// Numbers next to powers of two and of ten, and next to the ends of the machine integers.
pub fn edges_of_numbers(thorough: bool) -> Vec<f64> {
    let mut v = vec![];
    for e in -1074..1024i32 {
        if thorough || (-8..132).contains(&e) || e % 64 == 0 {
            v.extend(near(2f64.powi(e)));
        }
    }
    for e in -323..309i32 {
        if thorough || (-22..40).contains(&e) || e % 32 == 0 {
            for d in ["1", "5", "9.5", "1.8"] {
                let x: f64 = format!("{d}e{e}").parse().unwrap();
                if x.is_finite() {
                    v.extend(near(x));
                }
            }
        }
    }
    v
}

pub struct Kind {
    pub unpaired: bool,
    pub bigint: bool,
    pub nan: bool,
}

pub fn random_string(r: &mut Rng, k: &Kind) -> Vec<u16> {
    let n = r.below(7);
    let mut v: Vec<u16> = vec![];
    for _ in 0..n {
        match r.below(12) {
            0 => v.push(r.below(32) as u16),
            1 => v.push(*r.one_of(&[0x22, 0x5C, 0x2F, 0x7F, 0x80, 0xFF, 0x100, 0x2028, 0x2029, 0xFFFF, 0xFFFE, 0xFEFF, 0xD7FF, 0xE000, 0x600])),
            2 => {
                v.push(0xD800 + r.below(0x400) as u16);
                v.push(0xDC00 + r.below(0x400) as u16);
            }
            3 if k.unpaired => v.push(0xD800 + r.below(0x800) as u16),
            4 => v.extend(units(*r.one_of(&["\\u0041", "\\n", "\"", "*/", "//", "null", "'"]))),
            5 => {
                let u = r.below(0x10000) as u16;
                v.push(if (0xD800..0xE000).contains(&u) { 0x3042 } else { u })
            }
            _ => v.push(0x20 + r.below(0x5F) as u16),
        }
    }
    v
}

pub fn random_leaf(r: &mut Rng, k: &Kind) -> Leaf {
    match r.below(10) {
        0 => Leaf::Null,
        1 => Leaf::Bool(r.bool()),
        2 | 3 => Leaf::Num(r.one_of(NUMS).to_bits()),
        4 => {
            let b = match r.below(4) {
                0 => r.limb(),
                1 => (r.next() & 0x800F_FFFF_FFFF_FFFF) | (1000 + r.below(50) as u64) << 52,
                _ => random_num(r).to_bits(),
            };
            let nan = f64::from_bits(b).is_nan();
            Leaf::Num(if nan && !k.nan { 1 } else { b })
        }
        5 if k.bigint => {
            let d = if r.below(4) == 0 {
                // around powers of ten
                let mut v = vec![1u64];
                for _ in 0..r.below(80) {
                    v = crate::mul_limbs(&v, &[10]);
                }
                if r.bool() { v } else { crate::dec_limbs(&v) }
            } else {
                r.limbs(4)
            };
            Leaf::Big(!d.is_empty() && r.bool(), d)
        }
        _ => Leaf::Str(random_string(r, k)),
    }
}

/// Names with a meaning somewhere in JavaScript, JSON or a tool near them: to this library they are
/// names like any other.
pub const NAMES: &[&str] = &[
    "undefined", "NaN", "Infinity", "let", "var", "function", "class", "return", "this", "super", "async", "await", "yield", "new", "delete", "typeof",
    "void", "in", "of", "if", "else", "for", "while", "do", "switch", "case", "break", "continue", "throw", "try", "catch", "finally", "with", "as",
    "instanceof", "debugger", "enum", "interface", "package", "private", "static", "get", "set", "eval", "arguments", "globalThis", "Object", "Symbol",
    "__proto__", "prototype", "constructor", "toString", "valueOf", "toJSON", "hasOwnProperty", "length", "name", "then", "default", "exports", "module",
    "from", "import", "export", "const", "require", "null", "true", "false", "Null", "NULL", "True", "nan", "inf", "infinity", "nil", "None", "e", "n",
    "x", "e5", "n1", "u0041", "b", "f", "r", "t", "$", "_", "$$", "__", "$_", "_$0", "a$", "a_", "__esModule", "$ref", "$schema", "_id", "_0", "$0",
    "__filename", "__dirname", "process", "json", "djs", "cjs", "mjs", "a0", "A", "Z9",
];

/// Distinct keys in the order of their code points.
pub fn random_keys(r: &mut Rng, n: usize, k: &Kind) -> Vec<Vec<u16>> {
    let mut v: Vec<Vec<u16>> = (0..n)
        .map(|_| match r.below(8) {
            0 | 1 => random_string(r, k),
            2 => units(*r.one_of(NAMES)),
            _ => units(*r.one_of(&["", "a", "b", "ab", "A", "0", "10", "é", "null", "const", "x y", "😀", "\u{FFFF}", "__proto__"])),
        })
        .collect();
    let key = |s: &Vec<u16>| -> Vec<u32> {
        char::decode_utf16(s.iter().copied())
            .map(|c| match c {
                Ok(c) => c as u32,
                Err(e) => e.unpaired_surrogate() as u32,
            })
            .collect()
    };
    v.sort_by_key(key);
    v.dedup();
    v
}

pub fn random_desc(r: &mut Rng, k: &Kind, max: usize) -> Desc {
    let n = r.below(max + 1);
    let mut nodes: Vec<Node> = vec![];
    for i in 0..n {
        let mut c = r.below(5);
        let keys = match r.bool() {
            true => {
                let keys = random_keys(r, c, k);
                c = keys.len();
                Some(keys)
            }
            false => None,
        };
        let items = (0..c)
            .map(|_| match i > 0 && r.below(3) > 0 {
                true => Item::Ref(if r.bool() { i - 1 } else { r.below(i) }),
                false => Item::Leaf(random_leaf(r, k)),
            })
            .collect();
        nodes.push(Node { keys, items });
    }
    let root = match n {
        0 => Item::Leaf(random_leaf(r, k)),
        _ => Item::Ref(n - 1),
    };
    Desc { nodes, root }
}
