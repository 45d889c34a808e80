//! Records loads of large module systems (C04, C05, C06). The systems are those of `Large.tla`.
use conform::{
    json::{self, J},
    mock::MockIo,
    *,
};
use nanvm_lib::{
    js::{
        any::Any,
        js_array::JsArrayRef,
        js_bigint::{JsBigintRef, Sign},
        js_object::JsObjectRef,
        js_string::JsStringRef,
        type_::Type,
    },
    mem::global::{Global, GLOBAL},
    parser::{
        parser::{parse, Context},
        shared::{DataType, ModuleCache, ParseError, ParseResult},
    },
};
use std::{
    collections::{HashMap, HashSet},
    fmt::Write,
};

struct Case {
    fam: J,
    n: i64,
}

// --- texts from pieces ---

fn size(s: &J, n: i64) -> i64 {
    s.arr()[0].int() * n + s.arr()[1].int()
}

fn put(out: &mut String, piece: &J, n: i64, j: i64, i: i64) {
    for x in piece.arr() {
        out.push_str(&x.get("s").text().repeat(size(x.get("r"), n) as usize));
        for h in x.get("h").arr() {
            let g = |k| h.get(k).int();
            let v = g("j") * j + g("i") * i + g("n") * n + g("c");
            let v = match g("m") {
                0 => v,
                -1 => v % n,
                m => v % m,
            };
            write!(out, "{v:0w$}", w = g("w") as usize).unwrap();
        }
    }
}

fn path(piece: &J, n: i64, j: i64) -> String {
    let mut s = String::new();
    put(&mut s, piece, n, j, j);
    s
}

fn files(c: &Case) -> MockIo {
    let io = MockIo::default();
    for f in c.fam.get("files").arr() {
        for j in 0..size(f.get("n"), c.n) {
            let mut t = String::new();
            for r in f.get("t").arr() {
                for i in 0..size(r.get("n"), c.n) {
                    put(&mut t, r.get("t"), c.n, j, i);
                }
            }
            io.0.borrow_mut().files.insert(path(f.get("p"), c.n, j), t.into_bytes());
        }
    }
    io
}

// --- runs ---

/// A text, or a character and how often it comes; a number may follow.
#[derive(Clone, PartialEq, PartialOrd, Eq, Ord, Debug)]
struct Lit {
    s: String,
    r: usize,
    num: bool,
}

fn literals(s: &str, num: bool, out: &mut Vec<Lit>) {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut cur) = (0, String::new());
    while i < c.len() {
        let k = c[i..].iter().take_while(|x| **x == c[i]).count();
        if k > 3 {
            if !cur.is_empty() {
                out.push(Lit { s: std::mem::take(&mut cur), r: 1, num: false });
            }
            out.push(Lit { s: c[i].to_string(), r: k, num: false });
        } else {
            cur.extend(&c[i..i + k]);
        }
        i += k;
    }
    if num || !cur.is_empty() {
        out.push(Lit { s: cur, r: 1, num });
    }
}

/// What stays the same, and the numbers in it (with their widths).
#[derive(Clone, Default, PartialEq, PartialOrd, Eq, Ord)]
struct Part {
    kind: String,
    key: Vec<Lit>,
    val: Vec<Lit>,
    widths: Vec<usize>,
    nums: Vec<i64>,
}

/// Splits a text at its numbers.
fn split(s: &str, lits: &mut Vec<Lit>, widths: &mut Vec<usize>, nums: &mut Vec<i64>) {
    let mut lit = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if !c.is_ascii_digit() {
            lit.push(c);
            continue;
        }
        let mut d = c.to_string();
        while let Some(x) = it.peek().filter(|x| x.is_ascii_digit() && d.len() < 18) {
            d.push(*x);
            it.next();
        }
        widths.push(if d.len() > 1 && c == '0' { d.len() } else { 0 });
        nums.push(d.parse().unwrap());
        literals(&std::mem::take(&mut lit), true, lits);
    }
    literals(&lit, false, lits);
}

struct Run {
    part: Part,
    n: i64,
    step: Vec<i64>,
}

fn runs(parts: impl Iterator<Item = Part>) -> Vec<Run> {
    let mut v: Vec<Run> = vec![];
    for p in parts {
        if let Some(r) = v.last_mut() {
            if r.part.kind == p.kind && r.part.key == p.key && r.part.val == p.val && r.part.widths == p.widths && r.part.nums.len() == p.nums.len() {
                let d: Vec<i64> = p.nums.iter().zip(&r.part.nums).map(|(a, b)| a - b).collect();
                if r.n == 1 {
                    r.step = d.clone();
                }
                if d.iter().zip(&r.step).all(|(d, s)| *d == s * r.n) {
                    r.n += 1;
                    continue;
                }
            }
        }
        let step = vec![0; p.nums.len()];
        v.push(Run { part: p, n: 1, step });
    }
    v
}

/// The pieces of a text; takes the numbers in it.
fn piece(lits: &[Lit], h: &mut impl Iterator<Item = String>) -> String {
    let v: Vec<String> = lits
        .iter()
        .map(|l| format!(r#"{{"s":{},"h":{},"r":{}}}"#, text(&l.s), if l.num { h.next().unwrap() } else { "[]".to_string() }, l.r))
        .collect();
    format!("[{}]", v.join(","))
}

// --- values ---

fn utf8(s: &[u16]) -> String {
    String::from_utf16_lossy(s)
}

#[derive(Default)]
struct Levels {
    ids: HashMap<usize, usize>,
    queue: Vec<Any<Global>>,
}

impl Levels {
    fn id(&mut self, at: usize, a: &Any<Global>) -> i64 {
        let k = self.queue.len();
        let id = *self.ids.entry(at).or_insert(k);
        if id == k {
            self.queue.push(a.clone());
        }
        id as i64
    }
    fn part(&mut self, key: Option<&str>, a: &Any<Global>) -> Part {
        let mut p = Part::default();
        if let Some(k) = key {
            split(k, &mut p.key, &mut p.widths, &mut p.nums);
        }
        let num = |p: &mut Part, k: &str, n: i64| {
            p.kind = k.to_string();
            p.widths.push(0);
            p.nums.push(n);
        };
        match a.get_type() {
            Type::Null => p.kind = "null".to_string(),
            Type::Bool => {
                p.kind = "bool".to_string();
                let s = bool_json(a.clone().try_move::<bool>().unwrap()).to_string();
                p.val = vec![Lit { s, r: 1, num: false }];
            }
            Type::Number => {
                let f = a.clone().try_move::<f64>().unwrap();
                if f.fract() == 0.0 && f.abs() < 1e9 {
                    num(&mut p, "num", f as i64)
                } else {
                    p.kind = "other".to_string();
                }
            }
            Type::Bigint => {
                let b = a.clone().try_move::<JsBigintRef<_>>().unwrap();
                match b.items() {
                    [] => num(&mut p, "big", 0),
                    [d] if *d < 1 << 30 && b.sign() == Sign::Positive => num(&mut p, "big", *d as i64),
                    _ => p.kind = "other".to_string(),
                }
            }
            Type::String => {
                p.kind = "str".to_string();
                split(&utf8(a.clone().try_move::<JsStringRef<_>>().unwrap().items()), &mut p.val, &mut p.widths, &mut p.nums);
            }
            Type::Array => {
                let at = a.clone().try_move::<JsArrayRef<_>>().unwrap().items().as_ptr() as usize;
                let id = self.id(at, a);
                num(&mut p, "ref", id)
            }
            Type::Object => {
                let at = a.clone().try_move::<JsObjectRef<_>>().unwrap().items().as_ptr() as usize;
                let id = self.id(at, a);
                num(&mut p, "ref", id)
            }
        }
        p
    }
    fn node(&mut self, k: usize) -> (&'static str, Vec<Run>) {
        let a = self.queue[k].clone();
        match a.get_type() {
            Type::Array => {
                let r = a.try_move::<JsArrayRef<_>>().unwrap();
                ("arr", runs(r.items().iter().map(|v| self.part(None, v))))
            }
            _ => {
                let r = a.try_move::<JsObjectRef<_>>().unwrap();
                ("obj", runs(r.items().iter().map(|(k, v)| self.part(Some(&utf8(k.items())), v))))
            }
        }
    }
}

/// A value, or an item of a node; takes the numbers in it.
fn item(p: &Part, h: &mut impl Iterator<Item = String>) -> (String, String) {
    let key = piece(&p.key, h);
    let v = match p.kind.as_str() {
        k @ ("num" | "big" | "ref") => format!(r#"{{"k":"{k}","h":{}}}"#, h.next().unwrap()),
        "str" => format!(r#"{{"k":"str","t":{}}}"#, piece(&p.val, h)),
        "bool" => format!(r#"{{"k":"bool","b":{}}}"#, p.val[0].s),
        k => format!(r#"{{"k":"{k}"}}"#),
    };
    (key, v)
}

fn value(levels: &mut Levels, a: &Any<Global>) -> String {
    let top = levels.part(None, a);
    // nodes, as parts whose numbers are the bases of their runs
    let mut nodes = vec![];
    let mut shapes: Vec<(&'static str, Vec<Run>)> = vec![];
    let mut index: HashMap<String, usize> = HashMap::new();
    let mut k = 0;
    while k < levels.queue.len() {
        let (kind, rs) = levels.node(k);
        k += 1;
        let mut p = Part::default();
        for r in &rs {
            write!(p.kind, "{kind} {} {:?} {} {:?} {:?} {:?};", r.n, r.step, r.part.kind, r.part.key, r.part.val, r.part.widths).unwrap();
            p.nums.extend(&r.part.nums);
        }
        let next = shapes.len();
        let s = *index.entry(format!("{kind} {}", p.kind)).or_insert(next);
        if s == next {
            shapes.push((kind, rs));
        }
        p.kind = s.to_string();
        nodes.push(p);
    }
    let blocks: Vec<String> = runs(nodes.into_iter())
        .iter()
        .map(|b| {
            let (kind, rs) = &shapes[b.part.kind.parse::<usize>().unwrap()];
            let mut at = 0;
            let kids: Vec<String> = rs
                .iter()
                .map(|r| {
                    let hs: Vec<String> = (0..r.part.nums.len())
                        .map(|x| format!("[{},{},{},{}]", b.step[at + x], r.step[x], b.part.nums[at + x], r.part.widths[x]))
                        .collect();
                    at += hs.len();
                    let (key, v) = item(&r.part, &mut hs.into_iter());
                    format!(r#"{{"n":{},"key":{key},"v":{v}}}"#, r.n)
                })
                .collect();
            format!(r#"{{"n":{},"k":"{kind}","kids":[{}]}}"#, b.n, kids.join(","))
        })
        .collect();
    let hs: Vec<String> = top.nums.iter().zip(&top.widths).map(|(n, w)| format!("[0,0,{n},{w}]")).collect();
    let (_, v) = item(&top, &mut hs.into_iter());
    format!(r#""v":{v},"nodes":[{}]"#, blocks.join(","))
}

fn outcome(levels: &mut Levels, r: &Result<ParseResult<Global>, ParseError>) -> String {
    match r {
        Ok(r) => format!(
            r#"{{"k":"ok","dt":"{}",{}}}"#,
            match r.data_type {
                DataType::Json => "json",
                DataType::Djs => "djs",
                DataType::Cjs => "cjs",
                DataType::Mjs => "mjs",
            },
            value(levels, &r.any)
        ),
        Err(e) => format!(
            r#"{{"k":"err","e":"{}"}}"#,
            match e {
                ParseError::UnexpectedToken => "UnexpectedToken",
                ParseError::UnexpectedEnd => "UnexpectedEnd",
                ParseError::WrongExportStatement => "WrongExportStatement",
                ParseError::WrongConstStatement => "WrongConstStatement",
                ParseError::WrongRequireStatement => "WrongRequireStatement",
                ParseError::WrongImportStatement => "WrongImportStatement",
                ParseError::CannotReadFile => "CannotReadFile",
                ParseError::CircularDependency => "CircularDependency",
                ParseError::NewLineExpected => "NewLineExpected",
            }
        ),
    }
}

fn paths(v: Vec<(String, bool)>, sorted: bool) -> String {
    let mut parts: Vec<Part> = v
        .into_iter()
        .map(|(p, ok)| {
            let mut x = Part {
                kind: bool_json(ok).to_string(),
                ..Default::default()
            };
            split(&p, &mut x.key, &mut x.widths, &mut x.nums);
            x
        })
        .collect();
    if sorted {
        parts.sort();
    }
    let v: Vec<String> = runs(parts.into_iter())
        .iter()
        .map(|r| {
            let hs: Vec<String> = (0..r.step.len())
                .map(|x| format!("[0,{},{},{}]", r.step[x], r.part.nums[x], r.part.widths[x]))
                .collect();
            format!(r#"{{"n":{},"p":{},"ok":{}}}"#, r.n, piece(&r.part.key, &mut hs.into_iter()), r.part.kind)
        })
        .collect();
    format!("[{}]", v.join(","))
}

fn exec(c: &Case) -> String {
    let io = files(c);
    let root = path(c.fam.get("root"), c.n, 0);
    let mut cache: ModuleCache<Global> = ModuleCache::default();
    let load = |cache: &mut ModuleCache<Global>| {
        io.0.borrow_mut().log.clear();
        parse(&mut Context::new(GLOBAL, &io, root.clone(), cache))
    };
    let first = load(&mut cache);
    let reads = paths(io.reads(), false);
    let mut levels = Levels::default();
    let out = outcome(&mut levels, &first);
    let known: HashSet<usize> = levels.ids.keys().copied().collect();
    let cached = paths(cache.complete.keys().map(|p| (p.clone(), true)).collect(), true);
    let progress = cache.progress.len();
    let second = load(&mut cache);
    let mut levels2 = Levels::default();
    let again = outcome(&mut levels2, &second);
    let kept = levels2.ids.keys().filter(|k| known.contains(k)).count();
    format!(
        r#""out":{out},"reads":{reads},"cache":{cached},"progress":{progress},"again":{{"out":{again},"reads":{},"kept":{kept}}}"#,
        paths(io.reads(), false)
    )
}

fn main() {
    let a = args();
    let mut r = Rng::new(a.seed ^ 99);
    let mut c = vec![];
    let mut sizes = vec![4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 16_384, 20_000];
    sizes.extend([65_535, 65_536, 65_537]);
    if a.thorough {
        sizes.extend([32_767, 32_768, 32_769, 99_999, 100_000, 131_072, 262_144]);
    }
    let mut fams: Vec<(i64, J)> = read_lines(&a.input).iter().map(|l| json::parse(l)).map(|j| (j.get("at").int(), j.get("f").clone())).collect();
    fams.sort_by_key(|f| f.0);
    for (k, f) in fams {
        if f.get("prop").str() != a.mode {
            continue;
        }
        let max = f.get("max").int();
        let mut s: Vec<i64> = sizes.iter().copied().filter(|&n| n <= max).collect();
        for _ in 0..if a.thorough { 12 } else { 4 } {
            let top = max.min(3000);
            s.push(4 + r.below(top as usize) as i64 % (top - 4));
        }
        for n in s {
            // objMixed needs a size that is prime to 7919
            if n % 7919 != 0 {
                c.push((k, Case { fam: f.clone(), n }));
            }
        }
    }
    drive(
        &a,
        c,
        |c| format!(r#""at":{},"f":"{}","n":{}"#, c.0, c.1.fam.get("f").str(), c.1.n),
        |c| exec(&c.1),
    )
}
