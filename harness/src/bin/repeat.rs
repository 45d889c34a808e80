//! Records histories of runs of the same inputs (C24).
use conform::{graph::Graph, json, mock::MockIo, value::*, *};
use nanvm_lib::{
    app::run,
    js::any::Any,
    mem::{global::GLOBAL, local::Local, manager::Manager},
    parser::{
        parser::{parse, Context},
        shared::{DataType, ModuleCache},
    },
    serializer::{to_djs::to_djs, to_json::to_json},
};
use std::process::Command;

struct Case {
    /// input, local manager?, at
    steps: Vec<(usize, bool, String)>,
    /// The first of the inputs, in the pool.
    first: usize,
}

fn input(c: &Case) -> String {
    let steps: Vec<_> = c
        .steps
        .iter()
        .map(|(i, l, at)| format!(r#"{{"in":{i},"mgr":"{}","at":"{at}"}}"#, if *l { "local" } else { "global" }))
        .collect();
    format!(r#""first":{},"steps":[{}]"#, c.first, steps.join(","))
}

// --- the pool of inputs ---

type Files = Vec<(String, String)>;

enum In {
    Value(Desc),
    Module(Files),
    Convert(Files, &'static str),
}

fn literal(r: &mut Rng) -> String {
    match r.below(6) {
        0 => r.range(-99, 99).to_string(),
        1 => format!("{}e{}", r.range(1, 99), r.range(-9, 25)),
        2 => "null".to_string(),
        3 => "true".to_string(),
        4 => format!("{}n", r.next()),
        _ => format!("\"s{}\"", r.below(99)),
    }
}

/// A constant, and how many items it has with those of its items.
type Name = (String, usize);
/// Nothing has more items than that.
const MOST: usize = 100;

/// An array or an object of items that are literals or the names of constants.
fn compound(r: &mut Rng, names: &[Name], json: bool) -> Name {
    let n = 1 + if r.below(8) == 0 { r.below(30) } else { r.below(6) };
    let object = r.bool();
    let mut size = n;
    let items: Vec<_> = (0..n)
        .map(|i| {
            let v = match r.below(3) {
                0 if json => r.range(-99, 99).to_string(),
                0 => literal(r),
                _ if names.is_empty() => "[]".to_string(),
                _ => match r.one_of(names) {
                    (t, s) if size + s <= MOST => {
                        size += s;
                        t.clone()
                    }
                    _ => "7".to_string(),
                },
            };
            if object { format!("\"{}{i}\":{v}", r.one_of(&["k", "a", "z", "K", "é", "1"])) } else { v }
        })
        .collect();
    (if object { format!("{{{}}}", items.join(",")) } else { format!("[{}]", items.join(",")) }, size)
}

/// A module whose constants are used more than once.
fn module(r: &mut Rng, imports: &[Name], cjs: bool, json: bool) -> Name {
    let mut t = String::new();
    let mut names: Vec<Name> = vec![];
    for (k, (p, size)) in imports.iter().enumerate() {
        t += &if cjs { format!("const m{k} = require(\"{p}\")\n") } else { format!("import m{k} from \"{p}\"\n") };
        names.push((format!("m{k}"), *size));
    }
    for k in 0..2 + r.below(8) {
        let (name, (v, size)) = (format!("{}{k}", r.one_of(&["a", "b", "z", "_"])), compound(r, &names, json));
        t += &format!("const {name} = {v}\n");
        names.push((name, size));
    }
    // all of them, some again
    let mut last: Vec<_> = names.clone();
    for _ in 0..2 + r.below(6) {
        last.push(r.one_of(&names).clone());
    }
    let mut total = 0;
    last.retain(|n| {
        total += n.1;
        total <= 5 * MOST || n.1 == 0
    });
    t += if cjs { "module.exports = " } else { "export default " };
    let last: Vec<_> = last.into_iter().map(|n| n.0).collect();
    (t + &format!("[{}]", last.join(",")), total.min(5 * MOST))
}

fn files(r: &mut Rng, json: bool) -> Files {
    let cjs = r.bool();
    let n = 1 + r.below(4);
    let mut v: Files = vec![];
    let mut sizes = vec![0; n];
    for k in (0..n).rev() {
        let imports: Vec<_> = (0..if k + 1 < n { 1 + r.below(3) } else { 0 }).map(|_| r.range(k as i64 + 1, n as i64 - 1)).map(|i| (format!("./m{i}.js"), sizes[i as usize])).collect();
        let mut t;
        (t, sizes[k]) = module(r, &imports, cjs, json);
        // some do not load
        match r.below(20) {
            0 => t = t.replacen(',', "", 1),
            1 => t = t.replacen("m1.js", "m9.js", 1),
            2 => t = format!("import q from \"./m0.js\"\n{t}"),
            _ => {}
        }
        v.push((format!("m{k}.js"), t));
    }
    v
}

fn value(r: &mut Rng) -> Desc {
    let kind = Kind { unpaired: false, bigint: true, nan: false };
    let n = 3 + r.below(10);
    let mut nodes = vec![];
    let mut sizes: Vec<usize> = vec![];
    for k in 0..n {
        let last = k + 1 == n;
        let mut size = 1;
        let mut items: Vec<Item> = (0..r.below(5))
            .map(|_| {
                if k > 0 && r.below(3) > 0 {
                    let i = r.below(k);
                    if size + sizes[i] <= MOST {
                        size += sizes[i];
                        return Item::Ref(i);
                    }
                }
                Item::Leaf(random_leaf(r, &kind))
            })
            .collect();
        sizes.push(size + items.len());
        if last {
            for i in 0..k {
                items.push(Item::Ref(i));
                if r.below(4) > 0 {
                    items.push(Item::Ref(i));
                }
            }
        }
        let keys = (r.bool()).then(|| (0..items.len()).map(|i| units(&format!("{}{i}", r.one_of(&["k", "a", "z", "9"])))).collect());
        nodes.push(Node { keys, items });
    }
    Desc { nodes, root: Item::Ref(n - 1) }
}

/// Every other history has two inputs of which one is made from the other.
fn pool(seed: u64, n: usize) -> In {
    if n % 8 == 2 {
        let alike = |f: Files| {
            f.into_iter().map(|(p, t)| (p, t.replace("\"s", "\"S").replace("true", "false").replace('7', "8"))).collect()
        };
        return match input_of(seed, n - 1) {
            In::Value(d) => In::Value(near_to(d)),
            In::Module(f) => In::Module(alike(f)),
            In::Convert(f, out) => In::Convert(alike(f), out),
        };
    }
    input_of(seed, n)
}

/// The same with other leaves, each close to what it was.
fn near_to(mut d: Desc) -> Desc {
    for i in d.nodes.iter_mut().flat_map(|n| n.items.iter_mut()) {
        match i {
            Item::Leaf(Leaf::Bool(b)) => *b = !*b,
            Item::Leaf(Leaf::Num(b)) => *b ^= 1,
            Item::Leaf(Leaf::Str(s)) => {
                if let Some(c) = s.last_mut().filter(|c| **c < 0x80) {
                    *c ^= 1;
                }
            }
            Item::Leaf(Leaf::Big(_, d)) => d.iter_mut().take(1).for_each(|d| *d |= 1),
            _ => {}
        }
    }
    d
}

fn input_of(seed: u64, n: usize) -> In {
    let mut r = Rng::new(seed ^ (n as u64).wrapping_mul(0x51_7C_C1_B7_27_22_0A_95));
    match r.below(4) {
        0 => In::Value(value(&mut r)),
        1 => In::Module(files(&mut r, false)),
        _ => {
            let out = *r.one_of(&["o.json", "o.d.mjs", "o.d.cjs", "o.d.mjs"]);
            In::Convert(files(&mut r, out == "o.json"), out)
        }
    }
}

// --- a run ---

/// What a run gave: everything that can be seen of it, and what is made of it again.
struct Seen {
    out: String,
    once: String,
    twice: String,
}

fn load<M: Manager + 'static>(m: M, f: &[(String, String)]) -> Result<(&'static str, Any<M::Dealloc>), String> {
    let io = MockIo::new(f);
    let root = f.last().unwrap().0.clone();
    let mut mc = ModuleCache::default();
    let r = parse(&mut Context::new(m, &io, root, &mut mc)).map_err(|e| e.to_string())?;
    let dt = match r.data_type {
        DataType::Json => "json",
        DataType::Djs => "djs",
        DataType::Cjs => "cjs",
        DataType::Mjs => "mjs",
    };
    Ok((dt, r.any))
}

/// All the ways to write a value.
fn texts<M: Manager>(_: M, a: &Any<M::Dealloc>) -> Vec<String> {
    let t = |r: Result<String, std::fmt::Error>| r.unwrap_or_else(|_| "error".to_string());
    vec![t(to_djs(a.clone(), false)), t(to_djs(a.clone(), true)), t(to_json(a.clone()))]
}

/// All that are written by what these load as.
fn again<M: Manager + 'static>(m: M, v: &[String]) -> Vec<String> {
    v.iter()
        .enumerate()
        .map(|(i, t)| match load(m, &[("a".to_string(), t.clone())]) {
            Ok((_, a)) => texts(m, &a)[i].clone(),
            Err(e) => e,
        })
        .collect()
}

fn written<M: Manager + 'static>(m: M, a: &Any<M::Dealloc>, more: String) -> Seen {
    let v = texts(m, a);
    let once = again(m, &v);
    let twice = match v.iter().zip(&once).all(|(a, b)| a == b) {
        true => once.clone(),
        false => {
            // where there is nothing to load, there is nothing to compare
            let t = again(m, &once);
            once.iter().zip(t).map(|(o, t)| if loads(m, o) { t } else { o.clone() }).collect()
        }
    };
    Seen { out: format!("{more}\n{}", v.join("\n")), once: once.join("\n"), twice: twice.join("\n") }
}

fn loads<M: Manager + 'static>(m: M, t: &str) -> bool {
    load(m, &[("a".to_string(), t.to_string())]).is_ok()
}

fn one<M: Manager + 'static>(m: M, i: &In) -> Seen {
    let same = |out: String| Seen { once: out.clone(), twice: out.clone(), out };
    match i {
        In::Value(d) => {
            let a = build(m, d);
            written(m, &a, String::new())
        }
        In::Module(f) => match load(m, f) {
            Ok((dt, a)) => {
                let mut g = Graph::default();
                let v = g.value(&a);
                written(m, &a, format!("{dt} {v} {}", g.nodes()))
            }
            Err(e) => same(e),
        },
        In::Convert(f, out) => {
            let convert = |f: &[(String, String)]| {
                let io = MockIo::new(f);
                io.0.borrow_mut().args = vec!["nanvm".to_string(), f.last().unwrap().0.clone(), out.to_string()];
                let r = run(&io).map_err(|e| format!("{:?} {e}", e.kind()));
                let text = io.0.borrow().files.get(*out).map(|b| String::from_utf8_lossy(b).into_owned());
                (format!("{r:?} {text:?} {:?}", io.0.borrow().log), text)
            };
            let (all, text) = convert(f);
            match text {
                Some(text) => {
                    let t = |t: String| convert(&[("a".to_string(), t)]).1.unwrap_or_default();
                    let once = t(text);
                    Seen { out: all, twice: t(once.clone()), once }
                }
                None => same(all),
            }
        }
    }
}

/// What was seen twice, if it is the same.
fn together(a: Seen, b: Seen) -> Seen {
    let one = |a: String, b: String| if a == b { a } else { format!("{a} or {b}") };
    Seen { out: one(a.out, b.out), once: one(a.once, b.once), twice: one(a.twice, b.twice) }
}

fn hash(s: &str) -> String {
    let h = s.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x0100_0000_01b3));
    format!("{}-{h:016x}", s.len())
}

fn shown(s: &Seen) -> String {
    format!(r#"{{"out":"{}","once":"{}","twice":"{}"}}"#, hash(&s.out), hash(&s.once), hash(&s.twice))
}

/// `child <seed> <pool number>,<manager>,<moved>...`
fn child(a: &[String]) {
    let seed = a[0].parse().unwrap();
    let mut r = Rng::new(seed ^ std::process::id() as u64);
    let mut kept: Vec<Vec<u8>> = vec![];
    for s in &a[1..] {
        let f: Vec<_> = s.split(',').collect();
        if f[2] == "moved" {
            kept.extend((0..50).map(|_| vec![0; 1 + r.below(500)]));
            kept.retain(|_| r.below(3) > 0);
        }
        let n = f[0].parse().unwrap();
        let local = f[1] == "local";
        let run = move || {
            let i = pool(seed, n);
            match local {
                true => one::<&'static Local>(Box::leak(Box::default()), &i),
                false => one(GLOBAL, &i),
            }
        };
        let seen = match f[2] {
            "beside" => {
                let t: Vec<_> = (0..3).map(|_| std::thread::spawn(run)).collect();
                let all: Vec<Seen> = t.into_iter().map(|t| t.join().unwrap()).collect();
                all.into_iter().reduce(together).unwrap()
            }
            _ => run(),
        };
        println!("{}", shown(&seen));
        if std::env::var("REPEAT_SHOW").is_ok() {
            println!("{}\n---\n{}\n---\n{}", seen.out, seen.once, seen.twice);
        }
    }
}

fn exec(c: &(u64, Case)) -> String {
    let (seed, c0) = c;
    let mut segments: Vec<(bool, Vec<String>)> = vec![];
    for (i, local, at) in &c0.steps {
        if at == "new" || at == "away" {
            segments.push((at == "away", vec![]));
        }
        let s = format!("{},{},{at}", c0.first + i, if *local { "local" } else { "global" });
        segments.last_mut().unwrap().1.push(s);
    }
    let mut runs: Vec<String> = vec![];
    for (away, s) in &segments {
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("child").arg(seed.to_string()).args(s);
        if *away {
            let lang = ["tr_TR.UTF-8", "C", "", "de_DE@euro"][c0.first / 4 % 4];
            c.env_clear().envs([("LANG", lang), ("LC_ALL", lang), ("TZ", "Asia/Tokyo"), ("NO_COLOR", "1"), ("RUST_BACKTRACE", "1"), ("HOME", "/")]);
            c.current_dir("/");
        }
        let o = c.output().unwrap();
        assert!(o.status.success(), "child failed");
        runs.extend(String::from_utf8(o.stdout).unwrap().lines().map(|l| l.to_string()));
    }
    format!(r#""runs":[{}]"#, runs.join(","))
}

fn main() {
    let v: Vec<String> = std::env::args().collect();
    if v[1] == "child" {
        return child(&v[2..]);
    }
    let a = args();
    let mut cases = vec![];
    let times = std::env::var("TIMES").ok().and_then(|s| s.parse().ok()).unwrap_or(4);
    for _ in 0..times {
        for l in read_lines(&a.input) {
            let steps: Vec<_> = json::parse(&l)
                .get("steps")
                .arr()
                .iter()
                .map(|s| (s.get("in").int() as usize, s.get("mgr").str() == "local", s.get("at").str().to_string()))
                .collect();
            cases.push((a.seed, Case { steps, first: 4 * cases.len() }));
        }
    }
    drive(&a, cases, |c| input(&c.1), exec);
}
