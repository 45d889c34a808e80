//! Records serializations of large values (C07, C08).
use conform::{mock::MockIo, *};
use nanvm_lib::{
    js::{
        any::Any,
        js_array::{new_array, JsArrayRef},
        js_object::{new_object, JsObjectRef},
        js_string::new_string,
        type_::Type,
    },
    mem::global::{Global, GLOBAL},
    parser::{
        parser::{parse, Context},
        shared::{DataType, ModuleCache},
    },
    serializer::{to_djs::to_djs, to_json::to_json},
};
use std::collections::HashMap;

struct Case {
    f: &'static str,
    n: usize,
    obj: bool,
    json: bool,
}

/// The children of all nodes, as in `Bulk.tla`, from 0.
fn kids(f: &str, n: usize) -> Vec<Vec<usize>> {
    let leaves = || vec![vec![]; n];
    let one = |mut v: Vec<Vec<usize>>, last: Vec<usize>| {
        v.push(last);
        v
    };
    match f {
        "twice" => one(leaves(), (0..n).chain(0..n).collect()),
        "mirror" => one(leaves(), (0..n).chain((0..n).rev()).collect()),
        "wide" => one(leaves(), (0..n).collect()),
        "third" => one(leaves(), (0..n).chain((2..n).step_by(3)).collect()),
        "chain" => (0..n).map(|i| if i == 0 { vec![] } else { vec![i - 1, i - 1] }).collect(),
        "skip" => (0..n)
            .map(|i| match i {
                0 => vec![],
                1 => vec![0],
                _ => vec![i - 1, i - 2],
            })
            .collect(),
        "list" => (0..n).map(|i| if i == 0 { vec![] } else { vec![i - 1] }).collect(),
        "one" => vec![vec![], vec![0; n]],
        "layers" => (0..4 * n + 1)
            .map(|i| match i {
                0..=3 => vec![],
                _ => (0..4).map(|k| 4 * (i / 4 - 1) + k).collect(),
            })
            .collect(),
        _ => panic!(),
    }
}

fn value(c: &Case) -> Any<Global> {
    let mut nodes: Vec<Any<Global>> = vec![];
    for k in kids(c.f, c.n) {
        let items: Vec<Any<Global>> = k.iter().map(|&i| nodes[i].clone()).collect();
        nodes.push(if c.obj {
            let v: Vec<_> = items
                .into_iter()
                .enumerate()
                .map(|(i, v)| (new_string(GLOBAL, format!("k{i:07}").encode_utf16().collect::<Vec<_>>()).to_ref(), v))
                .collect();
            Any::move_from(new_object(GLOBAL, v).to_ref())
        } else {
            Any::move_from(new_array(GLOBAL, items).to_ref())
        });
    }
    nodes.pop().unwrap()
}

/// Nodes, nodes with more than one use, references between nodes.
fn facts(a: &Any<Global>) -> String {
    fn at(a: &Any<Global>) -> (usize, Vec<Any<Global>>) {
        match a.get_type() {
            Type::Array => {
                let r = a.clone().try_move::<JsArrayRef<_>>().unwrap();
                (r.items().as_ptr() as usize, r.items().to_vec())
            }
            Type::Object => {
                let r = a.clone().try_move::<JsObjectRef<_>>().unwrap();
                (r.items().as_ptr() as usize, r.items().iter().map(|i| i.1.clone()).collect())
            }
            _ => panic!(),
        }
    }
    let mut uses: HashMap<usize, usize> = HashMap::new();
    let mut refs = 0;
    let (p, k) = at(a);
    uses.insert(p, 0);
    let mut todo = vec![k];
    while let Some(k) = todo.pop() {
        for v in k {
            refs += 1;
            let (p, k) = at(&v);
            let u = uses.entry(p).or_insert(0);
            if *u == 0 {
                todo.push(k);
            }
            *u += 1;
        }
    }
    let shared = uses.values().filter(|u| **u > 1).count();
    format!(r#""nodes":{},"shared":{shared},"refs":{refs}"#, uses.len())
}

fn output(dt: &str, r: Result<String, std::fmt::Error>) -> String {
    let Ok(t) = r else {
        return r#"{"k":"err"}"#.to_string();
    };
    let len = t.len();
    let consts = t.matches("const ").count();
    let io = MockIo::new(&[("a".to_string(), t)]);
    let mut mc = ModuleCache::default();
    let back = match parse(&mut Context::new(GLOBAL, &io, "a".to_string(), &mut mc)) {
        Err(_) => r#"{"k":"err"}"#.to_string(),
        Ok(r) => format!(
            r#"{{"k":"ok","dt":"{}",{}}}"#,
            match r.data_type {
                DataType::Json => "json",
                DataType::Djs => "djs",
                DataType::Cjs => "cjs",
                DataType::Mjs => "mjs",
            },
            facts(&r.any)
        ),
    };
    format!(r#"{{"k":"ok","dt":"{dt}","len":{len},"consts":{consts},"back":{back}}}"#)
}

fn exec(c: &Case) -> String {
    let a = value(c);
    let src = facts(&a);
    let (mut mods, mut json) = (vec![], vec![]);
    if c.json {
        json.push(output("json", to_json(a.clone())));
    } else {
        for (dt, cjs) in [("mjs", false), ("cjs", true)] {
            mods.push(output(dt, to_djs(a.clone(), cjs)));
        }
    }
    let same = facts(&a) == src;
    format!(
        r#""src":{{{src}}},"same":{},"mods":[{}],"json":[{}]"#,
        bool_json(same),
        mods.join(","),
        json.join(",")
    )
}

fn main() {
    let a = args();
    let json = a.mode == "json";
    let mut r = Rng::new(a.seed ^ 77);
    let families: &[&str] = if json {
        &["twice", "mirror", "list", "wide", "one", "third"]
    } else {
        &["twice", "mirror", "chain", "skip", "list", "wide", "one", "third", "layers"]
    };
    let mut c = vec![];
    for &f in families {
        // recursion takes stack for every level
        let deep = matches!(f, "chain" | "skip" | "list" | "layers");
        let large = match (deep, a.thorough) {
            (true, false) => vec![20_000],
            (true, true) => vec![20_000, 100_000],
            (false, false) => vec![100_000],
            (false, true) => vec![100_000, 300_000],
        };
        for obj in [false, true] {
            for n in [3, 4, 7, 16, 64, 255, 256, 257, 1000, 4096, 65_536].iter().copied().chain(large.iter().copied()) {
                if deep && n == 65_536 {
                    continue;
                }
                c.push(Case { f, n, obj, json });
                c.push(Case { f, n: 3 + r.below(n), obj, json });
            }
        }
    }
    drive(&a, c, |c| format!(r#""f":"{}","n":{},"obj":{}"#, c.f, c.n, bool_json(c.obj)), exec)
}
