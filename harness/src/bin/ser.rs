//! Records serializations (C07, C08).
use conform::{graph::Graph, json, mock::MockIo, value::*, *};
use nanvm_lib::{
    js::any::Any,
    mem::global::{Global, GLOBAL},
    parser::{
        parser::{parse, Context},
        shared::{DataType, ModuleCache},
    },
    serializer::{
        to_djs::{to_djs, WriteDjs},
        to_json::{to_json, WriteJson},
    },
};

fn graph(a: &Any<Global>) -> String {
    let mut g = Graph::default();
    let v = g.value(a);
    format!(r#""v":{v},"nodes":{}"#, g.nodes())
}

fn back(t: &str) -> String {
    let io = MockIo::new(&[("a".to_string(), t.to_string())]);
    let mut mc = ModuleCache::default();
    let r = parse(&mut Context::new(GLOBAL, &io, "a".to_string(), &mut mc));
    match r {
        Err(_) => r#"{"k":"err"}"#.to_string(),
        Ok(r) => format!(
            r#"{{"k":"ok","dt":"{}",{}}}"#,
            match r.data_type {
                DataType::Json => "json",
                DataType::Djs => "djs",
                DataType::Cjs => "cjs",
                DataType::Mjs => "mjs",
            },
            graph(&r.any)
        ),
    }
}

fn exec_json(d: &Desc) -> String {
    let a = build(GLOBAL, d);
    let g = graph(&a);
    let out = match to_json(a.clone()) {
        Ok(t) => format!(r#"{{"k":"ok","t":{}}}"#, text(&t)),
        Err(_) => r#"{"k":"err"}"#.to_string(),
    };
    format!(r#""g":{{{g}}},"same":{},"json":{out}"#, bool_json(graph(&a) == g))
}

fn exec_djs(d: &Desc) -> String {
    let a = build(GLOBAL, d);
    let g = graph(&a);
    let mods: Vec<String> = [false, true]
        .iter()
        .map(|&cjs| match to_djs(a.clone(), cjs) {
            Ok(t) => format!(
                r#"{{"k":"ok","cjs":{},"t":{},"back":{}}}"#,
                bool_json(cjs),
                text(&t),
                back(&t)
            ),
            Err(_) => format!(r#"{{"k":"err","cjs":{}}}"#, bool_json(cjs)),
        })
        .collect();
    format!(
        r#""g":{{{g}}},"same":{},"mods":[{}]"#,
        bool_json(graph(&a) == g),
        mods.join(",")
    )
}


#[global_allocator]
static HOOK: conform::rec::Hook = conform::rec::Hook;

fn exec_memory(c: &(bool, Desc)) -> String {
    use conform::rec::recorded;
    if c.0 {
        recorded::<&'static nanvm_lib::mem::local::Local, _>(|m| memory(m, &c.1)).1
    } else {
        recorded::<nanvm_lib::mem::global::Global, _>(|m| memory(m, &c.1)).1
    }
}

/// Fails the write number `left + 1`.
struct Failing {
    left: usize,
    writes: usize,
}

impl std::fmt::Write for Failing {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        self.writes += 1;
        if self.left == 0 {
            return Err(std::fmt::Error);
        }
        self.left -= 1;
        Ok(())
    }
}

fn memory<M: conform::rec::Kind>(m: conform::rec::Rec<M>, d: &Desc) {
    let a = build(m, d);
    let _ = to_json(a.clone());
    let _ = to_djs(a.clone(), false);
    let _ = to_djs(a.clone(), true);
    // a failing write, at every place
    for k in 0..3 {
        let run = |left: usize| {
            let mut w = Failing { left, writes: 0 };
            let _ = match k {
                0 => w.write_json(a.clone()),
                1 => w.write_djs(a.clone(), false),
                _ => w.write_djs(a.clone(), true),
            };
            w.writes
        };
        let all = run(usize::MAX);
        let step = 1 + all / 12;
        for left in (0..all).step_by(step) {
            run(left);
        }
    }
}

fn gen(a: &Args, k: &Kind) -> Vec<Desc> {
    let mut r = Rng::new(a.seed ^ 9);
    read_lines(&a.input)
        .iter()
        .map(|l| {
            let j = json::parse(l);
            let nodes: Vec<Node> = j
                .get("nodes")
                .arr()
                .iter()
                .map(|n| {
                    let items: Vec<Item> = n
                        .get("items")
                        .arr()
                        .iter()
                        .map(|i| match i.get("k").str() {
                            "leaf" => Item::Leaf(random_leaf(&mut r, k)),
                            _ => Item::Ref(i.get("n").int() as usize - 1),
                        })
                        .collect();
                    Node {
                        keys: match n.get("k").str() {
                            "arr" => None,
                            _ => Some((0..items.len()).map(|i| units(&format!("k{i}"))).collect()),
                        },
                        items,
                    }
                })
                .collect();
            let root = Item::Ref(nodes.len() - 1);
            Desc { nodes, root }
        })
        .collect()
}

fn one(l: Leaf) -> Desc {
    Desc {
        nodes: vec![],
        root: Item::Leaf(l),
    }
}

fn wrap(items: Vec<Item>) -> Desc {
    Desc {
        nodes: vec![Node { keys: None, items }],
        root: Item::Ref(0),
    }
}

fn common(a: &Args, k: &Kind) -> Vec<Desc> {
    let mut r = Rng::new(a.seed ^ 10);
    let mut v: Vec<Desc> = vec![];
    for l in [Leaf::Null, Leaf::Bool(true), Leaf::Bool(false), Leaf::Str(vec![])] {
        v.push(one(l));
    }
    for &n in NUMS {
        v.push(one(Leaf::Num(n.to_bits())));
    }
    // numbers of every exponent
    let step = if a.thorough { 1 } else { 16 };
    for e in (0..2047u64).step_by(step) {
        let f = r.limb() & ((1 << 52) - 1);
        let s = (r.below(2) as u64) << 63;
        v.push(one(Leaf::Num(s | e << 52 | f)));
        v.push(one(Leaf::Num(s | e << 52)));
    }
    // all units
    let all: Vec<u16> = (0..=0xFFFFu16).filter(|u| !(0xD800..0xE000).contains(u)).collect();
    let n = if a.thorough { 256 } else { 512 };
    for c in all.chunks(n) {
        v.push(one(Leaf::Str(c.to_vec())));
    }
    for c in (0xD800..0xDC00u16).collect::<Vec<_>>().chunks(128) {
        let s: Vec<u16> = c.iter().flat_map(|&h| [h, 0xDC00 + r.below(0x400) as u16]).collect();
        v.push(one(Leaf::Str(s)));
    }
    // every ASCII character as a key and in a string, alone
    for c in 0..128u16 {
        v.push(Desc {
            nodes: vec![Node {
                keys: Some(vec![vec![c]]),
                items: vec![Item::Leaf(Leaf::Str(vec![c, c]))],
            }],
            root: Item::Ref(0),
        });
    }
    for x in edges_of_numbers(a.thorough).chunks(8) {
        v.push(wrap(x.iter().map(|x| Item::Leaf(Leaf::Num(x.to_bits()))).collect()));
    }
    let n = if a.thorough { 30_000 } else { 2_500 };
    for _ in 0..n {
        let max = [1, 3, 6, 9, 14][r.below(5)];
        v.push(random_desc(&mut r, k, max));
    }
    // large
    for n in [11usize, 129, 257] {
        let leaf = |i: usize| Item::Leaf(Leaf::Num((i as f64).to_bits()));
        let items: Vec<Item> = (0..n).map(leaf).collect();
        v.push(wrap(items.clone()));
        v.push(Desc {
            nodes: vec![Node {
                keys: Some((0..n).map(|i| units(&format!("{i:05}"))).collect()),
                items,
            }],
            root: Item::Ref(0),
        });
        v.push(one(Leaf::Str((0..4 * n).map(|i| 32 + (i % 90) as u16).collect())));
        // many shared ones, each used twice
        let mut nodes: Vec<Node> = (0..n)
            .map(|i| Node {
                keys: if i % 2 == 0 { None } else { Some(vec![units("a")]) },
                items: vec![leaf(i)],
            })
            .collect();
        nodes.push(Node {
            keys: None,
            items: (0..2 * n).map(|i| Item::Ref(i * 7 % n)).collect(),
        });
        v.push(Desc {
            nodes,
            root: Item::Ref(n),
        });
    }
    // deep
    for d in [50usize, 200] {
        v.push(Desc {
            nodes: (0..d)
                .map(|i| Node {
                    keys: if i % 3 == 0 { Some(vec![units("a")]) } else { None },
                    items: vec![if i == 0 { Item::Leaf(Leaf::Num(0)) } else { Item::Ref(i - 1) }],
                })
                .collect(),
            root: Item::Ref(d - 1),
        });
    }
    v
}

fn json_cases_of(a: &Args, generated: Vec<Desc>) -> Vec<Desc> {
    let k = Kind {
        unpaired: true,
        bigint: false,
        nan: false,
    };
    let bad = Kind {
        unpaired: true,
        bigint: true,
        nan: true,
    };
    let mut v = generated;
    v.extend(common(a, &k));
    let mut r = Rng::new(a.seed ^ 11);
    for _ in 0..if a.thorough { 8000 } else { 800 } {
        v.push(random_desc(&mut r, &bad, 6));
    }
    // values that JSON cannot express, at every place
    for l in [
        Leaf::Num(f64::NAN.to_bits()),
        Leaf::Num(0xFFF8_0000_0000_0000),
        Leaf::Num(0x7FF0_0000_0000_0001),
        Leaf::Big(false, vec![]),
        Leaf::Big(true, vec![1]),
        Leaf::Big(false, vec![0, 0, 1]),
    ] {
        v.push(one(l.clone()));
        for n in 1..4usize {
            for at in 0..n {
                let items: Vec<Item> = (0..n).map(|i| Item::Leaf(if i == at { l.clone() } else { Leaf::Null })).collect();
                v.push(wrap(items.clone()));
                v.push(Desc {
                    nodes: vec![
                        Node {
                            keys: Some((0..n).map(|i| units(&format!("{i}"))).collect()),
                            items,
                        },
                        Node {
                            keys: None,
                            items: vec![Item::Leaf(Leaf::Bool(true)), Item::Ref(0)],
                        },
                    ],
                    root: Item::Ref(1),
                });
            }
        }
    }
    // unpaired surrogates at every place
    for u in (0xD800..0xE000u32).step_by(if a.thorough { 1 } else { 37 }) {
        let u = u as u16;
        v.push(one(Leaf::Str(vec![u])));
        v.push(one(Leaf::Str(vec![0x61, u, 0x62, u, u])));
    }
    // keys that are not sorted
    for ks in [["b", "a"], ["10", "9"], ["a", ""]] {
        v.push(Desc {
            nodes: vec![Node {
                keys: Some(ks.iter().map(|k| units(k)).collect()),
                items: vec![Item::Leaf(Leaf::Null), Item::Leaf(Leaf::Bool(true))],
            }],
            root: Item::Ref(0),
        });
    }
    v
}

fn djs_cases_of(a: &Args, generated: Vec<Desc>) -> Vec<Desc> {
    let k = Kind {
        unpaired: false,
        bigint: true,
        nan: false,
    };
    let mut v = generated;
    v.extend(common(a, &k));
    // bigints
    let mut r = Rng::new(a.seed ^ 12);
    for d in edge_nums() {
        v.push(one(Leaf::Big(false, d.clone())));
        if !d.is_empty() {
            v.push(one(Leaf::Big(true, d)));
        }
    }
    for p in 0..60usize {
        let mut d = vec![1u64];
        for _ in 0..p {
            d = mul_limbs(&d, &[10]);
        }
        v.push(one(Leaf::Big(r.bool(), d.clone())));
        v.push(one(Leaf::Big(false, dec_limbs(&d))));
        v.push(wrap(vec![Item::Leaf(Leaf::Big(true, add_limbs(&d, &[7])))]));
    }
    // many paths, few nodes
    for d in [5usize, 40, 80] {
        for obj in [false, true] {
            v.push(Desc {
                nodes: (0..d)
                    .map(|i| Node {
                        keys: if obj { Some(if i == 0 { vec![] } else { vec![units("a"), units("b")] }) } else { None },
                        items: if i == 0 { vec![] } else { vec![Item::Ref(i - 1), Item::Ref(i - 1)] },
                    })
                    .collect(),
                root: Item::Ref(d - 1),
            });
        }
        // every node refers to the two before it
        v.push(Desc {
            nodes: (0..d)
                .map(|i| Node {
                    keys: None,
                    items: if i < 2 { vec![] } else { vec![Item::Ref(i - 1), Item::Ref(i - 2)] },
                })
                .collect(),
            root: Item::Ref(d - 1),
        });
    }
    // equal values that are not shared, shared leaves only
    v.push(Desc {
        nodes: vec![
            Node { keys: None, items: vec![] },
            Node { keys: None, items: vec![] },
            Node { keys: None, items: vec![Item::Ref(0), Item::Ref(1), Item::Ref(0)] },
        ],
        root: Item::Ref(2),
    });
    v
}

fn json_cases(a: &Args) -> Vec<Desc> {
    json_cases_of(
        a,
        gen(
            a,
            &Kind {
                unpaired: true,
                bigint: false,
                nan: false,
            },
        ),
    )
}

fn djs_cases(a: &Args) -> Vec<Desc> {
    djs_cases_of(
        a,
        gen(
            a,
            &Kind {
                unpaired: false,
                bigint: true,
                nan: false,
            },
        ),
    )
}

fn main() {
    let a = args();
    let input = |d: &Desc| format!(r#""n":{}"#, d.nodes.len());
    match a.mode.as_str() {
        "memory" => {
            let mut c = json_cases_of(&a, vec![]);
            c.extend(djs_cases_of(&a, vec![]));
            c.retain(|d| d.nodes.len() < 60);
            let c = for_memory(&a, c, 900);
            drive(&a, c, |d| format!(r#""n":{}"#, d.1.nodes.len()), exec_memory)
        }
        "json" => {
            let c = json_cases(&a);
            drive(&a, c, input, exec_json)
        }
        "djs" => {
            let c = djs_cases(&a);
            drive(&a, c, input, exec_djs)
        }
        _ => panic!(),
    }
}
