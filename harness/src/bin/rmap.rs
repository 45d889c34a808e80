//! Records merges and lookups of range maps (C17).
use conform::*;
use nanvm_lib::range_map::{from_one, from_range, merge, merge_list, Entry, RangeMap, State};

/// A map: entries (key, value), 0 for no value; or a range of characters built by the constructors.
#[derive(Clone)]
enum Map {
    Entries(Vec<(i64, i64)>),
    Range(u32, u32, i64),
    /// This many entries, for the keys 0, 2, 4, ...
    Many(i64),
}
/// operation, maps, keys to look up, use characters as keys
struct Ev(&'static str, Vec<Map>, Vec<i64>, bool);

fn state(v: i64) -> State<i64> {
    State { value: if v == 0 { None } else { Some(v) } }
}
fn val(s: &State<i64>) -> i64 {
    s.value.unwrap_or(0)
}
fn ch(k: i64) -> char {
    char::from_u32(k as u32).unwrap()
}
fn ints(m: &Map) -> RangeMap<i64, State<i64>> {
    match m {
        Map::Many(n) => RangeMap {
            list: (0..*n).map(|i| Entry { key: 2 * i, value: state(i % 3) }).collect(),
        },
        Map::Entries(e) => RangeMap {
            list: e.iter().map(|&(key, v)| Entry { key, value: state(v) }).collect(),
        },
        _ => unreachable!(),
    }
}
fn chars(m: &Map) -> RangeMap<char, State<i64>> {
    match m {
        Map::Entries(e) => RangeMap {
            list: e.iter().map(|&(k, v)| Entry { key: ch(k), value: state(v) }).collect(),
        },
        Map::Many(_) => unreachable!(),
        Map::Range(a, b, v) if a == b => from_one(ch(*a as i64), *v),
        Map::Range(a, b, v) => from_range(ch(*a as i64)..=ch(*b as i64), *v),
    }
}

fn exec(e: &Ev) -> String {
    macro_rules! go {
        ($conv:ident, $k:expr, $back:expr) => {{
            let maps: Vec<_> = e.1.iter().map($conv).collect();
            let r = match e.0 {
                "merge" => {
                    let mut i = maps.into_iter();
                    let a = i.next().unwrap();
                    let b = i.next().unwrap();
                    merge(a, b)
                }
                "list" => merge_list(maps),
                _ => maps.into_iter().next().unwrap(),
            };
            let show = if matches!(e.1.first(), Some(Map::Many(_))) { 0 } else { r.list.len() };
            let l: Vec<String> = r.list.iter().take(show).map(|x| arr([$back(x.key), val(&x.value)])).collect();
            let q: Vec<String> = e.2.iter().map(|&k| arr([k, val(r.get($k(k)))])).collect();
            format!(r#""r":{},"q":{}"#, arr(l), arr(q))
        }};
    }
    if e.3 {
        go!(chars, ch, |k| k as i64)
    } else {
        go!(ints, |k: i64| k, |k: i64| k)
    }
}

fn js(m: &Map) -> String {
    match m {
        Map::Entries(v) => format!(r#"{{"e":{}}}"#, arr(v.iter().map(|x| arr([x.0, x.1])))),
        Map::Many(n) => format!(r#"{{"n":{n}}}"#),
        Map::Range(a, b, v) => format!(r#"{{"lo":{a},"hi":{b},"v":{v}}}"#),
    }
}

/// All maps whose last keys are some of 1..=n.
fn all_maps(n: i64, values: i64) -> Vec<Vec<(i64, i64)>> {
    let mut v: Vec<Vec<(i64, i64)>> = vec![vec![]];
    for k in 1..=n {
        let mut w = vec![];
        for m in &v {
            w.push(m.clone());
            for x in 0..values {
                let mut m = m.clone();
                m.push((k, x));
                w.push(m);
            }
        }
        v = w;
    }
    v
}

fn small(a: &Args) -> Vec<Ev> {
    let n = if a.thorough { 4 } else { 3 };
    let maps = all_maps(n, 3);
    let q: Vec<i64> = (0..=n + 1).collect();
    let mut v = vec![Ev("list", vec![], q.clone(), false)];
    for x in all_maps(5, 2) {
        v.push(Ev("get", vec![Map::Entries(x)], (0..=6).collect(), false));
    }
    for x in &maps {
        v.push(Ev("list", vec![Map::Entries(x.clone())], q.clone(), false));
        for y in &maps {
            v.push(Ev("merge", vec![Map::Entries(x.clone()), Map::Entries(y.clone())], q.clone(), false));
        }
    }
    // triples of maps with one value each
    let maps = all_maps(3, 2);
    for x in &maps {
        for y in &maps {
            for z in &maps {
                let up = |m: &Vec<(i64, i64)>, d: i64| Map::Entries(m.iter().map(|&(k, v)| (k, v * d)).collect());
                v.push(Ev("list", vec![up(x, 1), up(y, 1), up(z, 2)], q.clone(), false));
            }
        }
    }
    v
}

fn random(a: &Args) -> Vec<Ev> {
    let mut r = Rng::new(a.seed ^ 23);
    let mut v = vec![];
    let n = if a.thorough { 30_000 } else { 2_500 };
    for _ in 0..n {
        // disjoint segments of a few maps, sometimes with a conflict
        let len = 1 + r.below(40);
        let count = 1 + r.below(4);
        let mut keys: Vec<i64> = (0..len).map(|_| r.range(-60, 60)).collect();
        keys.sort();
        keys.dedup();
        let base: Vec<i64> = keys.iter().map(|_| r.range(0, 3)).collect();
        let mut maps = vec![];
        let spoil = r.below(5) == 0;
        for m in 0..count {
            let mut e = vec![];
            for (k, b) in keys.iter().zip(&base) {
                let own = if r.below(3) == 0 { 0 } else { *b };
                let own = if spoil && m == 1 && r.below(8) == 0 { 4 } else { own };
                // a map may leave out an entry if the next one has its value
                e.push((*k, own));
            }
            // drop entries that the next one repeats, sometimes
            let mut i = 0;
            while i + 1 < e.len() {
                if e[i].1 == e[i + 1].1 && r.bool() {
                    e.remove(i);
                } else {
                    i += 1;
                }
            }
            if r.below(4) == 0 {
                e.truncate(r.below(e.len() + 1));
            }
            maps.push(Map::Entries(e));
        }
        let q: Vec<i64> = if r.below(3) == 0 {
            (-62..=62).collect()
        } else {
            keys.iter().flat_map(|k| [k - 1, *k, k + 1]).collect()
        };
        let op = if count == 2 && r.bool() { "merge" } else { "list" };
        v.push(Ev(op, maps, q, false));
    }
    v
}

/// Maps with many entries.
fn many(a: &Args) -> Vec<Ev> {
    let mut r = Rng::new(a.seed ^ 31);
    let mut v = vec![];
    for n in [15i64, 16, 17, 127, 128, 129, 255, 256, 257, 300, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 100_000] {
        let mut q: Vec<i64> = vec![-1, 0, 1, 2, 3, n - 1, n, n + 1, 2 * n - 4, 2 * n - 3, 2 * n - 2, 2 * n - 1, 2 * n, 4 * n];
        q.extend((0..200).map(|_| r.range(-1, 2 * n)));
        v.push(Ev("get", vec![Map::Many(n)], q.clone(), false));
        v.push(Ev("merge", vec![Map::Many(n), Map::Many(n)], q.clone(), false));
        v.push(Ev("merge", vec![Map::Many(n), Map::Entries(vec![(n / 2, 0)])], q.clone(), false));
        v.push(Ev("list", vec![Map::Many(n), Map::Many(n / 3), Map::Many(n + 3)], q, false));
    }
    v
}

/// Long lists of maps.
fn lists(a: &Args) -> Vec<Ev> {
    let mut r = Rng::new(a.seed ^ 37);
    let mut v = vec![];
    let mut sizes: Vec<usize> = (5..=40).collect();
    sizes.extend([63, 64, 65, 100, 127, 128, 129, 200]);
    if a.thorough {
        sizes.extend([255, 256, 257, 300, 511, 512, 513]);
    }
    for n in sizes {
        // one character each, in some order
        let mut order: Vec<usize> = (0..n).collect();
        for kind in 0..4 {
            if kind == 1 {
                order.reverse();
            } else if kind == 2 {
                for i in 0..n {
                    order.swap(i, r.below(n));
                }
            }
            let maps: Vec<Map> = order
                .iter()
                .map(|&i| {
                    let c = 40 + 3 * i as u32;
                    // a range can meet the next one
                    let hi = if kind == 3 { c + r.below(3) as u32 } else { c };
                    Map::Range(c, hi, 1 + (i as i64) % 3)
                })
                .collect();
            let q: Vec<i64> = (39..=42 + 3 * n as i64).collect();
            v.push(Ev("list", maps, q, true));
        }
        // maps that say the same, each a part of it; sometimes one does not agree
        for spoil in [false, false, true] {
            let keys: Vec<i64> = (0..12).map(|k| 5 * k).collect();
            let base: Vec<i64> = keys.iter().map(|_| r.range(0, 3)).collect();
            let bad = n - 1 - r.below(2.min(n));
            let maps: Vec<Map> = (0..n)
                .map(|m| {
                    let mut e: Vec<(i64, i64)> = keys
                        .iter()
                        .zip(&base)
                        .map(|(k, b)| (*k, if r.below(n.min(8)) > 0 { 0 } else { *b }))
                        .collect();
                    if spoil && m == bad {
                        e[11].1 = 4;
                    }
                    e.truncate(if spoil && m == bad { 12 } else { r.below(13) });
                    Map::Entries(e)
                })
                .collect();
            v.push(Ev("list", maps, (-1..=61).collect(), false));
        }
    }
    v
}

fn ranges(a: &Args) -> Vec<Ev> {
    let mut r = Rng::new(a.seed ^ 29);
    let edge = [0u32, 1, 9, 10, 32, 47, 48, 57, 65, 122, 127, 128, 255, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xFFFF, 0x10000, 0x10FFFE, 0x10FFFF];
    let around = |k: u32| -> Vec<i64> {
        (k.saturating_sub(1)..=(k + 1).min(0x10FFFF))
            .chain([0, 0xD7FF, 0xE000, 0x10FFFF])
            .filter(|&c| char::from_u32(c).is_some())
            .map(|c| c as i64)
            .collect()
    };
    let mut v = vec![];
    for &lo in &edge {
        for &hi in &edge {
            if lo <= hi {
                let q: Vec<i64> = around(lo).into_iter().chain(around(hi)).collect();
                v.push(Ev("get", vec![Map::Range(lo, hi, 1)], q.clone(), true));
                v.push(Ev("list", vec![Map::Range(lo, hi, 1), Map::Entries(vec![(5, 0)])], q, true));
            }
        }
    }
    for _ in 0..if a.thorough { 20_000 } else { 2_000 } {
        let mut ms = vec![];
        let mut q = vec![];
        for _ in 0..1 + r.below(6) {
            let any = |r: &mut Rng| if r.below(3) == 0 { *r.one_of(&edge) } else { 40 + r.below(30) as u32 };
            let (x, y) = (any(&mut r), any(&mut r));
            let (lo, hi) = if r.below(3) == 0 { (x, x) } else { (x.min(y), x.max(y)) };
            let val = if r.below(4) == 0 { 2 } else { 1 };
            q.extend(around(lo));
            q.extend(around(hi));
            ms.push(Map::Range(lo, hi, val));
        }
        v.push(Ev("list", ms, q, true));
    }
    v
}

fn main() {
    let a = args();
    let cases = match a.mode.as_str() {
        "small" => small(&a),
        "random" => random(&a),
        "ranges" => ranges(&a),
        "many" => many(&a),
        "lists" => lists(&a),
        _ => panic!(),
    };
    drive(
        &a,
        cases,
        |c| format!(r#""op":"{}","maps":{}"#, c.0, arr(c.1.iter().map(js))),
        exec,
    );
}
