//! Records path operations (C19).
use conform::*;
use nanvm_lib::parser::path::{concat, normalize, split};

struct Ev(&'static str, String, String);

fn exec(e: &Ev) -> String {
    match e.0 {
        "norm" => {
            let r = normalize(&e.1);
            let again = normalize(&r);
            format!(r#""r":{},"again":{}"#, text(&r), text(&again))
        }
        "concat" => format!(r#""r":{}"#, text(&concat(&e.1, &e.2))),
        _ => {
            let (d, f) = split(&e.1);
            format!(r#""r":{},"f":{}"#, text(d), text(f))
        }
    }
}

fn strings(alphabet: &[&str], max: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..max {
        last = last.iter().flat_map(|s| alphabet.iter().map(move |c| format!("{s}{c}"))).collect();
        v.extend(last.clone());
    }
    v
}

fn cases(a: &Args) -> Vec<Ev> {
    let mut r = Rng::new(a.seed ^ 31);
    let mut v = vec![];
    let one = |v: &mut Vec<Ev>, s: String| {
        v.push(Ev("split", s.clone(), String::new()));
        v.push(Ev("norm", s, String::new()));
    };
    for s in strings(&["/", ".", "a"], if a.thorough { 9 } else { 7 }) {
        one(&mut v, s);
    }
    // sequences of segments
    let n = if a.thorough { 6 } else { 5 };
    for s in strings(&["/", "./", "../", "a/", "b.c/"], n) {
        one(&mut v, s.clone());
        one(&mut v, s.trim_end_matches('/').to_string());
        one(&mut v, format!("/{s}x"));
    }
    let short = strings(&["/", ".", "a"], if a.thorough { 5 } else { 4 });
    for x in &short {
        for y in &short {
            if a.thorough || r.below(4) > 0 {
                v.push(Ev("concat", x.clone(), y.clone()));
            }
        }
    }
    let segs = ["", ".", "..", "...", "..a", "a..", ".a", "a.", " ", "é", "😀", "a b", "con", "x.json", "-", "\\", "*", "~", "%2F", "\u{0}",
        "C:", "c:", "a:b", "http:", "file:", "node:fs", "?", "a?b", "#", "a#b", "@x", "%2e", "%2e%2e", ".%2e", "node_modules", " .", ". ", " ..", ".. ", "..\u{0}", "....",
        ".\u{2024}", "\u{FF0E}\u{FF0E}", "\u{FF0F}", "..;", ".\\", "..\\", "\\\\", "$HOME", "-r", "\n", "\r", "\t", "a\n", "\"", "'", "A", "É", "e\u{301}", "\u{FEFF}", "0", "00",
    ];
    for _ in 0..if a.thorough { 60_000 } else { 5_000 } {
        let path = |r: &mut Rng| {
            let k = r.below(10);
            let v: Vec<&str> = (0..k).map(|_| *r.one_of(&segs)).collect();
            v.join("/")
        };
        let (x, y) = (path(&mut r), path(&mut r));
        match r.below(3) {
            0 => v.push(Ev("concat", x, y)),
            _ => one(&mut v, x),
        }
    }
    // long paths: runs of parts, and walks up and down
    let parts = ["a/", "../", "./", "/", "b.c/", "..a/"];
    let counts = [1, 2, 127, 128, 129, 255, 256, 257, 300, 512, 700];
    for _ in 0..if a.thorough { 1500 } else { 150 } {
        let long = |r: &mut Rng| {
            let mut p = if r.bool() { String::new() } else { "/".to_string() };
            match r.below(3) {
                0 => (0..1 + r.below(4)).for_each(|_| p += &r.one_of(&parts).repeat(*r.one_of(&counts))),
                1 => (0..*r.one_of(&counts)).for_each(|_| p += *r.one_of(&parts)),
                // up and down again
                _ => {
                    let n = *r.one_of(&counts);
                    p += &"a/".repeat(n);
                    p += &"../".repeat(n - r.below(2));
                }
            }
            if r.bool() {
                p += "x";
            }
            p
        };
        let p = long(&mut r);
        match r.below(4) {
            0 => {
                let q = long(&mut r);
                v.push(Ev("concat", p, q));
            }
            _ => one(&mut v, p),
        }
    }
    for n in [63, 64, 65, 254, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097] {
        for p in ["n", "é", ".", "-"] {
            one(&mut v, format!("d/../{}/e", p.repeat(n)));
            one(&mut v, format!("/{}.json", p.repeat(n)));
        }
    }
    v
}

fn main() {
    let a = args();
    drive(
        &a,
        cases(&a),
        |c| format!(r#""op":"{}","a":{},"b":{}"#, c.0, text(&c.1), text(&c.2)),
        exec,
    );
}
